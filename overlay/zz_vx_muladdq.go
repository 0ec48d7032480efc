// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.MulAddQ = func(a, b, c *Ed25519EncodedFieldElement) *Ed25519EncodedFieldElement {
		return a.multiplyAndAddModQ(b, c)
	}
}
