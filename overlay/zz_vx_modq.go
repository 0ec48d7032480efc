// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.ModQ = func(a *Ed25519EncodedFieldElement) *Ed25519EncodedFieldElement {
		return a.modQ()
	}
}
