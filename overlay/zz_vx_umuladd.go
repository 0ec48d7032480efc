// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.UMulAdd = func(a, b, c *Ed25519EncodedFieldElement) *Ed25519EncodedFieldElement {
		return MathUtils.multiplyAndAddModGroupOrder(a, b, c)
	}
}
