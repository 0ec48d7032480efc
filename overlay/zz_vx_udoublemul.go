// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.UDoubleMul = func(g *Ed25519GroupElement, f Ed25519FieldElement, h *Ed25519GroupElement, e Ed25519FieldElement) *Ed25519GroupElement {
		return MathUtils.doubleScalarMultiplyGroupElements(g, f, h, e)
	}
}
