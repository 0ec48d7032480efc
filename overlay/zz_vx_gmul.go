// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.GMul = func(p *Ed25519GroupElement, a *Ed25519EncodedFieldElement) (*Ed25519GroupElement, error) {
		return p.scalarMultiply(a)
	}
}
