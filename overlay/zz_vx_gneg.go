// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.GNeg = func(p *Ed25519GroupElement) (*Ed25519GroupElement, error) {
		return p.negate()
	}
}
