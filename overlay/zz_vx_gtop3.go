// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.GToP3 = func(p *Ed25519GroupElement) *Ed25519GroupElement {
		return p.toP3()
	}
}
