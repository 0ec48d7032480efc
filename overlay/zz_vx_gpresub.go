// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.GPreSub = func(p, c *Ed25519GroupElement) *Ed25519GroupElement {
		return p.precomputedSubtract(c)
	}
}
