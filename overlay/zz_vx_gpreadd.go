// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.GPreAdd = func(p, c *Ed25519GroupElement) (*Ed25519GroupElement, error) {
		return p.precomputedAdd(c)
	}
}
