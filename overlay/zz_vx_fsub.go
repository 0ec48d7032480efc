// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.FSub = func(a, b Ed25519FieldElement) Ed25519FieldElement {
		return a.subtract(b)
	}
}
