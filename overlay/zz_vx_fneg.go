// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.FNeg = func(a Ed25519FieldElement) Ed25519FieldElement {
		return a.negate()
	}
}
