// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.FAdd = func(a, b Ed25519FieldElement) Ed25519FieldElement {
		return a.add(b)
	}
}
