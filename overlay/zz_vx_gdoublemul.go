// Harness access to package internals, compiled in through an overlay only.
package crypto

func init() {
	VX.GDoubleMul = func(p, q *Ed25519GroupElement, a, b *Ed25519EncodedFieldElement) (*Ed25519GroupElement, error) {
		return p.doubleScalarMultiplyVariableTime(q, a, b)
	}
}
