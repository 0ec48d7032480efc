// Harness access to package internals, compiled in through an overlay only.
package crypto

// VX holds the internals that could be bound; an unbound entry is nil.
var VX struct {
	FAdd       func(a, b Ed25519FieldElement) Ed25519FieldElement
	FSub       func(a, b Ed25519FieldElement) Ed25519FieldElement
	FNeg       func(a Ed25519FieldElement) Ed25519FieldElement
	FMul       func(a, b Ed25519FieldElement) Ed25519FieldElement
	FSq        func(a Ed25519FieldElement) Ed25519FieldElement
	FSqDbl     func(a Ed25519FieldElement) Ed25519FieldElement
	FInv       func(a Ed25519FieldElement) Ed25519FieldElement
	ModQ       func(a *Ed25519EncodedFieldElement) *Ed25519EncodedFieldElement
	MulAddQ    func(a, b, c *Ed25519EncodedFieldElement) *Ed25519EncodedFieldElement
	GAdd       func(p, c *Ed25519GroupElement) *Ed25519GroupElement
	GSub       func(p, c *Ed25519GroupElement) *Ed25519GroupElement
	GDbl       func(p *Ed25519GroupElement) *Ed25519GroupElement
	GNeg       func(p *Ed25519GroupElement) (*Ed25519GroupElement, error)
	GToCached  func(p *Ed25519GroupElement) *Ed25519GroupElement
	GToP2      func(p *Ed25519GroupElement) *Ed25519GroupElement
	GToP3      func(p *Ed25519GroupElement) *Ed25519GroupElement
	GPreAdd    func(p, c *Ed25519GroupElement) (*Ed25519GroupElement, error)
	GPreSub    func(p, c *Ed25519GroupElement) *Ed25519GroupElement
	GMul       func(p *Ed25519GroupElement, a *Ed25519EncodedFieldElement) (*Ed25519GroupElement, error)
	GDoubleMul func(p, q *Ed25519GroupElement, a, b *Ed25519EncodedFieldElement) (*Ed25519GroupElement, error)
	UMulAdd    func(a, b, c *Ed25519EncodedFieldElement) *Ed25519EncodedFieldElement
	UDoubleMul func(g *Ed25519GroupElement, f Ed25519FieldElement, h *Ed25519GroupElement, e Ed25519FieldElement) *Ed25519GroupElement
}
