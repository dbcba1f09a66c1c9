package param

import "github.com/justyntemme/vst3go/internal/vc"

func sane(p *Parameter) bool {
	return p.Min < p.Max && p.Min >= -1e300 && p.Max <= 1e300
}

//vc:contract props=C02
func ctr_Endpoints(p *Parameter) {
	vc.Requires(sane(p))
	vc.Ensures("the minimum maps to 0", p.Normalize(p.Min) == 0)
	vc.Ensures("the maximum maps to 1", p.Normalize(p.Max) == 1)
	vc.Ensures("0 maps to the minimum", p.Denormalize(0) == p.Min)
}

//vc:contract props=C02
func ctr_NormalizeMonotone(p *Parameter, a, b float64) {
	vc.Requires(sane(p))
	vc.Requires(a <= b)
	vc.Ensures("larger plain values never map to smaller normalized values", p.Normalize(a) <= p.Normalize(b))
}

//vc:contract props=C02
func ctr_DenormalizeMonotone(p *Parameter, a, b float64) {
	vc.Requires(sane(p))
	vc.Requires(unit(a) && unit(b) && a <= b)
	vc.Ensures("larger normalized values never map to smaller plain values", p.Denormalize(a) <= p.Denormalize(b))
	vc.Ensures("plain values do not fall below the minimum", p.Denormalize(a) >= p.Min)
}

//vc:contract props=C02 nl=1 float=3
func ctr_RoundTrip(p *Parameter, v float64) {
	vc.Requires(p.Min < p.Max && p.Min >= -1e9 && p.Max <= 1e9 && p.Max-p.Min >= 1e-9)
	vc.Requires(p.Min <= v && v <= p.Max)
	w := p.Denormalize(p.Normalize(v))
	vc.Ensures("plain to normalized and back gives the value up to rounding", vc.Le(vc.R64(w)-vc.R64(v), 1e-5) && vc.Le(vc.R64(v)-vc.R64(w), 1e-5))
}

//vc:contract props=C02
func ctr_GetPlain(p *Parameter, v float64) {
	p.SetValue(v)
	vc.Ensures("the plain value is the denormalized stored value", vc.Same64(p.GetPlainValue(), p.Denormalize(p.GetValue())))
}

//vc:contract props=C02
func ctr_Degenerate(p *Parameter, v float64) {
	vc.Requires(p.Max <= p.Min)
	p.SetPlainValue(v)
	vc.Ensures("an empty range maps everything to 0", p.GetValue() == 0 && p.Normalize(v) == 0)
}
