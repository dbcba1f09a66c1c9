package param

import "github.com/justyntemme/vst3go/internal/vc"

// unit: a normalized value.
func unit(v float64) bool { return v >= 0 && v <= 1 }

// invParam is the invariant of a parameter: its stored value is normalized.
func invParam(p *Parameter) bool { return unit(p.GetValue()) }

func gen_Parameter(g *vc.G) *Parameter {
	lo := g.In(-100, 100)
	p := New(uint32(g.N(6)), string(rune('a'+g.N(4)))).Range(lo, lo+g.In(0, 1000)).Build()
	if g.N(6) == 0 {
		p.Min, p.Max = g.Float(), g.Float()
	}
	if g.N(3) == 0 {
		p.ID = uint32(g.Int())
	}
	p.SetValue(g.Unit())
	return p
}
