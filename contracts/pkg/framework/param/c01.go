package param

import "github.com/justyntemme/vst3go/internal/vc"

//vc:contract props=C01
func ctr_SetValue(p *Parameter, v float64) {
	p.SetValue(v)
	got := p.GetValue()
	vc.Ensures("the stored value is normalized", unit(got))
	vc.Ensures("a normalized value is stored exactly", !unit(v) || got == v)
	vc.Ensures("a value below the range is stored as 0", !(v < 0) || got == 0)
	vc.Ensures("a value above the range is stored as 1", !(v > 1) || got == 1)
}

//vc:contract props=C01
func ctr_SetPlainValue(p *Parameter, v float64) {
	p.SetPlainValue(v)
	vc.Ensures("the stored value is normalized", unit(p.GetValue()))
	vc.Ensures("the stored value is the normalized plain value", vc.Same64(p.GetValue(), p.Normalize(v)))
}

//vc:contract props=C01
func ctr_Normalize(p *Parameter, v float64) {
	vc.Ensures("normalizing gives a normalized value", unit(p.Normalize(v)))
}

//vc:contract props=C01
func ctr_ParseValue(p *Parameter, s string) {
	vc.Requires(p.parseFunc == nil)
	v, err := p.ParseValue(s)
	vc.Ensures("parsed text gives a normalized value", err != nil || unit(v))
}

//vc:contract props=C01
func ctr_BuilderRange(id uint32, name string, lo, hi, def float64, steps int32, flags uint32) {
	p := New(id, name).Range(lo, hi).Default(def).Steps(steps).Flags(flags).Build()
	vc.Ensures("the built parameter holds a normalized value", unit(p.GetValue()))
	vc.Ensures("the default of a built parameter is normalized", unit(p.DefaultValue))
	vc.Ensures("a built parameter starts at its default", p.GetValue() == p.DefaultValue)
	vc.Ensures("id, range and flags are kept", p.ID == id && vc.Same64(p.Min, lo) && vc.Same64(p.Max, hi) && p.StepCount == steps && p.Flags == flags)
}

//vc:contract props=C01
func ctr_BuilderAnyOrder(id uint32, name string, lo, hi, def float64) {
	p := New(id, name).Default(def).Range(lo, hi).Build()
	vc.Ensures("the built parameter holds a normalized value", unit(p.GetValue()))
	vc.Ensures("the default of a built parameter is normalized", unit(p.DefaultValue))
}

//vc:contract props=C01
func ctr_Toggle(id uint32, name string, def float64) {
	p := New(id, name).Range(-1, 5).Default(def).Toggle().Build()
	vc.Ensures("a toggle is off and normalized", p.GetValue() == 0 && p.DefaultValue == 0 && p.Min == 0 && p.Max == 1 && p.StepCount == 1)
}
