package param

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
)

func finite(v float64) bool { return !math.IsNaN(v) && !math.IsInf(v, 0) }

// size: magnitudes for which rounding stays far below the threshold.
func size(v float64) bool { return v >= -1e6 && v <= 1e6 }

// invSmoother: the invariant of a smoother with a positive rate (a fraction
// below one for exponential smoothing) and threshold.
func invSmoother(s *Smoother) bool {
	if !(size(s.current) && size(s.target) && s.threshold >= 1e-6 && s.threshold <= 1) {
		return false
	}
	if !s.isSmoothing {
		return s.current == s.target
	}
	switch s.smoothingType {
	case LinearSmoothing:
		return toward(s.step, s.current, s.target)
	case LogarithmicSmoothing:
		return s.current >= 0.001 && s.target >= 0.001 && finite(s.logCurrent) && finite(s.logTarget) && toward(s.logStep, s.logCurrent, s.logTarget)
	case ExponentialSmoothing:
		return s.rate >= 0 && s.rate < 1
	}
	return false
}

// toward: step leads from a in the direction of b (or nowhere).
func toward(step, a, b float64) bool {
	return step == 0 || step > 0 && a < b || step < 0 && a > b
}

func rateOK(t SmoothingType, rate float64) bool {
	switch t {
	case LinearSmoothing, LogarithmicSmoothing:
		return rate >= 1 && rate <= 1e9
	case ExponentialSmoothing:
		return rate >= 0 && rate < 1
	}
	return false
}

// between: v lies between a and b, ends included.
func between(a, b, v float64) bool { return a <= v && v <= b || b <= v && v <= a }

//vc:contract props=C05 float=3 nl=1
func ctr_SmootherNext(s *Smoother) {
	vc.Inv(invSmoother(s))
	vc.Requires(s.smoothingType != LogarithmicSmoothing)
	before, target, was := s.current, s.target, s.isSmoothing
	v := s.Next()
	vc.Ensures("the value stays between the previous value and the target", between(before, target, v))
	vc.Ensures("once arrived the value is exactly the target", s.IsSmoothing() || v == target)
	vc.Ensures("smoothing ends when the target is reached", v != target || !s.IsSmoothing())
	vc.Ensures("a settled smoother stays put", was || v == before)
	vc.Ensures("the target is unchanged", s.target == target)
	vc.Aux("smoother invariant", invSmoother(s))
}

//vc:contract props=C05 float=3 nl=1
func ctr_SmootherNextLog(s *Smoother) {
	vc.Inv(invSmoother(s))
	vc.Requires(s.smoothingType == LogarithmicSmoothing)
	target, was, before := s.target, s.isSmoothing, s.current
	at, to := s.logCurrent, s.logTarget
	v := s.Next()
	vc.Ensures("the logarithm of the value moves toward that of the target without passing it", !s.IsSmoothing() || between(at, to, s.logCurrent) && v == math.Exp(s.logCurrent))
	vc.Ensures("the direction is kept", !s.IsSmoothing() || toward(s.logStep, s.logCurrent, s.logTarget) && s.logTarget == to)
	vc.Ensures("once arrived the value is exactly the target", s.IsSmoothing() || v == target)
	vc.Ensures("a settled smoother stays put", was || v == before)
	vc.Ensures("the target is unchanged", s.target == target)
}

//vc:contract props=C05 float=3 nl=1
func ctr_SmootherSetTarget(s *Smoother, target float64) {
	vc.Inv(invSmoother(s))
	vc.Requires(size(target) && rateOK(s.smoothingType, s.rate))
	vc.Requires(s.smoothingType != LogarithmicSmoothing || target >= 0.001 && s.current >= 0.001)
	before, old := s.current, s.target
	s.SetTarget(target)
	vc.Ensures("setting a target does not move the value", s.current == before)
	vc.Ensures("the target is the requested one unless it hardly differs", s.target == target || s.target == old && math.Abs(target-old) < s.threshold)
	vc.Aux("smoother invariant", invSmoother(s))
}

//vc:contract props=C05
func ctr_SmootherReset(s *Smoother, v float64) {
	vc.Requires(size(v))
	s.Reset(v)
	vc.Ensures("a reset smoother stands at the value", !s.IsSmoothing() && s.Next() == v && s.Next() == v)
}

//vc:contract props=C05
func ctr_NewSmoother(t SmoothingType, rate float64) {
	vc.Requires(rateOK(t, rate))
	s := NewSmoother(t, rate)
	vc.Ensures("a new smoother stands at zero", !s.IsSmoothing() && s.Next() == 0)
	vc.Aux("smoother invariant", invSmoother(s))
}

func gen_Smoother(g *vc.G) *Smoother {
	t := SmoothingType(g.N(3))
	rate := g.In(0, 0.999)
	if t != ExponentialSmoothing {
		rate = float64(g.Range(1, 40))
	}
	s := NewSmoother(t, rate)
	lo := -1000.0
	if t == LogarithmicSmoothing {
		lo = 0.001
	}
	s.Reset(g.In(lo, 1000))
	for k := g.N(3); k > 0; k-- {
		s.SetTarget(g.In(lo, 1000))
		for n := g.N(50); n > 0; n-- {
			s.Next()
		}
	}
	if g.N(4) == 0 {
		s.SetTarget(s.current)
	}
	return s
}

// A smoothed parameter: ready when its smoother may take the parameter's values.
func smoothed(sp *SmoothedParameter) bool {
	return sp.Parameter != nil && sp.smoother != nil && invParam(sp.Parameter) && invSmoother(sp.smoother) && rateOK(sp.smoother.smoothingType, sp.smoother.rate) &&
		size(sp.Min) && size(sp.Max) && sp.Min < sp.Max && (sp.smoother.smoothingType != LogarithmicSmoothing || sp.Min >= 0.002 && sp.smoother.current >= 0.001)
}

func gen_SmoothedParameter(g *vc.G) *SmoothedParameter {
	s := gen_Smoother(g)
	p := New(1, "p").Range(g.In(0.01, 100), g.In(101, 1000)).Build()
	p.SetValue(g.Unit())
	sp := NewSmoothedParameter(p, s.smoothingType, s.rate)
	for n := g.Range(0, 3); n > 0; n-- {
		sp.SetValue(g.Unit())
		for k := g.Range(0, 20); k > 0; k-- {
			sp.GetSmoothedValue()
		}
		if g.N(4) == 0 {
			sp.SetSmoothing(g.Bool())
		}
	}
	return sp
}

// The plain value of a parameter within its range is within the range, up to rounding.
//
//vc:contract props=C05 float=3 nl=1
func ctr_SmoothedSet(sp *SmoothedParameter, v float64) {
	vc.Inv(smoothed(sp))
	vc.Requires(v == v)
	before, old, on := sp.smoother.current, sp.smoother.target, sp.enabled
	thr := sp.smoother.threshold
	sp.SetValue(v)
	plain := sp.GetPlainValue()
	vc.Ensures("the parameter takes the value, clamped", sp.GetValue() == math.Max(0, math.Min(1, v)))
	vc.Ensures("setting a value does not move the smoothed value", sp.smoother.current == before && sp.enabled == on)
	vc.Ensures("the smoothed value heads for the plain value unless it hardly differs", !on || sp.smoother.target == plain || sp.smoother.target == old && math.Abs(plain-old) < thr)
	vc.Ensures("without smoothing the target is left alone", on || sp.smoother.target == old)
}

//vc:contract props=C05 float=3 nl=1
func ctr_SmoothedGet(sp *SmoothedParameter) {
	vc.Inv(smoothed(sp))
	vc.Requires(sp.smoother.smoothingType != LogarithmicSmoothing)
	before, target, plain := sp.smoother.current, sp.smoother.target, sp.GetPlainValue()
	v := sp.GetSmoothedValue()
	vc.Ensures("without smoothing the plain value is given", sp.enabled || vc.Is64(v, plain))
	vc.Ensures("with smoothing the value stays between the previous one and the target", !sp.enabled || between(before, target, v))
	vc.Ensures("once arrived the value is exactly the target", !sp.enabled || sp.smoother.IsSmoothing() || v == target)
	vc.Ensures("the parameter is untouched", vc.Is64(sp.GetPlainValue(), plain))
}

//vc:contract props=C05 float=1
func ctr_SmoothedNew(p *Parameter, t SmoothingType, rate float64) {
	vc.Requires(p != nil && invParam(p) && rateOK(t, rate) && size(p.Min) && size(p.Max) && p.Min < p.Max)
	plain := p.GetPlainValue()
	sp := NewSmoothedParameter(p, t, rate)
	vc.Ensures("a new smoothed parameter stands at the parameter's value", vc.Is64(sp.GetSmoothedValue(), plain) && vc.Is64(sp.GetSmoothedValue(), plain))
}

//vc:contract props=C05 float=1
func ctr_SmoothedToggle(sp *SmoothedParameter, on bool) {
	vc.Inv(smoothed(sp))
	plain, before, target := sp.GetPlainValue(), sp.smoother.current, sp.smoother.target
	was := sp.enabled
	sp.SetSmoothing(on)
	if on && was {
		vc.Ensures("smoothing that is on already goes on as it was", sp.smoother.current == before && sp.smoother.target == target)
	} else {
		vc.Ensures("switched either way, smoothing starts from the parameter's value", vc.Is64(sp.GetSmoothedValue(), plain) && vc.Is64(sp.GetSmoothedValue(), plain))
	}
}

func psOK(ps *ParameterSmoother) bool { return ps.smoothers != nil }

func gen_ParameterSmoother(g *vc.G) *ParameterSmoother {
	ps := NewParameterSmoother()
	for n := g.Range(0, 4); n > 0; n-- {
		ps.smoothers[uint32(g.Range(0, 3))] = gen_SmoothedParameter(g)
	}
	return ps
}

//vc:contract props=C05
func ctr_SmootherMap(ps *ParameterSmoother, id, other uint32, p *Parameter, rate float64) {
	vc.Inv(psOK(ps))
	vc.Requires(p != nil && invParam(p) && size(p.Min) && size(p.Max) && p.Min < p.Max && id != other && rate >= 1 && rate <= 1e9)
	was, had := ps.Get(other)
	ps.Add(id, p, LinearSmoothing, rate)
	sp, ok := ps.Get(id)
	vc.Ensures("an added parameter is smoothed under its identifier", ok && sp != nil && sp.Parameter == p && sp.enabled)
	now, has := ps.Get(other)
	vc.Ensures("other parameters keep their smoothers", now == was && has == had)
}

//vc:contract props=C05
func ctr_SmootherUnknown(ps *ParameterSmoother, id uint32, v float64) {
	vc.Inv(psOK(ps))
	vc.Requires(!vc.Has(ps.smoothers, id))
	ps.SetValue(id, v)
	ps.SetSmoothing(id, false)
	sp, ok := ps.Get(id)
	vc.Ensures("an unknown identifier yields nothing", sp == nil && !ok && ps.GetSmoothed(id) == 0)
	vc.Ensures("an unknown identifier adds nothing", !vc.Has(ps.smoothers, id))
}

//vc:contract props=C05 bounded=1
func ctr_SmootherMany(ps *ParameterSmoother, id uint32, v float64) {
	vc.Inv(psOK(ps))
	vc.Requires(v == v)
	twins := map[uint32]*SmoothedParameter{}
	for k, sp := range ps.smoothers {
		p, s := *sp.Parameter, *sp.smoother
		twins[k] = &SmoothedParameter{Parameter: &p, smoother: &s, enabled: sp.enabled}
	}
	ps.SetValue(id, v)
	ps.UpdateAll()
	ok := true
	for k, t := range twins {
		if k == id {
			t.SetValue(v)
		}
		t.GetSmoothedValue()
		sp := ps.smoothers[k]
		ok = ok && sp.GetValue() == t.GetValue() && sp.smoother.current == t.smoother.current && sp.smoother.target == t.smoother.target
		ok = ok && ps.GetSmoothed(k) == t.GetSmoothedValue()
	}
	vc.Ensures("a value set reaches its parameter only, and an update advances each smoother once", ok)
}

func gen_SmootherMany_id(g *vc.G) uint32 { return uint32(g.Range(0, 4)) }

//vc:contract props=C05 bounded=1
func ctr_SmootherProcess(s *Smoother, buf []float32) {
	vc.Inv(invSmoother(s))
	t, in := *s, vc.Snap(buf)
	n, ok := 0, true
	s.Process(buf, func(v float64, x float32) float32 {
		ok = ok && n < len(in) && v == t.Next() && (x == in[n] || x != x)
		n++
		return float32(n)
	})
	for i := range buf {
		ok = ok && buf[i] == float32(i+1)
	}
	vc.Ensures("a block gets the smoothed value of each sample in turn", ok && n == len(in) && s.current == t.current)
}

//vc:contract props=C05 float=3
func ctr_SmoothedRate(sp *SmoothedParameter, rate, ms float64) {
	vc.Inv(smoothed(sp))
	vc.Requires(rate >= 1000 && rate <= 1e6 && ms >= 1 && ms <= 1e5)
	before, target := sp.smoother.current, sp.smoother.target
	sp.UpdateSampleRate(rate, ms)
	vc.Ensures("the rate fits the kind of smoothing", sp.smoother.smoothingType != ExponentialSmoothing || sp.smoother.rate >= 0 && sp.smoother.rate <= 1)
	vc.Ensures("the rate does not move the value", sp.smoother.current == before && sp.smoother.target == target)
	if sp.smoother.smoothingType == LinearSmoothing {
		vc.Ensures("linear smoothing takes the time asked for", sp.smoother.rate >= rate*ms/1000*0.999 && sp.smoother.rate <= rate*ms/1000*1.001)
	}
}
