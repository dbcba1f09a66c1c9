package dynamics

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
)

func db(x float64) bool       { return x >= -200 && x <= 200 }
func unit(x float64) bool     { return x >= 0 && x <= 1 }
func audio(x float32) bool    { return x >= -1e6 && x <= 1e6 }
func abs32(x float32) float64 { return math.Abs(float64(x)) }

func clean(b []float32) bool {
	return vc.Forall(0, len(b), func(i int) bool { return audio(b[i]) })
}

// ring: a lookahead ring of n samples.
func ring(b []float32, idx, n int) bool {
	return 0 <= n && n <= 1<<20 && vc.Whole(b) && (n == 0 || len(b) == n && 0 <= idx && idx < n)
}


// knee: off, or of a width one can dial in.
func knee(w float64) bool { return w == 0 || w >= 0.01 && w <= 100 }

func invCompressor(c *Compressor) bool {
	return c.sampleRate >= 1000 && c.sampleRate <= 1e6 && db(c.threshold) && c.ratio >= 1 && knee(c.kneeWidth) && db(c.makeupGain) &&
		envelope.VCDetector(c.detector) && ring(c.delayBuffer, c.delayIndex, c.delaySamples)
}

func gen_Compressor(g *vc.G) *Compressor {
	c := NewCompressor(g.In(1000, 4000))
	c.SetThreshold(g.In(-60, 10))
	c.SetRatio(g.In(0, 10))
	c.SetKnee(KneeType(g.Range(0, 1)), float64(g.Range(-1, 20)))
	if g.Bool() {
		c.SetAttack(0)
	}
	if g.Bool() {
		c.SetLookahead(g.In(0, 0.004))
	}
	if g.Bool() {
		c.SetMakeupGain(g.In(-10, 10))
	}
	for n := g.Range(0, 30); n > 0; n-- {
		c.Process(g.Audio())
	}
	return c
}

//vc:contract props=C22 float=3 nl=1
func ctr_CompressReduction(c *Compressor, x float32) {
	vc.Inv(invCompressor(c))
	vc.Requires(audio(x))
	c.Process(x)
	vc.Ensures("the gain reduction is never negative", c.GetGainReduction() >= 0)
}

//vc:contract props=C22 float=3 nl=1
func ctr_CompressLevel(c *Compressor, x float32) {
	vc.Inv(invCompressor(c) && clean(c.delayBuffer))
	vc.Requires(audio(x) && c.makeupGain <= 0)
	in := x
	if c.delaySamples > 0 {
		in = c.delayBuffer[c.delayIndex]
	}
	y := c.Process(x)
	if c.GetGainReduction() >= 0 {
		vc.Ensures("without makeup gain nothing gets louder", abs32(y) <= abs32(in))
	}
	if c.makeupGain == 0 && c.GetGainReduction() == 0 {
		vc.Ensures("without reduction the signal passes unchanged", y == in)
	}
}

//vc:contract props=C22 float=1
func ctr_CompressLookahead(c *Compressor, x float32) {
	vc.Inv(invCompressor(c))
	o := vc.Old(c)
	was := vc.Snap(c.delayBuffer)
	c.Process(x)
	if c.delaySamples > 0 {
		next := o.delayIndex + 1
		if next == c.delaySamples {
			next = 0
		}
		vc.Ensures("the lookahead line advances by one", c.delayIndex == next && c.delaySamples == o.delaySamples && len(c.delayBuffer) == len(was))
		vc.Ensures("the input enters the lookahead line and nothing else in it changes", vc.Forall(0, len(was), func(i int) bool {
			return (i == o.delayIndex && vc.Same32(c.delayBuffer[i], x)) || (i != o.delayIndex && vc.Same32(c.delayBuffer[i], was[i]))
		}))
	}
}

//vc:contract props=C22 float=1
func ctr_CompressSet(c *Compressor, ratio, width, attack, release, look float64) {
	vc.Inv(invCompressor(c))
	vc.Requires(attack == attack && release == release && look == look && ratio == ratio && width == width)
	c.SetRatio(ratio)
	c.SetKnee(KneeSoft, width)
	c.SetLookahead(look)
	vc.Ensures("the ratio is at least one and the knee not negative", c.ratio >= 1 && c.kneeWidth >= 0)
	vc.Ensures("the lookahead line fits", ring(c.delayBuffer, c.delayIndex, c.delaySamples))
}

func invExpander(e *Expander) bool {
	return e.sampleRate >= 1000 && e.sampleRate <= 1e6 && db(e.threshold) && e.ratio >= 1 && e.ratio <= 1000 && knee(e.knee) && db(e.range_) && e.range_ <= 0 &&
		unit(e.attackCoeff) && unit(e.releaseCoeff) && e.currentGain > 0 && e.currentGain <= 1 && envelope.VCDetector(e.detector)
}

func gen_Expander(g *vc.G) *Expander {
	e := NewExpander(g.In(1000, 4000))
	e.SetThreshold(g.In(-60, 10))
	e.SetRatio(g.In(0, 10))
	e.SetKnee(float64(g.Range(-1, 20)))
	e.SetRange(g.In(-80, 5))
	if g.Bool() {
		e.SetAttack(0)
	}
	if g.Bool() {
		e.SetRelease(0)
	}
	for n := g.Range(0, 30); n > 0; n-- {
		e.Process(g.Audio())
	}
	return e
}

//vc:contract props=C22 float=3 nl=1
func ctr_ExpandLevel(e *Expander, x float32) {
	vc.Inv(invExpander(e))
	vc.Requires(audio(x))
	y := e.Process(x)
	vc.Ensures("an expander never makes the signal louder", abs32(y) <= abs32(x))
	vc.Ensures("the gain stays at most one", e.currentGain <= 1)
}

//vc:contract props=C22 float=3 nl=1
func ctr_ExpandRange(e *Expander, x float32) {
	vc.Inv(invExpander(e))
	floor := math.Pow(10, e.range_/20)
	vc.Requires(audio(x) && e.currentGain >= floor)
	e.Process(x)
	vc.Ensures("the gain never falls below the range", e.currentGain >= floor*(1-1e-9)-1e-14)
}

func invLimiter(l *Limiter) bool {
	return l.sampleRate >= 1000 && l.sampleRate <= 1e6 && l.threshold >= -100 && l.threshold <= 0 &&
		envelope.VCLinearPeak(l.detector) && envelope.VCLinearPeak(l.peakDetector) && audio(l.lastSample) && ring(l.delayBuffer, l.delayIndex, l.delaySamples)
}

func gen_Limiter(g *vc.G) *Limiter {
	l := NewLimiter(g.In(1000, 4000))
	l.SetThreshold(g.In(-60, 5))
	l.SetTruePeak(g.Bool())
	if g.Bool() {
		l.SetLookahead(g.In(0, 0.004))
	}
	for n := g.Range(0, 30); n > 0; n-- {
		l.Process(g.Audio() * float32(g.Range(0, 4)))
	}
	return l
}

//vc:contract props=C22 bounded=1
func ctr_LimitCeiling(l *Limiter, x float32) {
	vc.Inv(invLimiter(l) && clean(l.delayBuffer))
	vc.Requires(audio(x))
	ceiling := math.Pow(10, l.threshold/20)
	y := l.Process(x)
	vc.Ensures("the output stays below the ceiling", abs32(y) <= ceiling*(1+1e-4))
}

//vc:contract props=C22 float=3 nl=1
func ctr_LimitLevel(l *Limiter, x float32) {
	vc.Inv(invLimiter(l) && clean(l.delayBuffer))
	vc.Requires(audio(x))
	in := x
	if l.delaySamples > 0 {
		in = l.delayBuffer[l.delayIndex]
	}
	y := l.Process(x)
	vc.Ensures("the gain reduction is never negative", l.GetGainReduction() >= 0)
	vc.Ensures("a limiter never makes the signal louder", abs32(y) <= abs32(in))
	if l.GetGainReduction() == 0 {
		vc.Ensures("without reduction the signal passes unchanged", y == in)
	}
}

func closedGain(g *Gate) float64 { return math.Pow(10, g.range_/20) }

func invGate(g *Gate) bool {
	return g.sampleRate >= 1000 && g.sampleRate <= 1e6 && db(g.threshold) && g.hysteresis >= 0 && g.hysteresis <= 100 && db(g.range_) && g.range_ <= 0 &&
		unit(g.attackCoeff) && unit(g.releaseCoeff) && gateStateClosed <= g.state && g.state <= gateStateRelease && g.holdCounter >= 0 && g.holdSamples >= 0 &&
		g.hpfFrequency >= 0 && g.hpfFrequency <= 1e6 && g.hpfState >= -1e20 && g.hpfState <= 1e20 && audio(g.lastInput) &&
		g.currentGain > 0 && g.currentGain <= 1 && g.targetGain > 0 && g.targetGain <= 1 &&
		((g.state != gateStateAttack && g.state != gateStateOpen && g.state != gateStateHold) || g.targetGain == 1)
}

func gen_Gate(r *vc.G) *Gate {
	g := NewGate(r.In(1000, 4000))
	g.SetThreshold(r.In(-60, 10))
	g.SetHysteresis(r.In(-1, 20))
	g.SetRange(r.In(-80, 5))
	g.SetHold(r.In(0, 0.01))
	g.SetAttack(r.In(-0.001, 0.003))
	g.SetRelease(r.In(-0.001, 0.003))
	if r.Bool() {
		g.SetSidechainFilter(true, r.In(0, 1000))
	}
	for n := r.Range(0, 30); n > 0; n-- {
		x := r.Audio()
		if r.Bool() {
			x *= 1e-4
		}
		for k := r.Range(1, 10); k > 0; k-- {
			g.Process(x)
		}
	}
	return g
}

//vc:contract props=C22 float=3 nl=1
func ctr_GateLevel(g *Gate, x float32) {
	vc.Inv(invGate(g))
	vc.Requires(audio(x))
	y := g.Process(x)
	vc.Ensures("a gate never makes the signal louder", abs32(y) <= abs32(x))
	vc.Ensures("the gain moves towards its target without passing one", g.currentGain <= 1 && g.currentGain >= 0)
}

//vc:contract props=C22 float=3 nl=1
func ctr_GateState(g *Gate, x float32) {
	vc.Inv(invGate(g) && (g.state != gateStateClosed || !g.gateOpen))
	vc.Requires(audio(x) && !g.hpfEnabled)
	o := vc.Old(g)
	g.Process(x)
	level := -96.0
	if x != 0 {
		level = 20 * math.Log10(float64(float32(math.Abs(float64(x)))))
	}
	if o.state == gateStateClosed && level <= g.threshold {
		vc.Ensures("a closed gate stays closed below the threshold", g.state == gateStateClosed && g.targetGain == o.targetGain)
	}
	if o.state == gateStateOpen && level >= g.threshold-g.hysteresis {
		vc.Ensures("an open gate stays open above the closing threshold", g.state == gateStateOpen && g.gateOpen == o.gateOpen)
	}
	if (o.state == gateStateHold) && o.holdCounter > 0 {
		vc.Ensures("the gate does not close before the hold time is over", g.state == gateStateHold && g.holdCounter == o.holdCounter-1 || g.state == gateStateOpen)
	}
	if o.state == gateStateOpen && level < g.threshold-g.hysteresis {
		vc.Ensures("leaving the open state starts the hold time", g.state == gateStateHold && g.holdCounter == g.holdSamples)
	}
	if (o.state == gateStateRelease || o.state == gateStateClosed) && level > g.threshold {
		vc.Ensures("the gate opens above the threshold", g.targetGain == 1 && (g.state == gateStateAttack || g.state == gateStateOpen))
	}
}

// level in dB of what a detector in the same state makes of x
func levelOf(d *envelope.Detector, x float32) float64 {
	t := *d
	if e := t.Detect(x); e > 0 {
		return 20.0 * math.Log10(float64(e))
	}
	return -96.0
}

// The static curve, with the detector's own level.
//
//vc:contract props=C22 float=3 comm=1
func ctr_CompressCurve(c *Compressor, x float32) {
	vc.Inv(invCompressor(c))
	vc.Requires(audio(x) && c.delaySamples == 0)
	in := levelOf(c.detector, x)
	c.Process(x)
	full := (in - c.threshold) * (1.0 - 1.0/c.ratio)
	if in > c.threshold+c.kneeWidth/2 {
		vc.Ensures("above the knee the ratio applies in full", vc.Is64(c.GetGainReduction(), full))
	}
	if in < c.threshold-c.kneeWidth/2 {
		vc.Ensures("below the knee nothing is reduced", c.GetGainReduction() == 0)
	}
}

//vc:contract props=C22 bounded=1
func ctr_CompressKnee(c *Compressor, x float32) {
	vc.Inv(invCompressor(c))
	vc.Requires(audio(x) && c.delaySamples == 0)
	in := levelOf(c.detector, x)
	c.Process(x)
	if in <= c.threshold+c.kneeWidth/2 {
		vc.Ensures("within the knee there is no more reduction than above the threshold", c.GetGainReduction() <= math.Max(0, in-c.threshold)+1e-6)
	}
}

func makeup(c *Compressor) float32 {
	return float32(math.Pow(10.0, (-c.GetGainReduction()+c.makeupGain)/20.0))
}

//vc:contract props=C22 float=1 unroll=2 comm=1
func ctr_CompressStereo1(c *Compressor, l, r float32) {
	vc.Inv(invCompressor(c))
	vc.Requires(audio(l) && audio(r))
	t, d := *c, *c.detector
	t.detector, t.delaySamples = &d, 0
	il, ir, ol, or := make([]float32, 1), make([]float32, 1), make([]float32, 1), make([]float32, 1)
	il[0], ir[0] = l, r
	t.Process(float32(math.Max(math.Abs(float64(l)), math.Abs(float64(r)))))
	c.ProcessStereo(il, ir, ol, or)
	vc.Ensures("the louder channel decides the reduction", vc.Is64(c.GetGainReduction(), t.GetGainReduction()))
	vc.Ensures("both channels get the same gain", vc.Is32(ol[0], l*makeup(c)) && vc.Is32(or[0], r*makeup(c)))
	vc.Ensures("the inputs are untouched", vc.Is32(il[0], l) && vc.Is32(ir[0], r))
}

//vc:contract props=C22 float=1 unroll=2 comm=1
func ctr_CompressSide1(c *Compressor, x, side float32) {
	vc.Inv(invCompressor(c))
	vc.Requires(audio(x) && audio(side))
	t, d := *c, *c.detector
	t.detector, t.delaySamples = &d, 0
	in, key, out := make([]float32, 1), make([]float32, 1), make([]float32, 1)
	in[0], key[0] = x, side
	t.Process(side)
	c.ProcessSidechain(in, key, out)
	vc.Ensures("the side chain decides the reduction", vc.Is64(c.GetGainReduction(), t.GetGainReduction()))
	vc.Ensures("the gain applies to the input", vc.Is32(out[0], x*makeup(c)))
}

//vc:contract props=C22
func ctr_CompressReset(c *Compressor, i int) {
	vc.Inv(invCompressor(c))
	vc.Requires(i >= 0 && i < len(c.delayBuffer))
	n := c.delaySamples
	c.Reset()
	vc.Ensures("a reset silences the lookahead line and ends the reduction", c.delayBuffer[i] == 0 && c.GetGainReduction() == 0 && c.delaySamples == n)
	vc.Ensures("the lookahead line still fits", ring(c.delayBuffer, c.delayIndex, c.delaySamples))
}

//vc:loop dynamics.Compressor.Reset
func loopCompReset(c *Compressor, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return c.delayBuffer[i] == 0 })
}

//vc:contract props=C22 float=1
func ctr_CompressInit(rate float64) {
	vc.Requires(rate >= 1000 && rate <= 1e6)
	c := NewCompressor(rate)
	vc.Ensures("a new compressor has sane settings", invCompressor(c) && c.GetGainReduction() == 0)
}

//vc:contract props=C22 float=3
func ctr_LimitSet(l *Limiter, ceiling, release, look float64) {
	vc.Inv(invLimiter(l))
	vc.Requires(ceiling >= -100 && ceiling <= 100 && release >= -1e5 && release <= 1e5 && look == look)
	l.SetThreshold(ceiling)
	vc.Ensures("the ceiling is what was asked for, full scale at most", l.threshold == math.Min(0, ceiling))
	l.SetRelease(release)
	vc.Ensures("the release is at least a millisecond", l.release >= 0.001)
	l.SetLookahead(look)
	vc.Ensures("the lookahead lies within ten milliseconds", l.lookahead >= 0 && l.lookahead <= 0.010)
	vc.Ensures("settings leave the limiter sane", invLimiter(l))
}

//vc:contract props=C22
func ctr_LimitReset(l *Limiter, i int) {
	vc.Inv(invLimiter(l))
	vc.Requires(i >= 0 && i < len(l.delayBuffer))
	n := l.delaySamples
	l.Reset()
	vc.Ensures("a reset silences the lookahead line and ends the reduction", l.delayBuffer[i] == 0 && l.GetGainReduction() == 0 && l.delaySamples == n)
	vc.Ensures("the lookahead line still fits", ring(l.delayBuffer, l.delayIndex, l.delaySamples) && l.lastSample == 0)
}

//vc:loop dynamics.Limiter.Reset
func loopLimReset(l *Limiter, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return l.delayBuffer[i] == 0 })
}

//vc:contract props=C22 float=1
func ctr_LimitLookahead(l *Limiter, x float32) {
	vc.Inv(invLimiter(l))
	o := vc.Old(l)
	was := vc.Snap(l.delayBuffer)
	l.Process(x)
	if l.delaySamples > 0 {
		next := o.delayIndex + 1
		if next == l.delaySamples {
			next = 0
		}
		vc.Ensures("the lookahead line advances by one", l.delayIndex == next && l.delaySamples == o.delaySamples && len(l.delayBuffer) == len(was))
		vc.Ensures("the input enters the lookahead line and nothing else in it changes", vc.Forall(0, len(was), func(i int) bool {
			return (i == o.delayIndex && vc.Same32(l.delayBuffer[i], x)) || (i != o.delayIndex && vc.Same32(l.delayBuffer[i], was[i]))
		}))
	}
}

//vc:contract props=C22 float=3 nl=1 unroll=2
func ctr_LimitStereo1(c *Limiter, l, r float32) {
	vc.Inv(invLimiter(c))
	vc.Requires(audio(l) && audio(r))
	il, ir, ol, or := make([]float32, 1), make([]float32, 1), make([]float32, 1), make([]float32, 1)
	il[0], ir[0] = l, r
	c.ProcessStereo(il, ir, ol, or)
	vc.Ensures("the gain reduction is never negative", c.GetGainReduction() >= 0)
	vc.Ensures("a limiter never makes a channel louder", abs32(ol[0]) <= abs32(l) && abs32(or[0]) <= abs32(r))
	if c.GetGainReduction() == 0 {
		vc.Ensures("without reduction the signal passes unchanged", ol[0] == l && or[0] == r)
	}
}

//vc:contract props=C22 float=1 unroll=2 comm=1
func ctr_LimitLinked1(c *Limiter, l, r float32) {
	vc.Inv(invLimiter(c))
	vc.Requires(audio(l) && audio(r))
	il, ir, ol, or := make([]float32, 1), make([]float32, 1), make([]float32, 1), make([]float32, 1)
	il[0], ir[0] = l, r
	c.ProcessStereo(il, ir, ol, or)
	g := float32(math.Pow(10.0, -c.GetGainReduction()/20.0))
	vc.Ensures("both channels get the same gain", vc.Is32(ol[0], l*g) && vc.Is32(or[0], r*g))
}

//vc:contract props=C22 bounded=1
func ctr_LimitStereoCeiling(l *Limiter, a, b []float32) {
	vc.Inv(invLimiter(l))
	vc.Requires(clean(a) && clean(b) && len(a) == len(b))
	ceiling := math.Pow(10, l.threshold/20)
	x, y := make([]float32, len(a)), make([]float32, len(a))
	l.ProcessStereo(a, b, x, y)
	ok := true
	for i := range x {
		ok = ok && abs32(x[i]) <= ceiling*(1+1e-4) && abs32(y[i]) <= ceiling*(1+1e-4)
	}
	vc.Ensures("both outputs stay below the ceiling", ok)
}

//vc:contract props=C22 float=3 nl=1
func ctr_ExpandSet(e *Expander, ratio, width, floor, attack, release float64) {
	vc.Inv(invExpander(e))
	vc.Requires(ratio >= -1000 && ratio <= 1000 && width >= 1 && width <= 100 && floor >= -200 && floor <= 200 && attack >= -1 && attack <= 100 && release >= -1 && release <= 100)
	e.SetRatio(ratio)
	e.SetKnee(width)
	e.SetRange(floor)
	e.SetAttack(attack)
	e.SetRelease(release)
	vc.Ensures("the ratio is what was asked for, one at least", e.ratio == math.Max(1, ratio))
	vc.Ensures("the range is what was asked for, never a boost", e.range_ == math.Min(0, floor))
	vc.Ensures("the times are not negative", e.attack >= 0 && e.release >= 0)
	vc.Ensures("the smoothing coefficients lie between zero and one", unit(e.attackCoeff) && unit(e.releaseCoeff))
	vc.Ensures("settings leave the detector sane", envelope.VCDetector(e.detector))
}

//vc:contract props=C22 float=1 unroll=2 comm=1
func ctr_ExpandStereo1(e *Expander, l, r float32) {
	vc.Inv(invExpander(e))
	vc.Requires(audio(l) && audio(r))
	t, d := *e, *e.detector
	t.detector = &d
	il, ir, ol, or := make([]float32, 1), make([]float32, 1), make([]float32, 1), make([]float32, 1)
	il[0], ir[0] = l, r
	t.Process(float32(math.Max(math.Abs(float64(l)), math.Abs(float64(r)))))
	e.ProcessStereo(il, ir, ol, or)
	vc.Ensures("the louder channel decides the gain", vc.Is64(e.currentGain, t.currentGain) && vc.Is64(e.GetGainReduction(), t.GetGainReduction()))
	vc.Ensures("both channels get the same gain", vc.Is32(ol[0], l*float32(e.currentGain)) && vc.Is32(or[0], r*float32(e.currentGain)))
}

//vc:contract props=C22 float=3 comm=1
func ctr_ExpandCurve(e *Expander, x float32) {
	vc.Inv(invExpander(e))
	vc.Requires(audio(x) && e.attackCoeff == 0 && e.releaseCoeff == 0)
	in := levelOf(e.detector, x)
	e.Process(x)
	full := (in - e.threshold) * (e.ratio - 1.0)
	if full < e.range_ {
		full = e.range_
	}
	if in < e.threshold-e.knee/2 {
		vc.Ensures("below the knee the ratio applies in full, down to the range", vc.Is64(e.currentGain, math.Pow(10.0, full/20.0)))
	}
	if in > e.threshold+e.knee/2 {
		vc.Ensures("above the knee nothing is reduced", e.currentGain >= 1-1e-9)
	}
}

//vc:contract props=C22
func ctr_ExpandReset(e *Expander) {
	vc.Inv(invExpander(e))
	thr, ratio := e.threshold, e.ratio
	e.Reset()
	vc.Ensures("a reset opens the expander and keeps its settings", e.currentGain == 1 && e.GetGainReduction() == 0 && e.threshold == thr && e.ratio == ratio)
}

//vc:contract props=C22 float=3 nl=1
func ctr_GateSet(g *Gate, hyst, hold, attack, release float64) {
	vc.Inv(invGate(g) && envelope.VCDetector(g.detector))
	vc.Requires(hyst >= -100 && hyst <= 100 && hold >= -1 && hold <= 100 && attack >= -1 && attack <= 100 && release >= -1 && release <= 100)
	g.SetHysteresis(hyst)
	g.SetHold(hold)
	g.SetAttack(attack)
	g.SetRelease(release)
	vc.Ensures("the hysteresis is what was asked for, never negative", g.hysteresis == math.Max(0, hyst))
	vc.Ensures("the hold time is counted in samples", g.holdSamples == int(math.Max(0, hold)*g.sampleRate))
	vc.Ensures("settings leave the gate sane", invGate(g))
}

//vc:contract props=C22 float=3 nl=1
func ctr_GateRange(g *Gate, floor float64) {
	vc.Inv(invGate(g))
	vc.Requires(floor >= -200 && floor <= 200)
	cur := g.currentGain
	g.SetRange(floor)
	vc.Ensures("the range is what was asked for, never a boost", g.range_ == math.Min(0, floor))
	vc.Ensures("a closed gate takes on the new range at once, an open one keeps its gain", g.state != gateStateClosed && g.currentGain == cur || g.state == gateStateClosed && vc.Is64(g.currentGain, closedGain(g)))
	vc.Ensures("the range leaves the gate sane", invGate(g))
}

//vc:contract props=C22 float=1 unroll=2 comm=1
func ctr_GateStereo1(g *Gate, l, r float32) {
	vc.Inv(invGate(g))
	vc.Requires(audio(l) && audio(r))
	t := *g
	il, ir, ol, or := make([]float32, 1), make([]float32, 1), make([]float32, 1), make([]float32, 1)
	il[0], ir[0] = l, r
	t.Process(float32(math.Max(math.Abs(float64(l)), math.Abs(float64(r)))))
	g.ProcessStereo(il, ir, ol, or)
	vc.Ensures("the louder channel decides the gain", vc.Is64(g.currentGain, t.currentGain) && vc.Is64(g.targetGain, t.targetGain))
	vc.Ensures("the louder channel decides the state", g.state == t.state && g.holdCounter == t.holdCounter && g.gateOpen == t.gateOpen)
	vc.Ensures("both channels get the same gain", vc.Is32(ol[0], l*float32(g.currentGain)) && vc.Is32(or[0], r*float32(g.currentGain)))
}

//vc:contract props=C22
func ctr_GateReset(g *Gate) {
	vc.Inv(invGate(g) && envelope.VCDetector(g.detector))
	g.Reset()
	vc.Ensures("a reset closes the gate", g.state == gateStateClosed && !g.IsOpen() && g.holdCounter == 0 && vc.Is64(g.currentGain, closedGain(g)) && vc.Is64(g.targetGain, closedGain(g)))
	vc.Ensures("a reset forgets the side chain", g.hpfState == 0 && g.lastInput == 0)
}

// The block forms, run sample by sample on a twin.
//
//vc:contract props=C22 bounded=1
func ctr_Blocks(c *Compressor, e *Expander, g *Gate, l *Limiter, in []float32) {
	vc.Inv(invCompressor(c) && invExpander(e) && invGate(g) && invLimiter(l))
	vc.Requires(clean(in))
	out, ok := make([]float32, len(in)), true
	tc, dc := *c, *c.detector
	tc.detector, tc.delayBuffer = &dc, vc.Snap(c.delayBuffer)
	c.ProcessBuffer(in, out)
	for i, x := range in {
		ok = ok && vc.Near32(out[i], tc.Process(x))
	}
	vc.Ensures("a compressed block is its samples in turn", ok)
	te, de := *e, *e.detector
	te.detector = &de
	e.ProcessBuffer(in, out)
	for i, x := range in {
		ok = ok && vc.Near32(out[i], te.Process(x))
	}
	vc.Ensures("an expanded block is its samples in turn", ok)
	tg := *g
	g.ProcessBuffer(in, out)
	for i, x := range in {
		ok = ok && vc.Near32(out[i], tg.Process(x))
	}
	vc.Ensures("a gated block is its samples in turn", ok)
	tl, dl, dp := *l, *l.detector, *l.peakDetector
	tl.detector, tl.peakDetector, tl.delayBuffer = &dl, &dp, vc.Snap(l.delayBuffer)
	l.ProcessBuffer(in, out)
	for i, x := range in {
		ok = ok && vc.Near32(out[i], tl.Process(x))
	}
	vc.Ensures("a limited block is its samples in turn", ok)
}
