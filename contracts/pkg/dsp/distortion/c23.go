package distortion

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
)

func loud(x float64) bool { return x >= -1e6 && x <= 1e6 }

func (w *Waveshaper) Inv() bool {
	return w.drive >= 1 && w.drive <= 100 && w.mix >= 0 && w.mix <= 1 && w.output >= 0 && w.output <= 2 && w.asymmetry >= -1 && w.asymmetry <= 1
}

func (b *Bitcrusher) Inv() bool {
	return b.bitDepth >= 1 && b.bitDepth <= 32 && b.sampleRateReduce >= 1 && b.sampleRateReduce <= 100 && b.mix >= 0 && b.mix <= 1 && b.output >= 0 && b.output <= 2 &&
		b.originalSampleRate >= 8000 && b.originalSampleRate <= 1e6
}

func (t *TubeSaturation) Inv() bool {
	return t.warmth >= 0 && t.warmth <= 1 && t.harmonics >= 0 && t.harmonics <= 1 && t.bias >= -1 && t.bias <= 1 && t.hysteresis >= 0 && t.hysteresis <= 1 && t.mix >= 0 && t.mix <= 1 && t.output >= 0 && t.output <= 2
}

func gen_Waveshaper(g *vc.G) *Waveshaper {
	w := NewWaveshaper()
	w.SetCurveType(CurveType(g.N(8)))
	w.SetDrive(g.In(1, 20))
	if g.Bool() {
		w.SetDrive(g.In(1, 2))
	}
	w.SetMix(g.Unit())
	if g.Bool() {
		w.SetMix(1)
	}
	w.SetOutput(2 * g.Unit())
	if g.Bool() {
		w.SetOutput(1)
	}
	w.SetAsymmetry(g.In(-1, 1))
	return w
}

func gen_Bitcrusher(g *vc.G) *Bitcrusher {
	b := NewBitcrusher(g.In(8000, 192000))
	b.SetBitDepth(float64(g.Range(1, 32)))
	if g.Bool() {
		b.SetBitDepth(g.In(1, 32))
	}
	switch g.N(4) {
	case 0:
		b.SetSampleRateReduction(float64(g.Range(1, 8)))
	case 1:
		b.SetSampleRateReduction(g.In(1, 2))
	case 2:
		b.SetSampleRateReduction(g.In(1, 100))
	}
	b.SetAntiAlias(g.Bool())
	b.SetMix(g.Unit())
	b.SetOutput(2 * g.Unit())
	for i := range b.filterState {
		b.filterState[i] = g.In(-1, 1)
		b.lastSample[i] = g.In(-1, 1)
		b.sampleHoldCounter[i] = float64(g.N(4))
	}
	return b
}

func gen_TubeSaturation(g *vc.G) *TubeSaturation {
	t := NewTubeSaturation()
	t.SetWarmth(g.Unit())
	t.SetHarmonics(g.Unit())
	t.SetBias(g.In(-1, 1))
	t.SetHysteresis(g.Unit())
	t.SetMix(g.Unit())
	t.SetOutput(2 * g.Unit())
	for i := range t.prevInput {
		t.prevInput[i] = g.In(-1, 1)
		t.prevOutput[i] = g.In(-1, 1)
		t.preEmphasisState[i] = g.In(-1, 1)
		t.deEmphasisState[i] = g.In(-1, 1)
	}
	return t
}

// the signal after the curve alone
func shape(w *Waveshaper, x float64) float64 {
	w.SetMix(1)
	w.SetOutput(1)
	return w.Process(x)
}

//vc:contract props=C23 float=3 nl=1
func ctr_ShapeRange(w *Waveshaper, x float64) {
	vc.Inv(w.Inv())
	vc.Requires(loud(x))
	known := w.curveType >= CurveHardClip && w.curveType <= CurveExponential
	y := shape(w, x)
	vc.Ensures("a shaped sample stays between -1 and 1", !known || y >= -1.000001 && y <= 1.000001)
	vc.Ensures("an unknown curve only drives", known || vc.Same64(y, x*w.drive))
	vc.Ensures("only the asymmetric curve and drive of nothing are nothing", x != 0 || y == 0)
	vc.Ensures("shaping keeps the sign", w.curveType == CurveFoldback || !(x > 0 && y < 0) && !(x < 0 && y > 0))
}

func order(w *Waveshaper, c CurveType, x, y float64) bool {
	w.SetCurveType(c)
	return shape(w, x) <= shape(w, y)+1e-6
}

//vc:contract props=C23 float=3 nl=1
func ctr_OrderHardClip(w *Waveshaper, x, y float64) {
	vc.Inv(w.Inv())
	vc.Requires(loud(x) && loud(y) && x <= y)
	vc.Ensures("a louder sample is never shaped into a lower one", order(w, CurveHardClip, x, y))
}

//vc:contract props=C23 float=3 nl=1
func ctr_OrderSoftClip(w *Waveshaper, x, y float64) {
	vc.Inv(w.Inv())
	vc.Requires(loud(x) && loud(y) && x <= y)
	vc.Ensures("a louder sample is never shaped into a lower one", order(w, CurveSoftClip, x, y))
}

//vc:contract props=C23 float=3 nl=1
func ctr_OrderSaturate(w *Waveshaper, x, y float64) {
	vc.Inv(w.Inv())
	vc.Requires(loud(x) && loud(y) && x <= y)
	vc.Ensures("a louder sample is never shaped into a lower one", order(w, CurveSaturate, x, y))
}

//vc:contract props=C23 float=3 nl=1
func ctr_OrderAsymmetric(w *Waveshaper, x, y float64) {
	vc.Inv(w.Inv())
	vc.Requires(loud(x) && loud(y) && x <= y)
	vc.Ensures("a louder sample is never shaped into a lower one", order(w, CurveAsymmetric, x, y))
}

//vc:contract props=C23 float=3 nl=1
func ctr_OrderSine(w *Waveshaper, x, y float64) {
	vc.Inv(w.Inv())
	vc.Requires(loud(x) && loud(y) && x <= y)
	vc.Ensures("a louder sample is never shaped into a lower one", order(w, CurveSine, x, y))
}

//vc:contract props=C23 float=3 nl=1
func ctr_OrderExponential(w *Waveshaper, x, y float64) {
	vc.Inv(w.Inv())
	vc.Requires(loud(x) && loud(y) && x <= y)
	vc.Ensures("a louder sample is never shaped into a lower one", order(w, CurveExponential, x, y))
}

//vc:contract props=C23 float=3 nl=1
func ctr_ShapeOdd(w *Waveshaper, x float64) {
	vc.Inv(w.Inv())
	vc.Requires(loud(x) && w.curveType != CurveAsymmetric)
	p, n := shape(w, x), shape(w, -x)
	vc.Ensures("the symmetric curves treat both signs alike", p >= -n-1e-9 && p <= -n+1e-9)
}

//vc:contract props=C23 float=3 nl=1
func ctr_ShapeMix(w *Waveshaper, x float64) {
	vc.Inv(w.Inv())
	vc.Requires(loud(x))
	o, m := w.output, w.mix
	y := w.Process(x)
	s := shape(w, x)
	vc.Ensures("the output is the mix of shaped and plain signal times the output gain", near(y, (s*m+x*(1-m))*o))
	w.SetMix(0)
	w.SetOutput(1)
	z := w.Process(x)
	vc.Ensures("without mix the signal passes", z >= x-1e-9 && z <= x+1e-9)
}

//vc:contract props=C23 float=3
func ctr_HardClip(x float64) {
	vc.Requires(loud(x))
	w := NewWaveshaper()
	w.SetCurveType(CurveHardClip)
	y := w.Process(x)
	vc.Ensures("hard clipping leaves samples within range alone", x < -1 || x > 1 || y == x)
	vc.Ensures("hard clipping stops at full scale", !(x > 1) || y == 1)
	vc.Ensures("hard clipping stops at negative full scale", !(x < -1) || y == -1)
}

//vc:contract props=C23 float=3
func ctr_Settings(w *Waveshaper, b *Bitcrusher, t *TubeSaturation, v float64) {
	vc.Inv(w.Inv())
	vc.Inv(b.Inv())
	vc.Inv(t.Inv())
	vc.Requires(v == v)
	w.SetDrive(v)
	w.SetMix(v)
	w.SetOutput(v)
	w.SetAsymmetry(v)
	vc.Ensures("waveshaper settings are kept in range", w.Inv())
	b.SetBitDepth(v)
	b.SetSampleRateReduction(v)
	b.SetMix(v)
	b.SetOutput(v)
	vc.Ensures("bit crusher settings are kept in range", b.Inv())
	t.SetWarmth(v)
	t.SetHarmonics(v)
	t.SetBias(v)
	t.SetHysteresis(v)
	t.SetMix(v)
	t.SetOutput(v)
	vc.Ensures("tube settings are kept in range", t.Inv())
	vc.Ensures("settings in range are taken as they are", v < 0 || v > 1 || w.mix == v && b.mix == v && t.mix == v && t.warmth == v && t.output == v)
}

//vc:contract props=C23 float=3
func ctr_Fold(x, t float64) {
	vc.Requires(loud(x) && t == t && t <= 1e6)
	y := FoldbackDistortion(x, t)
	if t > 0 {
		vc.Ensures("folding ends within the threshold", t < 1e-9 || y >= -t*(1+1e-9) && y <= t*(1+1e-9))
		vc.Ensures("samples within the threshold are not folded", x < -t || x > t || y == x)
		vc.Ensures("one fold mirrors at the threshold", !(x > t && x < 2*t && t > 1e-6) || near(y, 2*t-x))
		vc.Ensures("one fold mirrors at the negative threshold", !(x < -t && x > -2*t && t > 1e-6) || near(y, -2*t-x))
	} else {
		vc.Ensures("without a threshold nothing is left", y == 0)
	}
}

//vc:contract props=C23 float=3 nl=1
func ctr_Sigmoid(x, y, k float64) {
	vc.Requires(loud(x) && loud(y) && x <= y && k == k)
	s, t := Sigmoid(x, k), Sigmoid(y, k)
	vc.Ensures("the sigmoid stays strictly within full scale", s > -1 && s < 1)
	vc.Ensures("the sigmoid does not fall", s <= t+1e-9)
}

//vc:contract props=C23 float=3
func ctr_GateEffect(x, t float64) {
	y := GateEffect(x, t)
	vc.Ensures("the gate passes a sample or silences it", vc.Same64(y, x) || y == 0)
	vc.Ensures("samples below the threshold are silenced", !(math.Abs(x) < t) || y == 0)
	vc.Ensures("samples from the threshold on pass", !(math.Abs(x) >= t) || y == x)
}

//vc:contract props=C23 float=3 nl=1
func ctr_QuantizeOrder(x, y float64, n int) {
	vc.Requires(x >= -1 && x <= y && y <= 1 && n <= 1<<20)
	a, b := QuantizeToSteps(x, n), QuantizeToSteps(y, n)
	vc.Ensures("quantizing keeps the order", a <= b+1e-9)
	vc.Ensures("fewer than two steps give silence", n > 1 || a == 0)
}

//vc:contract props=C23 float=3 nl=1
func ctr_QuantizeRange(x float64, n int) {
	vc.Requires(x >= -1 && x <= 1 && n <= 1<<20)
	a := QuantizeToSteps(x, n)
	vc.Ensures("a quantized sample stays between -1 and 1", a >= -1.000001 && a <= 1.000001)
}

//vc:contract props=C23 float=3 bounded=1
func ctr_QuantizeSteps(x float64, n int) {
	vc.Requires(x >= -1 && x <= 1 && n <= 1<<20)
	a := QuantizeToSteps(x, n)
	vc.Ensures("quantizing moves a sample by at most half a step", n <= 1 || math.Abs(a-x)*float64(n-1) <= 1.000001)
}

//vc:contract props=C23 float=3 nl=1
func ctr_CrushRange(b *Bitcrusher, x float64) {
	vc.Inv(b.Inv())
	vc.Requires(loud(x) && b.dither == DitherNone && b.bitDepth < 32)
	b.SetMix(1)
	b.SetOutput(1)
	vc.Requires(loud(b.filterState[0]) && loud(b.lastSample[0]))
	y := b.Process(x)
	vc.Ensures("a crushed sample stays between -1 and 1", y >= -1 && y <= 1)
}

//vc:contract props=C23 float=3 nl=1
func ctr_CrushFilter(b *Bitcrusher, x float64) {
	vc.Inv(b.Inv())
	s, o := b.filterState[0], b.filterState[1]
	vc.Requires(loud(x) && loud(s) && loud(o))
	b.SetAntiAlias(true)
	b.SetBitDepth(32)
	b.Process(x)
	n := b.filterState[0]
	vc.Ensures("the filter moves from its state toward the sample and not past it", n >= math.Min(s, x)-1e-6 && n <= math.Max(s, x)+1e-6)
	vc.Ensures("the other channel is not touched", b.filterState[1] == o)
}

//vc:contract props=C23 float=3 nl=1
func ctr_CrushDry(b *Bitcrusher, x float64) {
	vc.Inv(b.Inv())
	vc.Requires(loud(x) && loud(b.filterState[0]) && loud(b.lastSample[0]) && b.dither == DitherNone)
	b.SetMix(0)
	b.SetOutput(1)
	y := b.Process(x)
	vc.Ensures("without mix the signal passes", near(y, x))
}

//vc:contract props=C23 float=3 nl=1
func ctr_CrushHold(b *Bitcrusher, x float64, n int) {
	vc.Inv(b.Inv())
	vc.Requires(loud(x) && n >= 2 && n <= 100)
	b.SetSampleRateReduction(float64(n))
	b.SetAntiAlias(false)
	b.SetBitDepth(32)
	b.SetMix(1)
	b.SetOutput(1)
	c := b.sampleHoldCounter[0]
	k := int(c)
	vc.Requires(c == float64(k) && k >= 0 && k < n && loud(b.lastSample[0]))
	held := b.lastSample[0]
	y := b.Process(x)
	vc.Ensures("a new sample is taken only at the start of a period", (k == 0 && y == x) || (k > 0 && y == held))
	vc.Ensures("a period lasts as many samples as the reduction factor", b.sampleHoldCounter[0] == float64((k+1)%n))
	vc.Ensures("the sample is held", b.lastSample[0] == y)
}

//vc:contract props=C23 float=3 nl=1
func ctr_CrushStereo(l, r float64, bits, rate float64, alias bool) {
	vc.Requires(loud(l) && loud(r) && bits == bits && rate == rate)
	s := NewBitcrusher(48000)
	s.SetBitDepth(bits)
	s.SetSampleRateReduction(rate)
	s.SetAntiAlias(alias)
	m := NewBitcrusher(48000)
	m.SetBitDepth(bits)
	m.SetSampleRateReduction(rate)
	m.SetAntiAlias(alias)
	n := NewBitcrusher(48000)
	n.SetBitDepth(bits)
	n.SetSampleRateReduction(rate)
	n.SetAntiAlias(alias)
	L, R := []float64{0, 0}, []float64{0, 0}
	s.ProcessStereo([]float64{l, r}, []float64{r, l}, L, R)
	vc.Ensures("the left channel is crushed as if alone", vc.Same64(L[0], m.Process(l)) && vc.Same64(L[1], m.Process(r)))
	vc.Ensures("the right channel is crushed as if alone", vc.Same64(R[0], n.Process(r)) && vc.Same64(R[1], n.Process(l)))
}

//vc:contract props=C23 float=3 nl=1
func ctr_TubeStereo(l, r float64, v, u float64) {
	vc.Requires(loud(l) && loud(r) && v == v && u == u)
	s, m, n := NewTubeSaturation(), NewTubeSaturation(), NewTubeSaturation()
	s.SetWarmth(v)
	m.SetWarmth(v)
	n.SetWarmth(v)
	s.SetHysteresis(u)
	m.SetHysteresis(u)
	n.SetHysteresis(u)
	L, R := []float64{0, 0}, []float64{0, 0}
	s.ProcessStereo([]float64{l, r}, []float64{r, l}, L, R)
	vc.Ensures("the left channel is saturated as if alone", vc.Same64(L[0], m.Process(l)) && vc.Same64(L[1], m.Process(r)))
	vc.Ensures("the right channel is saturated as if alone", vc.Same64(R[0], n.Process(r)) && vc.Same64(R[1], n.Process(l)))
}

//vc:contract props=C23 float=3 nl=1
func ctr_TubeStates(t *TubeSaturation, x float64) {
	vc.Inv(t.Inv())
	o, e := t.prevOutput[0], t.preEmphasisState[0]
	vc.Requires(loud(x) && loud(o) && loud(e))
	t.Process(x)
	p, n, f := t.prevInput[0], t.prevOutput[0], t.preEmphasisState[0]
	vc.Ensures("hysteresis moves toward the input and not past it", n >= math.Min(o, p)-1e-6 && n <= math.Max(o, p)+1e-6)
	vc.Ensures("pre-emphasis moves toward the input and not past it", f >= math.Min(e, x)-1e-6 && f <= math.Max(e, x)+1e-6)
}

//vc:contract props=C23 float=3
func ctr_ResetClears(b *Bitcrusher, t *TubeSaturation) {
	b.Reset()
	t.Reset()
	vc.Ensures("a reset silences the bit crusher", b.sampleHoldCounter == [2]float64{} && b.lastSample == [2]float64{} && b.filterState == [2]float64{})
	vc.Ensures("a reset silences the tube", t.prevInput == [2]float64{} && t.prevOutput == [2]float64{} && t.preEmphasisState == [2]float64{} && t.deEmphasisState == [2]float64{})
}

func near(a, b float64) bool { return a >= b-1e-5 && a <= b+1e-5 }

//vc:contract props=C23 float=3 nl=1
func ctr_CrushDither(b *Bitcrusher, x float64, d DitherType) {
	vc.Inv(b.Inv())
	vc.Requires(loud(x) && b.bitDepth < 32 && loud(b.filterState[0]) && loud(b.lastSample[0]))
	vc.Requires(d == DitherWhite || d == DitherTriangular)
	b.SetDither(d)
	b.SetMix(1)
	b.SetOutput(1)
	y := b.Process(x)
	vc.Ensures("a dithered sample does not leave full scale", !(y < -1) && !(y > 1))
	vc.Ensures("a dithered sample is a number", y == y)
}
