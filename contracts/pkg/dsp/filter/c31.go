package filter

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
)

func (b *Biquad) Inv() bool {
	return len(b.x2) == len(b.x1) && len(b.y1) == len(b.x1) && len(b.y2) == len(b.x1) &&
		vc.Sep(b.x1, b.x2) && vc.Sep(b.x1, b.y1) && vc.Sep(b.x1, b.y2) && vc.Sep(b.x2, b.y1) && vc.Sep(b.x2, b.y2) && vc.Sep(b.y1, b.y2)
}

func (s *SVF) Inv() bool {
	return len(s.ic2eq) == len(s.ic1eq) && vc.Sep(s.ic1eq, s.ic2eq) && s.g >= 0 && s.g <= 1e4 && s.k >= 0 && s.k <= 1e3
}

func gen_Biquad(g *vc.G) *Biquad {
	b := NewBiquad(g.Range(1, 4))
	f, q := g.In(10, 20000), g.In(0.1, 20)
	switch g.N(4) {
	case 0:
		b.SetLowpass(48000, f, q)
	case 1:
		b.SetHighpass(48000, f, q)
	case 2:
		b.SetPeakingEQ(48000, f, q, g.In(-24, 24))
	default:
		b.SetBandpass(48000, f, q)
	}
	for i := range b.x1 {
		b.x1[i], b.x2[i], b.y1[i], b.y2[i] = g.Audio(), g.Audio(), g.Audio(), g.Audio()
	}
	return b
}

func gen_SVF(g *vc.G) *SVF {
	s := NewSVF(g.Range(1, 4))
	s.SetFrequencyAndQ(48000, g.In(10, 20000), g.In(0.1, 20))
	for i := range s.ic1eq {
		s.ic1eq[i], s.ic2eq[i] = g.Audio(), g.Audio()
	}
	return s
}

func gen_MultiModeSVF(g *vc.G) *MultiModeSVF {
	m := NewMultiModeSVF(g.Range(1, 4))
	m.SVF = *gen_SVF(g)
	m.SetMode(g.In(-2, 2))
	return m
}

// one sample of the difference equation
func (b *Biquad) eq(x0, x1, x2, y1, y2 float32) float32 {
	return b.b0*x0 + b.b1*x1 + b.b2*x2 - b.a1*y1 - b.a2*y2
}

func clear(b *Biquad, buf []float32) bool {
	return vc.Sep(buf, b.x1) && vc.Sep(buf, b.x2) && vc.Sep(buf, b.y1) && vc.Sep(buf, b.y2)
}

//vc:contract props=C31
func ctr_Biquad(b *Biquad, buf []float32, ch, k int) {
	vc.Inv(b.Inv())
	vc.Requires(ch >= 0 && ch < len(b.x1) && clear(b, buf) && k >= 0 && k < len(buf))
	in := vc.Snap(buf)
	x1, x2, y1, y2 := b.x1[ch], b.x2[ch], b.y1[ch], b.y2[ch]
	b.Process(buf, ch)
	if k >= 1 {
		x2, y2 = x1, y1
		x1, y1 = in[k-1], buf[k-1]
	}
	if k >= 2 {
		x2, y2 = in[k-2], buf[k-2]
	}
	vc.Ensures("every sample obeys the filter's difference equation", vc.Is32(buf[k], b.eq(in[k], x1, x2, y1, y2)))
}

//vc:loop filter.Biquad.Process
func loopX1(b *Biquad, buf []float32, ch int, it int, phi float32) bool {
	return it == 0 && vc.Is32(phi, vc.Pre(func() float32 { return b.x1[ch] })) || it > 0 && vc.Is32(phi, vc.Pre(func() float32 { return buf[it-1] }))
}

//vc:loop filter.Biquad.Process
func loopX2(b *Biquad, buf []float32, ch int, it int, phi float32) bool {
	return it == 0 && vc.Is32(phi, vc.Pre(func() float32 { return b.x2[ch] })) || it == 1 && vc.Is32(phi, vc.Pre(func() float32 { return b.x1[ch] })) ||
		it > 1 && vc.Is32(phi, vc.Pre(func() float32 { return buf[it-2] }))
}

//vc:loop filter.Biquad.Process
func loopY1(b *Biquad, buf []float32, ch int, it int, phi float32) bool {
	return it == 0 && vc.Is32(phi, vc.Pre(func() float32 { return b.y1[ch] })) || it > 0 && vc.Is32(phi, buf[it-1])
}

//vc:loop filter.Biquad.Process
func loopY2(b *Biquad, buf []float32, ch int, it int, phi float32) bool {
	return it == 0 && vc.Is32(phi, vc.Pre(func() float32 { return b.y2[ch] })) || it == 1 && vc.Is32(phi, vc.Pre(func() float32 { return b.y1[ch] })) ||
		it > 1 && vc.Is32(phi, buf[it-2])
}

//vc:loop filter.Biquad.Process
func loopRest(b *Biquad, buf []float32, ch int, it int) bool {
	return vc.Forall(it, len(buf), func(i int) bool { return vc.Is32(buf[i], vc.Pre(func() float32 { return buf[i] })) })
}

//vc:loop filter.Biquad.Process
func loopFirst(b *Biquad, buf []float32, ch int, it int) bool {
	return it < 1 || vc.Is32(buf[0], b.eq(vc.Pre(func() float32 { return buf[0] }), vc.Pre(func() float32 { return b.x1[ch] }), vc.Pre(func() float32 { return b.x2[ch] }),
		vc.Pre(func() float32 { return b.y1[ch] }), vc.Pre(func() float32 { return b.y2[ch] })))
}

//vc:loop filter.Biquad.Process
func loopSecond(b *Biquad, buf []float32, ch int, it int) bool {
	return it < 2 || vc.Is32(buf[1], b.eq(vc.Pre(func() float32 { return buf[1] }), vc.Pre(func() float32 { return buf[0] }), vc.Pre(func() float32 { return b.x1[ch] }),
		buf[0], vc.Pre(func() float32 { return b.y1[ch] })))
}

//vc:loop filter.Biquad.Process
func loopDone(b *Biquad, buf []float32, ch int, it int) bool {
	return vc.Forall(2, it, func(i int) bool {
		return vc.Is32(buf[i], b.eq(vc.Pre(func() float32 { return buf[i] }), vc.Pre(func() float32 { return buf[i-1] }), vc.Pre(func() float32 { return buf[i-2] }), buf[i-1], buf[i-2]))
	})
}

//vc:contract props=C31
func ctr_BiquadState(b *Biquad, buf []float32, ch, o int) {
	vc.Inv(b.Inv())
	vc.Requires(ch >= 0 && ch < len(b.x1) && clear(b, buf) && o >= 0 && o < len(b.x1))
	in := vc.Snap(buf)
	n := len(buf)
	x1, x2, y1, y2 := b.x1[o], b.x2[o], b.y1[o], b.y2[o]
	b.Process(buf, ch)
	if o == ch && n >= 1 {
		x2, y2 = x1, y1
		x1, y1 = in[n-1], buf[n-1]
	}
	if o == ch && n >= 2 {
		x2, y2 = in[n-2], buf[n-2]
	}
	vc.Ensures("the filter remembers its last two samples, so blocks join without a seam, and other channels are untouched",
		vc.Is32(b.x1[o], x1) && vc.Is32(b.x2[o], x2) && vc.Is32(b.y1[o], y1) && vc.Is32(b.y2[o], y2))
	vc.Ensures("the filter keeps its shape", b.Inv())
}

//vc:contract props=C31
func ctr_BiquadReset(b *Biquad, o int) {
	vc.Inv(b.Inv())
	vc.Requires(o >= 0 && o < len(b.x1))
	b0, a2 := b.b0, b.a2
	b.Reset()
	vc.Ensures("a reset forgets every sample", b.x1[o] == 0 && b.x2[o] == 0 && b.y1[o] == 0 && b.y2[o] == 0)
	vc.Ensures("a reset keeps the coefficients", vc.Is32(b.b0, b0) && vc.Is32(b.a2, a2))
}

//vc:loop filter.Biquad.Reset
func loopReset(b *Biquad, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return b.x1[i] == 0 && b.x2[i] == 0 && b.y1[i] == 0 && b.y2[i] == 0 })
}

// stable: the poles lie within the unit circle (up to rounding)
func stable(b *Biquad) bool {
	a1, a2 := float64(b.a1), float64(b.a2)
	return a2 >= -1.00001 && a2 <= 1.00001 && a1 <= 1+a2+1e-5 && a1 >= -1-a2-1e-5
}

func is(x, y float64) bool { return x >= y-1e-5 && x <= y+1e-5 }

func dc(b *Biquad) float64      { return float64(b.b0) + float64(b.b1) + float64(b.b2) }
func nyquist(b *Biquad) float64 { return float64(b.b0) - float64(b.b1) + float64(b.b2) }
func poleDC(b *Biquad) float64  { return 1 + float64(b.a1) + float64(b.a2) }
func poleNy(b *Biquad) float64  { return 1 - float64(b.a1) + float64(b.a2) }

// a design to check: frequency, Q and gain within the audible range
type design struct{ rate, f, q, db float64 }

func gen_design(g *vc.G) *design {
	rate := []float64{44100, 48000, 88200, 96000, 192000}[g.N(5)]
	return &design{rate: rate, f: g.In(20, 20000), q: g.In(0.3, 10), db: g.In(-18, 18)}
}

func (d *design) ok() bool {
	return d.rate >= 44100 && d.rate <= 192000 && d.f >= 20 && d.f <= 20000 && d.q >= 0.3 && d.q <= 10 && d.db >= -18 && d.db <= 18
}

// power is the squared magnitude of the filter's response at frequency f.
func (d *design) power(b *Biquad, f float64) float64 {
	w := 2 * math.Pi * f / d.rate
	c1, c2, s1, s2 := math.Cos(w), math.Cos(2*w), math.Sin(w), math.Sin(2*w)
	nr, ni := float64(b.b0)+float64(b.b1)*c1+float64(b.b2)*c2, float64(b.b1)*s1+float64(b.b2)*s2
	dr, di := 1+float64(b.a1)*c1+float64(b.a2)*c2, float64(b.a1)*s1+float64(b.a2)*s2
	return (nr*nr + ni*ni) / (dr*dr + di*di)
}

// close to 2 per cent and to float32 coefficients at frequencies from 1 kHz, where
// they are accurate enough to say so
func about(x, y float64) bool { return x >= 0.98*y-1e-3 && x <= 1.02*y+1e-3 }

//vc:contract props=C31 bounded=1
func ctr_Lowpass(b *Biquad, d *design) {
	vc.Requires(d.ok())
	b.SetLowpass(d.rate, d.f, d.q)
	vc.Ensures("the lowpass is stable", stable(b))
	vc.Ensures("the lowpass passes DC unchanged", is(dc(b), poleDC(b)))
	vc.Ensures("the lowpass blocks the Nyquist frequency", is(nyquist(b), 0))
	vc.Ensures("the lowpass has gain Q at its cutoff", d.f < 1000 || about(d.power(b, d.f), d.q*d.q))
}

//vc:contract props=C31 bounded=1
func ctr_Highpass(b *Biquad, d *design) {
	vc.Requires(d.ok())
	b.SetHighpass(d.rate, d.f, d.q)
	vc.Ensures("the highpass is stable", stable(b))
	vc.Ensures("the highpass blocks DC", is(dc(b), 0))
	vc.Ensures("the highpass passes the Nyquist frequency unchanged", is(nyquist(b), poleNy(b)))
	vc.Ensures("the highpass has gain Q at its cutoff", d.f < 1000 || about(d.power(b, d.f), d.q*d.q))
}

//vc:contract props=C31 bounded=1
func ctr_Bandpass(b *Biquad, d *design) {
	vc.Requires(d.ok())
	b.SetBandpass(d.rate, d.f, d.q)
	vc.Ensures("the bandpass is stable", stable(b))
	vc.Ensures("the bandpass blocks DC and the Nyquist frequency", is(dc(b), 0) && is(nyquist(b), 0))
	vc.Ensures("the bandpass passes its centre unchanged", d.f < 1000 || about(d.power(b, d.f), 1))
}

//vc:contract props=C31 bounded=1
func ctr_Notch(b *Biquad, d *design) {
	vc.Requires(d.ok())
	b.SetNotch(d.rate, d.f, d.q)
	vc.Ensures("the notch is stable", stable(b))
	vc.Ensures("the notch passes DC and the Nyquist frequency unchanged", is(dc(b), poleDC(b)) && is(nyquist(b), poleNy(b)))
	vc.Ensures("the notch blocks its centre", d.f < 1000 || d.power(b, d.f) <= 1e-3)
}

//vc:contract props=C31 bounded=1
func ctr_Allpass(b *Biquad, d *design) {
	vc.Requires(d.ok())
	b.SetAllpass(d.rate, d.f, d.q)
	vc.Ensures("the allpass is stable", stable(b))
	vc.Ensures("the allpass changes no level at its centre", d.f < 1000 || about(d.power(b, d.f), 1))
	vc.Ensures("the allpass changes no level at 2 kHz", d.f < 1000 || about(d.power(b, 2000), 1))
	vc.Ensures("the allpass mirrors its poles", is(float64(b.b0), float64(b.a2)) && is(float64(b.b1), float64(b.a1)) && is(float64(b.b2), 1))
}

//vc:contract props=C31 bounded=1
func ctr_Peaking(b *Biquad, d *design) {
	vc.Requires(d.ok())
	b.SetPeakingEQ(d.rate, d.f, d.q, d.db)
	vc.Ensures("the peaking EQ is stable", stable(b))
	vc.Ensures("the peaking EQ leaves DC and the Nyquist frequency unchanged", is(dc(b), poleDC(b)) && is(nyquist(b), poleNy(b)))
	vc.Ensures("the peaking EQ applies its gain at its centre", d.f < 1000 || about(d.power(b, d.f), math.Pow(10, d.db/10)))
}

//vc:contract props=C31 bounded=1
func ctr_LowShelf(b *Biquad, d *design) {
	vc.Requires(d.ok() && d.f >= 1000)
	b.SetLowShelf(d.rate, d.f, d.q, d.db)
	vc.Ensures("the low shelf is stable", stable(b))
	vc.Ensures("the low shelf applies its gain at DC", about(d.power(b, 0), math.Pow(10, d.db/10)))
	vc.Ensures("the low shelf leaves the Nyquist frequency unchanged", about(d.power(b, d.rate/2), 1))
}

//vc:contract props=C31 bounded=1
func ctr_HighShelf(b *Biquad, d *design) {
	vc.Requires(d.ok() && d.f >= 1000)
	b.SetHighShelf(d.rate, d.f, d.q, d.db)
	vc.Ensures("the high shelf is stable", stable(b))
	vc.Ensures("the high shelf leaves DC unchanged", about(d.power(b, 0), 1))
	vc.Ensures("the high shelf applies its gain at the Nyquist frequency", about(d.power(b, d.rate/2), math.Pow(10, d.db/10)))
}

func gen_SVFSample_x(g *vc.G) float32 { return g.Audio() }

//vc:contract props=C31
func ctr_SVFSample(s *SVF, x float32, ch, o int) {
	vc.Inv(s.Inv())
	vc.Requires(ch >= 0 && ch < len(s.ic1eq) && o >= 0 && o < len(s.ic1eq))
	s1, s2, o1, o2 := s.ic1eq[ch], s.ic2eq[ch], s.ic1eq[o], s.ic2eq[o]
	g, k := s.g, s.k
	r := s.ProcessSample(x, ch)
	d := 1.0 / (1.0 + g*(g+k))
	vc.Ensures("the bandpass output solves the delay-free loop", vc.Is32(r.Bandpass, d*s1+g*d*(x-s2)))
	vc.Ensures("the lowpass output integrates the bandpass output", vc.Is32(r.Lowpass, s2+g*d*s1+g*(g*d)*(x-s2)))
	vc.Ensures("the notch output is the input less the damped bandpass", vc.Is32(r.Notch, x-k*r.Bandpass))
	vc.Ensures("the highpass output is the notch less the lowpass", vc.Is32(r.Highpass, x-k*r.Bandpass-r.Lowpass))
	vc.Ensures("both integrators advance by the trapezoidal rule",
		o != ch || vc.Is32(s.ic1eq[ch], 2*r.Bandpass-s1) && vc.Is32(s.ic2eq[ch], 2*r.Lowpass-s2))
	vc.Ensures("other channels are untouched", o == ch || vc.Is32(s.ic1eq[o], o1) && vc.Is32(s.ic2eq[o], o2))
	vc.Ensures("the coefficients are untouched", vc.Is32(s.g, g) && vc.Is32(s.k, k) && s.Inv())
}

//vc:contract props=C31
func ctr_SVFReset(s *SVF, o int) {
	vc.Inv(s.Inv())
	vc.Requires(o >= 0 && o < len(s.ic1eq))
	g, k := s.g, s.k
	s.Reset()
	vc.Ensures("a reset forgets every sample", s.ic1eq[o] == 0 && s.ic2eq[o] == 0)
	vc.Ensures("a reset keeps the coefficients", vc.Is32(s.g, g) && vc.Is32(s.k, k))
}

//vc:loop filter.SVF.Reset
func loopSVFReset(s *SVF, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return s.ic1eq[i] == 0 && s.ic2eq[i] == 0 })
}

// Each of the block forms runs ProcessSample over the block: the twin is a second
// filter in the same state, fed the same samples one at a time. Proved for blocks
// of two samples (any values, any state), run for longer ones.

//vc:contract props=C31 unroll=3 comm=1
func ctr_SVFLowpass2(s *SVF, x, y float32, ch int) {
	vc.Inv(s.Inv())
	vc.Requires(ch >= 0 && ch < len(s.ic1eq))
	t, buf := twin(s, ch), make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.ProcessSample(x, 0)
	b := t.ProcessSample(y, 0)
	s.ProcessLowpass(buf, ch)
	vc.Ensures("the block is the lowpass of each sample in turn", vc.Is32(buf[0], a.Lowpass) && vc.Is32(buf[1], b.Lowpass))
	vc.Ensures("the block leaves the filter where the samples do", t.at(s, ch))
}

//vc:contract props=C31 bounded=1
func ctr_SVFLowpass(s *SVF, buf []float32, ch int) {
	vc.Inv(s.Inv())
	vc.Requires(ch >= 0 && ch < len(s.ic1eq))
	t, ok := twin(s, ch), true
	in := vc.Snap(buf)
	s.ProcessLowpass(buf, ch)
	for i := range in {
		ok = ok && vc.Near32(buf[i], t.ProcessSample(in[i], 0).Lowpass)
	}
	vc.Ensures("the block is the lowpass of each sample in turn", ok)
	vc.Ensures("the block leaves the filter where the samples do", t.at(s, ch))
}

//vc:contract props=C31 unroll=3 comm=1
func ctr_SVFHighpass2(s *SVF, x, y float32, ch int) {
	vc.Inv(s.Inv())
	vc.Requires(ch >= 0 && ch < len(s.ic1eq))
	t, buf := twin(s, ch), make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.ProcessSample(x, 0)
	b := t.ProcessSample(y, 0)
	s.ProcessHighpass(buf, ch)
	vc.Ensures("the block is the highpass of each sample in turn", vc.Is32(buf[0], a.Highpass) && vc.Is32(buf[1], b.Highpass))
	vc.Ensures("the block leaves the filter where the samples do", t.at(s, ch))
}

//vc:contract props=C31 bounded=1
func ctr_SVFHighpass(s *SVF, buf []float32, ch int) {
	vc.Inv(s.Inv())
	vc.Requires(ch >= 0 && ch < len(s.ic1eq))
	t, ok := twin(s, ch), true
	in := vc.Snap(buf)
	s.ProcessHighpass(buf, ch)
	for i := range in {
		ok = ok && vc.Near32(buf[i], t.ProcessSample(in[i], 0).Highpass)
	}
	vc.Ensures("the block is the highpass of each sample in turn", ok)
	vc.Ensures("the block leaves the filter where the samples do", t.at(s, ch))
}

//vc:contract props=C31 unroll=3 comm=1
func ctr_SVFBandpass2(s *SVF, x, y float32, ch int) {
	vc.Inv(s.Inv())
	vc.Requires(ch >= 0 && ch < len(s.ic1eq))
	t, buf := twin(s, ch), make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.ProcessSample(x, 0)
	b := t.ProcessSample(y, 0)
	s.ProcessBandpass(buf, ch)
	vc.Ensures("the block is the bandpass of each sample in turn", vc.Is32(buf[0], a.Bandpass) && vc.Is32(buf[1], b.Bandpass))
	vc.Ensures("the block leaves the filter where the samples do", t.at(s, ch))
}

//vc:contract props=C31 bounded=1
func ctr_SVFBandpass(s *SVF, buf []float32, ch int) {
	vc.Inv(s.Inv())
	vc.Requires(ch >= 0 && ch < len(s.ic1eq))
	t, ok := twin(s, ch), true
	in := vc.Snap(buf)
	s.ProcessBandpass(buf, ch)
	for i := range in {
		ok = ok && vc.Near32(buf[i], t.ProcessSample(in[i], 0).Bandpass)
	}
	vc.Ensures("the block is the bandpass of each sample in turn", ok)
	vc.Ensures("the block leaves the filter where the samples do", t.at(s, ch))
}

//vc:contract props=C31 unroll=3 comm=1
func ctr_SVFNotch2(s *SVF, x, y float32, ch int) {
	vc.Inv(s.Inv())
	vc.Requires(ch >= 0 && ch < len(s.ic1eq))
	t, buf := twin(s, ch), make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.ProcessSample(x, 0)
	b := t.ProcessSample(y, 0)
	s.ProcessNotch(buf, ch)
	vc.Ensures("the block is the notch of each sample in turn", vc.Is32(buf[0], a.Notch) && vc.Is32(buf[1], b.Notch))
	vc.Ensures("the block leaves the filter where the samples do", t.at(s, ch))
}

//vc:contract props=C31 bounded=1
func ctr_SVFNotch(s *SVF, buf []float32, ch int) {
	vc.Inv(s.Inv())
	vc.Requires(ch >= 0 && ch < len(s.ic1eq))
	t, ok := twin(s, ch), true
	in := vc.Snap(buf)
	s.ProcessNotch(buf, ch)
	for i := range in {
		ok = ok && vc.Near32(buf[i], t.ProcessSample(in[i], 0).Notch)
	}
	vc.Ensures("the block is the notch of each sample in turn", ok)
	vc.Ensures("the block leaves the filter where the samples do", t.at(s, ch))
}

//vc:contract props=C31 unroll=3 comm=1
func ctr_SVFMixed2(s *SVF, x, y float32, ch int, lp, hp, bp, notch float32) {
	vc.Inv(s.Inv())
	vc.Requires(ch >= 0 && ch < len(s.ic1eq))
	t, buf := twin(s, ch), make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.ProcessSample(x, 0)
	b := t.ProcessSample(y, 0)
	s.ProcessMixed(buf, ch, lp, hp, bp, notch)
	vc.Ensures("the block mixes the outputs of each sample in turn",
		vc.Is32(buf[0], a.Lowpass*lp+a.Highpass*hp+a.Bandpass*bp+a.Notch*notch) && vc.Is32(buf[1], b.Lowpass*lp+b.Highpass*hp+b.Bandpass*bp+b.Notch*notch))
	vc.Ensures("the block leaves the filter where the samples do", t.at(s, ch))
}

//vc:contract props=C31
func ctr_SVFMode(m *MultiModeSVF, mode float64) {
	vc.Requires(mode >= -1e6 && mode <= 1e6)
	m.SetMode(mode)
	vc.Ensures("the mode wraps into one turn", m.mode >= 0 && m.mode <= 1)
}

func gen_SVFMode_mode(g *vc.G) float64 { return g.In(-3, 3) }

// the outputs in the order the mode turns through them
func (o SVFOutputs) turn(i int) float32 {
	switch i % 4 {
	case 0:
		return o.Lowpass
	case 1:
		return o.Bandpass
	case 2:
		return o.Highpass
	}
	return o.Notch
}

//vc:contract props=C31 unroll=3 comm=1
func ctr_SVFMorph0(m *MultiModeSVF, x, y float32, ch int) {
	vc.Inv(m.Inv())
	vc.Requires(ch >= 0 && ch < len(m.ic1eq) && m.mode*4 >= 0 && m.mode*4 < 1)
	mix := m.mode * 4
	t, buf := twin(&m.SVF, ch), make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.ProcessSample(x, 0)
	b := t.ProcessSample(y, 0)
	m.Process(buf, ch)
	vc.Ensures("the block morphs between the two outputs its mode lies between",
		vc.Is32(buf[0], a.turn(0)*(1-mix)+a.turn(1)*mix) && vc.Is32(buf[1], b.turn(0)*(1-mix)+b.turn(1)*mix))
	vc.Ensures("the block leaves the filter where the samples do", t.at(&m.SVF, ch))
}

func gen_SVFMorph0_m(g *vc.G) *MultiModeSVF {
	m := gen_MultiModeSVF(g)
	m.SetMode(0*0.25 + g.In(0, 0.2499))
	return m
}

//vc:contract props=C31 unroll=3 comm=1
func ctr_SVFMorph1(m *MultiModeSVF, x, y float32, ch int) {
	vc.Inv(m.Inv())
	vc.Requires(ch >= 0 && ch < len(m.ic1eq) && m.mode*4 >= 1 && m.mode*4 < 2)
	mix := m.mode*4 - 1
	t, buf := twin(&m.SVF, ch), make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.ProcessSample(x, 0)
	b := t.ProcessSample(y, 0)
	m.Process(buf, ch)
	vc.Ensures("the block morphs between the two outputs its mode lies between",
		vc.Is32(buf[0], a.turn(1)*(1-mix)+a.turn(2)*mix) && vc.Is32(buf[1], b.turn(1)*(1-mix)+b.turn(2)*mix))
	vc.Ensures("the block leaves the filter where the samples do", t.at(&m.SVF, ch))
}

func gen_SVFMorph1_m(g *vc.G) *MultiModeSVF {
	m := gen_MultiModeSVF(g)
	m.SetMode(1*0.25 + g.In(0, 0.2499))
	return m
}

//vc:contract props=C31 unroll=3 comm=1
func ctr_SVFMorph2(m *MultiModeSVF, x, y float32, ch int) {
	vc.Inv(m.Inv())
	vc.Requires(ch >= 0 && ch < len(m.ic1eq) && m.mode*4 >= 2 && m.mode*4 < 3)
	mix := m.mode*4 - 2
	t, buf := twin(&m.SVF, ch), make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.ProcessSample(x, 0)
	b := t.ProcessSample(y, 0)
	m.Process(buf, ch)
	vc.Ensures("the block morphs between the two outputs its mode lies between",
		vc.Is32(buf[0], a.turn(2)*(1-mix)+a.turn(3)*mix) && vc.Is32(buf[1], b.turn(2)*(1-mix)+b.turn(3)*mix))
	vc.Ensures("the block leaves the filter where the samples do", t.at(&m.SVF, ch))
}

func gen_SVFMorph2_m(g *vc.G) *MultiModeSVF {
	m := gen_MultiModeSVF(g)
	m.SetMode(2*0.25 + g.In(0, 0.2499))
	return m
}

//vc:contract props=C31 unroll=3 comm=1
func ctr_SVFMorph3(m *MultiModeSVF, x, y float32, ch int) {
	vc.Inv(m.Inv())
	vc.Requires(ch >= 0 && ch < len(m.ic1eq) && m.mode*4 >= 3 && m.mode*4 <= 4)
	mix := m.mode*4 - 3
	t, buf := twin(&m.SVF, ch), make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.ProcessSample(x, 0)
	b := t.ProcessSample(y, 0)
	m.Process(buf, ch)
	vc.Ensures("the block morphs between the two outputs its mode lies between",
		vc.Is32(buf[0], a.turn(3)*(1-mix)+a.turn(4)*mix) && vc.Is32(buf[1], b.turn(3)*(1-mix)+b.turn(4)*mix))
	vc.Ensures("the block leaves the filter where the samples do", t.at(&m.SVF, ch))
}

func gen_SVFMorph3_m(g *vc.G) *MultiModeSVF {
	m := gen_MultiModeSVF(g)
	m.SetMode(3*0.25 + g.In(0, 0.2499))
	return m
}

// twin is a one-channel filter in the state of channel ch.
func twin(s *SVF, ch int) *SVF {
	t := NewSVF(1)
	t.g, t.k = s.g, s.k
	t.ic1eq[0], t.ic2eq[0] = s.ic1eq[ch], s.ic2eq[ch]
	return t
}

func (t *SVF) at(s *SVF, ch int) bool {
	return vc.Is32(t.ic1eq[0], s.ic1eq[ch]) && vc.Is32(t.ic2eq[0], s.ic2eq[ch])
}
