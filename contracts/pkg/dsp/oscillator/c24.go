package oscillator

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
)

func near(a, b float64) bool { return a >= b-1e-9 && a <= b+1e-9 }

func in1(x float32) bool { return x >= -1.000001 && x <= 1.000001 }

func (o *Oscillator) Inv() bool {
	return o.phase >= 0 && o.phase <= 1 && o.sampleRate >= 1 && o.sampleRate <= 1e7 && o.phaseInc >= -1e6 && o.phaseInc <= 1e6
}

func (b *BLITOscillator) Inv() bool {
	return b.phase >= 0 && b.phase <= 1 && b.sampleRate >= 1 && b.sampleRate <= 1e7 && b.phaseInc >= 0 && b.phaseInc <= 0.500001 && b.m >= 1 && b.m <= 1<<40 && b.a > 0 && b.a <= 1
}

func gen_Oscillator(g *vc.G) *Oscillator {
	o := New(g.In(8000, 192000))
	switch g.N(4) {
	case 0:
		o.SetFrequency(g.In(-30000, 30000))
	case 1:
		o.SetFrequency(o.sampleRate * float64(g.Range(-8, 8)) / 4)
	case 2:
		o.SetFrequency(g.In(-1e6, 1e6))
	}
	o.SetPhase(g.Unit())
	if g.Bool() {
		o.SetPhase(float64(g.N(8)) / 8)
	}
	return o
}

func gen_BLITOscillator(g *vc.G) *BLITOscillator {
	o := NewBLIT(g.In(8000, 192000))
	o.SetFrequency(g.In(1, o.sampleRate/2))
	o.phase = g.Unit()
	return o
}

//vc:contract props=C24 float=3
func ctr_SetPhase(o *Oscillator, p float64) {
	vc.Inv(o.Inv())
	vc.Requires(p >= -1e9 && p <= 1e9)
	o.SetPhase(p)
	vc.Ensures("a phase is wrapped into one period", o.phase >= 0 && o.phase <= 1)
	vc.Ensures("a phase within one period is taken as it is", p < 0 || p >= 1 || o.phase == p)
}

//vc:contract props=C24 float=3 nl=1
func ctr_SetFrequency(o *Oscillator, f float64) {
	vc.Inv(o.Inv())
	vc.Requires(f >= -1e6 && f <= 1e6)
	p := o.phase
	o.SetFrequency(f)
	vc.Ensures("a new frequency keeps the phase", o.phase == p)
	vc.Ensures("the step is the frequency over the sample rate", near(o.phaseInc*o.sampleRate/1e6, f/1e6))
	vc.Ensures("the frequency is noted", o.frequency == f)
}

// one step of any waveform
func stepped(o *Oscillator, p float64) bool {
	q := p + o.phaseInc
	d := o.phase - q
	inPeriod := o.phase >= 0 && o.phase <= 1
	if o.phaseInc >= -0.5 && o.phaseInc <= 0.5 {
		return inPeriod && (near(d, 0) || near(d, -1) && q >= 1-1e-9 || near(d, 1) && q <= 1e-9)
	}
	return inPeriod
}

//vc:contract props=C24 float=3
func ctr_Sine(o *Oscillator) {
	vc.Inv(o.Inv())
	p := o.phase
	s := o.Sine()
	vc.Ensures("a sine stays within full scale", in1(s))
	vc.Ensures("the first half of the period is not negative", p > 0.5-1e-9 || s >= -1e-6)
	vc.Ensures("the second half of the period is not positive", p < 0.5+1e-9 || p > 1-1e-9 || s <= 1e-6)
	vc.Ensures("the phase advances by one step within the period", stepped(o, p))
}

//vc:contract props=C24 float=3
func ctr_Saw(o *Oscillator) {
	vc.Inv(o.Inv())
	p := o.phase
	s := o.Saw()
	vc.Ensures("a saw stays within full scale", in1(s))
	vc.Ensures("a saw rises over its period", float64(s) >= 2*p-1-1e-6 && float64(s) <= 2*p-1+1e-6)
	vc.Ensures("the phase advances by one step within the period", stepped(o, p))
}

//vc:contract props=C24 float=3
func ctr_Square(o *Oscillator) {
	vc.Inv(o.Inv())
	p := o.phase
	s := o.Square()
	vc.Ensures("a square is high in the first half and low in the second", (p < 0.5 && s == 1) || (p >= 0.5 && s == -1))
	vc.Ensures("the phase advances by one step within the period", stepped(o, p))
}

//vc:contract props=C24 float=3
func ctr_Pulse(o *Oscillator, w float64) {
	vc.Inv(o.Inv())
	p := o.phase
	s := o.Pulse(w)
	vc.Ensures("a pulse is high for its width and low for the rest", (p < w && s == 1) || (!(p < w) && s == -1))
	vc.Ensures("the phase advances by one step within the period", stepped(o, p))
}

//vc:contract props=C24 float=3
func ctr_Triangle(o *Oscillator) {
	vc.Inv(o.Inv())
	p := o.phase
	s := o.Triangle()
	vc.Ensures("a triangle stays within full scale", in1(s))
	d := math.Abs(4*p - 2)
	vc.Ensures("a triangle peaks in the middle of its period", float64(s) >= 1-d-1e-6 && float64(s) <= 1-d+1e-6)
	vc.Ensures("the phase advances by one step within the period", stepped(o, p))
}

//vc:contract props=C24 float=3
func ctr_Blocks(o *Oscillator, buf []float32, w float64, k int) {
	vc.Inv(o.Inv())
	vc.Requires(k >= 0 && k < len(buf))
	switch {
	case w < 0:
		o.ProcessSine(buf)
	case w < 1:
		o.ProcessSaw(buf)
	case w < 2:
		o.ProcessSquare(buf)
	case w < 3:
		o.ProcessTriangle(buf)
	default:
		o.ProcessPulse(buf, w-3)
	}
	vc.Ensures("every sample of a block is within full scale", in1(buf[k]))
	vc.Ensures("the phase is within the period after a block", o.phase >= 0 && o.phase <= 1)
}

//vc:loop oscillator.Oscillator.ProcessSine oscillator.Oscillator.ProcessSaw oscillator.Oscillator.ProcessSquare oscillator.Oscillator.ProcessTriangle
func loopFill(it int, o *Oscillator, buf []float32) bool {
	return o.Inv() && vc.Forall(0, it, func(i int) bool { return in1(buf[i]) })
}

//vc:loop oscillator.Oscillator.ProcessPulse
func loopPulse(it int, o *Oscillator, buf []float32, w float64) bool {
	return o.Inv() && vc.Forall(0, it, func(i int) bool { return in1(buf[i]) })
}

//vc:contract props=C24 float=3
func ctr_Reset(o *Oscillator) {
	o.Reset()
	vc.Ensures("a reset starts the period", o.phase == 0)
}

//vc:contract props=C24 float=3 nl=1
func ctr_BLIT(b *BLITOscillator) {
	vc.Inv(b.Inv())
	p := b.phase
	s := b.BLIT()
	vc.Ensures("an impulse train sample is a number", s == s)
	d := b.phase - (p + b.phaseInc)
	vc.Ensures("the phase advances by one step within the period", b.phase >= 0 && b.phase <= 1 && (near(d, 0) || near(d, -1)))
}

//vc:contract props=C24 float=3 nl=1
func ctr_BLITFrequency(b *BLITOscillator, f float64) {
	vc.Inv(b.Inv())
	vc.Requires(f >= 1e-3 && f <= b.sampleRate/2)
	b.SetFrequency(f)
	vc.Ensures("all harmonics lie below half the sample rate", float64(b.m) <= 0.5*b.sampleRate/f*(1+1e-9))
	vc.Ensures("the step stays within half a period", b.phaseInc >= 0 && b.phaseInc <= 0.5+1e-9)
	vc.Ensures("the harmonics share full scale", b.a > 0 && b.a <= 1)
}

//vc:contract props=C24 float=3 bounded=1
func ctr_BLITHarmonics(b *BLITOscillator, f float64) {
	vc.Inv(b.Inv())
	vc.Requires(f >= 1 && f <= b.sampleRate/2)
	b.SetFrequency(f)
	q := 0.5 * b.sampleRate / f
	vc.Ensures("no harmonic below half the sample rate is left out", float64(b.m)+1.0001 >= q)
}

//vc:contract props=C24 float=3
func ctr_New(sampleRate float64) {
	vc.Requires(sampleRate >= 8000 && sampleRate <= 1e6)
	o := New(sampleRate)
	vc.Ensures("a new oscillator starts its period", o.phase == 0 && o.sampleRate == sampleRate)
}

func gen_New_sampleRate(g *vc.G) float64 { return g.In(8000, 1e6) }

func gen_BandLimitedSaw(g *vc.G) *BandLimitedSaw {
	s := NewBandLimitedSaw(g.In(8000, 192000))
	s.SetFrequency(g.In(20, s.blit.sampleRate/2))
	for n := g.Range(0, 30); n > 0; n-- {
		s.Next()
	}
	return s
}

//vc:contract props=C24 float=3 nl=1
func ctr_BandLimitedSaw(s *BandLimitedSaw) {
	vc.Inv(s.blit != nil && s.blit.Inv() && s.leaky >= 0 && s.leaky <= 0.9999 && s.state >= -1e6 && s.state <= 1e6 && s.dcBlock >= -1e6 && s.dcBlock <= 1e6)
	b := *s.blit
	o := *s
	x := float64(b.BLIT())
	s.Next()
	vc.Ensures("the impulse train moves on by one sample", s.blit.phase == b.phase)
	vc.Ensures("the impulses are summed up with the leak", vc.Is64(s.state, o.leaky*o.state+x))
}

//vc:contract props=C24 bounded=1
func ctr_BandLimitedSawBlock(s *BandLimitedSaw, buf []float32) {
	u := *s
	b := *s.blit
	u.blit = &b
	s.Process(buf)
	ok := true
	for i := range buf {
		ok = ok && buf[i] == u.Next()
	}
	vc.Ensures("a block of the band-limited saw equals its samples in turn", ok && s.state == u.state)
}
