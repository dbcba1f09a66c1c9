package delay

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
)

//vc:contract props=C17
func ctr_ReadMs(d *Line, ms float64) {
	vc.Inv(invLine(d))
	want := d.Read(ms * d.sampleRate / 1000)
	vc.Ensures("a delay in milliseconds is that many samples of the line's rate", vc.Is32(d.ReadMs(ms), want))
	vc.Ensures("a tap is a read", vc.Is32(d.Tap(ms), d.Read(ms)))
}

func gen_ReadMs_ms(g *vc.G) float64 { return gen_delay(g) }

// copyLine: a line of its own with the same content.
func copyLine(d Line) Line {
	d.buffer = append([]float32(nil), d.buffer...)
	return d
}

//vc:contract props=C17
func ctr_ProcessMs(d *Line, x float32, ms float64) {
	vc.Inv(invLine(d))
	o := vc.Old(d)
	want := d.Read(ms * d.sampleRate / 1000)
	y := d.ProcessMs(x, ms)
	vc.Ensures("processing in milliseconds gives the sample that long ago", vc.Is32(y, want))
	vc.Ensures("the input enters the line", vc.Same32(hist(d, 1), x))
	vc.Ensures("every other sample is one sample older", vc.Forall(1, d.bufferSize, func(j int) bool { return vc.Same32(hist(d, j+1), hist(o, j)) }))
	vc.Aux("delay line invariant", invLine(d))
}

func gen_ProcessMs_ms(g *vc.G) float64 { return gen_delay(g) }

//vc:contract props=C17
func ctr_Settings(a *AllpassDelay, c *CombDelay, m *ModulatedDelay, x, y float32, p, q, r float64) {
	ao, co, mo := *a, *c, *m
	a.SetFeedback(x)
	vc.Ensures("allpass feedback is what was set, nothing else changes", vc.Is32(a.feedback, x) && a.writePos == ao.writePos && a.bufferSize == ao.bufferSize && vc.Is64(a.sampleRate, ao.sampleRate))
	c.SetFeedback(x)
	vc.Ensures("comb feedback is what was set, its damping stays", vc.Is32(c.feedback, x) && vc.Is32(c.damp, co.damp) && vc.Is32(c.dampVal, co.dampVal))
	c.SetDamp(y)
	vc.Ensures("comb damping is what was set, its feedback stays", vc.Is32(c.feedback, x) && vc.Is32(c.damp, y) && vc.Is32(c.dampVal, co.dampVal))
	m.SetLFO(p, q)
	m.SetCenterDelay(r)
	vc.Ensures("modulation settings are what was set, the phase stays", vc.Is64(m.lfoRate, p) && vc.Is64(m.lfoDepth, q) && vc.Is64(m.centerDelay, r) && vc.Is64(m.lfoPhase, mo.lfoPhase))
}

//vc:contract props=C17 float=3 nl=1
func ctr_NewStructures(maxDelay, sampleRate float64, taps int) {
	vc.Requires(maxDelay >= 0 && maxDelay <= 100 && sampleRate >= 1 && sampleRate <= 1e6)
	n := New(maxDelay, sampleRate).bufferSize
	a, c, t, m := NewAllpass(maxDelay, sampleRate), NewComb(maxDelay, sampleRate), NewMultiTap(maxDelay, sampleRate, taps), NewModulated(maxDelay, sampleRate)
	vc.Ensures("new structures have a line of the length asked for", a.bufferSize == n && c.bufferSize == n && t.bufferSize == n && m.bufferSize == n && t.numTaps == taps)
	vc.Ensures("new structures are silent", c.dampVal == 0 && m.lfoPhase == 0 && vc.Forall(0, n, func(i int) bool { return a.buffer[i] == 0 && c.buffer[i] == 0 && t.buffer[i] == 0 && m.buffer[i] == 0 }))
}

func gen_NewStructures_maxDelay(g *vc.G) float64   { return g.In(0, 0.1) }
func gen_NewStructures_sampleRate(g *vc.G) float64 { return g.In(1, 1000) }

//vc:contract props=C17 float=3 nl=1
func ctr_ModulatedOutput(m *ModulatedDelay, x float32) {
	vc.Inv(invLine(&m.Line))
	vc.Requires(m.sampleRate >= 1 && m.sampleRate <= 1e6 && m.lfoRate >= 0 && m.lfoRate <= 1e5 && m.lfoRate <= 0.4*m.sampleRate && m.lfoPhase >= 0 && m.lfoPhase < 1)
	vc.Requires(m.centerDelay >= 0 && m.centerDelay <= 1e4 && m.lfoDepth >= 0 && m.lfoDepth <= 1e4)
	at := (m.centerDelay + m.lfoDepth*math.Sin(2.0*math.Pi*m.lfoPhase)) * m.sampleRate / 1000.0
	if at < 1 {
		at = 1
	}
	want := m.Read(at)
	y := m.Process(x)
	vc.Ensures("the modulated output is the sample at the swept delay, never nearer than the last one", vc.Is32(y, want))
	vc.Ensures("the modulation phase stays within one period", m.lfoPhase >= 0 && m.lfoPhase < 1)
}

func gen_ModulatedOutput_m(g *vc.G) *ModulatedDelay {
	m := NewModulated(float64(g.Range(0, 8))/1000, 1000)
	m.SetLFO(g.In(0, 400), g.In(0, 10))
	m.SetCenterDelay(g.In(0, 10))
	for n := g.Range(0, 20); n > 0; n-- {
		m.Process(g.Audio())
	}
	return m
}

// ---- blocks ----

//vc:contract props=C17 bounded=1
func ctr_Blocks(d *Line, a *AllpassDelay, c *CombDelay, m *ModulatedDelay, buf []float32, delay float64, mix float32) {
	vc.Requires(mix >= 0 && mix <= 1)
	for i := range buf {
		vc.Requires(buf[i] >= -100 && buf[i] <= 100)
	}
	x := append([]float32(nil), buf...)
	y := append([]float32(nil), buf...)

	l := copyLine(*d)
	d.ProcessBuffer(y, delay)
	ok := true
	for i := range x {
		ok = ok && y[i] == l.Process(x[i], delay)
	}
	vc.Ensures("a block through a line equals its samples in turn", ok && sameLine(d, &l))

	copy(y, x)
	d.ProcessBufferMix(y, delay, mix)
	ok = true
	for i := range x {
		w := l.Process(x[i], delay)
		ok = ok && vc.Near32(y[i], x[i]*(1-mix)+w*mix)
	}
	vc.Ensures("a mixed block equals its samples in turn", ok && sameLine(d, &l))

	copy(y, x)
	a2 := *a
	a2.Line = copyLine(a.Line)
	a.ProcessBuffer(y, delay)
	ok = true
	for i := range x {
		ok = ok && y[i] == a2.Process(x[i], delay)
	}
	vc.Ensures("a block through an allpass equals its samples in turn", ok && sameLine(&a.Line, &a2.Line))

	copy(y, x)
	c2 := *c
	c2.Line = copyLine(c.Line)
	c.ProcessBuffer(y, delay)
	ok = true
	for i := range x {
		ok = ok && y[i] == c2.Process(x[i], delay)
	}
	vc.Ensures("a block through a comb equals its samples in turn", ok && sameLine(&c.Line, &c2.Line) && c.dampVal == c2.dampVal)

	copy(y, x)
	m2 := *m
	m2.Line = copyLine(m.Line)
	m.ProcessBuffer(y)
	ok = true
	for i := range x {
		ok = ok && y[i] == m2.Process(x[i])
	}
	vc.Ensures("a block through a modulated line equals its samples in turn", ok && sameLine(&m.Line, &m2.Line) && m.lfoPhase == m2.lfoPhase)
}

func gen_Blocks_buf(g *vc.G) []float32 { return gen_ProcessBuffer_buf(g) }
func gen_Blocks_delay(g *vc.G) float64 { return gen_delay(g) }
func gen_Blocks_mix(g *vc.G) float32   { return float32(g.Unit()) }

//vc:contract props=C17 bounded=1
func ctr_MultiTapSum(m *MultiTapDelay, x float32, taps []TapOutput) {
	var l, r float32
	t := *m
	t.Line = copyLine(m.Line)
	t.Write(x)
	m.ProcessMultiTap(x, taps, &l, &r)
	var wl, wr float64
	for i := 0; i < len(taps) && i < m.numTaps; i++ {
		v := float64(t.Read(taps[i].DelaySamples) * taps[i].Gain)
		p := (float64(taps[i].Pan) + 1) * math.Pi / 4
		wl += v * math.Cos(p)
		wr += v * math.Sin(p)
	}
	vc.Ensures("the outputs are the sums of the taps with their gain and pan", math.Abs(float64(l)-wl) <= 1e-4 && math.Abs(float64(r)-wr) <= 1e-4)
}

func gen_MultiTapSum_taps(g *vc.G) []TapOutput { return gen_MultiTap_taps(g) }

func gen_MultiTapSum_x(g *vc.G) float32 { return g.Audio() }

//vc:contract props=C17 unroll=2 comm=1
func ctr_AllpassBlock(a *AllpassDelay, x, y float32, delay float64) {
	vc.Inv(invLine(&a.Line) && a.bufferSize > 4)
	buf := make([]float32, 1)
	buf[0] = x
	w := a.Tap(delay)
	o := vc.Old(a)
	a.ProcessBuffer(buf, delay)
	vc.Ensures("a block through an allpass processes its sample", vc.Is32(buf[0], -x+w))
	vc.Ensures("a block through an allpass feeds the line", vc.Is32(hist(&a.Line, 1), x+w*a.feedback))
	vc.Ensures("every other sample is one sample older", vc.Forall(1, a.bufferSize, func(j int) bool { return vc.Same32(hist(&a.Line, j+1), hist(&o.Line, j)) }))
}

func gen_AllpassBlock_delay(g *vc.G) float64 { return gen_delay(g) }
