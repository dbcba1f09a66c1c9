package delay

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
)

// invLine: the write position lies within the buffer.
func invLine(d *Line) bool {
	return d.buffer != nil && vc.Whole(d.buffer) && len(d.buffer) == d.bufferSize && 1 <= d.bufferSize && d.bufferSize <= 1<<40 &&
		0 <= d.writePos && d.writePos < d.bufferSize
}

// hist: the sample written k samples ago (1: the last one; k at most the size
// of the line).
func hist(d *Line, k int) float32 {
	i := d.writePos - k
	if i < 0 {
		i += d.bufferSize
	}
	return d.buffer[i]
}

// calm: everything in the line is within [-m, m].
func calm(d *Line, m float32) bool {
	return vc.Forall(0, len(d.buffer), func(i int) bool { return d.buffer[i] >= -m && d.buffer[i] <= m })
}

func sameLine(d, o *Line) bool {
	return d.writePos == o.writePos && d.bufferSize == o.bufferSize && vc.Same64(d.sampleRate, o.sampleRate) &&
		len(d.buffer) == len(o.buffer) && vc.Forall(0, len(d.buffer), func(i int) bool { return vc.Same32(d.buffer[i], o.buffer[i]) })
}

func gen_Line(g *vc.G) *Line {
	size := g.Range(1, 9)
	d := New(float64(size-1)/1000, 1000)
	for n := g.Range(0, 20); n > 0; n-- {
		d.Write(g.Audio())
	}
	return d
}

func gen_delay(g *vc.G) float64 {
	switch g.Pick(6) {
	case 0:
		return float64(g.Range(-1, 11))
	case 1:
		return math.Nextafter(float64(g.Range(0, 9)), 100)
	case 2:
		return math.Nextafter(float64(g.Range(0, 9)), -100)
	case 3:
		return g.Float()
	}
	return g.In(0, 10)
}

//vc:contract props=C17
func ctr_Write(d *Line, x float32) {
	vc.Inv(invLine(d))
	o := vc.Old(d)
	d.Write(x)
	vc.Ensures("the written sample is the latest", vc.Same32(hist(d, 1), x))
	vc.Ensures("every other sample is one sample older", vc.Forall(1, d.bufferSize, func(k int) bool { return vc.Same32(hist(d, k+1), hist(o, k)) }))
	vc.Aux("delay line invariant", invLine(d))
}

//vc:contract props=C17
func ctr_Reset(d *Line) {
	vc.Inv(invLine(d))
	d.Reset()
	vc.Ensures("after a reset the line is silent", vc.Forall(0, len(d.buffer), func(i int) bool { return d.buffer[i] == 0 }))
	vc.Aux("delay line invariant", invLine(d))
}

//vc:contract props=C17 float=3
func ctr_ReadWhole(d *Line, k int) {
	vc.Inv(invLine(d))
	vc.Requires(1 <= k && k <= d.bufferSize)
	vc.Requires(calm(d, 1e6))
	o := vc.Old(d)
	y := d.Read(float64(k))
	vc.Ensures("a delay of k samples gives the sample written k samples ago", y == hist(o, k))
	vc.Ensures("reading changes nothing", sameLine(d, o))
}

func gen_ReadWhole_k(g *vc.G) int { return g.Range(1, 9) }

//vc:contract props=C17 float=3 nl=1
func ctr_Read(d *Line, delay float64) {
	vc.Inv(invLine(d))
	o := vc.Old(d)
	y := d.Read(delay)
	vc.Ensures("reading changes nothing", sameLine(d, o))
	_ = y
}

func gen_Read_delay(g *vc.G) float64 { return gen_delay(g) }

//vc:contract props=C17 float=3 nl=1
func ctr_ReadBounded(d *Line, delay float64) {
	vc.Inv(invLine(d))
	vc.Requires(calm(d, 1))
	y := d.Read(delay)
	vc.Ensures("what is read is no louder than what is in the line", y >= -1.0001 && y <= 1.0001)
}

func gen_ReadBounded_delay(g *vc.G) float64 { return gen_delay(g) }

//vc:contract props=C17 bounded=1
func ctr_ReadBetween(d *Line, delay float64) {
	vc.Inv(invLine(d))
	vc.Requires(delay >= 1 && delay <= float64(d.bufferSize))
	k := int(delay)
	a, b := hist(d, k), hist(d, k)
	if float64(k) < delay {
		b = hist(d, k+1)
	}
	y := float64(d.Read(delay))
	f := delay - float64(k)
	vc.Ensures("a fractional delay interpolates between its neighbours", math.Abs(y-(float64(a)*(1-f)+float64(b)*f)) <= 1e-5)
}

func gen_ReadBetween_delay(g *vc.G) float64 { return gen_delay(g) }

//vc:contract props=C17 float=3
func ctr_Process(d *Line, x float32, k int) {
	vc.Inv(invLine(d))
	vc.Requires(1 <= k && k <= d.bufferSize)
	vc.Requires(calm(d, 1e6))
	o := vc.Old(d)
	y := d.Process(x, float64(k))
	vc.Ensures("the output is the sample written k samples before the input", y == hist(o, k))
	vc.Ensures("the input enters the line", vc.Same32(hist(d, 1), x))
	vc.Ensures("every other sample is one sample older", vc.Forall(1, d.bufferSize, func(j int) bool { return vc.Same32(hist(d, j+1), hist(o, j)) }))
	vc.Aux("delay line invariant", invLine(d))
}

func gen_Process_k(g *vc.G) int { return g.Range(1, 9) }

//vc:contract props=C17 float=3 nl=1
func ctr_New(maxDelay, sampleRate float64) {
	vc.Requires(maxDelay >= 0 && maxDelay <= 100 && sampleRate >= 1 && sampleRate <= 1e6)
	d := New(maxDelay, sampleRate)
	vc.Ensures("a new line is silent", vc.Forall(0, len(d.buffer), func(i int) bool { return d.buffer[i] == 0 }))
	vc.Aux("delay line invariant", invLine(d))
}

func gen_New_maxDelay(g *vc.G) float64   { return g.In(0, 0.1) }
func gen_New_sampleRate(g *vc.G) float64 { return g.In(1, 1000) }

//vc:loop delay.Line.ProcessBuffer
func loopLineBuffer(it int, d *Line, buffer []float32) bool {
	return invLine(d) && vc.Sep(d.buffer, buffer)
}

//vc:contract props=C17 float=3 nl=1
func ctr_ProcessBuffer(d *Line, buf []float32, delay float64) {
	vc.Inv(invLine(d))
	vc.Requires(vc.Sep(d.buffer, buf))
	o := vc.Old(d)
	d.ProcessBuffer(buf, delay)
	vc.Ensures("a block does not change the size of the line", d.bufferSize == o.bufferSize)
	vc.Aux("delay line invariant", invLine(d))
}

func gen_ProcessBuffer_buf(g *vc.G) []float32 {
	b := make([]float32, g.Range(0, 12))
	for i := range b {
		b[i] = g.Audio()
	}
	return b
}
func gen_ProcessBuffer_delay(g *vc.G) float64 { return gen_delay(g) }

//vc:contract props=C17 float=3 nl=1
func ctr_ProcessBufferMix(d *Line, buf []float32, delay float64, mix float32) {
	vc.Inv(invLine(d))
	vc.Requires(vc.Sep(d.buffer, buf))
	o := vc.Old(d)
	d.ProcessBufferMix(buf, delay, mix)
	vc.Ensures("a block does not change the size of the line", d.bufferSize == o.bufferSize)
	vc.Aux("delay line invariant", invLine(d))
}

func gen_ProcessBufferMix_buf(g *vc.G) []float32 { return gen_ProcessBuffer_buf(g) }
func gen_ProcessBufferMix_delay(g *vc.G) float64 { return gen_delay(g) }

//vc:loop delay.Line.ProcessBufferMix
func loopLineBufferMix(it int, d *Line, buffer []float32) bool {
	return invLine(d) && vc.Sep(d.buffer, buffer)
}

func gen_AllpassDelay(g *vc.G) *AllpassDelay {
	a := NewAllpass(float64(g.Range(0, 8))/1000, 1000)
	a.SetFeedback(float32(g.In(-1, 1)))
	for n := g.Range(0, 20); n > 0; n-- {
		a.Process(g.Audio(), g.In(0, 9))
	}
	return a
}

//vc:contract props=C17 float=3 nl=1
func ctr_Allpass(a *AllpassDelay, x float32, delay float64) {
	vc.Inv(invLine(&a.Line))
	o := vc.Old(a)
	w := a.Tap(delay)
	y := a.Process(x, delay)
	vc.Ensures("allpass output: the delayed sample minus the input", vc.Same32(y, -x+w))
	vc.Ensures("allpass feedback enters the line", vc.Same32(hist(&a.Line, 1), x+w*a.feedback))
	vc.Ensures("every other sample is one sample older", vc.Forall(1, a.bufferSize, func(j int) bool { return vc.Same32(hist(&a.Line, j+1), hist(&o.Line, j)) }))
	vc.Aux("delay line invariant", invLine(&a.Line))
}

func gen_Allpass_delay(g *vc.G) float64 { return gen_delay(g) }

func gen_CombDelay(g *vc.G) *CombDelay {
	c := NewComb(float64(g.Range(0, 8))/1000, 1000)
	c.SetFeedback(float32(g.In(-1, 1)))
	c.SetDamp(float32(g.In(0, 1)))
	for n := g.Range(0, 20); n > 0; n-- {
		c.Process(g.Audio(), g.In(0, 9))
	}
	return c
}

//vc:contract props=C17 float=3 nl=1
func ctr_Comb(c *CombDelay, x float32, delay float64) {
	vc.Inv(invLine(&c.Line))
	o := vc.Old(c)
	w := c.Tap(delay)
	y := c.Process(x, delay)
	vc.Ensures("comb output: the delayed sample", vc.Same32(y, w))
	vc.Ensures("comb damping is a one-pole filter of the output", vc.Same32(c.dampVal, w*(1-c.damp)+o.dampVal*c.damp))
	vc.Ensures("comb feedback enters the line", vc.Same32(hist(&c.Line, 1), x+c.dampVal*c.feedback))
	vc.Ensures("every other sample is one sample older", vc.Forall(1, c.bufferSize, func(j int) bool { return vc.Same32(hist(&c.Line, j+1), hist(&o.Line, j)) }))
	vc.Aux("delay line invariant", invLine(&c.Line))
}

func gen_Comb_delay(g *vc.G) float64 { return gen_delay(g) }

//vc:loop delay.MultiTapDelay.ProcessMultiTap
func loopTaps(it int, m *MultiTapDelay, input float32, taps []TapOutput, outL, outR *float32) bool {
	return invLine(&m.Line) && (it > 0 || *outL == 0 && *outR == 0)
}

//vc:contract props=C17 float=3 nl=1
func ctr_MultiTap(m *MultiTapDelay, x float32, taps []TapOutput) {
	vc.Inv(invLine(&m.Line))
	o := vc.Old(m)
	var l, r float32
	m.ProcessMultiTap(x, taps, &l, &r)
	vc.Ensures("the input enters the line", vc.Same32(hist(&m.Line, 1), x))
	vc.Ensures("every other sample is one sample older", vc.Forall(1, m.bufferSize, func(j int) bool { return vc.Same32(hist(&m.Line, j+1), hist(&o.Line, j)) }))
	if len(taps) == 0 {
		vc.Ensures("without taps the output is silence", l == 0 && r == 0)
	}
	vc.Aux("delay line invariant", invLine(&m.Line))
}

func gen_MultiTapDelay(g *vc.G) *MultiTapDelay {
	m := NewMultiTap(float64(g.Range(0, 8))/1000, 1000, g.Range(0, 4))
	for n := g.Range(0, 20); n > 0; n-- {
		m.Write(g.Audio())
	}
	return m
}

func gen_MultiTap_taps(g *vc.G) []TapOutput {
	t := make([]TapOutput, g.Range(0, 5))
	for i := range t {
		t[i] = TapOutput{gen_delay(g), g.Audio(), float32(g.In(-1, 1))}
	}
	return t
}

func gen_ModulatedDelay(g *vc.G) *ModulatedDelay {
	m := NewModulated(float64(g.Range(0, 8))/1000, 1000)
	m.SetLFO(g.In(0, 2000), g.In(0, 10))
	m.SetCenterDelay(g.In(0, 10))
	for n := g.Range(0, 20); n > 0; n-- {
		m.Process(g.Audio())
	}
	return m
}

//vc:contract props=C17 float=3 nl=1
func ctr_Modulated(m *ModulatedDelay, x float32) {
	vc.Inv(invLine(&m.Line))
	o := vc.Old(m)
	m.Process(x)
	vc.Ensures("the input enters the line", vc.Same32(hist(&m.Line, 1), x))
	vc.Ensures("every other sample is one sample older", vc.Forall(1, m.bufferSize, func(j int) bool { return vc.Same32(hist(&m.Line, j+1), hist(&o.Line, j)) }))
	vc.Aux("delay line invariant", invLine(&m.Line))
}
