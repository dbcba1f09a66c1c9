package dsp

import "github.com/justyntemme/vst3go/internal/vc"

// clock counts the calls made to recorders, so that their order can be told.
var clock int

// probe is the sample a recorder looks at and changes.
var probe int

// tp is a processor that records what it is told. A chain sees processors only
// through the Processor interface, so what holds for recorders holds for all.
type tp struct {
	at     int       // clock at the last call to Process
	n      int       // calls to Process
	resets int       // calls to Reset
	buf    []float32 // buffer of the last call
	in     float32   // probed sample it was given
	out    float32   // probed sample it leaves
}

//vc:closed dsp.Processor *dsp.tp

func (p *tp) Process(buf []float32) {
	clock++
	p.at, p.buf = clock, buf
	p.n++
	if probe >= 0 && probe < len(buf) {
		p.in = buf[probe]
		buf[probe] = p.out
	}
}
func (p *tp) Reset() {
	clock++
	p.at = clock
	p.resets++
}

// ts is tp for two channels.
type ts struct {
	at, n, resets int
	l, r          []float32
}

//vc:closed dsp.StereoProcessor *dsp.ts

func (p *ts) ProcessStereo(l, r []float32) {
	clock++
	p.at, p.l, p.r = clock, l, r
	p.n++
}
func (p *ts) Reset() {
	clock++
	p.at = clock
	p.resets++
}

func isTP(v Processor) bool {
	t, ok := v.(*tp)
	return ok && t != nil
}

func isTS(v StereoProcessor) bool {
	t, ok := v.(*ts)
	return ok && t != nil
}

func tps(ps []Processor) bool {
	return vc.Whole(ps) && len(ps) <= 1<<20 && vc.Forall(0, len(ps), func(i int) bool { return isTP(ps[i]) }) &&
		vc.Forall(0, len(ps), func(i int) bool {
			return vc.Forall(0, len(ps), func(j int) bool { return !(i < j) || ps[i].(*tp) != ps[j].(*tp) })
		})
}

func tss(ps []StereoProcessor) bool {
	return vc.Whole(ps) && len(ps) <= 1<<20 && vc.Forall(0, len(ps), func(i int) bool { return isTS(ps[i]) }) &&
		vc.Forall(0, len(ps), func(i int) bool {
			return vc.Forall(0, len(ps), func(j int) bool { return !(i < j) || ps[i].(*ts) != ps[j].(*ts) })
		})
}

func (c *Chain) p(i int) *tp       { return c.processors[i].(*tp) }
func (c *StereoChain) p(i int) *ts { return c.processors[i].(*ts) }
func (c *ParallelChain) p(i int) *tp {
	return c.chains[i].(*tp)
}

func gen_Chain(g *vc.G) *Chain {
	c := NewChain("c")
	for n := g.Range(0, 5); n > 0; n-- {
		c.Add(&tp{n: g.Range(0, 3), out: g.Audio()})
	}
	c.SetBypass(g.N(3) == 0)
	return c
}

func gen_StereoChain(g *vc.G) *StereoChain {
	c := NewStereoChain("c")
	for n := g.Range(0, 5); n > 0; n-- {
		c.Add(&ts{n: g.Range(0, 3)})
	}
	c.SetBypass(g.N(3) == 0)
	return c
}

func gen_ParallelChain(g *vc.G) *ParallelChain {
	c := NewParallelChain("c")
	for n := g.Range(0, 5); n > 0; n-- {
		c.Add(&tp{n: g.Range(0, 3), out: g.Audio()}, g.Audio())
	}
	c.SetBypass(g.N(3) == 0)
	return c
}

// same: the same samples of the same buffer (in the concrete reading: the same
// first sample and length)
func same(a, b []float32) bool {
	return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
}

//vc:contract props=C14
func ctr_ChainProcess(c *Chain, buf []float32, k int) {
	vc.Requires(tps(c.processors) && !c.bypass && k >= 0 && k < len(c.processors))
	t, n := clock, c.p(k).n
	c.Process(buf)
	vc.Ensures("each processor runs once, in the order they were added", c.p(k).at == t+k+1 && c.p(k).n == n+1)
	vc.Ensures("each processor is given the whole buffer", same(c.p(k).buf, buf))
	vc.Ensures("nothing else runs", clock == t+len(c.processors))
}

//vc:loop dsp.Chain.Process
func loopRan(c *Chain, it int) bool {
	t := vc.Pre(func() int { return clock })
	return clock == t+it && vc.Forall(0, it, func(i int) bool { return c.p(i).at == t+i+1 })
}

//vc:loop dsp.Chain.Process
func loopCount(c *Chain, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return c.p(i).n == vc.Pre(func() int { return c.p(i).n })+1 })
}

//vc:loop dsp.Chain.Process
func loopCountRest(c *Chain, it int) bool {
	return vc.Forall(it, len(c.processors), func(i int) bool { return c.p(i).n == vc.Pre(func() int { return c.p(i).n }) })
}

//vc:loop dsp.Chain.Process
func loopGiven(c *Chain, buf []float32, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return len(c.p(i).buf) == len(buf) && (len(buf) == 0 || &c.p(i).buf[0] == &buf[0]) })
}

//vc:loop dsp.Chain.Process
func loopShape(c *Chain, it int) bool { return tps(c.processors) }

//vc:contract props=C14
func ctr_ChainLink(c *Chain, buf []float32, k int) {
	vc.Requires(tps(c.processors) && !c.bypass && k >= 0 && k < len(c.processors)-1 && probe >= 0 && probe < len(buf))
	c.Process(buf)
	vc.Ensures("each processor works on what the one before it left", vc.Is32(c.p(k+1).in, c.p(k).out))
	vc.Ensures("the chain leaves what its last processor left", vc.Is32(buf[probe], c.p(len(c.processors)-1).out))
}

//vc:loop dsp.Chain.Process
func loopLink(c *Chain, buf []float32, it int) bool {
	return probe < 0 || probe >= len(buf) || vc.Forall(1, it, func(i int) bool { return vc.Is32(c.p(i).in, c.p(i-1).out) })
}

//vc:loop dsp.Chain.Process
func loopLast(c *Chain, buf []float32, it int) bool {
	return probe < 0 || probe >= len(buf) || it < 1 || vc.Is32(buf[probe], c.p(it-1).out)
}

//vc:contract props=C14
func ctr_ChainBypass(c *Chain, buf []float32, k, i int) {
	vc.Requires(tps(c.processors) && i >= 0 && i < len(buf))
	x, t := buf[i], clock
	c.SetBypass(true)
	c.Process(buf)
	vc.Ensures("a bypassed chain leaves every sample alone", vc.Is32(buf[i], x))
	vc.Ensures("a bypassed chain runs nothing", clock == t)
	c.SetBypass(false)
	c.Process(buf)
	vc.Ensures("the chain runs again after its bypass", clock == t+len(c.processors))
}

//vc:contract props=C14
func ctr_ChainReset(c *Chain, k int) {
	vc.Requires(tps(c.processors) && k >= 0 && k < len(c.processors))
	n, b := c.p(k).resets, c.bypass
	c.Reset()
	vc.Ensures("a reset reaches every processor, bypassed or not", c.p(k).resets == n+1)
	vc.Ensures("a reset changes neither chain nor bypass", c.bypass == b && tps(c.processors))
}

//vc:loop dsp.Chain.Reset
func loopReset(c *Chain, it int) bool {
	return tps(c.processors) && vc.Forall(0, it, func(i int) bool { return c.p(i).resets == vc.Pre(func() int { return c.p(i).resets })+1 })
}

//vc:loop dsp.Chain.Reset
func loopResetRest(c *Chain, it int) bool {
	return vc.Forall(it, len(c.processors), func(i int) bool { return c.p(i).resets == vc.Pre(func() int { return c.p(i).resets }) })
}

//vc:contract props=C14
func ctr_ChainAdd(c *Chain, p *tp, k int) {
	vc.Requires(tps(c.processors) && p != nil)
	n, b := len(c.processors), c.bypass
	var old *tp
	if k >= 0 && k < n {
		old = c.p(k)
	}
	r := c.Add(p)
	vc.Ensures("adding returns the chain", r == c)
	vc.Ensures("a processor is added at the end", c.Count() == n+1 && len(c.processors) == n+1 && c.p(n) == p && !c.IsEmpty() && c.bypass == b)
	vc.Ensures("earlier processors keep their places", k < 0 || k >= n || c.p(k) == old)
}

//vc:contract props=C14
func ctr_NewChain(s string) {
	c := NewChain(s)
	vc.Ensures("a new chain is empty and not bypassed", c.IsEmpty() && c.Count() == 0 && !c.bypass && c.name == s)
}

//vc:contract props=C14
func ctr_Builder(p, q *tp) {
	vc.Requires(p != nil && q != nil && p != q)
	c, err := NewBuilder("b").WithProcessor(p).WithProcessor(q).Build()
	vc.Ensures("a builder builds the chain it was told", err == nil && c != nil && c.Count() == 2 && c.p(0) == p && c.p(1) == q)
}

//vc:contract props=C14
func ctr_BuilderEmpty() {
	c, err := NewBuilder("b").Build()
	vc.Ensures("an empty chain is not built", c == nil && err != nil)
}

//vc:contract props=C14
func ctr_BuilderNil(p *tp) {
	vc.Requires(p != nil)
	c, err := NewBuilder("b").WithProcessor(p).WithProcessor(nil).Build()
	vc.Ensures("a chain with a missing processor is not built", c == nil && err != nil)
	c, err = NewBuilder("b").WithFunc("f", nil).WithProcessor(p).Build()
	vc.Ensures("a chain with a missing function is not built", c == nil && err != nil)
}

//vc:contract props=C14
func ctr_StereoProcess(c *StereoChain, l, r []float32, k int) {
	vc.Requires(tss(c.processors) && !c.bypass && k >= 0 && k < len(c.processors))
	t, n := clock, c.p(k).n
	c.ProcessStereo(l, r)
	vc.Ensures("each processor runs once, in the order they were added", c.p(k).at == t+k+1 && c.p(k).n == n+1)
	vc.Ensures("each processor is given both buffers, left and right", same(c.p(k).l, l) && same(c.p(k).r, r))
	vc.Ensures("nothing else runs", clock == t+len(c.processors))
}

//vc:loop dsp.StereoChain.ProcessStereo
func loopSRan(c *StereoChain, it int) bool {
	t := vc.Pre(func() int { return clock })
	return clock == t+it && vc.Forall(0, it, func(i int) bool { return c.p(i).at == t+i+1 })
}

//vc:loop dsp.StereoChain.ProcessStereo
func loopSCount(c *StereoChain, it int) bool {
	return tss(c.processors) && vc.Forall(0, it, func(i int) bool { return c.p(i).n == vc.Pre(func() int { return c.p(i).n })+1 })
}

//vc:loop dsp.StereoChain.ProcessStereo
func loopSCountRest(c *StereoChain, it int) bool {
	return vc.Forall(it, len(c.processors), func(i int) bool { return c.p(i).n == vc.Pre(func() int { return c.p(i).n }) })
}

//vc:loop dsp.StereoChain.ProcessStereo
func loopSGivenL(c *StereoChain, l, r []float32, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return len(c.p(i).l) == len(l) && (len(l) == 0 || &c.p(i).l[0] == &l[0]) })
}

//vc:loop dsp.StereoChain.ProcessStereo
func loopSGivenR(c *StereoChain, l, r []float32, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return len(c.p(i).r) == len(r) && (len(r) == 0 || &c.p(i).r[0] == &r[0]) })
}

//vc:contract props=C14
func ctr_StereoBypass(c *StereoChain, l, r []float32) {
	vc.Requires(tss(c.processors))
	t := clock
	c.SetBypass(true)
	c.ProcessStereo(l, r)
	vc.Ensures("a bypassed chain runs nothing", clock == t)
	c.SetBypass(false)
	c.ProcessStereo(l, r)
	vc.Ensures("the chain runs again after its bypass", clock == t+len(c.processors))
}

//vc:contract props=C14
func ctr_StereoReset(c *StereoChain, k int) {
	vc.Requires(tss(c.processors) && k >= 0 && k < len(c.processors))
	n, b := c.p(k).resets, c.bypass
	c.Reset()
	vc.Ensures("a reset reaches every processor, bypassed or not", c.p(k).resets == n+1)
	vc.Ensures("a reset changes neither chain nor bypass", c.bypass == b && tss(c.processors))
}

//vc:loop dsp.StereoChain.Reset
func loopSReset(c *StereoChain, it int) bool {
	return tss(c.processors) && vc.Forall(0, it, func(i int) bool { return c.p(i).resets == vc.Pre(func() int { return c.p(i).resets })+1 })
}

//vc:loop dsp.StereoChain.Reset
func loopSResetRest(c *StereoChain, it int) bool {
	return vc.Forall(it, len(c.processors), func(i int) bool { return c.p(i).resets == vc.Pre(func() int { return c.p(i).resets }) })
}

//vc:contract props=C14
func ctr_StereoAdd(c *StereoChain, p *ts, k int) {
	vc.Requires(tss(c.processors) && p != nil)
	n := len(c.processors)
	var old *ts
	if k >= 0 && k < n {
		old = c.p(k)
	}
	r := c.Add(p)
	vc.Ensures("a processor is added at the end", r == c && len(c.processors) == n+1 && c.p(n) == p)
	vc.Ensures("earlier processors keep their places", k < 0 || k >= n || c.p(k) == old)
}

//vc:contract props=C14
func ctr_StereoBuilder(p, q *ts) {
	vc.Requires(p != nil && q != nil && p != q)
	c, err := NewStereoBuilder("b").WithProcessor(p).WithProcessor(q).Build()
	vc.Ensures("a builder builds the chain it was told", err == nil && c != nil && len(c.processors) == 2 && c.p(0) == p && c.p(1) == q)
	c, err = NewStereoBuilder("b").Build()
	vc.Ensures("an empty chain is not built", c == nil && err != nil)
	c, err = NewStereoBuilder("b").WithProcessor(nil).WithProcessor(p).Build()
	vc.Ensures("a chain with a missing processor is not built", c == nil && err != nil)
}

func parOK(c *ParallelChain) bool {
	return tps(c.chains) && len(c.gains) == len(c.chains)
}

//vc:contract props=C14
func ctr_ParallelOff(c *ParallelChain, buf []float32, i int) {
	vc.Requires(parOK(c) && (c.bypass || len(c.chains) == 0) && i >= 0 && i < len(buf))
	x, t := buf[i], clock
	c.Process(buf)
	vc.Ensures("bypassed or empty, every sample is left alone", vc.Is32(buf[i], x))
	vc.Ensures("bypassed or empty, nothing runs", clock == t)
}

//vc:contract props=C14
func ctr_ParallelAdd(c *ParallelChain, p *tp, gain float32, k int) {
	vc.Requires(parOK(c) && p != nil)
	n := len(c.chains)
	var old *tp
	var og float32
	if k >= 0 && k < n {
		old, og = c.p(k), c.gains[k]
	}
	r := c.Add(p, gain)
	vc.Ensures("a branch is added at the end with its gain", r == c && len(c.chains) == n+1 && len(c.gains) == n+1 && c.p(n) == p && vc.Is32(c.gains[n], gain))
	vc.Ensures("earlier branches keep their places and gains", k < 0 || k >= n || c.p(k) == old && vc.Is32(c.gains[k], og))
}

//vc:contract props=C14
func ctr_ParallelReset(c *ParallelChain, k int) {
	vc.Requires(parOK(c) && k >= 0 && k < len(c.chains))
	n, b := c.p(k).resets, c.bypass
	c.Reset()
	vc.Ensures("a reset reaches every branch, bypassed or not", c.p(k).resets == n+1)
	vc.Ensures("a reset changes neither branches nor bypass", c.bypass == b && parOK(c))
}

//vc:loop dsp.ParallelChain.Reset
func loopPReset(c *ParallelChain, it int) bool {
	return tps(c.chains) && vc.Forall(0, it, func(i int) bool { return c.p(i).resets == vc.Pre(func() int { return c.p(i).resets })+1 })
}

//vc:loop dsp.ParallelChain.Reset
func loopPResetRest(c *ParallelChain, it int) bool {
	return vc.Forall(it, len(c.chains), func(i int) bool { return c.p(i).resets == vc.Pre(func() int { return c.p(i).resets }) })
}

// the mix of any number of branches, run
//
//vc:contract props=C14 bounded=1
func ctr_Parallel(c *ParallelChain, buf []float32) {
	vc.Requires(parOK(c) && !c.bypass && len(c.chains) > 0)
	in, ok, t := vc.Snap(buf), true, clock
	c.Process(buf)
	for k := range c.chains {
		p := c.p(k)
		ok = ok && len(p.buf) == len(buf) && p.at == t+k+1 && (probe < 0 || probe >= len(buf) || vc.Same32(p.in, in[probe]))
	}
	vc.Ensures("each branch runs once, on a copy of the input", ok && clock == t+len(c.chains))
	for i := range buf {
		var sum float32
		for k := range c.chains {
			x := in[i]
			if i == probe {
				x = c.p(k).out
			}
			sum += x * c.gains[k]
		}
		ok = ok && vc.Near32(buf[i], sum)
	}
	vc.Ensures("the branches are mixed with their gains", ok)
}
