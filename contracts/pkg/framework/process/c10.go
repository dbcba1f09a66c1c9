package process

import (
	"github.com/justyntemme/vst3go/internal/vc"
	"github.com/justyntemme/vst3go/pkg/framework/bus"
)

func ctxOK(c *Context) bool { return apart(c.Output) && noOverlap(c.Output, c.Input) }

// carried: every channel both sides have carries its input, for as many
// samples as both sides have; everything else is as before.
func carried(in, out, oin, oout [][]float32) bool {
	return len(in) == len(oin) && len(out) == len(oout) && vc.Forall(0, len(out), func(k int) bool {
		return len(out[k]) == len(oout[k]) && vc.Forall(0, len(out[k]), func(i int) bool {
			return (k >= len(in) || i >= len(in[k]) || vc.Same32(out[k][i], oin[k][i])) &&
				(k < len(in) && i < len(in[k]) || vc.Same32(out[k][i], oout[k][i]))
		})
	})
}

func kept(in, oin [][]float32) bool {
	return len(in) == len(oin) && vc.Forall(0, len(in), func(k int) bool { return sameSamples(in[k], oin[k]) })
}

//vc:contract props=C10
func ctr_PassThrough(c *Context) {
	vc.Requires(ctxOK(c))
	o := vc.Old(c)
	c.PassThrough()
	vc.Ensures("shared channels carry their input, other outputs stay", carried(c.Input, c.Output, o.Input, o.Output))
	vc.Ensures("inputs are untouched", kept(c.Input, o.Input))
}

//vc:contract props=C10
func ctr_CopyInputToOutput(c *Context) {
	vc.Requires(ctxOK(c))
	o := vc.Old(c)
	c.CopyInputToOutput()
	vc.Ensures("shared channels carry their input, other outputs stay", carried(c.Input, c.Output, o.Input, o.Output))
	vc.Ensures("inputs are untouched", kept(c.Input, o.Input))
}

//vc:contract props=C10
func ctr_Clear(c *Context) {
	vc.Requires(ctxOK(c))
	o := vc.Old(c)
	c.Clear()
	vc.Ensures("outputs are silent", vc.Forall(0, len(c.Output), func(k int) bool {
		return vc.Forall(0, len(c.Output[k]), func(i int) bool { return c.Output[k][i] == 0 })
	}))
	vc.Ensures("inputs are untouched", kept(c.Input, o.Input))
}

//vc:contract props=C10
func ctr_ProcessChannels(c *Context) {
	vc.Requires(ctxOK(c))
	o := vc.Old(c)
	c.ProcessChannels(func(ch int, in, out []float32) {
		vc.Ensures("channel numbers stay within both sides", 0 <= ch && ch < len(c.Input) && ch < len(c.Output))
		vc.Ensures("a channel is processed with its own buffers", len(in) == len(c.Input[ch]) && len(out) == len(c.Output[ch]))
		copy(out, in)
	})
	vc.Ensures("shared channels are processed, other outputs stay", carried(c.Input, c.Output, o.Input, o.Output))
}

//vc:contract props=C10
func ctr_ProcessStereo(c *Context) {
	vc.Requires(ctxOK(c))
	o := vc.Old(c)
	c.ProcessStereo(func(ch int, in, out []float32) {
		vc.Ensures("at most two channels are processed", 0 <= ch && ch < 2 && ch < len(c.Input) && ch < len(c.Output))
		copy(out, in)
	})
	vc.Ensures("the first two shared channels are processed", vc.Forall(0, len(c.Output), func(k int) bool {
		return vc.Forall(0, len(c.Output[k]), func(i int) bool {
			return (k >= 2 || k >= len(c.Input) || i >= len(c.Input[k]) || vc.Same32(c.Output[k][i], o.Input[k][i])) &&
				(k < 2 && k < len(c.Input) && i < len(c.Input[k]) || vc.Same32(c.Output[k][i], o.Output[k][i]))
		})
	}))
}

//vc:contract props=C10
func ctr_ProcessMono(c *Context) {
	vc.Requires(ctxOK(c))
	o := vc.Old(c)
	c.ProcessMono(func(in, out []float32) { copy(out, in) })
	vc.Ensures("only the first channel is processed", vc.Forall(0, len(c.Output), func(k int) bool {
		return vc.Forall(0, len(c.Output[k]), func(i int) bool {
			return (k > 0 || len(c.Input) == 0 || i >= len(c.Input[0]) || vc.Same32(c.Output[k][i], o.Input[0][i])) &&
				(k == 0 && len(c.Input) > 0 && i < len(c.Input[0]) || vc.Same32(c.Output[k][i], o.Output[k][i]))
		})
	}))
}

//vc:contract props=C10 bounded=1
func ctr_ProcessSeparately(c *Context) {
	vc.Requires(ctxOK(c))
	o := vc.Old(c)
	c.ProcessChannelsSeparately(func(in, out []float32) { copy(out, in) }, func(in, out []float32) { copy(out, in) })
	vc.Ensures("each channel with a function is processed", vc.Forall(0, len(c.Output), func(k int) bool {
		return vc.Forall(0, len(c.Output[k]), func(i int) bool {
			return (k >= 2 || k >= len(c.Input) || i >= len(c.Input[k]) || vc.Same32(c.Output[k][i], o.Input[k][i])) &&
				(k < 2 && k < len(c.Input) && i < len(c.Input[k]) || vc.Same32(c.Output[k][i], o.Output[k][i]))
		})
	}))
}

// even: every channel has as many samples as the block.
func even(c *Context) bool {
	return vc.Forall(0, len(c.Input), func(k int) bool { return len(c.Input[k]) == c.NumSamples() }) &&
		vc.Forall(0, len(c.Output), func(k int) bool { return len(c.Output[k]) == c.NumSamples() })
}

func gen_ProcessSamples_c(g *vc.G) *Context {
	c := gen_Context(g)
	n := g.Range(0, 4)
	for _, bs := range [][][]float32{c.Input, c.Output} {
		for k := range bs {
			bs[k] = make([]float32, n)
			for i := range bs[k] {
				bs[k][i] = float32(g.Float())
			}
		}
	}
	return c
}

//vc:contract props=C10
func ctr_ProcessSamples(c *Context) {
	vc.Requires(ctxOK(c) && even(c))
	c.ProcessSamples(func(s int, in, out []float32) {
		vc.Ensures("sample numbers stay within the block", 0 <= s && s < c.NumSamples() && len(in) == len(out) && len(in) == c.GetNumChannels())
	})
}

//vc:contract props=C10 bounded=1
func ctr_ProcessSamplesResult(c *Context) {
	vc.Requires(ctxOK(c) && even(c))
	o := vc.Old(c)
	c.ProcessSamples(func(s int, in, out []float32) {
		vc.Ensures("the inputs of a sample are those of its channels", vc.Forall(0, len(in), func(k int) bool { return vc.Same32(in[k], c.Input[k][s]) }))
		copy(out, in)
	})
	vc.Ensures("every shared channel is processed sample by sample", carried(c.Input, c.Output, o.Input, o.Output))
}

func gen_ProcessSamplesResult_c(g *vc.G) *Context { return gen_ProcessSamples_c(g) }

//vc:contract props=C10
func ctr_Sizes(c *Context) {
	vc.Requires(c.NumSamples() <= len(c.workBuffer) && c.NumSamples() <= len(c.tempBuffer))
	n := c.NumSamples()
	vc.Ensures("the block size is that of the first input, else of the first output",
		(len(c.Input) == 0 || len(c.Input[0]) == 0 || n == len(c.Input[0])) &&
			(len(c.Input) > 0 && len(c.Input[0]) > 0 || len(c.Output) == 0 || n == len(c.Output[0])) &&
			(len(c.Input) > 0 || len(c.Output) > 0 || n == 0))
	vc.Ensures("scratch buffers have the size of the block", len(c.WorkBuffer()) == n && len(c.TempBuffer()) == n)
	vc.Ensures("channel counts are those of the buffers", c.NumInputChannels() == len(c.Input) && c.NumOutputChannels() == len(c.Output) &&
		c.GetNumChannels() == minInt(len(c.Input), len(c.Output)) && c.GetNumStereoChannels() == minInt(2, minInt(len(c.Input), len(c.Output))))
}

//vc:loop process.Context.PassThrough process.Context.ProcessChannels process.Context.ProcessStereo process.Context.ProcessChannelsSeparately
func loopPassDone(c *Context, it int) bool {
	return vc.Forall(0, it, func(k int) bool {
		return vc.Forall(0, minInt(len(c.Input[k]), len(c.Output[k])), func(i int) bool {
			return vc.Same32(c.Output[k][i], vc.Pre(func() float32 { return c.Input[k][i] }))
		})
	})
}

//vc:loop process.Context.PassThrough process.Context.ProcessChannels process.Context.ProcessStereo process.Context.ProcessChannelsSeparately
func loopPassRest(c *Context, it int) bool {
	return vc.Forall(0, len(c.Output), func(k int) bool {
		return vc.Forall(0, len(c.Output[k]), func(i int) bool {
			return k < it && k < len(c.Input) && i < len(c.Input[k]) || vc.Same32(c.Output[k][i], vc.Pre(func() float32 { return c.Output[k][i] }))
		})
	})
}

//vc:loop process.Context.PassThrough process.Context.ProcessChannels process.Context.ProcessStereo process.Context.ProcessChannelsSeparately process.Context.Clear
func loopInputsKept(c *Context) bool {
	return vc.Forall(0, len(c.Input), func(k int) bool {
		return vc.Forall(0, len(c.Input[k]), func(i int) bool {
			return vc.Same32(c.Input[k][i], vc.Pre(func() float32 { return c.Input[k][i] }))
		})
	})
}

//vc:loop process.Context.Clear
func loopClearDone(c *Context, it int) bool {
	return vc.Forall(0, it, func(k int) bool {
		return vc.Forall(0, len(c.Output[k]), func(i int) bool { return c.Output[k][i] == 0 })
	})
}

// ---- several buses ----

func gen_MultiBusContext(g *vc.G) *MultiBusContext {
	m := NewMultiBusContext(NewContext(8, nil), nil)
	mk := func() (bs []BusBuffers) {
		for n := g.Range(0, 3); n > 0; n-- {
			bs = append(bs, BusBuffers{Channels: gen_Buffers(g), BusInfo: &bus.Info{BusType: bus.Type(g.Range(0, 1)), IsActive: g.Bool()}})
		}
		return
	}
	m.InputBuses, m.OutputBuses = mk(), mk()
	return m
}

func infos(bs []BusBuffers) bool {
	return vc.Forall(0, len(bs), func(i int) bool { return bs[i].BusInfo != nil })
}

// firstOf: r is the channel list of the first bus of type t, nil if there is none.
func firstOf(r [][]float32, bs []BusBuffers, t bus.Type) bool {
	return vc.Forall(0, len(bs), func(i int) bool {
		return bs[i].BusInfo.BusType != t || vc.Exists(0, i, func(j int) bool { return bs[j].BusInfo.BusType == t }) || len(r) == len(bs[i].Channels) && (len(r) == 0 || &r[0] == &bs[i].Channels[0])
	}) && (r == nil || vc.Exists(0, len(bs), func(i int) bool { return bs[i].BusInfo.BusType == t }))
}

//vc:contract props=C10
func ctr_BusLookup(m *MultiBusContext, i int) {
	vc.Requires(infos(m.InputBuses) && infos(m.OutputBuses))
	vc.Ensures("the main input is the first main input bus", firstOf(m.GetMainInput(), m.InputBuses, bus.TypeMain))
	vc.Ensures("the main output is the first main output bus", firstOf(m.GetMainOutput(), m.OutputBuses, bus.TypeMain))
	vc.Ensures("the sidechain is the first auxiliary input bus", firstOf(m.GetSidechainInput(), m.InputBuses, bus.TypeAux))
	vc.Ensures("bus indices outside the count yield nothing", (i >= 0 && i < len(m.InputBuses) || m.GetInputBus(i) == nil && m.GetInputBusInfo(i) == nil) &&
		(i >= 0 && i < len(m.OutputBuses) || m.GetOutputBus(i) == nil && m.GetOutputBusInfo(i) == nil))
	vc.Ensures("a bus index leads to its bus", (i < 0 || i >= len(m.InputBuses) || len(m.GetInputBus(i)) == len(m.InputBuses[i].Channels) && m.GetInputBusInfo(i) == m.InputBuses[i].BusInfo) &&
		(i < 0 || i >= len(m.OutputBuses) || len(m.GetOutputBus(i)) == len(m.OutputBuses[i].Channels) && m.GetOutputBusInfo(i) == m.OutputBuses[i].BusInfo))
}

//vc:loop process.MultiBusContext.GetMainInput
func loopMainIn(m *MultiBusContext, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return m.InputBuses[i].BusInfo.BusType != bus.TypeMain })
}

//vc:loop process.MultiBusContext.GetMainOutput
func loopMainOut(m *MultiBusContext, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return m.OutputBuses[i].BusInfo.BusType != bus.TypeMain })
}

//vc:loop process.MultiBusContext.GetSidechainInput
func loopSide(m *MultiBusContext, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return m.InputBuses[i].BusInfo.BusType != bus.TypeAux })
}

//vc:contract props=C10
func ctr_ClearAllOutputs(m *MultiBusContext) {
	m.ClearAllOutputs()
	vc.Ensures("every output bus is silent", vc.Forall(0, len(m.OutputBuses), func(b int) bool { return silent(m.OutputBuses[b].Channels) }))
}

func silent(bs [][]float32) bool { return silentFrom(bs, len(bs)) }

func silentFrom(bs [][]float32, n int) bool {
	return vc.Forall(0, n, func(k int) bool { return vc.Forall(0, len(bs[k]), func(i int) bool { return bs[k][i] == 0 }) })
}

//vc:loop process.MultiBusContext.ClearAllOutputs
func loopClearBuses(m *MultiBusContext, it int) bool {
	return vc.Forall(0, it, func(b int) bool { return silent(m.OutputBuses[b].Channels) })
}

//vc:loop process.MultiBusContext.ClearAllOutputs
func loopClearBusesDone(m *MultiBusContext, outer int) bool {
	return vc.Forall(0, outer, func(b int) bool { return silent(m.OutputBuses[b].Channels) })
}

//vc:loop process.MultiBusContext.ClearAllOutputs
func loopClearBusChannels(m *MultiBusContext, outer, it int) bool {
	return silentFrom(m.OutputBuses[outer].Channels, it)
}
//vc:contract props=C10 bounded=1
func ctr_PassThroughAll(m *MultiBusContext) {
	o := vc.Old(m)
	m.PassThroughAll()
	vc.Ensures("every bus both sides have carries its input", len(m.OutputBuses) == len(o.OutputBuses) && vc.Forall(0, len(m.OutputBuses), func(b int) bool {
		return b >= len(m.InputBuses) || carried(m.InputBuses[b].Channels, m.OutputBuses[b].Channels, o.InputBuses[b].Channels, o.OutputBuses[b].Channels)
	}))
}

func sameBufs(a, b [][]float32) bool { return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0]) }

//vc:contract props=C10
func ctr_NewMultiBus(c *Context, cfg *bus.Configuration) {
	m := NewMultiBusContext(c, cfg)
	vc.Ensures("a new multi-bus context has its context, its configuration and no buses", m.Context == c && m.BusConfig == cfg && m.NumInputBuses() == 0 && m.NumOutputBuses() == 0)
}

// visit tallies the calls for bus j of one pass over the buses.
var visit struct{ j, n, last int }

//vc:contract props=C10
func ctr_EachInputBus(m *MultiBusContext, j int) {
	vc.Requires(infos(m.InputBuses) && 0 <= j && j < len(m.InputBuses))
	visit.j, visit.n, visit.last = j, 0, -1
	m.ProcessInputBuses(func(i int, chs [][]float32, info *bus.Info) {
		vc.Ensures("input buses are visited in order, with their own channels, if active", i > visit.last && i < m.NumInputBuses() && info == m.InputBuses[i].BusInfo && info.IsActive && sameBufs(chs, m.InputBuses[i].Channels))
		visit.last = i
		if i == visit.j {
			visit.n++
		}
	})
	vc.Ensures("every active input bus is visited exactly once", visit.n == active(m.InputBuses[j]))
}

//vc:loop process.MultiBusContext.ProcessInputBuses
func loopVisitInput(m *MultiBusContext, it int) bool {
	return visit.last < it && (visit.j >= it && visit.n == 0 || visit.j < it && visit.n == active(m.InputBuses[visit.j]))
}

//vc:loop process.MultiBusContext.ProcessInputBuses
func loopVisitInputJ(m *MultiBusContext, it int) bool {
	return visit.j == vc.Pre(func() int { return visit.j })
}

func gen_EachInputBus_j(g *vc.G) int { return g.Pick(3) }

//vc:contract props=C10
func ctr_EachOutputBus(m *MultiBusContext, j int) {
	vc.Requires(infos(m.OutputBuses) && 0 <= j && j < len(m.OutputBuses))
	visit.j, visit.n, visit.last = j, 0, -1
	m.ProcessOutputBuses(func(i int, chs [][]float32, info *bus.Info) {
		vc.Ensures("output buses are visited in order, with their own channels, if active", i > visit.last && i < m.NumOutputBuses() && info == m.OutputBuses[i].BusInfo && info.IsActive && sameBufs(chs, m.OutputBuses[i].Channels))
		visit.last = i
		if i == visit.j {
			visit.n++
		}
	})
	vc.Ensures("every active output bus is visited exactly once", visit.n == active(m.OutputBuses[j]))
}

//vc:loop process.MultiBusContext.ProcessOutputBuses
func loopVisitOutput(m *MultiBusContext, it int) bool {
	return visit.last < it && (visit.j >= it && visit.n == 0 || visit.j < it && visit.n == active(m.OutputBuses[visit.j]))
}

//vc:loop process.MultiBusContext.ProcessOutputBuses
func loopVisitOutputJ(m *MultiBusContext, it int) bool {
	return visit.j == vc.Pre(func() int { return visit.j })
}

func gen_EachOutputBus_j(g *vc.G) int { return g.Pick(3) }

func active(b BusBuffers) int {
	if b.BusInfo.IsActive {
		return 1
	}
	return 0
}

//vc:contract props=C10
func ctr_MainBuses(m *MultiBusContext) {
	vc.Requires(infos(m.InputBuses) && infos(m.OutputBuses))
	in, out := m.GetMainInput(), m.GetMainOutput()
	n := 0
	m.ProcessMainBuses(func(i, o [][]float32) {
		vc.Ensures("the main buses are handed over as they are", sameBufs(i, in) && sameBufs(o, out))
		n++
	})
	vc.Ensures("main processing happens once if both main buses exist", (n == 1) == (in != nil && out != nil) && n <= 1)
}

//vc:contract props=C10
func ctr_MainWithSidechain(m *MultiBusContext) {
	vc.Requires(infos(m.InputBuses) && infos(m.OutputBuses))
	in, side, out := m.GetMainInput(), m.GetSidechainInput(), m.GetMainOutput()
	n := 0
	m.ProcessWithSidechain(func(i, s, o [][]float32) {
		vc.Ensures("main buses and sidechain are handed over as they are", sameBufs(i, in) && sameBufs(o, out) && sameBufs(s, side))
		n++
	})
	vc.Ensures("sidechain processing happens once if both main buses exist", (n == 1) == (in != nil && out != nil) && n <= 1)
}
