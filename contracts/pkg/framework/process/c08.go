package process

import (
	"github.com/justyntemme/vst3go/internal/vc"
	"github.com/justyntemme/vst3go/pkg/midi"
)

// The events of a block: the context hands them on to its event buffer.

func evOK(c *Context) bool { return c.eventBuffer != nil && midi.VCBufferOK(c.eventBuffer) }

func gen_Events_c(g *vc.G) *Context {
	c := gen_Context(g)
	c.eventBuffer = midi.VCGenBuffer(g)
	return c
}

func gen_AddInput_c(g *vc.G) *Context    { return gen_Events_c(g) }
func gen_AddOutput_c(g *vc.G) *Context   { return gen_Events_c(g) }
func gen_GetInput_c(g *vc.G) *Context    { return gen_Events_c(g) }
func gen_GetAllInput_c(g *vc.G) *Context { return gen_Events_c(g) }
func gen_GetOutput_c(g *vc.G) *Context   { return gen_Events_c(g) }
func gen_ClearEvents_c(g *vc.G) *Context { return gen_Events_c(g) }
func gen_Process_c(g *vc.G) *Context     { return gen_Events_c(g) }
func gen_AddInput_e(g *vc.G) midi.Event  { return midi.VCGenEvent(g) }
func gen_AddOutput_e(g *vc.G) midi.Event { return midi.VCGenEvent(g) }

func sameEvents(s, old []midi.Event) bool {
	return len(s) == len(old) && vc.Forall(0, len(old), func(i int) bool { return s[i] == old[i] })
}

func plusEvent(s, old []midi.Event, e midi.Event) bool {
	return len(s) == len(old)+1 && s[len(old)] == e && vc.Forall(0, len(old), func(i int) bool { return s[i] == old[i] })
}

//vc:contract props=C08
func ctr_AddInput(c *Context, e midi.Event) {
	vc.Inv(evOK(c))
	vc.Requires(e != nil)
	in, out := vc.Snap(midi.VCInput(c.eventBuffer)), vc.Snap(midi.VCOutput(c.eventBuffer))
	c.AddInputEvent(e)
	vc.Ensures("an input event of the block is pending behind the earlier ones", plusEvent(midi.VCInput(c.eventBuffer), in, e))
	vc.Ensures("input leaves the output events of the block alone", sameEvents(midi.VCOutput(c.eventBuffer), out))
}

//vc:contract props=C08
func ctr_AddOutput(c *Context, e midi.Event) {
	vc.Inv(evOK(c))
	vc.Requires(e != nil)
	in, out := vc.Snap(midi.VCInput(c.eventBuffer)), vc.Snap(midi.VCOutput(c.eventBuffer))
	c.AddOutputEvent(e)
	vc.Ensures("an output event of the block is pending behind the earlier ones", plusEvent(midi.VCOutput(c.eventBuffer), out, e))
	vc.Ensures("output leaves the input events of the block alone", sameEvents(midi.VCInput(c.eventBuffer), in))
}

//vc:contract props=C08
func ctr_GetInput(c *Context, start, end int32) {
	vc.Inv(evOK(c))
	out := vc.Snap(midi.VCOutput(c.eventBuffer))
	want := c.eventBuffer.GetInputEvents(start, end)
	vc.Ensures("the block's events of a range are the pending ones in it", sameEvents(c.GetInputEvents(start, end), want))
	vc.Ensures("reading leaves the output events of the block alone", sameEvents(midi.VCOutput(c.eventBuffer), out))
}

//vc:contract props=C08
func ctr_GetAllInput(c *Context) {
	vc.Inv(evOK(c))
	vc.Requires(c.NumSamples() < 1<<30)
	want := c.eventBuffer.GetInputEvents(0, int32(c.NumSamples()))
	vc.Ensures("the events of the block are those within its samples", sameEvents(c.GetAllInputEvents(), want))
	vc.Ensures("the block has events exactly if there are any within its samples", c.HasInputEvents() == (len(want) > 0))
}

//vc:contract props=C08
func ctr_GetOutput(c *Context) {
	vc.Inv(evOK(c))
	in := vc.Snap(midi.VCInput(c.eventBuffer))
	want := c.eventBuffer.GetOutputEvents()
	vc.Ensures("the block's output events are all that were added", sameEvents(c.GetOutputEvents(), want))
	vc.Ensures("reading output leaves the input events of the block alone", sameEvents(midi.VCInput(c.eventBuffer), in))
}

//vc:contract props=C08
func ctr_ClearEvents(c *Context, which int) {
	vc.Inv(evOK(c))
	in, out := vc.Snap(midi.VCInput(c.eventBuffer)), vc.Snap(midi.VCOutput(c.eventBuffer))
	switch which {
	case 0:
		c.ClearInputEvents()
		vc.Ensures("clearing input drops the block's input events only", len(midi.VCInput(c.eventBuffer)) == 0 && sameEvents(midi.VCOutput(c.eventBuffer), out))
	case 1:
		c.ClearOutputEvents()
		vc.Ensures("clearing output drops the block's output events only", len(midi.VCOutput(c.eventBuffer)) == 0 && sameEvents(midi.VCInput(c.eventBuffer), in))
	default:
		c.ClearAllEvents()
		vc.Ensures("clearing drops all events of the block", len(midi.VCInput(c.eventBuffer)) == 0 && len(midi.VCOutput(c.eventBuffer)) == 0)
	}
}

func gen_ClearEvents_which(g *vc.G) int { return g.Pick(3) }

type evSink struct {
	want []midi.Event
	n    int
	bad  bool
}

func (r *evSink) ProcessEvent(e midi.Event) {
	if r.n >= len(r.want) || r.want[r.n] != e {
		r.bad = true
	}
	r.n++
}

//vc:closed midi.EventProcessor *process.evSink

//vc:contract props=C08
func ctr_Process(c *Context, start, end int32) {
	vc.Inv(evOK(c))
	s := &evSink{want: c.GetInputEvents(start, end)}
	c.ProcessEvents(s, start, end)
	vc.Ensures("the processor gets every event of the block's range once, in order", !s.bad && s.n == len(s.want))
}

//vc:loop process.Context.ProcessEvents
func loopSunk(c *Context, p midi.EventProcessor, start, end int32, it int) bool {
	s := p.(*evSink)
	return !s.bad && s.n == it
}
