package midi

import "github.com/justyntemme/vst3go/internal/vc"

//vc:pure midi.Event.SampleOffset midi.Event.Channel midi.Event.Type

// ordered: events are in non-decreasing sample-offset order.
func ordered(s []Event) bool {
	return vc.Forall(0, len(s), func(i int) bool {
		return vc.Forall(0, len(s), func(j int) bool {
			return !(i < j) || s[i].SampleOffset() <= s[j].SampleOffset()
		})
	})
}

func nonNil(s []Event) bool {
	return vc.Forall(0, len(s), func(i int) bool { return s[i] != nil })
}

// invQueue is the representation invariant of EventQueue.
func invQueue(q *EventQueue) bool {
	return vc.Whole(q.events) && nonNil(q.events) && (!q.sorted || ordered(q.events))
}

func byOffset(a, b Event) bool { return a.SampleOffset() < b.SampleOffset() }

// ---- loop annotations ----

//vc:loop sort.Search
func loopSearch(n int, f func(int) bool, phi_i, phi_j int) bool {
	return 0 <= phi_i && phi_i <= phi_j && phi_j <= n &&
		vc.Forall(0, phi_i, func(k int) bool { return !f(k) }) &&
		vc.Forall(phi_j, n, func(k int) bool { return f(k) })
}

// ---- concrete inputs ----

func gen_Event(g *vc.G) Event {
	b := BaseEvent{EventChannel: uint8(g.N(16)), Offset: int32(g.Range(-3, 12))}
	if g.N(12) == 0 {
		b.Offset = int32(g.Int())
	}
	n, v := uint8(g.Range(0, 127)), uint8(g.Range(0, 127))
	switch g.Pick(11) {
	case 0:
		return NoteOnEvent{b, n, v}
	case 1:
		return NoteOffEvent{b, n, v}
	case 2:
		return ControlChangeEvent{b, n, v}
	case 3:
		return PitchBendEvent{b, int16(int(n)*100 - 6400)}
	case 4:
		return PolyPressureEvent{b, n, v}
	case 5:
		return ChannelPressureEvent{b, n}
	case 6:
		return ProgramChangeEvent{b, n}
	case 7:
		return ClockEvent{b}
	case 8:
		return StartEvent{b}
	case 9:
		return StopEvent{b}
	}
	return ContinueEvent{b}
}

func gen_Events(g *vc.G) []Event {
	n := g.Range(0, 9)
	r := make([]Event, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, gen_Event(g))
	}
	return r
}

func gen_EventQueue(g *vc.G) *EventQueue {
	q := NewEventQueue()
	for k := g.Range(0, 6); k > 0; k-- {
		switch g.Pick(7) {
		case 0, 1:
			q.Add(gen_Event(g))
		case 2:
			q.AddMultiple(gen_Events(g))
		case 3:
			q.GetAllEvents()
		case 4:
			q.RemoveProcessedEvents(int32(g.Range(-3, 12)))
		case 5:
			q.OffsetEvents(int32(g.Range(-4, 4)))
		case 6:
			q.GetEventsInRange(int32(g.Range(-3, 12)), int32(g.Range(-3, 12)))
		}
	}
	return q
}

// known: one of the event types of this package.
func known(e Event) bool {
	switch e.(type) {
	case NoteOnEvent, NoteOffEvent, ControlChangeEvent, PitchBendEvent, PolyPressureEvent, ChannelPressureEvent, ProgramChangeEvent, ClockEvent, StartEvent, StopEvent, ContinueEvent:
		return true
	}
	return false
}

// ---- input and output queues of a block ----

func invBuffer(b *EventBuffer) bool {
	return b.inputQueue != nil && b.outputQueue != nil && b.inputQueue != b.outputQueue &&
		invQueue(b.inputQueue) && invQueue(b.outputQueue) && vc.Sep(b.inputQueue.events, b.outputQueue.events)
}

func gen_EventBuffer(g *vc.G) *EventBuffer {
	b := NewEventBuffer()
	for k := g.Range(0, 8); k > 0; k-- {
		switch g.Pick(6) {
		case 0, 1:
			b.AddInputEvent(gen_Event(g))
		case 2, 3:
			b.AddOutputEvent(gen_Event(g))
		case 4:
			b.GetInputEvents(int32(g.Range(-3, 12)), int32(g.Range(-3, 12)))
		case 5:
			b.GetOutputEvents()
		}
	}
	return b
}

// For contracts of other packages.
func VCBufferOK(b *EventBuffer) bool     { return invBuffer(b) }
func VCInput(b *EventBuffer) []Event     { return b.inputQueue.events }
func VCOutput(b *EventBuffer) []Event    { return b.outputQueue.events }
func VCGenBuffer(g *vc.G) *EventBuffer   { return gen_EventBuffer(g) }
func VCGenEvent(g *vc.G) Event           { return gen_Event(g) }
