package midi

import "github.com/justyntemme/vst3go/internal/vc"

// ---- input and output queues of a block ----

// kept: the queue still holds exactly these events in this order.
func kept(q *EventQueue, old []Event) bool {
	return len(q.events) == len(old) && vc.Forall(0, len(old), func(i int) bool { return q.events[i] == old[i] })
}

// grown: the queue holds the old events in order and the new one behind them.
func grown(q *EventQueue, old []Event, e Event) bool {
	return len(q.events) == len(old)+1 && q.events[len(old)] == e && vc.Forall(0, len(old), func(i int) bool { return q.events[i] == old[i] })
}

//vc:contract props=C08
func ctr_NewEventBuffer() {
	b := NewEventBuffer()
	vc.Ensures("a new buffer holds no events", len(b.inputQueue.events) == 0 && len(b.outputQueue.events) == 0)
	vc.Aux("buffer invariant", invBuffer(b))
}

//vc:contract props=C08
func ctr_BufferAddInput(b *EventBuffer, e Event) {
	vc.Inv(invBuffer(b))
	vc.Requires(e != nil)
	in, out := vc.Snap(b.inputQueue.events), vc.Snap(b.outputQueue.events)
	b.AddInputEvent(e)
	vc.Ensures("an input event is pending behind the earlier input events", grown(b.inputQueue, in, e))
	vc.Ensures("adding input leaves the output events alone", kept(b.outputQueue, out))
	vc.Aux("buffer invariant", invBuffer(b))
}

//vc:contract props=C08
func ctr_BufferAddOutput(b *EventBuffer, e Event) {
	vc.Inv(invBuffer(b))
	vc.Requires(e != nil)
	in, out := vc.Snap(b.inputQueue.events), vc.Snap(b.outputQueue.events)
	b.AddOutputEvent(e)
	vc.Ensures("an output event is pending behind the earlier output events", grown(b.outputQueue, out, e))
	vc.Ensures("adding output leaves the input events alone", kept(b.inputQueue, in))
	vc.Aux("buffer invariant", invBuffer(b))
}

//vc:contract props=C08
func ctr_BufferGetInput(b *EventBuffer, start, end int32) {
	vc.Inv(invBuffer(b))
	out := vc.Snap(b.outputQueue.events)
	r := b.GetInputEvents(start, end)
	s := b.inputQueue.events
	vc.Ensures("returned input events lie in the range", vc.Forall(0, len(r), func(i int) bool { return start <= r[i].SampleOffset() && r[i].SampleOffset() < end }))
	a := lowerBound(s, start)
	vc.Ensures("returned input events are consecutive pending events", a+len(r) <= len(s) && vc.Forall(0, len(r), func(i int) bool { return r[i] == s[a+i] }))
	vc.Ensures("every pending input event in the range is returned", vc.Forall(0, len(s), func(k int) bool {
		o := s[k].SampleOffset()
		return !(start <= o && o < end) || (a <= k && k < a+len(r))
	}))
	vc.Ensures("reading input leaves the output events alone", kept(b.outputQueue, out))
}

//vc:contract props=C08
func ctr_BufferGetOutput(b *EventBuffer) {
	vc.Inv(invBuffer(b))
	in, out := vc.Snap(b.inputQueue.events), vc.Snap(b.outputQueue.events)
	r := b.GetOutputEvents()
	vc.Ensures("all output events are returned in stable offset order", vc.StableSort(out, r, byOffset))
	vc.Ensures("reading output leaves the input events alone", kept(b.inputQueue, in))
}

//vc:contract props=C08
func ctr_BufferClearInput(b *EventBuffer) {
	vc.Inv(invBuffer(b))
	out := vc.Snap(b.outputQueue.events)
	b.ClearInput()
	vc.Ensures("clearing input drops every input event", len(b.inputQueue.events) == 0)
	vc.Ensures("clearing input leaves the output events alone", kept(b.outputQueue, out))
	vc.Aux("buffer invariant", invBuffer(b))
}

//vc:contract props=C08
func ctr_BufferClearOutput(b *EventBuffer) {
	vc.Inv(invBuffer(b))
	in := vc.Snap(b.inputQueue.events)
	b.ClearOutput()
	vc.Ensures("clearing output drops every output event", len(b.outputQueue.events) == 0)
	vc.Ensures("clearing output leaves the input events alone", kept(b.inputQueue, in))
	vc.Aux("buffer invariant", invBuffer(b))
}

//vc:contract props=C08
func ctr_BufferClearAll(b *EventBuffer) {
	vc.Inv(invBuffer(b))
	b.ClearAll()
	vc.Ensures("clearing everything drops input and output events", len(b.inputQueue.events) == 0 && len(b.outputQueue.events) == 0)
	vc.Aux("buffer invariant", invBuffer(b))
}

// ---- delivery to a processor ----

// evRec compares the events it is given with the expected ones.
type evRec struct {
	want []Event
	n    int
	bad  bool
}

func (r *evRec) ProcessEvent(e Event) {
	if r.n >= len(r.want) || r.want[r.n] != e {
		r.bad = true
	}
	r.n++
}

//vc:closed midi.EventProcessor *midi.evRec

//vc:contract props=C08
func ctr_QueueProcess(q *EventQueue, start, end int32) {
	vc.Inv(invQueue(q))
	rec := &evRec{want: q.GetEventsInRange(start, end)}
	q.ProcessEvents(rec, start, end)
	vc.Ensures("the processor gets every event of the range once, in order", !rec.bad && rec.n == len(rec.want))
	vc.Aux("queue invariant", invQueue(q))
}

//vc:loop midi.EventQueue.ProcessEvents
func loopDelivered(q *EventQueue, p EventProcessor, start, end int32, it int) bool {
	rec := p.(*evRec)
	return !rec.bad && rec.n == it
}
