package midi

import "github.com/justyntemme/vst3go/internal/vc"

// in-range sub-sequence of an ordered sequence s: [a, b)
func lowerBound(s []Event, x int32) int {
	a := 0
	for a < len(s) && s[a].SampleOffset() < x {
		a++
	}
	return a
}

//vc:loop midi.lowerBound
func loopLower(s []Event, x int32, phi int) bool {
	return 0 <= phi && phi <= len(s) && vc.Forall(0, phi, func(k int) bool { return s[k].SampleOffset() < x })
}

//vc:loop midi.EventQueue.GetEventsInRange
func loopRangeEnd(q *EventQueue, start, end int32, phi int) bool {
	return 0 <= phi && phi <= len(q.events) && vc.Forall(0, phi, func(k int) bool { return q.events[k].SampleOffset() < start || q.events[k].SampleOffset() < end })
}

//vc:loop midi.EventQueue.GetEventsInRange
func loopRangeStart(q *EventQueue, start, end int32, it int, phi int) bool {
	return phi-it >= 0 && phi-it <= len(q.events) && vc.Forall(0, phi-it, func(k int) bool { return q.events[k].SampleOffset() < start }) &&
		vc.Forall(phi-it, len(q.events), func(k int) bool { return q.events[k].SampleOffset() >= start })
}

//vc:contract props=C08
func ctr_NewEventQueue() {
	q := NewEventQueue()
	vc.Ensures("a new queue is empty", len(q.events) == 0 && q.Size() == 0 && q.IsEmpty())
	vc.Aux("queue invariant", invQueue(q))
}

//vc:contract props=C08
func ctr_Add(q *EventQueue, e Event) {
	vc.Inv(invQueue(q))
	vc.Requires(e != nil)
	old := vc.Snap(q.events)
	q.Add(e)
	vc.Ensures("the queue holds one event more", len(q.events) == len(old)+1)
	vc.Ensures("the added event is pending", q.events[len(old)] == e)
	vc.Ensures("earlier events stay pending in order", vc.Forall(0, len(old), func(i int) bool { return q.events[i] == old[i] }))
	vc.Aux("queue invariant", invQueue(q))
}

//vc:contract props=C08
func ctr_AddMultiple(q *EventQueue, es []Event) {
	vc.Inv(invQueue(q))
	vc.Requires(nonNil(es))
	vc.Inv(vc.Sep(q.events, es))
	old := vc.Snap(q.events)
	q.AddMultiple(es)
	vc.Ensures("the queue holds all added events", len(q.events) == len(old)+len(es))
	vc.Ensures("added events are pending in order", vc.Forall(0, len(es), func(i int) bool { return q.events[len(old)+i] == es[i] }))
	vc.Ensures("earlier events stay pending in order", vc.Forall(0, len(old), func(i int) bool { return q.events[i] == old[i] }))
	vc.Aux("queue invariant", invQueue(q))
}

//vc:contract props=C08
func ctr_GetAllEvents(q *EventQueue) {
	vc.Inv(invQueue(q))
	old := vc.Snap(q.events)
	r := q.GetAllEvents()
	vc.Ensures("all pending events are returned in stable offset order", vc.StableSort(old, r, byOffset))
	vc.Ensures("pending events are the returned ones", len(q.events) == len(r) && vc.Forall(0, len(r), func(i int) bool { return q.events[i] == r[i] }))
	vc.Aux("queue invariant", invQueue(q))
	vc.Aux("result does not share memory with the queue", vc.Sep(r, q.events))
}

//vc:contract props=C08
func ctr_GetEventsInRange(q *EventQueue, start, end int32) {
	vc.Inv(invQueue(q))
	old := vc.Snap(q.events)
	r := q.GetEventsInRange(start, end)
	s := q.events
	vc.Ensures("reading the queue keeps every pending event, in stable offset order if reordered", vc.StableSort(old, s, byOffset) || vc.Same(old, s))
	vc.Ensures("returned events lie in the range", vc.Forall(0, len(r), func(i int) bool { return start <= r[i].SampleOffset() && r[i].SampleOffset() < end }))
	a := lowerBound(s, start)
	vc.Ensures("returned events are consecutive pending events", a+len(r) <= len(s) && vc.Forall(0, len(r), func(i int) bool { return r[i] == s[a+i] }))
	vc.Ensures("every pending event in the range is returned", vc.Forall(0, len(s), func(k int) bool {
		o := s[k].SampleOffset()
		return !(start <= o && o < end) || (a <= k && k < a+len(r))
	}))
	vc.Aux("queue invariant", invQueue(q))
	vc.Aux("result does not share memory with the queue", vc.Sep(r, q.events))
}

// number of leading events of s that lie at or before x
func upperBound(s []Event, x int32) int {
	a := 0
	for a < len(s) && s[a].SampleOffset() <= x {
		a++
	}
	return a
}

//vc:loop midi.upperBound
func loopUpper(s []Event, x int32, phi int) bool {
	return 0 <= phi && phi <= len(s) && vc.Forall(0, phi, func(k int) bool { return s[k].SampleOffset() <= x })
}

//vc:contract props=C08
func ctr_RemoveProcessedEvents(q *EventQueue, upTo int32) {
	vc.Inv(invQueue(q))
	all := vc.Snap(q.GetAllEvents())
	q.RemoveProcessedEvents(upTo)
	s := q.events
	a := upperBound(all, upTo)
	vc.Ensures("exactly the events up to the position are removed", len(s) == len(all)-a)
	vc.Ensures("later events stay pending in order", vc.Forall(0, len(s), func(i int) bool { return s[i] == all[a+i] }))
	vc.Aux("queue invariant", invQueue(q))
}

//vc:loop midi.EventQueue.RemoveProcessedEvents
func loopRemoveIdx(q *EventQueue, upTo int32, phi int) bool {
	return 0 <= phi && phi <= len(q.events) && vc.Forall(0, phi, func(k int) bool { return q.events[k].SampleOffset() <= upTo })
}

//vc:contract props=C08
func ctr_Clear(q *EventQueue) {
	vc.Inv(invQueue(q))
	q.Clear()
	vc.Ensures("a cleared queue is empty", len(q.events) == 0 && q.Size() == 0 && q.IsEmpty())
	vc.Aux("queue invariant", invQueue(q))
}

//vc:contract props=C08
func ctr_Size(q *EventQueue) {
	vc.Inv(invQueue(q))
	vc.Ensures("size counts the pending events", q.Size() == len(q.events) && q.IsEmpty() == (len(q.events) == 0))
}

//vc:contract props=C08
func ctr_OffsetEvents(q *EventQueue, d int32) {
	vc.Inv(invQueue(q))
	vc.Inv(vc.Forall(0, len(q.events), func(i int) bool { return known(q.events[i]) }))
	old := vc.Snap(q.events)
	q.OffsetEvents(d)
	vc.Ensures("no event is lost", len(q.events) == len(old))
	vc.Ensures("every event moves by the given number of samples", vc.Forall(0, len(old), func(i int) bool {
		return q.events[i].SampleOffset() == old[i].SampleOffset()+d && q.events[i].Type() == old[i].Type() && q.events[i].Channel() == old[i].Channel()
	}))
	vc.Aux("queue invariant", invQueue(q))
}

//vc:loop midi.EventQueue.OffsetEvents
func loopOffset(q *EventQueue, d int32, it int) bool {
	return nonNil(q.events) && vc.Forall(0, it, func(i int) bool {
		o := vc.Pre(func() Event { return q.events[i] })
		return q.events[i].SampleOffset() == o.SampleOffset()+d && q.events[i].Type() == o.Type() && q.events[i].Channel() == o.Channel()
	}) && vc.Forall(it, len(q.events), func(i int) bool {
		return q.events[i] == vc.Pre(func() Event { return q.events[i] })
	})
}
