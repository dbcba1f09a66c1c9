package midi

import (
	"sync"
	"sync/atomic"

	"github.com/justyntemme/vst3go/internal/vc"
)

//vc:guard midi.EventQueue mu events sorted

//vc:contract props=C09 lock=1
func ctr_LockAdd(q *EventQueue, e Event) { q.Add(e) }

//vc:contract props=C09 lock=1
func ctr_LockAddMultiple(q *EventQueue, es []Event) { q.AddMultiple(es) }

//vc:contract props=C09 lock=1
func ctr_LockGetAllEvents(q *EventQueue) {
	r := q.GetAllEvents()
	vc.Ensures("returned events do not share memory with the queue", vc.Sep(r, q.events))
}

//vc:contract props=C09 lock=1
func ctr_LockGetEventsInRange(q *EventQueue, start, end int32) {
	r := q.GetEventsInRange(start, end)
	vc.Ensures("returned events do not share memory with the queue", vc.Sep(r, q.events))
}

//vc:contract props=C09 lock=1
func ctr_LockRemoveProcessedEvents(q *EventQueue, upTo int32) { q.RemoveProcessedEvents(upTo) }

//vc:contract props=C09 lock=1
func ctr_LockClear(q *EventQueue) { q.Clear() }

//vc:contract props=C09 lock=1
func ctr_LockSize(q *EventQueue) { q.Size() }

//vc:contract props=C09 lock=1
func ctr_LockIsEmpty(q *EventQueue) { q.IsEmpty() }

//vc:contract props=C09 lock=1
func ctr_LockOffsetEvents(q *EventQueue, offset int32) { q.OffsetEvents(offset) }

type lockSink struct{ n int }

func (s *lockSink) ProcessEvent(e Event) { s.n++ }

//vc:closed midi.EventProcessor *midi.lockSink

//vc:contract props=C09 lock=1
func ctr_LockProcessEvents(q *EventQueue, start, end int32) {
	q.ProcessEvents(&lockSink{}, start, end)
}

//vc:contract props=C09 lock=1
func ctr_LockBufferInput(b *EventBuffer, e Event) { b.AddInputEvent(e) }

//vc:contract props=C09 lock=1
func ctr_LockBufferOutput(b *EventBuffer, e Event) { b.AddOutputEvent(e) }

//vc:contract props=C09 lock=1
func ctr_LockBufferGetInput(b *EventBuffer, start, end int32) { b.GetInputEvents(start, end) }

//vc:contract props=C09 lock=1
func ctr_LockBufferGetOutput(b *EventBuffer) { b.GetOutputEvents() }

// ---- concurrent executions, under the race detector ----

type queueOp struct {
	kind int
	e    Event
	es   []Event
	x, y int32
}

func gen_QueueOps(g *vc.G) []queueOp {
	var r []queueOp
	for n := g.Range(1, 6); n > 0; n-- {
		r = append(r, queueOp{g.N(9), gen_Event(g), gen_Events(g), int32(g.Range(-3, 12)), int32(g.Range(-3, 12))})
	}
	return r
}

// together runs functions concurrently; ok: none of them panicked.
func together(fs ...func()) bool {
	var wg sync.WaitGroup
	var failed atomic.Bool
	start := make(chan bool)
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					failed.Store(true)
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	return !failed.Load()
}

func touch(r []Event) {
	for i := range r {
		r[i] = nil
	}
}

func (o queueOp) run(q *EventQueue) {
	switch o.kind {
	case 0:
		q.Add(o.e)
	case 1:
		q.AddMultiple(o.es)
	case 2:
		touch(q.GetAllEvents())
	case 3:
		touch(q.GetEventsInRange(o.x, o.y))
	case 4:
		q.Size()
	case 5:
		q.IsEmpty()
	case 6:
		q.OffsetEvents(o.x)
	case 7:
		q.RemoveProcessedEvents(o.x)
	case 8:
		q.Clear()
	}
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressQueue(q *EventQueue, a, b, c []queueOp) {
	do := func(l []queueOp) func() {
		return func() {
			for _, o := range l {
				o.run(q)
			}
		}
	}
	vc.Ensures("concurrent operations do not panic", together(do(a), do(b), do(c)))
	vc.Ensures("the queue is intact after concurrent operations", nonNil(q.events) && (!q.sorted || ordered(q.events)))
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressQueueKeeps(q *EventQueue, a, b, c []queueOp) {
	q.Clear()
	var added atomic.Int64
	add := func(l []queueOp) func() {
		return func() {
			for _, o := range l {
				switch o.kind {
				case 0, 2, 4, 6:
					q.Add(NoteOnEvent{BaseEvent: BaseEvent{Offset: 100 + o.x}})
					added.Add(1)
				case 1, 3, 5:
					q.AddMultiple([]Event{NoteOnEvent{BaseEvent: BaseEvent{Offset: 100 + o.x}}, NoteOffEvent{BaseEvent: BaseEvent{Offset: 100 + o.y}}})
					added.Add(2)
				case 7:
					q.GetAllEvents()
				case 8:
					q.GetEventsInRange(o.x, 100+o.y)
				}
			}
		}
	}
	read := func() {
		for _, o := range c {
			switch o.kind {
			case 0, 1, 2, 3, 4:
				q.RemoveProcessedEvents(o.x)
			case 5, 6:
				q.OffsetEvents(1)
			default:
				q.GetAllEvents()
			}
		}
	}
	vc.Ensures("concurrent operations do not panic", together(add(a), add(b), read))
	vc.Ensures("no event is lost or duplicated by concurrent operations", q.Size() == int(added.Load()) && len(q.GetAllEvents()) == int(added.Load()))
}
