package voice

import (
	"github.com/justyntemme/vst3go/internal/vc"
	"github.com/justyntemme/vst3go/pkg/midi"
)

//vc:unroll 1 voice.Allocator.noteOnPoly voice.Allocator.noteOffPoly voice.Allocator.forgetVoice voice.Allocator.noteOnMono

func gen_PolyNoteOn_a(g *vc.G) *Allocator  { return genMode(g, ModePoly) }
func gen_PolyNoteOff_a(g *vc.G) *Allocator { return genMode(g, ModePoly) }
func gen_PolySteal_a(g *vc.G) *Allocator   { return genMode(g, ModePoly) }
func gen_PolyPedal_a(g *vc.G) *Allocator   { return genMode(g, ModePoly) }
func gen_MonoNoteOn_a(g *vc.G) *Allocator  { return genMode(g, AllocationMode(g.Range(1, 2))) }
func gen_MonoNoteOff_a(g *vc.G) *Allocator { return genMode(g, AllocationMode(g.Range(1, 2))) }

func gen_PolyNoteOn_note(g *vc.G) uint8  { return genNote(g) }
func gen_PolyNoteOff_note(g *vc.G) uint8 { return genNote(g) }
func gen_PolySteal_note(g *vc.G) uint8   { return genNote(g) }
func gen_MonoNoteOn_note(g *vc.G) uint8  { return genNote(g) }
func gen_MonoNoteOff_note(g *vc.G) uint8 { return genNote(g) }
func gen_UnisonNoteOff_note(g *vc.G) uint8 { return genNote(g) }
func gen_Event_ev(g *vc.G) midi.Event {
	b := midi.BaseEvent{Offset: int32(g.N(64))}
	switch g.Pick(4) {
	case 0:
		return midi.NoteOnEvent{BaseEvent: b, NoteNumber: genNote(g), Velocity: uint8(g.Range(0, 3))}
	case 1:
		return midi.NoteOffEvent{BaseEvent: b, NoteNumber: genNote(g), Velocity: uint8(g.Range(0, 3))}
	case 2:
		return midi.ControlChangeEvent{BaseEvent: b, Controller: uint8(g.Range(63, 66)), Value: uint8(g.Range(62, 66))}
	}
	return midi.ProgramChangeEvent{BaseEvent: b}
}

func genNote(g *vc.G) uint8 {
	if g.N(8) == 0 {
		return uint8(g.Int())
	}
	return uint8(g.Range(0, 5))
}

func genMode(g *vc.G, m AllocationMode) *Allocator { return genAllocator(g, m) }

// sameVoice: voice i is as it was.
func sameVoice(a, o *Allocator, i int) bool {
	v, w := at(a, i), at(o, i)
	return v.on == w.on && v.held == w.held && v.note == w.note && v.vel == w.vel && v.age == w.age && v.trig == w.trig
}

// plays: voice i was triggered with this note since o.
func plays(a, o *Allocator, i int, note, vel uint8) bool {
	v := at(a, i)
	return v.on && v.held && v.note == note && v.vel == vel && v.trig == at(o, i).trig+1
}

//vc:contract props=C12
func ctr_PolyNoteOn(a *Allocator, note, vel uint8) {
	vc.Requires(StealOldest <= a.stealingMode && a.stealingMode <= StealNone)
	vc.Inv(invPoly(a))
	o := vc.Old(a)
	a.NoteOn(note, vel)
	vc.Ensures("a note changes no voice but the one that plays it", vc.Forall(0, len(a.voices), func(i int) bool {
		return sameVoice(a, o, i) || plays(a, o, i, note, vel) && a.noteToVoice[note][0] == i
	}))
	vc.Ensures("a note sounds unless stealing is off and every voice is busy", vc.Has(a.noteToVoice, note) && a.noteToVoice[note][0] < len(a.voices) && plays(a, o, a.noteToVoice[note][0], note, vel) ||
		o.stealingMode == StealNone && !vc.Has(o.noteToVoice, note) && busy(o))
	vc.Ensures("a note never takes a voice beyond the limit unless it already has it", vc.Has(o.noteToVoice, note) || !vc.Has(a.noteToVoice, note) || a.noteToVoice[note][0] < o.maxVoices)
	vc.Ensures("a pressed key is not held by the pedal", !vc.Has(a.sustainedNotes, note))
	vc.Aux("allocator invariant", invPoly(a))
}

func busy(a *Allocator) bool {
	return vc.Forall(0, a.maxVoices, func(i int) bool { return at(a, i).on })
}

//vc:contract props=C12
func ctr_PolySteal(a *Allocator, note, vel uint8) {
	vc.Requires(StealOldest <= a.stealingMode && a.stealingMode <= StealNone)
	vc.Inv(invPoly(a))
	vc.Requires(!vc.Has(a.noteToVoice, note))
	o := vc.Old(a)
	a.NoteOn(note, vel)
	vc.Ensures("a sounding voice is taken only when all are busy", vc.Forall(0, len(a.voices), func(i int) bool { return sameVoice(a, o, i) || !at(o, i).on || busy(o) }))
	vc.Ensures("the stolen voice is the one the stealing mode names", !busy(o) || vc.Forall(0, a.maxVoices, func(i int) bool {
		return sameVoice(a, o, i) || vc.Forall(0, a.maxVoices, func(j int) bool { return !worse(o, i, j) })
	}))
	vc.Ensures("without stealing a full allocator ignores notes", o.stealingMode != StealNone || !busy(o) || vc.Forall(0, len(a.voices), func(i int) bool { return sameVoice(a, o, i) }))
}

// worse: voice j must be stolen rather than voice i.
func worse(a *Allocator, i, j int) bool {
	if a.stealingMode == StealOldest || a.stealingMode == StealHighest {
		return value(a, j) > value(a, i)
	}
	return value(a, j) < value(a, i)
}

//vc:contract props=C12
func ctr_PolyNoteOff(a *Allocator, note, vel uint8) {
	vc.Inv(invPoly(a))
	o := vc.Old(a)
	a.NoteOff(note, vel)
	vc.Ensures("with the pedal up a released note's voice is released, and only that voice", o.sustainPedal || vc.Forall(0, len(a.voices), func(i int) bool {
		if vc.Has(o.noteToVoice, note) && i == o.noteToVoice[note][0] {
			return !at(a, i).held && at(a, i).on == at(o, i).on
		}
		return sameVoice(a, o, i)
	}))
	vc.Ensures("with the pedal down nothing is released", !o.sustainPedal || vc.Has(a.sustainedNotes, note) && vc.Forall(0, len(a.voices), func(i int) bool { return sameVoice(a, o, i) }))
	vc.Ensures("a released note is no longer held", o.sustainPedal || !vc.Has(a.noteToVoice, note))
	vc.Aux("allocator invariant", invPoly(a))
}

//vc:loop voice.Allocator.findFreeVoice
func loopFree(a *Allocator, it, loc_start int) bool {
	s := (loc_start + 1) % a.maxVoices
	return 0 <= it && it <= a.maxVoices && vc.Forall(0, a.maxVoices, func(j int) bool {
		return !(s <= j && j < s+it || j < s+it-a.maxVoices) || at(a, j).on
	})
}

//vc:loop voice.Allocator.stealVoice
func loopStealRange(a *Allocator, it, phi_bestIdx int) bool {
	return -1 <= phi_bestIdx && phi_bestIdx < a.maxVoices && phi_bestIdx < it && (phi_bestIdx == -1 || at(a, phi_bestIdx).on)
}

//vc:loop voice.Allocator.stealVoice
func loopStealNone(a *Allocator, it, phi_bestIdx int) bool {
	return phi_bestIdx != -1 || vc.Forall(0, it, func(i int) bool { return !at(a, i).on })
}

//vc:loop voice.Allocator.stealVoice
func loopStealValue(a *Allocator, it, phi_bestIdx int, phi_bestValue float64) bool {
	return phi_bestIdx == -1 || vc.Same64(phi_bestValue, value(a, phi_bestIdx))
}

func value(a *Allocator, i int) float64 {
	switch a.stealingMode {
	case StealOldest:
		return float64(at(a, i).age)
	case StealQuietest:
		return at(a, i).amp
	}
	return float64(at(a, i).note)
}

//vc:loop voice.Allocator.stealVoice
func loopStealBest(a *Allocator, it, phi_bestIdx int) bool {
	return phi_bestIdx == -1 || vc.Forall(0, it, func(j int) bool { return !at(a, j).on || !worse(a, phi_bestIdx, j) })
}

// released: voice i was let go and is otherwise as it was.
func released(a, o *Allocator, i int) bool {
	v, w := at(a, i), at(o, i)
	return !v.held && v.on == w.on && v.note == w.note && v.vel == w.vel && v.trig == w.trig
}

//vc:contract props=C12
func ctr_PolyPedal(a *Allocator, on bool) {
	vc.Inv(invPoly(a))
	o := vc.Old(a)
	a.SetSustainPedal(on)
	vc.Ensures("the pedal is where it was put", a.sustainPedal == on)
	vc.Ensures("pressing the pedal changes no voice", !on || vc.Forall(0, len(a.voices), func(i int) bool { return sameVoice(a, o, i) }))
	vc.Ensures("letting the pedal go releases every note it held", on || vc.ForallKey(o.sustainedNotes, func(n uint8, _ bool) bool {
		return !vc.Has(o.noteToVoice, n) || released(a, o, o.noteToVoice[n][0])
	}))
	vc.Ensures("letting the pedal go releases nothing else", on || vc.Forall(0, len(a.voices), func(i int) bool {
		return sameVoice(a, o, i) || released(a, o, i) && vc.Has(o.sustainedNotes, at(o, i).note)
	}))
	vc.Ensures("letting the pedal go forgets the held notes", on || len(a.sustainedNotes) == 0)
	vc.Aux("allocator invariant", invPoly(a))
}

func preVoice(a *Allocator, i int) tv { return vc.Pre(func() tv { return *at(a, i) }) }

func asBefore(a *Allocator, i int) bool { return *at(a, i) == preVoice(a, i) }

//vc:loop voice.Allocator.SetSustainPedal
func loopPedalVoices(a *Allocator, visited func(k uint8) bool) bool {
	return vc.Forall(0, len(a.voices), func(i int) bool {
		v, w := at(a, i), preVoice(a, i)
		return v.on == w.on && v.note == w.note && v.vel == w.vel && v.trig == w.trig && v.age == w.age && (v.held == w.held || !v.held && visited(w.note))
	})
}

//vc:loop voice.Allocator.SetSustainPedal
func loopPedalMap(a *Allocator, visited func(k uint8) bool) bool {
	return vc.Every(func(n uint8) bool {
		had := vc.Pre(func() bool { return vc.Has(a.noteToVoice, n) })
		if !had {
			return !vc.Has(a.noteToVoice, n)
		}
		i := vc.Pre(func() int { return a.noteToVoice[n][0] })
		if visited(n) {
			return !vc.Has(a.noteToVoice, n) && !at(a, i).held
		}
		return vc.Has(a.noteToVoice, n) && vc.Whole(a.noteToVoice[n]) && len(a.noteToVoice[n]) == 1 && a.noteToVoice[n][0] == i
	})
}

func invMono(a *Allocator) bool {
	return (a.mode == ModeMono || a.mode == ModeLegato) && voicesOK(a) && a.noteToVoice != nil && a.sustainedNotes != nil &&
		vc.ForallKey(a.noteToVoice, func(n uint8, ix []int) bool { return n == a.currentNote }) &&
		len(a.noteToVoice) <= 1 && (len(a.noteToVoice) == 0 || vc.Has(a.noteToVoice, a.currentNote))
}

//vc:contract props=C12
func ctr_MonoNoteOn(a *Allocator, note, vel uint8) {
	vc.Inv(invMono(a))
	o := vc.Old(a)
	playing := len(a.noteToVoice) > 0
	a.NoteOn(note, vel)
	slide := o.mode == ModeLegato && playing
	vc.Ensures("only the first voice is used", vc.Forall(1, len(a.voices), func(i int) bool { return sameVoice(a, o, i) }))
	vc.Ensures("the new note takes over the voice", slide || plays(a, o, 0, note, vel))
	vc.Ensures("an overlapping legato note does not retrigger", !slide || sameVoice(a, o, 0) && a.glideActive)
	vc.Ensures("the last note is the current one", a.currentNote == note && a.previousNote == o.currentNote && len(a.noteToVoice) == 1 && vc.Has(a.noteToVoice, note))
	vc.Ensures("a pressed key is not held by the pedal", !vc.Has(a.sustainedNotes, note))
	vc.Aux("allocator invariant", invMono(a))
}

//vc:contract props=C12
func ctr_MonoNoteOff(a *Allocator, note, vel uint8) {
	vc.Inv(invMono(a))
	o := vc.Old(a)
	a.NoteOff(note, vel)
	vc.Ensures("only the current note can release the voice", (!o.sustainPedal && note == o.currentNote) || vc.Forall(0, len(a.voices), func(i int) bool { return sameVoice(a, o, i) }))
	vc.Ensures("the current note's release lets the voice go", o.sustainPedal || note != o.currentNote || released(a, o, 0) && vc.Forall(1, len(a.voices), func(i int) bool { return sameVoice(a, o, i) }))
	vc.Ensures("a released note is no longer held", o.sustainPedal || note != o.currentNote || len(a.noteToVoice) == 0)
	vc.Ensures("with the pedal down the note is held by the pedal", !o.sustainPedal || vc.Has(a.sustainedNotes, note))
	vc.Aux("allocator invariant", invMono(a))
}

//vc:contract props=C12
func ctr_UnisonNoteOn(a *Allocator, note, vel uint8) {
	vc.Inv(a.mode == ModeUnison && voicesOK(a) && a.noteToVoice != nil)
	o := vc.Old(a)
	a.NoteOn(note, vel)
	vc.Ensures("every voice up to the limit plays the note", vc.Forall(0, len(a.voices), func(i int) bool {
		if i < o.maxVoices {
			return plays(a, o, i, note, vel)
		}
		return sameVoice(a, o, i)
	}))
	vc.Ensures("the note is current", a.currentNote == note && vc.Has(a.noteToVoice, note) && len(a.noteToVoice[note]) == o.maxVoices)
}

func gen_UnisonNoteOn_a(g *vc.G) *Allocator { return genMode(g, ModeUnison) }

//vc:loop voice.Allocator.noteOnUnison
func loopUnisonOn(a *Allocator, note, vel uint8, it int) bool {
	return vc.Forall(0, len(a.voices), func(i int) bool {
		v, w := at(a, i), preVoice(a, i)
		if i < it {
			return v.on && v.held && v.note == note && v.vel == vel && v.trig == w.trig+1
		}
		return v.on == w.on && v.held == w.held && v.note == w.note && v.vel == w.vel && v.age == w.age && v.trig == w.trig
	})
}

//vc:contract props=C12
func ctr_UnisonNoteOff(a *Allocator, note, vel uint8) {
	vc.Inv(a.mode == ModeUnison && voicesOK(a) && a.noteToVoice != nil && a.sustainedNotes != nil)
	o := vc.Old(a)
	a.NoteOff(note, vel)
	vc.Ensures("releasing the current note releases every voice up to the limit and nothing else does", vc.Forall(0, len(a.voices), func(i int) bool {
		if !o.sustainPedal && note == o.currentNote && i < o.maxVoices {
			return released(a, o, i)
		}
		return sameVoice(a, o, i)
	}))
}

func gen_UnisonNoteOff_a(g *vc.G) *Allocator { return genMode(g, ModeUnison) }

//vc:loop voice.Allocator.noteOffUnison
func loopUnisonOff(a *Allocator, it int) bool {
	return vc.Forall(0, len(a.voices), func(i int) bool {
		v, w := at(a, i), preVoice(a, i)
		return v.on == w.on && v.held == (w.held && i >= it) && v.note == w.note && v.vel == w.vel && v.age == w.age && v.trig == w.trig
	})
}

//vc:contract props=C12
func ctr_Reset(a *Allocator) {
	vc.Inv(voicesOK(a))
	a.Reset()
	vc.Ensures("after a reset nothing sounds", vc.Forall(0, len(a.voices), func(i int) bool { return !at(a, i).on && !at(a, i).held }))
	vc.Ensures("after a reset no note is held", len(a.noteToVoice) == 0 && len(a.sustainedNotes) == 0 && !a.sustainPedal)
	vc.Aux("allocator invariant", voicesOK(a) && a.noteToVoice != nil && a.sustainedNotes != nil)
}

//vc:loop voice.Allocator.Reset
func loopReset(a *Allocator, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return !at(a, i).on && !at(a, i).held })
}

//vc:contract props=C12
func ctr_SetMode(a *Allocator, m AllocationMode) {
	vc.Inv(voicesOK(a))
	a.SetMode(m)
	vc.Ensures("changing the mode silences every voice", vc.Forall(0, len(a.voices), func(i int) bool { return !at(a, i).on && !at(a, i).held }))
	vc.Ensures("changing the mode holds no note", a.mode == m && len(a.noteToVoice) == 0 && len(a.sustainedNotes) == 0 && !a.sustainPedal)
	vc.Aux("allocator invariant", voicesOK(a) && (m != ModePoly || invPoly(a)) && (m != ModeMono && m != ModeLegato || invMono(a)))
}

//vc:contract props=C12
func ctr_SetMaxVoices(a *Allocator, n int) {
	vc.Inv(voicesOK(a))
	o := vc.Old(a)
	a.SetMaxVoices(n)
	vc.Ensures("the limit stays between one and the number of voices", 1 <= a.maxVoices && a.maxVoices <= len(a.voices) && (n < 1 || n > len(a.voices) || a.maxVoices == n))
	vc.Ensures("changing the limit changes no voice", vc.Forall(0, len(a.voices), func(i int) bool { return sameVoice(a, o, i) }))
	vc.Aux("allocator invariant", voicesOK(a))
}

//vc:contract props=C12
func ctr_New(vs []Voice) {
	vc.Requires(vc.Whole(vs) && 1 <= len(vs) && len(vs) <= 1<<20 && vc.Forall(0, len(vs), func(i int) bool { return isTV(vs[i]) }) &&
		vc.Forall(0, len(vs), func(i int) bool {
			return vc.Forall(0, len(vs), func(j int) bool { return !(i < j) || vs[i].(*tv) != vs[j].(*tv) })
		}))
	a := NewAllocator(vs)
	vc.Ensures("a new allocator may use every voice and holds no note", a.maxVoices == len(vs) && len(a.noteToVoice) == 0 && len(a.sustainedNotes) == 0 && !a.sustainPedal && a.mode == ModePoly)
	vc.Aux("allocator invariant", invPoly(a))
}

//vc:contract props=C12
func ctr_GetActiveVoiceCount(a *Allocator) {
	vc.Inv(voicesOK(a))
	n := a.GetActiveVoiceCount()
	vc.Ensures("the count of active voices lies within the limit", 0 <= n && n <= a.maxVoices)
	vc.Ensures("the count is zero exactly when nothing sounds", (n == 0) == vc.Forall(0, a.maxVoices, func(i int) bool { return !at(a, i).on }))
	vc.Ensures("the count is the limit exactly when every voice is busy", (n == a.maxVoices) == busy(a))
}

//vc:loop voice.Allocator.GetActiveVoiceCount
func loopCount(a *Allocator, it, phi_count int) bool {
	return 0 <= phi_count && phi_count <= it && (phi_count != 0 || vc.Forall(0, it, func(i int) bool { return !at(a, i).on })) &&
		(phi_count == 0 || vc.Exists(0, it, func(i int) bool { return at(a, i).on })) &&
		(phi_count != it || vc.Forall(0, it, func(i int) bool { return at(a, i).on })) &&
		(phi_count == it || vc.Exists(0, it, func(i int) bool { return !at(a, i).on }))
}

//vc:contract props=C12
func ctr_Event(a *Allocator, ev midi.Event) {
	vc.Inv(invPoly(a))
	vc.Requires(StealOldest <= a.stealingMode && a.stealingMode <= StealNone)
	o := vc.Old(a)
	a.ProcessEvent(ev)
	vc.Aux("allocator invariant", invPoly(a))
	switch e := ev.(type) {
	case midi.NoteOnEvent:
		if e.Velocity > 0 {
			vc.Ensures("a note-on event starts its note", vc.Has(a.noteToVoice, e.NoteNumber) && plays(a, o, a.noteToVoice[e.NoteNumber][0], e.NoteNumber, e.Velocity) || o.stealingMode == StealNone && busy(o))
		} else {
			vc.Ensures("a note-on event without velocity releases its note", o.sustainPedal || !vc.Has(o.noteToVoice, e.NoteNumber) || released(a, o, o.noteToVoice[e.NoteNumber][0]))
			vc.Ensures("a note-on event without velocity starts nothing", vc.Forall(0, len(a.voices), func(i int) bool { return at(a, i).trig == at(o, i).trig }))
		}
	case midi.NoteOffEvent:
		vc.Ensures("a note-off event releases its note", o.sustainPedal || !vc.Has(o.noteToVoice, e.NoteNumber) || released(a, o, o.noteToVoice[e.NoteNumber][0]))
		vc.Ensures("a note-off event starts nothing", vc.Forall(0, len(a.voices), func(i int) bool { return at(a, i).trig == at(o, i).trig }))
	case midi.ControlChangeEvent:
		vc.Ensures("the sustain controller moves the pedal", a.sustainPedal == (e.Controller == midi.CCSustain && e.Value >= 64 || e.Controller != midi.CCSustain && o.sustainPedal))
		vc.Ensures("a controller starts nothing", vc.Forall(0, len(a.voices), func(i int) bool { return at(a, i).trig == at(o, i).trig }))
	default:
		vc.Ensures("other events change no voice", vc.Forall(0, len(a.voices), func(i int) bool { return sameVoice(a, o, i) }))
	}
}

func gen_Event_a(g *vc.G) *Allocator { return genMode(g, ModePoly) }
func gen_New_vs(g *vc.G) []Voice     { return gen_Allocator(g).voices }

//vc:loop voice.Allocator.SetSustainPedal
func loopPedalVisited(a *Allocator, visited func(k uint8) bool) bool {
	return vc.Every(func(n uint8) bool { return !visited(n) || vc.Has(a.sustainedNotes, n) })
}

//vc:contract props=C12
func ctr_VoiceSettings(a *Allocator, s StealingMode, cents, glide float64) {
	vc.Inv(voicesOK(a))
	o := vc.Old(a)
	a.SetStealingMode(s)
	a.SetUnisonDetune(cents)
	a.SetGlideTime(glide)
	vc.Ensures("settings are what was set", a.stealingMode == s && vc.Is64(a.unisonDetune, cents) && vc.Is64(a.glideTime, glide))
	vc.Ensures("settings change no voice", a.mode == o.mode && a.maxVoices == o.maxVoices && a.sustainPedal == o.sustainPedal && vc.Forall(0, len(a.voices), func(i int) bool { return sameVoice(a, o, i) }))
	vc.Aux("allocator invariant", voicesOK(a))
}
