package voice

import "github.com/justyntemme/vst3go/internal/vc"

// tv is a voice that records what it is told; the allocator sees voices only
// through the Voice interface.
type tv struct {
	on   bool // active
	held bool // triggered and not released
	note uint8
	vel  uint8
	amp  float64
	age  int64
	trig int // how often it was triggered
}

//vc:closed voice.Voice *voice.tv

func (v *tv) IsActive() bool        { return v.on }
func (v *tv) GetNote() uint8        { return v.note }
func (v *tv) GetVelocity() uint8    { return v.vel }
func (v *tv) GetAmplitude() float64 { return v.amp }
func (v *tv) GetAge() int64         { return v.age }
func (v *tv) TriggerNote(note, vel uint8) {
	v.on, v.held, v.note, v.vel, v.age = true, true, note, vel, 0
	v.trig++
}
func (v *tv) ReleaseNote()          { v.held = false }
func (v *tv) Stop()                 { v.on, v.held = false, false }
func (v *tv) Process(out []float32) {}

func at(a *Allocator, i int) *tv { return a.voices[i].(*tv) }

// voicesOK: at least one voice; all are distinct recorders.
func voicesOK(a *Allocator) bool {
	return vc.Whole(a.voices) && 1 <= a.maxVoices && a.maxVoices <= len(a.voices) && 0 <= a.lastTriggered && a.lastTriggered < len(a.voices) &&
		len(a.voices) <= 1<<20 && vc.Forall(0, len(a.voices), func(i int) bool { return isTV(a.voices[i]) }) &&
		vc.Forall(0, len(a.voices), func(i int) bool {
			return vc.Forall(0, len(a.voices), func(j int) bool { return !(i < j) || at(a, i) != at(a, j) })
		})
}

func isTV(v Voice) bool {
	t, ok := v.(*tv)
	return ok && t != nil
}

// mapOK (poly mode): every held note has one voice, the one last triggered
// with that note; so no voice serves two notes.
func mapOK(a *Allocator) bool {
	return a.noteToVoice != nil && a.sustainedNotes != nil &&
		vc.ForallKey(a.noteToVoice, func(n uint8, ix []int) bool {
			return vc.Whole(ix) && len(ix) == 1 && 0 <= ix[0] && ix[0] < len(a.voices) && at(a, ix[0]).note == n
		})
}

func invPoly(a *Allocator) bool { return a.mode == ModePoly && voicesOK(a) && mapOK(a) }

func gen_Allocator(g *vc.G) *Allocator { return genAllocator(g, AllocationMode(g.Range(0, 3))) }

func genAllocator(g *vc.G, mode AllocationMode) *Allocator {
	var vs []Voice
	for n := g.Range(1, 4); n > 0; n-- {
		vs = append(vs, &tv{})
	}
	a := NewAllocator(vs)
	a.SetMode(mode)
	a.SetStealingMode(StealingMode(g.Range(0, 4)))
	if g.N(4) == 0 {
		a.SetMaxVoices(g.Range(1, len(vs)))
	}
	for n := g.Range(0, 12); n > 0; n-- {
		note := uint8(g.Range(0, 5))
		switch g.Pick(6) {
		case 0, 1, 2:
			a.NoteOn(note, uint8(g.Range(1, 127)))
		case 3:
			a.NoteOff(note, 0)
		case 4:
			a.SetSustainPedal(g.Bool())
		case 5:
			t := vs[g.Range(0, len(vs)-1)].(*tv)
			if g.Bool() || !t.held {
				t.on, t.held = false, false // the voice ends by itself
			}
		}
		for _, v := range vs {
			t := v.(*tv)
			t.age += int64(g.Range(0, 3))
			t.amp = g.Unit()
		}
	}
	return a
}
