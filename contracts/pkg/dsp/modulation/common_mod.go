package modulation

import "github.com/justyntemme/vst3go/internal/vc"

func near(a, b float64) bool { return a >= b-1e-9 && a <= b+1e-9 }

func full(x float64) bool { return x >= -1.000001 && x <= 1.000001 }

func (l *LFO) Inv() bool {
	return l.sampleRate >= 100 && l.sampleRate <= 1e7 && l.frequency >= 0.01 && l.frequency <= 20 && l.phase >= 0 && l.phase <= 1 &&
		l.depth >= 0 && l.depth <= 1 && l.offset >= -1 && l.offset <= 1 && l.syncPhase >= 0 && l.syncPhase <= 1 &&
		l.phaseInc >= 0 && l.phaseInc <= 0.25 && l.currentRandom >= -1 && l.currentRandom <= 1 && l.randomPeriod >= 0 && l.randomPeriod <= 1<<40 && l.randomCounter >= 0 && l.randomCounter <= 1<<40
}

func (r *RingModulator) Inv() bool {
	return r.sampleRate >= 100 && r.sampleRate <= 1e7 && r.frequency >= 0 && r.frequency <= r.sampleRate/2 && r.mix >= 0 && r.mix <= 1 && r.phase >= 0 && r.phase <= 1 &&
		r.phaseInc >= 0 && r.phaseInc <= 0.999 && r.lfoDepth >= 0 && r.lfoDepth <= 0.99 && r.lfo != nil && r.lfo.waveform == WaveformSine && r.lfo.Inv()
}

func (t *Tremolo) Inv() bool {
	return t.gains() && t.rest()
}

func (t *Tremolo) gains() bool {
	return t.smoothedGainL >= -1e-10 && t.smoothedGainL <= 1.000001 && t.smoothedGainR >= -1e-10 && t.smoothedGainR <= 1.000001
}

func (t *Tremolo) rest() bool {
	return t.sampleRate >= 100 && t.sampleRate <= 2e5 && t.depth >= 0 && t.depth <= 1 && t.phase >= 0 && t.phase <= 1 && t.rate >= 0.01 && t.rate <= 20 &&
		(t.mode == TremoloModeNormal || t.mode == TremoloModeHarmonic) && t.smoothCoeff >= 0 && t.smoothCoeff <= 0.9995 &&
		t.lfoL != nil && t.lfoR != nil && t.lfoL != t.lfoR && t.lfoL.Inv() && t.lfoR.Inv()
}

var lastLFO float64 // the last step's result, seen by the prover only

// the gain of one LFO value, for the prover
func target(mode TremoloMode, depth, v float64) float64 {
	if mode == TremoloModeNormal {
		return 1.0 - depth*(1.0-v)/2.0
	}
	if v < 0 {
		v = -v
	}
	return 1.0 - depth*v
}

func gen_LFO(g *vc.G) *LFO {
	l := NewLFO(g.In(1000, 190000))
	l.SetFrequency(g.In(0.01, 20))
	l.SetWaveform(Waveform(g.N(6)))
	l.SetDepth(g.Unit())
	l.SetOffset(g.In(-1, 1))
	l.SetPhase(g.Unit())
	l.EnableSync(g.Bool(), g.Unit())
	l.randomCounter = g.N(3)
	if g.Bool() {
		l.randomPeriod = g.N(4)
	}
	return l
}

func gen_RingModulator(g *vc.G) *RingModulator {
	r := NewRingModulator(g.In(1000, 190000))
	r.SetFrequency(g.In(0, r.sampleRate))
	r.SetMix(g.Unit())
	r.SetWaveform(Waveform(g.N(6)))
	r.EnableLFO(g.Bool())
	r.SetLFORate(g.In(0.01, 20))
	r.SetLFODepth(g.In(0, 0.99))
	r.phase = g.Unit()
	r.lfo.SetPhase(g.Unit())
	return r
}

func gen_Tremolo(g *vc.G) *Tremolo {
	t := NewTremolo(g.In(1000, 190000))
	t.SetRate(g.In(0.01, 20))
	t.SetDepth(g.Unit())
	t.SetWaveform(Waveform(g.N(6)))
	t.SetMode(TremoloMode(g.N(2)))
	t.SetStereoPhase(g.Unit())
	t.SetStereo(g.Bool())
	t.EnableSmoothing(g.Bool())
	t.lfoL.phase = g.Unit()
	t.lfoR.phase = g.Unit()
	t.smoothedGainL = g.Unit()
	t.smoothedGainR = g.Unit()
	return t
}

// what one LFO step does: its result is in range, everything stays in range and
// only phase and random state change
func step(o, n *LFO, v float64) bool {
	return v >= -1 && v <= 1 && n.Inv() && n.sampleRate == o.sampleRate && n.frequency == o.frequency && n.waveform == o.waveform &&
		n.depth == o.depth && n.offset == o.offset && n.syncEnabled == o.syncEnabled && n.syncPhase == o.syncPhase && n.phaseInc == o.phaseInc && n.randomPeriod == o.randomPeriod
}

//vc:summary modulation.LFO.Process
func sum_LFOProcess(l *LFO) float64 {
	vc.Aux("an LFO is ready when it is used", l.Inv())
	o := *l
	l.phase, l.currentRandom, l.randomCounter = vc.Any[float64](), vc.Any[float64](), vc.Any[int]()
	randState = vc.Any[uint32]()
	v := vc.Any[float64]()
	vc.Requires(step(&o, l, v))
	lastLFO = v
	return v
}

//vc:contract props=C24,C30 float=3 proves=modulation.LFO.Process
func ctr_LFOStep(l, q *LFO) {
	vc.Inv(l.Inv())
	vc.Requires(q != l && q != nil)
	o, p := *l, *q
	v := l.Process()
	vc.Ensures("an LFO step stays in range and keeps its settings", step(&o, l, v))
	vc.Ensures("an LFO step touches nothing else", vc.Same64(q.phase, p.phase) && vc.Same64(q.currentRandom, p.currentRandom) && q.randomCounter == p.randomCounter && vc.Same64(q.phaseInc, p.phaseInc) && vc.Same64(q.depth, p.depth) && vc.Same64(q.offset, p.offset) && q.waveform == p.waveform)
}
