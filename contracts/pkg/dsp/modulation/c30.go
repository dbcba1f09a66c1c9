package modulation

import "github.com/justyntemme/vst3go/internal/vc"

//vc:contract props=C30 float=3 nl=1 use=modulation.LFO.Process
func ctr_RingMod(r *RingModulator, x float32) {
	vc.Inv(r.Inv())
	vc.Requires(x >= -1e6 && x <= 1e6)
	y := float64(r.Process(x))
	a := float64(x)
	if a < 0 {
		a = -a
	}
	vc.Ensures("ring modulation never makes a sample louder", y >= -a*1.00001-1e-30 && y <= a*1.00001+1e-30)
	vc.Ensures("the carrier phase stays within its period", r.phase >= 0 && r.phase <= 1)
}

//vc:contract props=C30 float=3 nl=1 use=modulation.LFO.Process
func ctr_RingModState(r *RingModulator, x float32) {
	vc.Inv(r.Inv())
	r.Process(x)
	vc.Ensures("everything stays within its range", r.Inv())
}

//vc:contract props=C30 float=3 nl=1 use=modulation.LFO.Process
func ctr_RingModSettings(r *RingModulator, v float64) {
	vc.Inv(r.Inv())
	vc.Requires(v >= -1e9 && v <= 1e9)
	r.SetFrequency(v)
	r.SetMix(v)
	r.SetLFORate(v)
	vc.Ensures("settings stay within their ranges", r.Inv())
	r.SetLFODepth(v)
	vc.Ensures("the depth stays within its range", r.lfoDepth >= 0 && r.lfoDepth <= 1)
}

//vc:contract props=C30 float=3 use=modulation.LFO.Process
func ctr_RingModStereo(r *RingModulator, s *RingModulator, a, b float32) {
	vc.Inv(r.Inv())
	vc.Requires(a >= -1e6 && a <= 1e6 && b >= -1e6 && b <= 1e6)
	vc.Requires(r != s && r.lfo != s.lfo && s.lfo != nil)
	l := *r.lfo
	q := *r
	lfo := s.lfo
	*s = q
	*lfo = l
	s.lfo = lfo
	x, y := r.ProcessStereo(a, b)
	m := s.Process(a)
	vc.Ensures("both channels have the mono result", vc.Same32(x, m))
	vc.Ensures("equal channels stay equal", a != b || vc.Same32(x, y))
	vc.Ensures("the carrier moves on alike", r.lfoEnabled || near(r.phase, s.phase))
}

//vc:contract props=C30 float=3 nl=1 use=modulation.LFO.Process
func ctr_TremoloGain(t *Tremolo) {
	vc.Inv(t.Inv())
	lo := 1 - t.depth
	if t.smoothing {
		lo = 0
	}
	y := float64(t.Process(1))
	vc.Ensures("a tremolo's gain is at least 1-depth", y >= lo-1e-5)
	vc.Ensures("a tremolo's gain is at most 1", y <= 1.00001)
}

//vc:contract props=C30 float=3 nl=1 use=modulation.LFO.Process
func ctr_Tremolo(t *Tremolo, x float32) {
	vc.Inv(t.Inv())
	vc.Requires(x >= 0 && x <= 1e6 && !t.smoothing)
	a := float64(x)
	y := float64(t.Process(x))
	vc.Ensures("a tremolo neither inverts a sample nor makes it louder", y >= -1e-9*a-1e-30 && y <= a*1.00001+1e-30)
}

//vc:contract props=C30 float=3 use=modulation.LFO.Process
func ctr_TremoloState(t *Tremolo, a, b float32, stereo bool) {
	vc.Inv(t.Inv())
	if stereo {
		t.ProcessStereo(a, b)
	} else {
		t.Process(a)
	}
	vc.Ensures("everything stays within its range", t.rest())
}

//vc:contract props=C30 float=3 nl=1 use=modulation.LFO.Process
func ctr_TremoloSmooth(t *Tremolo, a float32) {
	vc.Inv(t.Inv())
	t.mode = TremoloModeNormal
	s := t.smoothedGainL
	t.Process(a)
	g := target(TremoloModeNormal, t.depth, lastLFO)
	vc.Aux("gain", g >= -1e-14 && g <= 1+1e-14)
	vc.Aux("near", s-g >= -1.001 && s-g <= 1.001)
	d := (s - g) * t.smoothCoeff
	vc.Aux("step", d >= -1.001 && d <= 1.001 && (s > g || d <= 0 && d >= (s-g)*0.9999) && (s < g || d >= 0 && d <= (s-g)*0.9999))
	vc.Ensures("the smoothed gain stays between 0 and 1", t.gains())
}

//vc:contract props=C30 float=3 nl=1 use=modulation.LFO.Process
func ctr_TremoloSmoothStereo(t *Tremolo, a, b float32) {
	vc.Inv(t.Inv())
	t.mode = TremoloModeNormal
	t.stereo = false
	s := t.smoothedGainL
	t.smoothedGainR = s
	t.ProcessStereo(a, b)
	g := target(TremoloModeNormal, t.depth, lastLFO)
	vc.Aux("gain", g >= -1e-14 && g <= 1+1e-14)
	vc.Aux("near", s-g >= -1.001 && s-g <= 1.001)
	d := (s - g) * t.smoothCoeff
	vc.Aux("step", d >= -1.001 && d <= 1.001 && (s > g || d <= 0 && d >= (s-g)*0.9999) && (s < g || d >= 0 && d <= (s-g)*0.9999))
	vc.Ensures("the smoothed gains stay between 0 and 1", t.gains())
}

//vc:contract props=C30 float=3 nl=1
func ctr_TremoloSettings(t *Tremolo, v float64, w Waveform) {
	vc.Inv(t.Inv())
	vc.Requires(v >= -1e9 && v <= 1e9)
	t.SetRate(v)
	t.SetDepth(v)
	t.SetWaveform(w)
	vc.Ensures("settings stay within their ranges", t.Inv())
	vc.Ensures("settings in range are taken as they are", v < 0.01 || v > 1 || t.rate == v && t.depth == v && t.lfoL.frequency == v && t.lfoR.frequency == v)
}

//vc:contract props=C30 float=3
func ctr_TremoloPhase(t *Tremolo, v float64, on bool) {
	vc.Inv(t.Inv())
	vc.Requires(v >= -1e9 && v <= 1e9)
	t.SetStereoPhase(v)
	t.SetStereo(on)
	vc.Ensures("the phases stay within their ranges", t.phase >= 0 && t.phase <= 1 && t.lfoL.phase >= 0 && t.lfoL.phase <= 1 && t.lfoR.phase >= 0 && t.lfoR.phase <= 1)
	t.Reset()
	vc.Ensures("a reset starts both LFOs and full gain", t.lfoL.phase == 0 && t.smoothedGainL == 1 && t.smoothedGainR == 1 && (on || t.lfoR.phase == 0))
	vc.Ensures("a reset keeps the stereo offset", !on || v < 0 || v >= 1 || t.lfoR.phase == v)
}

//vc:contract props=C30 float=3 nl=1 use=modulation.LFO.Process
func ctr_TremoloStereo(t *Tremolo, x float32) {
	vc.Inv(t.Inv())
	vc.Requires(!t.stereo && x >= -1e6 && x <= 1e6)
	t.smoothedGainR = t.smoothedGainL
	l, r := t.ProcessStereo(x, x)
	vc.Ensures("without stereo operation both channels move together", vc.Same32(l, r) && t.smoothedGainL == t.smoothedGainR)
}

// ---- block forms and remaining settings ----

func (t *Tremolo) twin() *Tremolo {
	c := *t
	l, r := *t.lfoL, *t.lfoR
	c.lfoL, c.lfoR = &l, &r
	return &c
}

func (r *RingModulator) twin() *RingModulator {
	c := *r
	l := *r.lfo
	c.lfo = &l
	return &c
}

func gen_block(g *vc.G) []float32 {
	b := make([]float32, g.Range(0, 12))
	for i := range b {
		b[i] = g.Audio()
	}
	return b
}

func gen_TremoloBlock_a(g *vc.G) []float32 { return gen_block(g) }
func gen_TremoloBlock_b(g *vc.G) []float32 { return gen_block(g) }
func gen_RingModBlock_a(g *vc.G) []float32 { return gen_block(g) }
func gen_RingModBlock_b(g *vc.G) []float32 { return gen_block(g) }

//vc:contract props=C30 bounded=1
func ctr_TremoloBlock(t *Tremolo, a, b []float32) {
	vc.Requires(t.lfoL.waveform != WaveformRandom && len(a) <= len(b))
	u := t.twin()
	x, y := make([]float32, len(a)), make([]float32, len(a))
	t.ProcessBuffer(a, x)
	ok := true
	for i := range a {
		ok = ok && x[i] == u.Process(a[i])
	}
	vc.Ensures("a tremolo block equals its samples in turn", ok && t.lfoL.phase == u.lfoL.phase)
	t.ProcessStereoBuffer(a, b, x, y)
	ok = true
	for i := range a {
		l, r := u.ProcessStereo(a[i], b[i])
		ok = ok && x[i] == l && y[i] == r
	}
	vc.Ensures("a stereo tremolo block equals its samples in turn", ok && t.lfoR.phase == u.lfoR.phase)
}

//vc:contract props=C30 bounded=1
func ctr_RingModBlock(r *RingModulator, a, b []float32) {
	vc.Requires(r.waveform != WaveformRandom && len(a) <= len(b))
	u := r.twin()
	x, y := make([]float32, len(a)), make([]float32, len(a))
	r.ProcessBuffer(a, x)
	ok := true
	for i := range a {
		ok = ok && x[i] == u.Process(a[i])
	}
	vc.Ensures("a ring modulator block equals its samples in turn", ok && r.phase == u.phase)
	r.ProcessStereoBuffer(a, b, x, y)
	ok = true
	for i := range a {
		l, q := u.ProcessStereo(a[i], b[i])
		ok = ok && x[i] == l && y[i] == q
	}
	vc.Ensures("a stereo ring modulator block equals its samples in turn", ok && r.phase == u.phase)
}

//vc:contract props=C30 float=3
func ctr_RingModReset(r *RingModulator, w Waveform, on bool) {
	vc.Inv(r.Inv())
	o := *r
	r.SetWaveform(w)
	r.EnableLFO(on)
	vc.Ensures("waveform and LFO switch are what was set, the phase stays", r.waveform == w && r.lfoEnabled == on && r.phase == o.phase)
	r.Reset()
	vc.Ensures("a reset starts the period of carrier and LFO", r.phase == 0 && r.lfo.phase == 0)
	vc.Ensures("a reset keeps the settings", r.frequency == o.frequency && r.mix == o.mix && r.lfoDepth == o.lfoDepth && r.waveform == w && r.lfoEnabled == on)
}

//vc:contract props=C30 float=3
func ctr_TremoloSwitches(t *Tremolo, m TremoloMode, on bool) {
	vc.Inv(t.Inv())
	o := *t
	t.SetMode(m)
	t.EnableSmoothing(on)
	vc.Ensures("mode and smoothing are what was set, nothing else changes", t.mode == m && t.smoothing == on && t.depth == o.depth && t.rate == o.rate && t.stereo == o.stereo && t.smoothedGainL == o.smoothedGainL)
}
