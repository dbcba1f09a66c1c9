package envelope

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
)

func gen_ADSR(g *vc.G) *ADSR {
	e := New(g.In(1, 48000))
	e.SetADSR(g.In(0, 0.1), g.In(0, 0.1), g.In(0, 1), g.In(0, 0.1))
	for n := g.Range(0, 20); n > 0; n-- {
		switch g.Pick(6) {
		case 0:
			e.Trigger()
		case 1:
			e.Release()
		case 2:
			e.SetSustain(g.In(0, 1))
		default:
			for k := g.Range(0, 300); k > 0; k-- {
				e.Next()
			}
		}
	}
	return e
}

//vc:contract props=C20 float=1,3
func ctr_NewADSR(sampleRate float64) {
	vc.Requires(sampleRate >= 1 && sampleRate <= 1e7)
	e := New(sampleRate)
	vc.Ensures("a new envelope is idle", !e.IsActive() && e.GetStage() == StageIdle)
	vc.Aux("envelope invariant", invADSR(e))
}

//vc:contract props=C20 float=1,3
func ctr_Settings(e *ADSR, which int, v, d, s, r float64) {
	vc.Inv(invADSR(e))
	vc.Requires(seconds(v) && seconds(d) && seconds(s) && seconds(r))
	o := vc.Old(e)
	switch which {
	case 0:
		e.SetAttack(v)
	case 1:
		e.SetDecay(v)
	case 2:
		e.SetSustain(v)
	case 3:
		e.SetRelease(v)
	default:
		e.SetADSR(v, d, s, r)
	}
	vc.Ensures("changing a setting does not make the level jump", e.value == o.value && e.stage == o.stage)
	vc.Aux("envelope invariant", invADSR(e))
}

func gen_Settings_which(g *vc.G) int { return g.Range(0, 4) }

//vc:contract props=C20 float=1,3
func ctr_Gate(e *ADSR, which int) {
	vc.Inv(invADSR(e))
	o := vc.Old(e)
	switch which {
	case 0:
		e.Trigger()
		vc.Ensures("a trigger starts the attack from the present level", e.GetStage() == StageAttack && e.value == o.value)
	case 1:
		e.Release()
		vc.Ensures("a release starts from the present level", e.value == o.value && (e.GetStage() == StageRelease) == (o.stage != StageIdle))
	default:
		e.Reset()
		vc.Ensures("a reset envelope is idle and silent", !e.IsActive() && e.Next() == 0)
	}
	vc.Aux("envelope invariant", invADSR(e))
}

func gen_Gate_which(g *vc.G) int { return g.Range(0, 2) }

//vc:contract props=C20 float=3 nl=1
func ctr_Next(e *ADSR) {
	vc.Inv(invADSR(e))
	o := vc.Old(e)
	y := e.Next()
	vc.Ensures("the envelope stays within 0 and 1", y >= 0 && y <= 1 && unit(e.value))
	vc.Ensures("the output is the level", float64(y) == e.value || vc.Same32(y, float32(e.value)))
	switch o.stage {
	case StageAttack:
		vc.Ensures("the level does not fall during the attack", e.value >= o.value-1e-12)
		vc.Ensures("the attack ends at full level", e.stage == StageAttack || e.stage == StageDecay && e.value == 1)
	case StageDecay:
		vc.Ensures("the decay ends at the sustain level", e.stage == StageDecay && e.value > e.sustain || e.stage == StageSustain && e.value == e.sustain)
		vc.Ensures("the decay moves toward the sustain level now set", o.value < e.sustain || e.value <= e.sustain+(o.value-e.sustain)*e.decayCoef+1e-12)
	case StageSustain:
		vc.Ensures("sustain holds the sustain level", e.stage == StageSustain && e.value == e.sustain)
	case StageRelease:
		vc.Ensures("the level does not rise during the release", e.value <= o.value)
		vc.Ensures("the release ends in silence", e.stage == StageRelease || e.stage == StageIdle && e.value == 0)
	default:
		vc.Ensures("an idle envelope is silent", e.stage == StageIdle && y == 0)
	}
	vc.Aux("envelope invariant", invADSR(e))
}

func invAR(e *AR) bool {
	return unit(e.value) && unit(e.attackCoef) && unit(e.releaseCoef) && (e.target == 0 || e.target == 1) && (!e.active || e.target == 1) && (e.active || e.target == 0) &&
		e.sampleRate >= 1 && e.sampleRate <= 1e7 && e.attack >= 0.001 && e.release >= 0.001 && e.attack <= 1e6 && e.release <= 1e6
}

func gen_AR(g *vc.G) *AR {
	e := NewAR(g.In(1, 48000))
	e.SetAttack(g.In(0, 0.1))
	e.SetRelease(g.In(0, 0.1))
	for n := g.Range(0, 20); n > 0; n-- {
		switch g.Pick(4) {
		case 0:
			e.Trigger()
		case 1:
			e.Release()
		default:
			for k := g.Range(0, 300); k > 0; k-- {
				e.Next()
			}
		}
	}
	return e
}

//vc:contract props=C20 float=1,3
func ctr_AR(e *AR, which int, s float64) {
	vc.Inv(invAR(e))
	vc.Requires(seconds(s))
	o := vc.Old(e)
	switch which {
	case 0:
		e.SetAttack(s)
		vc.Ensures("changing a setting does not make the level jump", e.value == o.value)
	case 1:
		e.SetRelease(s)
		vc.Ensures("changing a setting does not make the level jump", e.value == o.value)
	case 2:
		e.Trigger()
		vc.Ensures("a trigger starts from the present level", e.value == o.value)
	case 3:
		e.Release()
		vc.Ensures("a release starts from the present level", e.value == o.value)
	default:
		y := e.Next()
		vc.Ensures("the envelope stays within 0 and 1", y >= 0 && y <= 1 && unit(e.value))
		if o.active {
			vc.Ensures("the level does not fall while triggered", e.value >= o.value-1e-12)
		} else {
			vc.Ensures("the level does not rise once released", e.value <= o.value)
		}
	}
	vc.Aux("envelope invariant", invAR(e))
}

func gen_AR_which(g *vc.G) int { return g.Range(0, 8) }

//vc:contract props=C20 float=1,3
func ctr_NewAR(sampleRate float64) {
	vc.Requires(sampleRate >= 1 && sampleRate <= 1e7)
	e := NewAR(sampleRate)
	vc.Ensures("a new envelope is silent", e.value == 0)
	vc.Aux("envelope invariant", invAR(e))
}

//vc:loop envelope.ADSR.Process
func loopADSR(it int, e *ADSR, buffer []float32) bool {
	return invADSR(e) && vc.Forall(0, it, func(i int) bool { return buffer[i] >= 0 && buffer[i] <= 1 })
}

//vc:contract props=C20 float=1,3
func ctr_ADSRProcess(e *ADSR, buf []float32) {
	vc.Inv(invADSR(e))
	e.Process(buf)
	vc.Ensures("every sample of the block is within 0 and 1", vc.Forall(0, len(buf), func(i int) bool { return buf[i] >= 0 && buf[i] <= 1 }))
	vc.Aux("envelope invariant", invADSR(e))
}

func invFollower(f *Follower) bool {
	return f.envelope >= 0 && f.envelope <= 1e30 && unit(f.attackCoef) && unit(f.releaseCoef) && f.sampleRate >= 1 && f.sampleRate <= 1e7
}

func gen_Follower(g *vc.G) *Follower {
	f := NewFollower(g.In(1, 48000))
	f.SetAttack(g.In(0, 0.01))
	f.SetRelease(g.In(0, 0.01))
	for n := g.Range(0, 100); n > 0; n-- {
		f.Follow(g.Audio())
	}
	return f
}

//vc:contract props=C20 float=3 nl=1
func ctr_Follow(f *Follower, x float32) {
	vc.Inv(invFollower(f))
	vc.Requires(x >= -1e6 && x <= 1e6)
	o := vc.Old(f)
	y := f.Follow(x)
	a := float64(x)
	if a < 0 {
		a = -a
	}
	if a > o.envelope {
		vc.Ensures("a rising envelope does not pass the signal", f.envelope <= a && f.envelope >= o.envelope*(1-1e-9)-1e-9*a-1e-30)
	} else {
		vc.Ensures("a falling envelope does not fall below the signal", f.envelope >= a && f.envelope <= o.envelope*(1+1e-9)+1e-30)
	}
	vc.Ensures("the follower is never negative", y >= 0)
	vc.Aux("follower invariant", f.envelope >= 0 && f.envelope <= 1.1e30)
}

//vc:loop envelope.Follower.Process
func loopFollower(it int, f *Follower, input, output []float32) bool {
	return unit(f.attackCoef) && unit(f.releaseCoef) && f.envelope >= 0 && f.envelope <= 1 &&
		vc.Forall(0, it, func(i int) bool { return output[i] >= 0 && output[i] <= 1 })
}

//vc:contract props=C20 float=3 nl=1
func ctr_FollowBlock(f *Follower, in, out []float32) {
	vc.Inv(invFollower(f))
	vc.Requires(f.envelope <= 1 && len(in) <= len(out) && vc.Sep(in, out))
	vc.Requires(vc.Forall(0, len(in), func(i int) bool { return in[i] >= -1 && in[i] <= 1 }))
	f.Process(in, out)
	vc.Ensures("the envelope of a block is never negative nor louder than the signal was", vc.Forall(0, len(in), func(i int) bool { return out[i] >= 0 && out[i] <= 1 }))
}

//vc:contract props=C20 float=1,3
func ctr_NewDetector(sampleRate float64, mode DetectorMode) {
	vc.Requires(sampleRate >= 1000 && sampleRate <= 1e6 && ModePeak <= mode && mode <= ModePeakHold)
	d := NewDetector(sampleRate, mode)
	vc.Ensures("a new detector shows silence", d.GetEnvelope() == 0)
	vc.Aux("detector invariant", invDetector(d) && invWindow(d))
}

func gen_NewDetector_mode(g *vc.G) DetectorMode { return DetectorMode(g.Range(0, 2)) }

//vc:contract props=C20 float=1,3
func ctr_DetectorSettings(d *Detector, which int, x float64, m DetectorMode, t DetectorType) {
	vc.Inv(invDetector(d) && invWindow(d))
	vc.Requires(x >= -1000 && x <= 1000 && ModePeak <= m && m <= ModePeakHold && TypeLinear <= t && t <= TypeAnalog)
	o := vc.Old(d)
	switch which {
	case 0:
		d.SetAttack(x)
	case 1:
		d.SetRelease(x)
	case 2:
		d.SetHold(x)
	case 3:
		d.SetTimeConstants(x, x)
	case 4:
		d.SetRMSWindow(x)
	case 5:
		d.SetType(t)
	default:
		d.SetMode(m)
	}
	vc.Ensures("changing a setting does not change the envelope", d.envelope == o.envelope)
	vc.Aux("detector invariant", invDetector(d) && invWindow(d))
}

func gen_DetectorSettings_which(g *vc.G) int      { return g.Range(0, 6) }
func gen_DetectorSettings_m(g *vc.G) DetectorMode { return DetectorMode(g.Range(0, 2)) }
func gen_DetectorSettings_t(g *vc.G) DetectorType { return DetectorType(g.Range(0, 2)) }

//vc:contract props=C20 float=3 nl=1
func ctr_DetectRMS(d *Detector, x float32) {
	vc.Inv(invDetector(d) && invWindow(d))
	vc.Requires(d.mode == ModeRMS)
	vc.Requires(x >= -1e6 && x <= 1e6)
	y := d.Detect(x)
	vc.Ensures("the detected level is never negative nor NaN", y >= 0 && d.envelope >= 0)
	vc.Ensures("the detected level stays finite", vc.Finite64(d.envelope))
}

//vc:contract props=C20 float=3 nl=1
func ctr_DetectPeak(d *Detector, x float32) {
	vc.Inv(invDetector(d))
	vc.Requires(d.mode != ModeRMS)
	vc.Requires(x >= -1e6 && x <= 1e6)
	o := vc.Old(d)
	y := d.Detect(x)
	a := math.Abs(float64(x))
	vc.Ensures("the detected level is never negative nor NaN", y >= 0 && d.envelope >= 0)
	if a > o.envelope {
		vc.Ensures("attack moves toward the signal, not past it", d.envelope <= a*(1+1e-9)+1e-30 && d.envelope >= o.envelope*(1-1e-9)-1e-9*a-1e-30)
	} else {
		vc.Ensures("release moves toward the signal, not past it", d.envelope >= a*(1-1e-9)-1e-9*o.envelope-1e-30 && d.envelope <= o.envelope*(1+1e-9)+1e-30)
	}
	if d.mode == ModePeakHold && a <= o.envelope && o.holdCounter > 0 {
		vc.Ensures("the peak is held", d.envelope == o.envelope && d.holdCounter == o.holdCounter-1)
	}
}

func gen_DetectRMS_d(g *vc.G) *Detector {
	d := gen_Detector(g)
	d.SetMode(ModeRMS)
	return d
}

//vc:contract props=C20 float=1,3
func ctr_DetectorReset(d *Detector) {
	vc.Inv(invDetector(d) && invWindow(d))
	d.Reset()
	vc.Ensures("a reset detector shows silence", d.GetEnvelope() == 0 && d.holdCounter == 0 && vc.Forall(0, len(d.rmsWindow), func(i int) bool { return d.rmsWindow[i] == 0 }))
	vc.Aux("detector invariant", invDetector(d) && invWindow(d))
}

// ---- more block forms and readings ----

//vc:loop envelope.AR.Process
func loopAR(it int, e *AR, buffer []float32) bool {
	return invAR(e) && vc.Forall(0, it, func(i int) bool { return buffer[i] >= 0 && buffer[i] <= 1 })
}

//vc:contract props=C20 float=1,3
func ctr_ARProcess(e *AR, buf []float32) {
	vc.Inv(invAR(e))
	e.Process(buf)
	vc.Ensures("every sample of the block is within 0 and 1", vc.Forall(0, len(buf), func(i int) bool { return buf[i] >= 0 && buf[i] <= 1 }))
	vc.Aux("envelope invariant", invAR(e))
}

//vc:loop envelope.ADSR.ProcessMultiply
func loopADSRMul(it int, e *ADSR, buffer []float32) bool { return invADSR(e) }

//vc:loop envelope.AR.ProcessMultiply
func loopARMul(it int, e *AR, buffer []float32) bool { return invAR(e) }

//vc:contract props=C20 float=1,3
func ctr_MultiplyInv(e *ADSR, a *AR, buf []float32) {
	vc.Inv(invADSR(e) && invAR(a))
	e.ProcessMultiply(buf)
	vc.Aux("envelope invariant", invADSR(e))
	a.ProcessMultiply(buf)
	vc.Aux("AR envelope invariant", invAR(a))
}

//vc:contract props=C20 unroll=3
func ctr_MultiplyADSR(e *ADSR, x, y float32) {
	vc.Inv(invADSR(e))
	t := *e
	buf := make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.Next()
	b := t.Next()
	e.ProcessMultiply(buf)
	vc.Ensures("a block is multiplied by the envelope's samples in turn", vc.Is32(buf[0], x*a) && vc.Is32(buf[1], y*b))
	vc.Ensures("the envelope moves on by the samples of the block", vc.Is64(e.value, t.value) && e.stage == t.stage)
}

//vc:contract props=C20 unroll=3
func ctr_MultiplyAR(e *AR, x, y float32) {
	vc.Inv(invAR(e))
	t := *e
	buf := make([]float32, 2)
	buf[0], buf[1] = x, y
	a := t.Next()
	b := t.Next()
	e.ProcessMultiply(buf)
	vc.Ensures("a block is multiplied by the envelope's samples in turn", vc.Is32(buf[0], x*a) && vc.Is32(buf[1], y*b))
	vc.Ensures("the envelope moves on by the samples of the block", vc.Is64(e.value, t.value))
}

//vc:contract props=C20 bounded=1
func ctr_BlocksInTurn(e *ADSR, a *AR, f *Follower, d *Detector, buf, side []float32) {
	x := append([]float32(nil), buf...)
	y := append([]float32(nil), buf...)
	e2, a2, f2, d2 := *e, *a, *f, *d
	d2.rmsWindow = append([]float64(nil), d.rmsWindow...)
	ok := true

	e.Process(y)
	for i := range y {
		ok = ok && y[i] == e2.Next()
	}
	copy(y, x)
	e.ProcessMultiply(y)
	for i := range y {
		ok = ok && y[i] == x[i]*e2.Next()
	}
	vc.Ensures("ADSR blocks equal its samples in turn", ok)

	ok = true
	a.Process(y)
	for i := range y {
		ok = ok && y[i] == a2.Next()
	}
	copy(y, x)
	a.ProcessMultiply(y)
	for i := range y {
		ok = ok && y[i] == x[i]*a2.Next()
	}
	vc.Ensures("AR blocks equal its samples in turn", ok)

	ok = true
	f.Process(x, y)
	for i := range y {
		ok = ok && y[i] == f2.Follow(x[i])
	}
	vc.Ensures("follower blocks equal its samples in turn", ok)

	ok = true
	d.Process(x, y)
	for i := range y {
		ok = ok && y[i] == d2.Detect(x[i])
	}
	vc.Ensures("detector blocks equal its samples in turn", ok && d.envelope == d2.envelope)
	if len(side) >= len(x) {
		ok = true
		d.ProcessSidechain(x, side, y)
		for i := range y {
			ok = ok && y[i] == d2.Detect(side[i])
		}
		vc.Ensures("a sidechain block follows the sidechain", ok && d.envelope == d2.envelope)
	}
}

func gen_BlocksInTurn_buf(g *vc.G) []float32 {
	b := make([]float32, g.Range(0, 12))
	for i := range b {
		b[i] = g.Audio()
	}
	return b
}
func gen_BlocksInTurn_side(g *vc.G) []float32 { return gen_BlocksInTurn_buf(g) }

//vc:contract props=C20 float=3
func ctr_DetectorReading(d *Detector) {
	vc.Requires(d.envelope >= 0 && d.envelope <= 1e6)
	v, db := d.GetEnvelope(), d.GetEnvelopeDB()
	vc.Ensures("the reading is the envelope, never negative", v >= 0 && vc.Is32(v, float32(d.envelope)))
	vc.Ensures("the reading in decibels is a number, never positive up to full scale", db == db && (d.envelope > 1 || db <= 1e-4) && (d.envelope < 1 || db >= -1e-4))
}

//vc:contract props=C20 float=1,3
func ctr_FollowerSettings(f *Follower, a, r float64) {
	vc.Inv(invFollower(f))
	vc.Requires(a <= 1e6 && r <= 1e6 && f.attack >= 0.0001 && f.attack <= 1e6 && f.release >= 0.0001 && f.release <= 1e6)
	o := *f
	f.SetAttack(a)
	vc.Ensures("attack time is at least 0.1 ms; envelope and release stay", f.attack >= 0.0001 && (a < 0.0001 || f.attack == a) && f.envelope == o.envelope && f.release == o.release)
	f.SetRelease(r)
	vc.Ensures("release time is at least 0.1 ms; the envelope stays", f.release >= 0.0001 && (r < 0.0001 || f.release == r) && f.envelope == o.envelope)
	vc.Ensures("coefficients stay between 0 and 1", unit(f.attackCoef) && unit(f.releaseCoef))
}
