package modulation

import "github.com/justyntemme/vst3go/internal/vc"

//vc:contract props=C24 float=3
func ctr_LFO(l *LFO) {
	vc.Inv(l.Inv())
	p := l.phase
	v := l.Process()
	vc.Ensures("an LFO stays between -1 and 1", v >= -1 && v <= 1)
	d := l.phase - (p + l.phaseInc)
	vc.Ensures("the phase advances by one step within the period", l.phase >= 0 && l.phase <= 1 && (near(d, 0) && p+l.phaseInc < 1 || near(d, -1) && p+l.phaseInc >= 1))
	vc.Ensures("everything stays within its range", l.Inv())
}

//vc:contract props=C24 float=3
func ctr_LFOShape(l *LFO) {
	vc.Inv(l.Inv())
	l.SetDepth(1)
	l.SetOffset(0)
	p := l.phase
	v := l.Process()
	switch l.waveform {
	case WaveformSine:
		vc.Ensures("a sine is positive, then negative", (p > 0.5-1e-9 || v >= -1e-6) && (p < 0.5+1e-9 || p > 1-1e-9 || v <= 1e-6))
	case WaveformTriangle:
		vc.Ensures("a triangle rises, then falls", near(v, 4*p-1) && p <= 0.5 || near(v, 3-4*p) && p >= 0.5)
	case WaveformSquare:
		vc.Ensures("a square is high, then low", (p < 0.5 && v == 1) || (p >= 0.5 && v == -1))
	case WaveformSawtooth:
		vc.Ensures("a saw rises over its period", near(v, 2*p-1))
	case WaveformRandom:
		vc.Ensures("a random value is within range", full(v))
	default:
		vc.Ensures("an unknown waveform is silent", v == 0)
	}
}

//vc:contract props=C24 float=3
func ctr_LFODepth(l *LFO) {
	vc.Inv(l.Inv())
	l.SetDepth(0)
	v := l.Process()
	vc.Ensures("without depth only the offset is left", near(v, l.offset))
}

//vc:contract props=C24 float=3
func ctr_LFORandom(l *LFO) {
	vc.Inv(l.Inv())
	l.waveform = WaveformRandom
	l.SetDepth(1)
	l.SetOffset(0)
	n, held := l.randomCounter, l.currentRandom
	v := l.Process()
	vc.Ensures("a random value is held for its whole period", n >= l.randomPeriod || near(v, held))
	vc.Ensures("the held samples are counted", n >= l.randomPeriod && l.randomCounter == 1 || n < l.randomPeriod && l.randomCounter == n+1)
}

//vc:contract props=C24 float=3 nl=1
func ctr_LFOSettings(l *LFO, v float64, w Waveform, on bool) {
	vc.Inv(l.Inv())
	vc.Requires(v >= -1e9 && v <= 1e9)
	l.SetFrequency(v)
	l.SetDepth(v)
	l.SetOffset(v)
	l.SetPhase(v)
	l.EnableSync(on, v)
	l.SetWaveform(w)
	vc.Ensures("settings stay within their ranges", l.Inv())
	vc.Ensures("the phase is the one set", v < 0 || v >= 1 || l.GetPhase() == v)
	vc.Ensures("settings in range are taken as they are", v < 0.01 || v > 1 || l.frequency == v && l.depth == v && l.offset == v && l.syncPhase == v)
	p := l.GetPhase()
	l.Sync()
	vc.Ensures("sync moves to the sync phase only when it is enabled", on && l.GetPhase() == l.syncPhase || !on && l.GetPhase() == p)
}

//vc:contract props=C24 float=3
func ctr_LFOBlock(l *LFO, buf []float64, k int) {
	vc.Inv(l.Inv())
	vc.Requires(k >= 0 && k < len(buf))
	l.ProcessBuffer(buf)
	vc.Ensures("every sample of a block is between -1 and 1", buf[k] >= -1 && buf[k] <= 1)
	vc.Ensures("everything stays within its range", l.Inv())
}

//vc:loop modulation.LFO.ProcessBuffer
func loopLFO(it int, l *LFO, buf []float64) bool {
	return l.phase >= 0 && l.phase <= 1
}

//vc:loop modulation.LFO.ProcessBuffer
func loopLFORandom(it int, l *LFO, buf []float64) bool {
	return l.currentRandom >= -1 && l.currentRandom <= 1
}

//vc:loop modulation.LFO.ProcessBuffer
func loopLFOOut(it int, l *LFO, buf []float64) bool {
	return vc.Forall(0, it, func(i int) bool { return buf[i] >= -1 && buf[i] <= 1 })
}

//vc:loop modulation.LFO.ProcessBuffer
func loopLFOCount(it int, l *LFO, buf []float64) bool {
	return l.randomCounter >= 0 && l.randomCounter <= 1<<40
}
