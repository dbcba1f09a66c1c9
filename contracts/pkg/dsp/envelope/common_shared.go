package envelope

import "github.com/justyntemme/vst3go/internal/vc"

func unit(x float64) bool { return x >= 0 && x <= 1 }

// seconds: a setting that is a number of reasonable size.
func seconds(x float64) bool { return x >= -1e6 && x <= 1e6 }

func invADSR(e *ADSR) bool {
	return unit(e.value) && unit(e.sustain) && unit(e.target) && unit(e.attackCoef) && unit(e.decayCoef) && unit(e.releaseCoef) &&
		e.sampleRate >= 1 && e.sampleRate <= 1e7 &&
		e.attack >= 0.001 && e.decay >= 0.001 && e.release >= 0.001 && e.attack <= 1e6 && e.decay <= 1e6 && e.release <= 1e6 &&
		StageIdle <= e.stage && e.stage <= StageRelease && (e.stage != StageAttack || e.target == 1) && (e.stage != StageRelease || e.target == 0) &&
		(e.stage != StageIdle || e.value == 0)
}

func invDetector(d *Detector) bool {
	return d.envelope >= 0 && d.envelope <= 1e20 && unit(d.attackCoef) && unit(d.releaseCoef) && d.sampleRate >= 1000 && d.sampleRate <= 1e6 &&
		d.hold >= 0 && d.hold <= 1e3 && 1 <= d.rmsWindowLen && d.rmsWindowLen <= 1<<40 && ModePeak <= d.mode && d.mode <= ModePeakHold && TypeLinear <= d.detType && d.detType <= TypeAnalog &&
		d.attack >= 0.0001 && d.attack <= 1e6 && d.release >= 0.0001 && d.release <= 1e6 &&
		vc.Whole(d.rmsWindow) && (d.rmsWindow == nil && d.mode != ModeRMS || len(d.rmsWindow) == d.rmsWindowLen) && 0 <= d.rmsIndex && d.rmsIndex < d.rmsWindowLen
}

func invWindow(d *Detector) bool {
	return d.rmsSum >= -1e15 && d.rmsSum <= 1e15 && vc.Forall(0, len(d.rmsWindow), func(i int) bool { return d.rmsWindow[i] >= 0 && d.rmsWindow[i] <= 1e12 })
}

func gen_Detector(g *vc.G) *Detector {
	d := NewDetector(g.In(1000, 4000), DetectorMode(g.Range(0, 2)))
	d.SetType(DetectorType(g.Range(0, 2)))
	d.SetTimeConstants(g.In(0, 0.01), g.In(0, 0.01))
	d.SetHold(g.In(0, 0.005))
	if g.Bool() {
		d.SetMode(DetectorMode(g.Range(0, 2)))
	}
	if g.Bool() {
		d.SetRMSWindow(g.In(0, 5))
	}
	if d.rmsWindow == nil {
		d.rmsWindow = nil
	}
	for n := g.Range(0, 40); n > 0; n-- {
		x := g.Audio()
		for k := g.Range(1, 8); k > 0; k-- {
			d.Detect(x * float32(g.Range(0, 1000)))
		}
		for k := g.Range(0, 8); k > 0; k-- {
			d.Detect(0)
		}
	}
	return d
}

// VCDetector: the detector invariant, for the packages that use detectors.
func VCDetector(d *Detector) bool { return d != nil && invDetector(d) && d.mode != ModeRMS }

// VCGenDetector makes a detector in a reachable state.
func VCGenDetector(g *vc.G) *Detector { return gen_Detector(g) }

// VCLinearPeak: a linear peak detector, as the limiter uses them.
func VCLinearPeak(d *Detector) bool {
	return d != nil && invDetector(d) && d.mode == ModePeak && d.detType == TypeLinear
}
