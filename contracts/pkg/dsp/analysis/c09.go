package analysis

import (
	"sync"
	"sync/atomic"

	"github.com/justyntemme/vst3go/internal/vc"
)

//vc:guard dsp.analysis.PeakMeter mu peak hold holdTime decayRate holdCount
//vc:guard dsp.analysis.RMSMeter mu buffer[] writePos sum count
//vc:guard dsp.analysis.LUFSMeter mu momentary shortTerm integrated preFilter highShelf channelPower
//vc:guard dsp.analysis.CorrelationMeter mu bufferL[] bufferR[] writePos count correlation averaging peakHold peakHoldTime peakHoldCount
//vc:guard dsp.analysis.BalanceMeter mu powerL powerR balance averaging
//vc:guard dsp.analysis.StereoWidthMeter mu midPower sidePower width averaging
//vc:guard dsp.analysis.PhaseScope mu bufferL[] bufferR[] writePos count points[] decay brightness[] rotation scale persistence
//vc:guard dsp.analysis.SpectrumAnalyzer mu buffer writePos hopSize averaging avgBuffer avgWritePos avgCount smoothing minFreq maxFreq minBin maxBin outputBuffer

//vc:contract props=C09 lock=1
func ctr_LockPeakMeterSetHoldTime(o *PeakMeter, a float64) { o.SetHoldTime(a) }

//vc:contract props=C09 lock=1
func ctr_LockPeakMeterSetDecayRate(o *PeakMeter, a float64) { o.SetDecayRate(a) }

//vc:contract props=C09 lock=1
func ctr_LockPeakMeterProcess(o *PeakMeter, xs []float64) { o.Process(xs) }

//vc:contract props=C09 lock=1
func ctr_LockPeakMeterGetPeak(o *PeakMeter) { o.GetPeak() }

//vc:contract props=C09 lock=1
func ctr_LockPeakMeterGetPeakDB(o *PeakMeter) { o.GetPeakDB() }

//vc:contract props=C09 lock=1
func ctr_LockPeakMeterGetHold(o *PeakMeter) { o.GetHold() }

//vc:contract props=C09 lock=1
func ctr_LockPeakMeterGetHoldDB(o *PeakMeter) { o.GetHoldDB() }

//vc:contract props=C09 lock=1
func ctr_LockPeakMeterReset(o *PeakMeter) { o.Reset() }

//vc:contract props=C09 lock=1
func ctr_LockRMSMeterProcess(o *RMSMeter, xs []float64) { o.Process(xs) }

//vc:contract props=C09 lock=1
func ctr_LockRMSMeterGetRMS(o *RMSMeter) { o.GetRMS() }

//vc:contract props=C09 lock=1
func ctr_LockRMSMeterGetRMSDB(o *RMSMeter) { o.GetRMSDB() }

//vc:contract props=C09 lock=1
func ctr_LockRMSMeterReset(o *RMSMeter) { o.Reset() }

//vc:contract props=C09 lock=1
func ctr_LockLUFSMeterProcess(o *LUFSMeter, xs []float64) { o.Process(xs) }

//vc:contract props=C09 lock=1
func ctr_LockLUFSMeterGetMomentaryLUFS(o *LUFSMeter) { o.GetMomentaryLUFS() }

//vc:contract props=C09 lock=1
func ctr_LockLUFSMeterGetShortTermLUFS(o *LUFSMeter) { o.GetShortTermLUFS() }

//vc:contract props=C09 lock=1
func ctr_LockLUFSMeterGetIntegratedLUFS(o *LUFSMeter) { o.GetIntegratedLUFS() }

//vc:contract props=C09 lock=1
func ctr_LockLUFSMeterGetLoudnessRange(o *LUFSMeter) { o.GetLoudnessRange() }

//vc:contract props=C09 lock=1
func ctr_LockLUFSMeterReset(o *LUFSMeter) { o.Reset() }

//vc:contract props=C09 lock=1
func ctr_LockCorrelationMeterSetAveraging(o *CorrelationMeter, a float64) { o.SetAveraging(a) }

//vc:contract props=C09 lock=1
func ctr_LockCorrelationMeterSetPeakHoldTime(o *CorrelationMeter, a float64) { o.SetPeakHoldTime(a) }

//vc:contract props=C09 lock=1
func ctr_LockCorrelationMeterProcess(o *CorrelationMeter, xs []float64, ys []float64) {
	o.Process(xs, ys)
}

//vc:contract props=C09 lock=1
func ctr_LockCorrelationMeterGetCorrelation(o *CorrelationMeter) { o.GetCorrelation() }

//vc:contract props=C09 lock=1
func ctr_LockCorrelationMeterGetPeakHold(o *CorrelationMeter) { o.GetPeakHold() }

//vc:contract props=C09 lock=1
func ctr_LockCorrelationMeterGetPhaseStatus(o *CorrelationMeter) { o.GetPhaseStatus() }

//vc:contract props=C09 lock=1
func ctr_LockCorrelationMeterGetMonoCompatibility(o *CorrelationMeter) { o.GetMonoCompatibility() }

//vc:contract props=C09 lock=1
func ctr_LockCorrelationMeterReset(o *CorrelationMeter) { o.Reset() }

//vc:contract props=C09 lock=1
func ctr_LockBalanceMeterProcess(o *BalanceMeter, xs []float64, ys []float64) { o.Process(xs, ys) }

//vc:contract props=C09 lock=1
func ctr_LockBalanceMeterGetBalance(o *BalanceMeter) { o.GetBalance() }

//vc:contract props=C09 lock=1
func ctr_LockBalanceMeterGetBalanceDB(o *BalanceMeter) { o.GetBalanceDB() }

//vc:contract props=C09 lock=1
func ctr_LockStereoWidthMeterProcess(o *StereoWidthMeter, xs []float64, ys []float64) {
	o.Process(xs, ys)
}

//vc:contract props=C09 lock=1
func ctr_LockStereoWidthMeterGetWidth(o *StereoWidthMeter) { o.GetWidth() }

//vc:contract props=C09 lock=1
func ctr_LockStereoWidthMeterGetWidthDB(o *StereoWidthMeter) { o.GetWidthDB() }

//vc:contract props=C09 lock=1
func ctr_LockPhaseScopeSetMode(o *PhaseScope, n int) { o.SetMode(PhaseScopeMode(n)) }

//vc:contract props=C09 lock=1
func ctr_LockPhaseScopeSetDecay(o *PhaseScope, a float64) { o.SetDecay(a) }

//vc:contract props=C09 lock=1
func ctr_LockPhaseScopeSetPersistence(o *PhaseScope, a float64) { o.SetPersistence(a) }

//vc:contract props=C09 lock=1
func ctr_LockPhaseScopeSetScale(o *PhaseScope, a float64) { o.SetScale(a) }

//vc:contract props=C09 lock=1
func ctr_LockPhaseScopeProcess(o *PhaseScope, xs []float64, ys []float64) { o.Process(xs, ys) }

//vc:contract props=C09 lock=1
func ctr_LockPhaseScopeGetPoints(o *PhaseScope) {
	p, b := o.GetPoints()
	vc.Ensures("the result does not share memory with the scope", vc.Sep(p, o.points) && vc.Sep(b, o.brightness))
}

//vc:contract props=C09 lock=1
func ctr_LockPhaseScopeGetPolarData(o *PhaseScope) { o.GetPolarData() }

//vc:contract props=C09 lock=1
func ctr_LockPhaseScopeGetStatistics(o *PhaseScope) { o.GetStatistics() }

//vc:contract props=C09 lock=1
func ctr_LockPhaseScopeReset(o *PhaseScope) { o.Reset() }

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerSetHopSize(o *SpectrumAnalyzer, n int) { o.SetHopSize(n) }

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerSetAveraging(o *SpectrumAnalyzer, n int, m int) {
	o.SetAveraging(AveragingMode(m), n)
}

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerSetSmoothing(o *SpectrumAnalyzer, a float64) { o.SetSmoothing(a) }

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerSetFrequencyRange(o *SpectrumAnalyzer, a float64, b float64) {
	o.SetFrequencyRange(a, b)
}

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerProcess(o *SpectrumAnalyzer, xs []float64) { o.Process(xs) }

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerGetSpectrum(o *SpectrumAnalyzer) {
	r := o.GetSpectrum()
	vc.Ensures("the result does not share memory with the analyzer", len(r) == 0 || vc.Sep(r, o.outputBuffer))
}

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerGetSpectrumDB(o *SpectrumAnalyzer) {
	r := o.GetSpectrumDB()
	vc.Ensures("the result does not share memory with the analyzer", len(r) == 0 || vc.Sep(r, o.outputBuffer))
}

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerGetSpectrumInRange(o *SpectrumAnalyzer) {
	spec := o.outputBuffer
	r := o.GetSpectrumInRange()
	vc.Ensures("the result does not share memory with the analyzer", len(r) == 0 || vc.Sep(r, spec))
}

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerGetSpectrumDBInRange(o *SpectrumAnalyzer) {
	r := o.GetSpectrumDBInRange()
	vc.Ensures("the result does not share memory with the analyzer", len(r) == 0 || vc.Sep(r, o.outputBuffer))
}

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerReset(o *SpectrumAnalyzer) { o.Reset() }

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerGetPeakFrequency(o *SpectrumAnalyzer) { o.GetPeakFrequency() }

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerGetBandEnergy(o *SpectrumAnalyzer, a float64, b float64) {
	o.GetBandEnergy(a, b)
}

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerGetOctaveBands(o *SpectrumAnalyzer, xs []float64) { o.GetOctaveBands(xs) }

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerGetFrequencyForBin(o *SpectrumAnalyzer, n int) { o.GetFrequencyForBin(n) }

//vc:contract props=C09 lock=1
func ctr_LockSpectrumAnalyzerGetBinForFrequency(o *SpectrumAnalyzer, a float64) {
	o.GetBinForFrequency(a)
}

//vc:contract props=C09 lock=2
func ctr_LockStereoField(o *StereoFieldAnalyzer, xs, ys []float64) {
	o.Process(xs, ys)
}

//vc:contract props=C09 lock=2
func ctr_LockStereoFieldAnalysis(o *StereoFieldAnalyzer) { o.GetAnalysis() }

//vc:contract props=C09 lock=1
func ctr_LockVectorScope(o *VectorScope, xs, ys []float64) { o.Process(xs, ys) }

//vc:contract props=C09 lock=1
func ctr_LockVectorScopeDisplay(o *VectorScope) { o.GetDisplay() }

//vc:contract props=C09 lock=1
func ctr_LockVectorScopeStats(o *VectorScope) { o.GetStatistics() }

// ---- concurrent executions, under the race detector ----

type meterOp int

func gen_MeterOps(g *vc.G) []meterOp {
	var r []meterOp
	for n := g.Range(1, 4); n > 0; n-- {
		r = append(r, meterOp(g.N(60)))
	}
	return r
}

// together runs functions concurrently; ok: none of them panicked.
func together(fs ...func()) bool {
	var wg sync.WaitGroup
	var failed atomic.Bool
	start := make(chan bool)
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					failed.Store(true)
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	return !failed.Load()
}

func twoThreads(a, b []meterOp, ops ...func(x float64)) bool {
	do := func(l []meterOp) func() {
		return func() {
			for i, o := range l {
				ops[int(o)%len(ops)](float64(i) + 0.5)
			}
		}
	}
	return together(do(a), do(b))
}

func block(x float64, n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = x / float64(i+2)
	}
	return r
}

func scribble(rs ...[]float64) {
	for _, r := range rs {
		for i := range r {
			r[i] = 7
		}
	}
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressPeakMeter(a, b []meterOp) {
	o := NewPeakMeter(44100)
	ok := twoThreads(a, b,
		func(x float64) { o.SetHoldTime(x) },
		func(x float64) { o.SetDecayRate(x) },
		func(x float64) { o.Process(block(x, 9)) },
		func(x float64) { o.GetPeak() },
		func(x float64) { o.GetPeakDB() },
		func(x float64) { o.GetHold() },
		func(x float64) { o.GetHoldDB() },
		func(x float64) { o.Reset() },
	)
	vc.Ensures("concurrent operations do not panic", ok)
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressRMSMeter(a, b []meterOp) {
	o := NewRMSMeter(16)
	ok := twoThreads(a, b,
		func(x float64) { o.Process(block(x, 9)) },
		func(x float64) { o.GetRMS() },
		func(x float64) { o.GetRMSDB() },
		func(x float64) { o.Reset() },
	)
	vc.Ensures("concurrent operations do not panic", ok)
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressLUFSMeter(a, b []meterOp) {
	o := NewLUFSMeter(100, 2)
	ok := twoThreads(a, b,
		func(x float64) { o.Process(block(x, 90)) },
		func(x float64) { o.GetMomentaryLUFS() },
		func(x float64) { o.GetShortTermLUFS() },
		func(x float64) { o.GetIntegratedLUFS() },
		func(x float64) { o.GetLoudnessRange() },
		func(x float64) { o.Reset() },
	)
	vc.Ensures("concurrent operations do not panic", ok)
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressCorrelationMeter(a, b []meterOp) {
	o := NewCorrelationMeter(16, 44100)
	ok := twoThreads(a, b,
		func(x float64) { o.SetAveraging(x) },
		func(x float64) { o.SetPeakHoldTime(x) },
		func(x float64) { o.Process(block(x, 9), block(1-x, 9)) },
		func(x float64) { o.GetCorrelation() },
		func(x float64) { o.GetPeakHold() },
		func(x float64) { o.GetPhaseStatus() },
		func(x float64) { o.GetMonoCompatibility() },
		func(x float64) { o.Reset() },
	)
	vc.Ensures("concurrent operations do not panic", ok)
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressBalanceMeter(a, b []meterOp) {
	o := NewBalanceMeter(16)
	ok := twoThreads(a, b,
		func(x float64) { o.Process(block(x, 9), block(1-x, 9)) },
		func(x float64) { o.GetBalance() },
		func(x float64) { o.GetBalanceDB() },
	)
	vc.Ensures("concurrent operations do not panic", ok)
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressStereoWidthMeter(a, b []meterOp) {
	o := NewStereoWidthMeter(16)
	ok := twoThreads(a, b,
		func(x float64) { o.Process(block(x, 9), block(1-x, 9)) },
		func(x float64) { o.GetWidth() },
		func(x float64) { o.GetWidthDB() },
	)
	vc.Ensures("concurrent operations do not panic", ok)
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressPhaseScope(a, b []meterOp) {
	o := NewPhaseScope(16)
	ok := twoThreads(a, b,
		func(x float64) { o.SetMode(ModeGoniometer) },
		func(x float64) { o.SetDecay(x) },
		func(x float64) { o.SetPersistence(x) },
		func(x float64) { o.SetScale(x) },
		func(x float64) { o.Process(block(x, 9), block(1-x, 9)) },
		func(x float64) { o.GetPoints() },
		func(x float64) { scribble(o.GetPolarData()) },
		func(x float64) { o.GetStatistics() },
		func(x float64) { o.Reset() },
	)
	vc.Ensures("concurrent operations do not panic", ok)
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressSpectrumAnalyzer(a, b []meterOp) {
	o := NewSpectrumAnalyzer(64, 44100, HannWindow)
	ok := twoThreads(a, b,
		func(x float64) { o.SetHopSize(8) },
		func(x float64) { o.SetAveraging(AveragingMode(int(x)%3), 4) },
		func(x float64) { o.SetSmoothing(x) },
		func(x float64) { o.SetFrequencyRange(20*x, 9000) },
		func(x float64) { o.SetFrequencyRange(0, 1e9) },
		func(x float64) { o.Process(block(x, 90)) },
		func(x float64) { scribble(o.GetSpectrum()) },
		func(x float64) { scribble(o.GetSpectrumDB()) },
		func(x float64) { scribble(o.GetSpectrumInRange()) },
		func(x float64) { scribble(o.GetSpectrumDBInRange()) },
		func(x float64) { o.Reset() },
		func(x float64) { o.GetPeakFrequency() },
		func(x float64) { o.GetBandEnergy(100, 900*x) },
		func(x float64) { scribble(o.GetOctaveBands([]float64{100, 200})) },
	)
	vc.Ensures("concurrent operations do not panic", ok)
}
