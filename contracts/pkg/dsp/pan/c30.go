package pan

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
)

func (ap *AutoPan) Inv() bool {
	return ap.rate >= 0 && ap.rate <= 1000 && ap.depth >= 0 && ap.depth <= 1 && ap.phase >= 0 && ap.phase <= 6.2832
}

func gen_AutoPan(g *vc.G) *AutoPan {
	ap := NewAutoPan(float32(g.In(0, 1000)), float32(g.Unit()), Law(g.N(4)))
	ap.phase = float32(g.In(0, 6.2831))
	return ap
}

func gen_AutoPanStep_rate(g *vc.G) float32 { return float32(g.In(2000, 192000)) }

//vc:contract props=C30 float=3
func ctr_AutoPan(ap *AutoPan, mono, left, right []float32) {
	vc.Inv(ap.Inv())
	ap.law = Linear
	ap.Process(mono, 48000, left, right)
	vc.Ensures("the pan phase stays within its period", ap.phase >= 0 && ap.phase <= 6.2832)
}

//vc:loop pan.AutoPan.Process
func loopPhase(it int, ap *AutoPan) bool {
	return ap.phase >= 0 && ap.phase <= 6.2832
}

//vc:contract props=C30 float=3 nl=1 unroll=3
func ctr_AutoPanStep(ap *AutoPan, x float32, rate float32) {
	vc.Inv(ap.Inv())
	vc.Requires(rate >= 2000 && rate <= 1e6 && x >= 0 && x <= 1e6)
	p := float64(ap.phase)
	left, right := []float32{0}, []float32{0}
	ap.Process([]float32{x}, rate, left, right)
	q, inc := float64(ap.phase), float64(2.0*math.Pi*ap.rate/rate)
	d := q - (p + inc)
	vc.Ensures("the phase advances by one step within the period", (d >= -1e-5 && d <= 1e-5) || (d+6.283185307179586 >= -1e-5 && d+6.283185307179586 <= 1e-5))
}

//vc:contract props=C30 float=3 nl=1 unroll=3
func ctr_AutoPanBalanced(ap *AutoPan, x float32) {
	vc.Inv(ap.Inv())
	vc.Requires(x >= 0 && x <= 1e6)
	ap.law = Balanced
	m := float64(x)
	left, right := []float32{0}, []float32{0}
	ap.Process([]float32{x}, 48000, left, right)
	l, r := float64(left[0]), float64(right[0])
	vc.Ensures("panned samples are never louder than the sample itself", l >= -1e-5*m-1e-30 && l <= m*1.00001+1e-30 && r >= -1e-5*m-1e-30 && r <= m*1.00001+1e-30)
}

//vc:contract props=C30 float=3 nl=1 unroll=3
func ctr_AutoPanConstantPower(ap *AutoPan, x float32) {
	vc.Inv(ap.Inv())
	vc.Requires(x >= 0 && x <= 1e6)
	ap.law = ConstantPower
	m := float64(x)
	left, right := []float32{0}, []float32{0}
	ap.Process([]float32{x}, 48000, left, right)
	l, r := float64(left[0]), float64(right[0])
	vc.Ensures("panned samples are never louder than the sample itself", l >= -1e-5*m-1e-30 && l <= m*1.00001+1e-30 && r >= -1e-5*m-1e-30 && r <= m*1.00001+1e-30)
}

//vc:contract props=C30 float=3 nl=1 unroll=3
func ctr_AutoPanLinear(ap *AutoPan, x float32) {
	vc.Inv(ap.Inv())
	vc.Requires(x >= 0 && x <= 1e6)
	ap.law = Linear
	m := float64(x)
	left, right := []float32{0}, []float32{0}
	ap.Process([]float32{x}, 48000, left, right)
	l, r := float64(left[0]), float64(right[0])
	vc.Ensures("panned samples are never louder than the sample itself", l >= -1e-5*m-1e-30 && l <= m*1.00001+1e-30 && r >= -1e-5*m-1e-30 && r <= m*1.00001+1e-30)
}

//vc:contract props=C30 float=3
func ctr_AutoPanReset(ap *AutoPan, r, d float32) {
	ap.SetRate(r)
	ap.SetDepth(d)
	ap.Reset()
	vc.Ensures("a reset starts the period", ap.phase == 0)
	vc.Ensures("settings are kept", vc.Same32(ap.rate, r) && vc.Same32(ap.depth, d))
}
