package pan

import "github.com/justyntemme/vst3go/internal/vc"

func is(x, y float64) bool { return x >= y-1e-5 && x <= y+1e-5 }

//vc:contract props=C16 float=3 nl=1
func ctr_PanRange(p float32, law Law) {
	vc.Requires(p >= -1 && p <= 1)
	l32, r32 := MonoToStereo(p, law)
	l, r := float64(l32), float64(r32)
	vc.Ensures("pan gains lie between 0 and 1", l >= -1e-6 && l <= 1+1e-6 && r >= -1e-6 && r <= 1+1e-6)
	if law == Linear {
		vc.Ensures("the linear law keeps the sum of the gains", is(l+r, 1))
	}
	if law == ConstantPower {
		vc.Ensures("the constant-power law keeps the power", is(l*l+r*r, 1))
	}
	vc.Ensures("the center feeds both sides equally", p != 0 || is(l, r) && l > 0.4)
	vc.Ensures("fully left silences the right side only", p != -1 || is(r, 0) && l > 0.8)
	vc.Ensures("fully right silences the left side only", p != 1 || is(l, 0) && r > 0.8)
}

//vc:contract props=C16 float=3 nl=1
func ctr_PanOrder(p, q float32, law Law) {
	vc.Requires(p >= -1 && p <= q && q <= 1 && law != Balanced)
	l, r := MonoToStereo(p, law)
	ll, rr := MonoToStereo(q, law)
	vc.Ensures("panning to the right never raises the left gain or lowers the right one", float64(ll) <= float64(l)+1e-6 && float64(rr) >= float64(r)-1e-6)
}
