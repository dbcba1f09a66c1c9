package pan

import "github.com/justyntemme/vst3go/internal/vc"

//vc:contract props=C15
func ctr_Process(mono []float32, pan float32, law Law, l, r []float32) {
	vc.Requires(vc.Sep(l, mono))
	vc.Requires(vc.Sep(r, mono))
	vc.Requires(vc.Sep(l, r))
	om, ol, or := vc.Snap(mono), vc.Snap(l), vc.Snap(r)
	lg, rg := MonoToStereo(pan, law)
	Process(mono, pan, law, l, r)
	vc.Ensures("left samples up to the shortest length carry the left gain", vc.Forall(0, len(l), func(i int) bool {
		return i >= len(mono) || i >= len(r) || near(l[i], om[i]*lg)
	}))
	vc.Ensures("right samples up to the shortest length carry the right gain", vc.Forall(0, len(r), func(i int) bool {
		return i >= len(mono) || i >= len(l) || near(r[i], om[i]*rg)
	}))
	vc.Ensures("samples beyond the shortest length are untouched", vc.Forall(0, len(l), func(i int) bool {
		return i < len(mono) && i < len(r) || vc.Same32(l[i], ol[i])
	}) && vc.Forall(0, len(r), func(i int) bool {
		return i < len(mono) && i < len(l) || vc.Same32(r[i], or[i])
	}))
	vc.Ensures("the source is untouched", same(mono, om))
}

func four(a, b, c, d int) int { return min(a, b, c, d) }

//vc:contract props=C15
func ctr_ProcessStereo(li, ri []float32, pan float32, law Law, l, r []float32) {
	vc.Requires(vc.Sep(l, li) && vc.Sep(l, ri) && vc.Sep(r, li) && vc.Sep(r, ri) && vc.Sep(l, r))
	oli, ori, ol, or := vc.Snap(li), vc.Snap(ri), vc.Snap(l), vc.Snap(r)
	lg, rg := MonoToStereo(pan, law)
	ProcessStereo(li, ri, pan, law, l, r)
	n := four(len(li), len(ri), len(l), len(r))
	vc.Ensures("panning left keeps the left channel and attenuates the right one", !(pan < 0) || vc.Forall(0, n, func(i int) bool { return near(l[i], oli[i]) && near(r[i], ori[i]*rg) }))
	vc.Ensures("panning right keeps the right channel and attenuates the left one", !(pan > 0) || vc.Forall(0, n, func(i int) bool { return near(l[i], oli[i]*lg) && near(r[i], ori[i]) }))
	vc.Ensures("the center passes both channels", pan != 0 || vc.Forall(0, n, func(i int) bool { return near(l[i], oli[i]) && near(r[i], ori[i]) }))
	vc.Ensures("samples beyond the shortest length are untouched", vc.Forall(n, len(l), func(i int) bool { return vc.Same32(l[i], ol[i]) }) && vc.Forall(n, len(r), func(i int) bool { return vc.Same32(r[i], or[i]) }))
	vc.Ensures("the sources are untouched", same(li, oli) && same(ri, ori))
}

//vc:contract props=C15
func ctr_Width(li, ri []float32, width float32, l, r []float32) {
	vc.Requires(vc.Sep(l, li) && vc.Sep(l, ri) && vc.Sep(r, li) && vc.Sep(r, ri) && vc.Sep(l, r))
	oli, ori, ol, or := vc.Snap(li), vc.Snap(ri), vc.Snap(l), vc.Snap(r)
	Width(li, ri, width, l, r)
	n := four(len(li), len(ri), len(l), len(r))
	vc.Ensures("every sample is the middle plus or minus the scaled side", vc.Forall(0, n, func(i int) bool {
		m, s := (oli[i]+ori[i])*0.5, (oli[i]-ori[i])*0.5*width
		return near(l[i], m+s) && near(r[i], m-s)
	}))
	vc.Ensures("samples beyond the shortest length are untouched", vc.Forall(n, len(l), func(i int) bool { return vc.Same32(l[i], ol[i]) }) && vc.Forall(n, len(r), func(i int) bool { return vc.Same32(r[i], or[i]) }))
	vc.Ensures("the sources are untouched", same(li, oli) && same(ri, ori))
}

//vc:contract props=C15
func ctr_Balance(li, ri []float32, bal float32, l, r []float32) {
	vc.Requires(vc.Sep(l, li) && vc.Sep(l, ri) && vc.Sep(r, li) && vc.Sep(r, ri) && vc.Sep(l, r))
	oli, ori, ol, or := vc.Snap(li), vc.Snap(ri), vc.Snap(l), vc.Snap(r)
	Balance(li, ri, bal, l, r)
	n := four(len(li), len(ri), len(l), len(r))
	vc.Ensures("a balance to the left attenuates the right channel", !(bal < 0) || vc.Forall(0, n, func(i int) bool { return near(l[i], oli[i]) && near(r[i], ori[i]*(1+bal)) }))
	vc.Ensures("a balance to the right attenuates the left channel", !(bal > 0) || vc.Forall(0, n, func(i int) bool { return near(r[i], ori[i]) && near(l[i], oli[i]*(1-bal)) }))
	vc.Ensures("a centered balance passes both channels", bal != 0 || vc.Forall(0, n, func(i int) bool { return near(l[i], oli[i]) && near(r[i], ori[i]) }))
	vc.Ensures("samples beyond the shortest length are untouched", vc.Forall(n, len(l), func(i int) bool { return vc.Same32(l[i], ol[i]) }) && vc.Forall(n, len(r), func(i int) bool { return vc.Same32(r[i], or[i]) }))
	vc.Ensures("the sources are untouched", same(li, oli) && same(ri, ori))
}
