package dsp

import "github.com/justyntemme/vst3go/internal/vc"

//vc:contract props=C15
func ctr_Clear(b []float32) {
	Clear(b)
	vc.Ensures("every sample is zero", vc.Forall(0, len(b), func(i int) bool { return b[i] == 0 }))
}

//vc:contract props=C15
func ctr_Copy(dst, src []float32) {
	vc.Requires(vc.Sep(dst, src))
	od, os := vc.Snap(dst), vc.Snap(src)
	Copy(dst, src)
	vc.Ensures("samples up to the shorter length are copied", vc.Forall(0, len(dst), func(i int) bool { return i >= len(src) || vc.Same32(dst[i], os[i]) }))
	vc.Ensures("samples beyond the shorter length are untouched", vc.Forall(0, len(dst), func(i int) bool { return i < len(src) || vc.Same32(dst[i], od[i]) }))
	vc.Ensures("the source is untouched", same(src, os))
}

//vc:contract props=C15
func ctr_Add(dst, src []float32) {
	vc.Requires(vc.Sep(dst, src))
	od, os := vc.Snap(dst), vc.Snap(src)
	Add(dst, src)
	vc.Ensures("samples up to the shorter length are added", vc.Forall(0, len(dst), func(i int) bool { return i >= len(src) || near(dst[i], od[i]+os[i]) }))
	vc.Ensures("samples beyond the shorter length are untouched", vc.Forall(0, len(dst), func(i int) bool { return i < len(src) || vc.Same32(dst[i], od[i]) }))
	vc.Ensures("the source is untouched", same(src, os))
}

//vc:contract props=C15
func ctr_AddScaled(dst, src []float32, scale float32) {
	vc.Requires(vc.Sep(dst, src))
	od, os := vc.Snap(dst), vc.Snap(src)
	AddScaled(dst, src, scale)
	vc.Ensures("scaled samples up to the shorter length are added", vc.Forall(0, len(dst), func(i int) bool { return i >= len(src) || near(dst[i], od[i]+os[i]*scale) }))
	vc.Ensures("samples beyond the shorter length are untouched", vc.Forall(0, len(dst), func(i int) bool { return i < len(src) || vc.Same32(dst[i], od[i]) }))
	vc.Ensures("the source is untouched", same(src, os))
}

//vc:contract props=C15
func ctr_Scale(b []float32, scale float32) {
	old := vc.Snap(b)
	Scale(b, scale)
	vc.Ensures("every sample is scaled", vc.Forall(0, len(b), func(i int) bool { return near(b[i], old[i]*scale) }))
}

//vc:contract props=C15
func ctr_Mix(dst, a, b []float32, mix float32) {
	vc.Requires(vc.Sep(dst, a))
	vc.Requires(vc.Sep(dst, b))
	od, oa, ob := vc.Snap(dst), vc.Snap(a), vc.Snap(b)
	Mix(dst, a, b, mix)
	vc.Ensures("samples up to the shortest length are blended", vc.Forall(0, len(dst), func(i int) bool {
		return i >= len(a) || i >= len(b) || near(dst[i], oa[i]*(1-mix)+ob[i]*mix)
	}))
	vc.Ensures("samples beyond the shortest length are untouched", vc.Forall(0, len(dst), func(i int) bool { return i < len(a) && i < len(b) || vc.Same32(dst[i], od[i]) }))
	vc.Ensures("the sources are untouched", same(a, oa) && same(b, ob))
}

//vc:contract props=C15
func ctr_Clip(b []float32, limit float32) {
	vc.Requires(limit >= 0)
	old := vc.Snap(b)
	Clip(b, limit)
	vc.Ensures("no sample exceeds the limit", vc.Forall(0, len(b), func(i int) bool { return b[i] != b[i] || b[i] <= limit && b[i] >= -limit }))
	vc.Ensures("samples within the limit are untouched", vc.Forall(0, len(b), func(i int) bool {
		return !(old[i] <= limit && old[i] >= -limit) || b[i] == old[i]
	}))
	vc.Ensures("samples beyond the limit are set to it", vc.Forall(0, len(b), func(i int) bool {
		return (!(old[i] > limit) || b[i] == limit) && (!(old[i] < -limit) || b[i] == -limit)
	}))
}

//vc:contract props=C15 float=3 nl=1
func ctr_SoftClip(b []float32, t float32) {
	vc.Requires(t >= 0 && t <= 1)
	old := vc.Snap(b)
	SoftClip(b, t)
	vc.Ensures("samples within the threshold are untouched", vc.Forall(0, len(b), func(i int) bool {
		return !(old[i] <= t && old[i] >= -t) || b[i] == old[i]
	}))
	vc.Ensures("no sample leaves [-1, 1] by more than rounding", vc.Forall(0, len(b), func(i int) bool { return b[i] != b[i] || b[i] <= 1.00001 && b[i] >= -1.00001 }))
}

//vc:contract props=C15
func ctr_Peak(b []float32) {
	p := Peak(b)
	vc.Ensures("the peak bounds every sample", vc.Forall(0, len(b), func(i int) bool { return b[i] != b[i] || b[i] <= p && -b[i] <= p }))
	vc.Ensures("the peak is reached", p == 0 || vc.Exists(0, len(b), func(i int) bool { return b[i] == p || -b[i] == p }))
}

//vc:contract props=C15
func ctr_RMS(b []float32) {
	r := RMS(b)
	vc.Ensures("the level is not negative", !(r < 0))
	vc.Ensures("an empty buffer has no level", len(b) > 0 || r == 0)
}

//vc:loop dsp.Peak
func loopPeak(b []float32, it int, phi float32) bool {
	return phi >= 0 && vc.Forall(0, it, func(i int) bool { return b[i] != b[i] || b[i] <= phi && -b[i] <= phi })
}

//vc:loop dsp.Peak
func loopPeakReached(b []float32, it int, phi float32) bool {
	return phi == 0 || vc.Exists(0, it, func(i int) bool { return b[i] == phi || -b[i] == phi })
}

//vc:loop dsp.RMS
func loopRMS(b []float32, it int, phi float32) bool { return !(phi < 0) }
