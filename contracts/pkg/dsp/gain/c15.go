package gain

import "github.com/justyntemme/vst3go/internal/vc"

//vc:contract props=C15
func ctr_ApplyBuffer(b []float32, gain float32) {
	old := vc.Snap(b)
	ApplyBuffer(b, gain)
	vc.Ensures("every sample is the old one with the gain applied", vc.Forall(0, len(b), func(i int) bool { return near(b[i], Apply(old[i], gain)) && near(b[i], old[i]*gain) }))
}

//vc:contract props=C15
func ctr_ApplyDbBuffer(b []float32, db float32) {
	old := vc.Snap(b)
	ApplyDbBuffer(b, db)
	vc.Ensures("every sample is the old one with the gain applied", vc.Forall(0, len(b), func(i int) bool { return near(b[i], ApplyDb(old[i], db)) }))
}

//vc:contract props=C15
func ctr_ApplyBufferTo(src []float32, gain float32, dst []float32) {
	vc.Requires(vc.Sep(dst, src))
	od, os := vc.Snap(dst), vc.Snap(src)
	ApplyBufferTo(src, gain, dst)
	vc.Ensures("samples up to the shorter length are scaled", vc.Forall(0, len(dst), func(i int) bool { return i >= len(src) || near(dst[i], os[i]*gain) }))
	vc.Ensures("samples beyond the shorter length are untouched", vc.Forall(0, len(dst), func(i int) bool { return i < len(src) || vc.Same32(dst[i], od[i]) }))
	vc.Ensures("the source is untouched", same(src, os))
}

//vc:contract props=C15
func ctr_HardClipBuffer(b []float32, t float32) {
	vc.Requires(t >= 0)
	old := vc.Snap(b)
	HardClipBuffer(b, t)
	vc.Ensures("every sample is the old one clipped", vc.Forall(0, len(b), func(i int) bool { return near(b[i], HardClip(old[i], t)) }))
	vc.Ensures("no sample exceeds the threshold", vc.Forall(0, len(b), func(i int) bool { return b[i] != b[i] || b[i] <= t && b[i] >= -t }))
}

//vc:contract props=C15
func ctr_SoftClipBuffer(b []float32, t float32) {
	vc.Requires(t >= 0)
	old := vc.Snap(b)
	SoftClipBuffer(b, t)
	vc.Ensures("every sample is the old one clipped", vc.Forall(0, len(b), func(i int) bool { return near(b[i], SoftClip(old[i], t)) }))
}

//vc:contract props=C15
func ctr_FadeFlat(b []float32, g float32) {
	vc.Requires(vc.Finite32(g) && g != 0)
	old := vc.Snap(b)
	Fade(b, g, g)
	vc.Ensures("a fade between equal gains is that gain", vc.Forall(0, len(b), func(i int) bool { return near(b[i], old[i]*g) }))
}

//vc:contract props=C15
func ctr_FadeStart(b []float32, from, to float32) {
	vc.Requires(len(b) > 0 && vc.Finite32(from) && from != 0)
	old := vc.Snap(b)
	Fade(b, from, to)
	vc.Ensures("a fade begins at its first gain", near(b[0], old[0]*from))
}

//vc:loop gain.Fade
func loopFadeFlat(b []float32, from, to float32, phi float32) bool { return from != to || phi == from }

//vc:loop gain.Fade
func loopFadeFlatDone(b []float32, from, to float32, it int) bool {
	return from != to || vc.Forall(0, it, func(i int) bool { return vc.Near32(b[i], vc.Pre(func() float32 { return b[i] })*from) })
}

//vc:loop gain.Fade
func loopFadeRest(b []float32, from, to float32, it int) bool {
	return vc.Forall(it, len(b), func(i int) bool { return vc.Same32(b[i], vc.Pre(func() float32 { return b[i] })) })
}

//vc:loop gain.Fade
func loopFadeStart(b []float32, from, to float32, it int, phi float32) bool {
	return it > 0 && vc.Near32(b[0], vc.Pre(func() float32 { return b[0] })*from) || it == 0 && phi == from
}
