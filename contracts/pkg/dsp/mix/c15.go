package mix

import "github.com/justyntemme/vst3go/internal/vc"

//vc:contract props=C15
func ctr_DryWetBuffer(dry, wet []float32, amount float32) {
	vc.Requires(vc.Sep(dry, wet))
	od, ow := vc.Snap(dry), vc.Snap(wet)
	DryWetBuffer(dry, wet, amount)
	vc.Ensures("samples up to the shorter length are mixed as single samples are", vc.Forall(0, len(dry), func(i int) bool {
		return i >= len(wet) || near(dry[i], DryWet(od[i], ow[i], amount)) && near(dry[i], od[i]*(1-amount)+ow[i]*amount)
	}))
	vc.Ensures("samples beyond the shorter length are untouched", vc.Forall(0, len(dry), func(i int) bool { return i < len(wet) || vc.Same32(dry[i], od[i]) }))
	vc.Ensures("the wet signal is untouched", same(wet, ow))
}

//vc:contract props=C15
func ctr_DryWetBufferTo(dry, wet []float32, amount float32, dst []float32) {
	vc.Requires(vc.Sep(dst, dry))
	vc.Requires(vc.Sep(dst, wet))
	od, ow, ot := vc.Snap(dry), vc.Snap(wet), vc.Snap(dst)
	DryWetBufferTo(dry, wet, amount, dst)
	vc.Ensures("samples up to the shortest length are mixed as single samples are", vc.Forall(0, len(dst), func(i int) bool {
		return i >= len(wet) || i >= len(dry) || near(dst[i], DryWet(od[i], ow[i], amount))
	}))
	vc.Ensures("samples beyond the shortest length are untouched", vc.Forall(0, len(dst), func(i int) bool {
		return i < len(wet) && i < len(dry) || vc.Same32(dst[i], ot[i])
	}))
	vc.Ensures("the sources are untouched", same(wet, ow) && same(dry, od))
}

//vc:contract props=C15
func ctr_CrossfadeBuffer(a, b []float32, pos float32, power bool, dst []float32) {
	vc.Requires(vc.Sep(dst, a))
	vc.Requires(vc.Sep(dst, b))
	oa, ob, ot := vc.Snap(a), vc.Snap(b), vc.Snap(dst)
	CrossfadeBuffer(a, b, pos, power, dst)
	vc.Ensures("samples up to the shortest length are crossfaded as single samples are", vc.Forall(0, len(dst), func(i int) bool {
		return i >= len(a) || i >= len(b) || (!power || near(dst[i], CrossfadeCosine(oa[i], ob[i], pos))) && (power || near(dst[i], CrossfadeLinear(oa[i], ob[i], pos)))
	}))
	vc.Ensures("samples beyond the shortest length are untouched", vc.Forall(0, len(dst), func(i int) bool {
		return i < len(a) && i < len(b) || vc.Same32(dst[i], ot[i])
	}))
	vc.Ensures("the sources are untouched", same(a, oa) && same(b, ob))
}

//vc:contract props=C15
func ctr_SumTwo(a, b, dst []float32) {
	vc.Requires(vc.Sep(dst, a))
	vc.Requires(vc.Sep(dst, b))
	oa, ob := vc.Snap(a), vc.Snap(b)
	Sum([][]float32{a, b}, dst)
	vc.Ensures("every sample is the sum of the sources that reach it", vc.Forall(0, len(dst), func(i int) bool {
		return (i < len(a) || i < len(b) || dst[i] == 0) &&
			(i >= len(a) || i < len(b) || near(dst[i], oa[i])) &&
			(i < len(a) || i >= len(b) || near(dst[i], ob[i])) &&
			(i >= len(a) || i >= len(b) || near(dst[i], oa[i]+ob[i]))
	}))
	vc.Ensures("the sources are untouched", same(a, oa) && same(b, ob))
}

//vc:contract props=C15
func ctr_SumWeightedTwo(a, b, gains, dst []float32) {
	vc.Requires(vc.Sep(dst, a))
	vc.Requires(vc.Sep(dst, b))
	vc.Requires(vc.Sep(dst, gains))
	oa, ob := vc.Snap(a), vc.Snap(b)
	ga, gb := float32(1), float32(1)
	if len(gains) > 0 {
		ga = gains[0]
	}
	if len(gains) > 1 {
		gb = gains[1]
	}
	SumWeighted([][]float32{a, b}, gains, dst)
	vc.Ensures("every sample is the weighted sum of the sources that reach it", vc.Forall(0, len(dst), func(i int) bool {
		return (i < len(a) || i < len(b) || dst[i] == 0) &&
			(i >= len(a) || i < len(b) || near(dst[i], oa[i]*ga)) &&
			(i < len(a) || i >= len(b) || near(dst[i], ob[i]*gb)) &&
			(i >= len(a) || i >= len(b) || near(dst[i], oa[i]*ga+ob[i]*gb))
	}))
	vc.Ensures("the sources are untouched", same(a, oa) && same(b, ob))
}

//vc:contract props=C15
func ctr_SumMany(bufs [][]float32, gains, dst []float32) {
	old := vc.Snap(dst)
	Sum(bufs, dst)
	SumWeighted(bufs, gains, dst)
	vc.Ensures("nothing is summed from no sources", len(bufs) > 0 || same(dst, old))
}

//vc:contract props=C15
func ctr_Blend(a, b []float32, balance float32, dst []float32) {
	vc.Requires(vc.Sep(dst, a))
	vc.Requires(vc.Sep(dst, b))
	oa, ob, ot := vc.Snap(a), vc.Snap(b), vc.Snap(dst)
	Blend(a, b, balance, dst)
	vc.Ensures("samples up to the shortest length are blended", vc.Forall(0, len(dst), func(i int) bool {
		return i >= len(a) || i >= len(b) || near(dst[i], CrossfadeCosine(oa[i], ob[i], (balance+1)*0.5))
	}))
	vc.Ensures("samples beyond the shortest length are untouched", vc.Forall(0, len(dst), func(i int) bool {
		return i < len(a) && i < len(b) || vc.Same32(dst[i], ot[i])
	}))
}
