package interpolation

import "github.com/justyntemme/vst3go/internal/vc"

//vc:contract props=C15
func ctr_SmoothBuffer(b []float32, target, factor float32) {
	old := vc.Snap(b)
	SmoothBuffer(b, target, factor)
	vc.Ensures("every sample moves toward the target", vc.Forall(0, len(b), func(i int) bool { return near(b[i], Smooth(old[i], target, factor)) }))
}
