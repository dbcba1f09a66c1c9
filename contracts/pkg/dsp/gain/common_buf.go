package gain

import "github.com/justyntemme/vst3go/internal/vc"

func same(a, b []float32) bool {
	return len(a) == len(b) && vc.Forall(0, len(a), func(i int) bool { return vc.Same32(a[i], b[i]) })
}

func near(a, b float32) bool { return vc.Near32(a, b) }
