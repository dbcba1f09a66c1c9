package process

import "github.com/justyntemme/vst3go/internal/vc"

// apart: the buffers of b do not overlap each other.
func apart(b [][]float32) bool {
	return vc.Forall(0, len(b), func(i int) bool {
		return vc.Forall(0, len(b), func(j int) bool { return !(i < j) || vc.Sep(b[i], b[j]) })
	})
}

// noOverlap: no buffer of a overlaps one of b.
func noOverlap(a, b [][]float32) bool {
	return vc.Forall(0, len(a), func(i int) bool {
		return vc.Forall(0, len(b), func(j int) bool { return vc.Sep(a[i], b[j]) })
	})
}

func sameSamples(a, b []float32) bool {
	return len(a) == len(b) && vc.Forall(0, len(a), func(i int) bool { return vc.Same32(a[i], b[i]) })
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func gen_Buffers(g *vc.G) [][]float32 {
	var bs [][]float32
	for n := g.Range(0, 4); n > 0; n-- {
		b := make([]float32, g.Range(0, 5))
		for i := range b {
			b[i] = float32(g.Float())
		}
		bs = append(bs, b)
	}
	return bs
}

func gen_Context(g *vc.G) *Context {
	c := NewContext(8, nil)
	c.Input, c.Output = gen_Buffers(g), gen_Buffers(g)
	return c
}
