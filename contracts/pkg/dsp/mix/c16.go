package mix

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
)

func loud(x float32) bool { return x >= -1e6 && x <= 1e6 }

func within(y, a, b float32) bool {
	lo, hi := float64(a), float64(b)
	if lo > hi {
		lo, hi = hi, lo
	}
	tol := (math.Abs(lo)+math.Abs(hi))*1e-6 + 1e-30
	return float64(y) >= lo-tol && float64(y) <= hi+tol
}

//vc:contract props=C16 float=3 nl=1
func ctr_DryWet(dry, wet, amount float32) {
	vc.Requires(loud(dry) && loud(wet) && amount >= 0 && amount <= 1)
	y := DryWet(dry, wet, amount)
	vc.Ensures("the mix lies between dry and wet", within(y, dry, wet))
	vc.Ensures("amount 0 is the dry signal", amount != 0 || y == dry)
	vc.Ensures("amount 1 is the wet signal", amount != 1 || y == wet)
}

//vc:contract props=C16 float=3 nl=1
func ctr_CrossfadeLinear(a, b, pos float32) {
	vc.Requires(loud(a) && loud(b) && pos >= 0 && pos <= 1)
	y := CrossfadeLinear(a, b, pos)
	vc.Ensures("the fade lies between both signals", within(y, a, b))
	vc.Ensures("position 0 is the first signal", pos != 0 || y == a)
	vc.Ensures("position 1 is the second signal", pos != 1 || y == b)
}

//vc:contract props=C16 float=3 nl=1
func ctr_CrossfadeEnds(a, b float32) {
	vc.Requires(loud(a) && loud(b))
	y, z := CrossfadeCosine(a, b, 0), CrossfadeCosine(a, b, 1)
	tol := 1e-6*(math.Abs(float64(a))+math.Abs(float64(b))) + 1e-30
	vc.Ensures("position 0 is the first signal", math.Abs(float64(y)-float64(a)) <= tol)
	vc.Ensures("position 1 is the second signal", math.Abs(float64(z)-float64(b)) <= tol)
}

//vc:contract props=C16 float=3 nl=1
func ctr_CrossfadePower(pos float32) {
	vc.Requires(pos >= 0 && pos <= 1)
	ga, gb := float64(CrossfadeCosine(1, 0, pos)), float64(CrossfadeCosine(0, 1, pos))
	vc.Ensures("an equal-power fade keeps the power", ga*ga+gb*gb >= 1-1e-5 && ga*ga+gb*gb <= 1+1e-5)
	vc.Ensures("the gains of an equal-power fade lie between 0 and 1", ga >= -1e-6 && ga <= 1+1e-6 && gb >= -1e-6 && gb <= 1+1e-6)
}
