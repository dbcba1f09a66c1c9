package gain

import (
	"math"

	"github.com/justyntemme/vst3go/internal/vc"
)

func loud(x float32) bool     { return x >= -1e6 && x <= 1e6 }
func abs32(x float32) float64 { return math.Abs(float64(x)) }

//vc:contract props=C16 float=3
func ctr_DbRange(db float64) {
	vc.Requires(db == db && db <= 400)
	x := DbToLinear(db)
	vc.Ensures("a linear gain is never negative", x >= 0 && x <= 1.01e20)
	if db <= 0 {
		vc.Ensures("levels up to 0 dB do not amplify", x <= 1)
	} else {
		vc.Ensures("levels above 0 dB do not attenuate", x >= 1)
	}
	if db <= MinDB {
		vc.Ensures("the minimum level is silence", x == 0)
	}
	vc.Ensures("0 dB is unity", DbToLinear(0) == 1 && LinearToDb(1) == 0)
}

//vc:contract props=C16 float=3
func ctr_DbOrder(a, b float64) {
	vc.Requires(a >= -5000 && a <= b && b <= 400)
	x, y := DbToLinear(a), DbToLinear(b)
	vc.Ensures("a higher level never gives a lower gain", x <= y*(1+1e-9))
}

//vc:contract props=C16 float=3
func ctr_LinearOrder(a, b float64) {
	vc.Requires(a <= b && b <= 1e60 && a >= -1e60)
	x, y := LinearToDb(a), LinearToDb(b)
	vc.Ensures("a higher gain never gives a lower level", x <= y+1e-9)
	vc.Ensures("a level is never below the minimum", x >= MinDB && y >= MinDB)
	if a <= 0 {
		vc.Ensures("silence has the minimum level", x == MinDB)
	}
}

//vc:contract props=C16 float=3
func ctr_LinearOrder32(a, b float32) {
	vc.Requires(a <= b && b <= 1e20 && a >= -1e20)
	x, y := LinearToDb32(a), LinearToDb32(b)
	vc.Ensures("a higher gain never gives a lower level", x <= y+1e-3)
	vc.Ensures("a level is never below the minimum", x >= MinDB && y >= MinDB)
	if a <= 0 {
		vc.Ensures("silence has the minimum level", x == MinDB)
	}
}

//vc:contract props=C16 float=3
func ctr_RoundTripDb(db float64) {
	vc.Requires(db >= -199 && db <= 200)
	x := LinearToDb(DbToLinear(db))
	vc.Ensures("a level survives the round trip", x >= db-1e-6 && x <= db+1e-6)
}

//vc:contract props=C16 float=3
func ctr_RoundTripLinear(x float64) {
	vc.Requires(x >= 1.1e-10 && x <= 1e10)
	y := DbToLinear(LinearToDb(x))
	vc.Ensures("a gain survives the round trip", y >= x*(1-1e-8) && y <= x*(1+1e-8))
}

//vc:contract props=C16 float=3
func ctr_Db32(db float32) {
	vc.Requires(db >= -1e6 && db <= 400)
	x := DbToLinear32(db)
	vc.Ensures("a linear gain is never negative", x >= 0 && x <= 1.01e20)
	vc.Ensures("levels up to 0 dB do not amplify and levels above do not attenuate", (db > 0 || x <= 1) && (db <= 0 || x >= 1))
	vc.Ensures("the minimum level is silence", db > MinDB || x == 0)
	vc.Ensures("0 dB is unity", db != 0 || x == 1)
	d := float64(x) - DbToLinear(float64(db))
	vc.Ensures("single and double precision agree", d <= 1e-6*DbToLinear(float64(db))+1e-12 && -d <= 1e-6*DbToLinear(float64(db))+1e-12)
}

//vc:contract props=C16 float=3
func ctr_ApplyDb(s, db float32) {
	vc.Requires(loud(s) && db >= -1000 && db <= 100)
	y := ApplyDb(s, db)
	vc.Ensures("a level below 0 dB never makes the sample louder", db > 0 || abs32(y) <= abs32(s))
	vc.Ensures("0 dB keeps the sample", db != 0 || y == s)
	vc.Ensures("the minimum level silences", db > MinDB || y == 0)
	vc.Ensures("the sign is kept", (s < 0 || y >= 0) && (s > 0 || y <= 0))
	vc.Ensures("unity gain keeps the sample", Apply(s, 1) == s)
}

//vc:contract props=C16
func ctr_HardClip(x, t float32) {
	vc.Requires(t >= 0 && x == x)
	y := HardClip(x, t)
	vc.Ensures("the clipped sample is within the threshold", y >= -t && y <= t)
	vc.Ensures("samples within the threshold are kept", x < -t || x > t || vc.Same32(y, x))
	vc.Ensures("samples beyond it end on the threshold of their side", (x <= t || y == t) && (x >= -t || y == -t))
}

//vc:contract props=C16 float=3 nl=1
func ctr_SoftClip(x, t float32) {
	vc.Requires(t >= 1e-6 && t <= 1e6 && x >= -1e12 && x <= 1e12)
	y := SoftClip(x, t)
	vc.Ensures("the clipped sample is within the threshold", abs32(y) <= float64(t)*(1+1e-5))
	vc.Ensures("samples within the threshold are kept", abs32(x) > float64(t) || vc.Same32(y, x))
	vc.Ensures("the sign is kept", (x < 0 || y >= 0) && (x > 0 || y <= 0))
}
