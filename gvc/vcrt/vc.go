// Package vc is the specification vocabulary of the contracts in
// /verif/contracts. It exists only in the overlay that gvc adds to /repo.
//
// The same contract text has two readings. gvc executes it symbolically: every
// call below is an intrinsic and the contract must hold for all parameters.
// The replay driver compiles it and runs it on the real code with concrete
// parameters; the bodies below are the concrete reading.
package vc

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Real is a number with exact arithmetic in the symbolic reading.
type Real float64

// ---- outcomes of the concrete reading ----

type Skip struct{ Why string }
type Fail struct{ Name, Detail string }

var OnFail func(f Fail)

// Requires states a precondition: it is assumed, and reachability of the state
// behind it is checked. Concretely, inputs that do not satisfy it are skipped.
func Requires(c bool) {
	if !c {
		panic(Skip{"precondition"})
	}
}

// Inv assumes a representation invariant that other contracts establish.
func Inv(c bool) {}

// Assume is an unproved assumption; every use is listed in the evidence.
func Assume(why string, c bool) {
	if !c {
		panic(Skip{why})
	}
}

// Ensures states (part of) a property.
func Ensures(name string, c bool) {
	if !c && OnFail != nil {
		OnFail(Fail{Name: name})
	}
}

// Aux states a proof obligation that is not itself part of the property
// (preservation of a representation invariant). It is not judged concretely.
func Aux(name string, c bool) {}

// Panics reports whether f panics. Symbolic reading: not available.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ForallKey quantifies over the entries of a map.
func ForallKey[K comparable, V any](m map[K]V, f func(k K, v V) bool) bool {
	for k, v := range m {
		if !f(k, v) {
			return false
		}
	}
	return true
}

// Every quantifies over all values of K. It is for loop annotations, which are
// never executed.
func Every[K comparable](f func(k K) bool) bool { panic("vc.Every is for annotations only") }

// Has reports whether k is in m.
func Has[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

// Snap copies the elements of s.
func Snap[T any](s []T) []T { return append([]T(nil), s...) }

// Old is a copy of v and of everything reachable from it.
func Old[T any](v T) T {
	d := reflect.New(reflect.TypeOf(&v).Elem()).Elem()
	deepCopy(d, reflect.ValueOf(&v).Elem(), map[unsafe.Pointer]reflect.Value{})
	return d.Interface().(T)
}

func deepCopy(dst, src reflect.Value, memo map[unsafe.Pointer]reflect.Value) {
	switch src.Kind() {
	case reflect.Pointer:
		if src.IsNil() {
			return
		}
		if m, ok := memo[src.UnsafePointer()]; ok && m.Type() == src.Type() {
			dst.Set(m)
			return
		}
		n := reflect.New(src.Type().Elem())
		memo[src.UnsafePointer()] = n
		deepCopy(n.Elem(), src.Elem(), memo)
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		tmp := reflect.New(src.Elem().Type()).Elem()
		from := reflect.New(src.Elem().Type()).Elem()
		from.Set(src.Elem())
		deepCopy(tmp, from, memo)
		dst.Set(tmp)
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			deepCopy(n.Index(i), src.Index(i), memo)
		}
		dst.Set(n)
	case reflect.Map:
		if src.IsNil() {
			return
		}
		n := reflect.MakeMap(src.Type())
		it := src.MapRange()
		for it.Next() {
			from := reflect.New(it.Value().Type()).Elem()
			from.Set(it.Value())
			to := reflect.New(it.Value().Type()).Elem()
			deepCopy(to, from, memo)
			n.SetMapIndex(it.Key(), to)
		}
		dst.Set(n)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			deepCopy(dst.Index(i), src.Index(i), memo)
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			f, t := src.Field(i), dst.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			t = reflect.NewAt(t.Type(), unsafe.Pointer(t.UnsafeAddr())).Elem()
			deepCopy(t, f, memo)
		}
	default:
		dst.Set(src)
	}
}

// SnapMap copies m.
func SnapMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// Pre evaluates f in the state at entry of the enclosing function. Only in
// loop annotations, which have no concrete reading.
func Pre[T any](f func() T) T { panic("vc.Pre outside a loop annotation") }

// Sep states that a and b (pointers, slices or maps) are stored in different
// objects. The concrete reading compares slices of the same type.
func Sep[A, B any](a A, b B) bool { return true }

// Whole states that the slice starts at the beginning of its array.
func Whole[T any](s []T) bool { return true }

func Same64(a, b float64) bool { return a == b || (a != a && b != b) }
func Same32(a, b float32) bool { return a == b || (a != a && b != b) }

// Near64 and Near32 are Same for the prover; the concrete reading allows for a
// few roundings.
func Near64(a, b float64) bool {
	return Same64(a, b) || math.Abs(a-b) <= 1e-9*(1e-3+math.Max(math.Abs(a), math.Abs(b)))
}
func Near32(a, b float32) bool {
	x, y := float64(a), float64(b)
	return Same32(a, b) || math.Abs(x-y) <= 1e-5*(1e-3+math.Max(math.Abs(x), math.Abs(y)))
}

// Is64 and Is32 are identity for the prover (same bits, so that every function of
// the two agrees) and Near in the concrete reading.
func Is64(a, b float64) bool { return Near64(a, b) }
func Is32(a, b float32) bool { return Near32(a, b) }

func Finite64(a float64) bool { return !math.IsNaN(a) && !math.IsInf(a, 0) }
func Finite32(a float32) bool { return Finite64(float64(a)) }

// Float64 and Float32 turn an exact number back into a float (nearest).
func R64(a float64) Real { return Real(a) }
func R32(a float32) Real { return Real(a) }
func RInt(a int) Real    { return Real(a) }

// Le compares exact numbers; the concrete reading allows for the rounding of
// its own arithmetic.
func Le(a, b Real) bool {
	x, y := float64(a), float64(b)
	return x <= y+1e-9*(1+math.Abs(x)+math.Abs(y))
}

// IntDiv and IntMod are mathematical floor division and remainder.
func IntMod(a, b int) int { return ((a % b) + b) % b }

// Any is an arbitrary value of its type (concretely: generated).
func Any[T any]() T {
	var z T
	v := reflect.ValueOf(&z).Elem()
	Cur.fill(v)
	return z
}

// Perm states that b is a permutation of a.
func Perm[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[T]int{}
	for _, v := range a {
		m[v]++
	}
	for _, v := range b {
		m[v]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// ---- concrete inputs ----

// G generates concrete inputs. The stream is determined by the seed.
type G struct {
	s      uint64
	Ints   []int64
	Floats []float64
	Log    []string
	Depth  int
}

var Cur *G

func NewG(seed uint64, ints []int64, floats []float64) *G {
	g := &G{s: seed*0x9E3779B97F4A7C15 + 0x1234567, Ints: ints, Floats: floats}
	for i := 0; i < 4; i++ {
		g.U64()
	}
	return g
}

func (g *G) U64() uint64 {
	g.s += 0x9E3779B97F4A7C15
	z := g.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (g *G) note(f string, a ...any) {
	if len(g.Log) < 400 {
		g.Log = append(g.Log, fmt.Sprintf(f, a...))
	}
}

// N returns a number in [0, n).
func (g *G) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(g.U64() % uint64(n))
}

// Range returns a number in [lo, hi].
func (g *G) Range(lo, hi int) int {
	v := lo + g.N(hi-lo+1)
	g.note("%d", v)
	return v
}

func (g *G) Bool() bool {
	b := g.U64()&1 == 1
	g.note("%v", b)
	return b
}

var baseInts = []int64{0, 1, -1, 2, 3, 4, 5, 7, 8, 16, 63, 64, 65, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 32767, 32768, 44100, 48000, 65535, 65536,
	math.MaxInt32, math.MinInt32, math.MaxInt32 - 1, math.MaxUint32, math.MaxInt64, math.MinInt64}

func (g *G) Int() int64 {
	var v int64
	switch g.N(10) {
	case 0, 1, 2, 3:
		v = int64(g.N(9)) - 2
	case 4, 5:
		v = int64(g.N(300)) - 20
	case 6:
		if len(g.Ints) > 0 {
			v = g.Ints[g.N(len(g.Ints))] + int64(g.N(3)) - 1
		} else {
			v = int64(g.N(20))
		}
	case 7:
		v = baseInts[g.N(len(baseInts))] + int64(g.N(3)) - 1
	case 8:
		v = int64(g.U64()) >> uint(g.N(64))
	case 9:
		v = int64(g.N(100000))
	}
	g.note("%d", v)
	return v
}

var baseFloats = []float64{0, 1, -1, 0.5, -0.5, 2, -2, 0.25, 0.1, 0.9, 0.999, 1e-9, 1e-5, 1e-3, 1e-30, -1e-30, 10, 100, 1000, 440, 44100, 48000, 96000, 20000,
	127, -60, -120, 6, 12, 24, 1e9, -1e9, 1e30, math.Pi, 2 * math.Pi, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1)}

func (g *G) Float() float64 {
	var v float64
	switch g.N(12) {
	case 0, 1, 2:
		v = float64(g.U64()>>11) / (1 << 53)
	case 3, 4:
		v = 2*float64(g.U64()>>11)/(1<<53) - 1
	case 5:
		v = 200*float64(g.U64()>>11)/(1<<53) - 100
	case 6:
		v = 50000 * float64(g.U64()>>11) / (1 << 53)
	case 7:
		if len(g.Floats) > 0 {
			v = g.Floats[g.N(len(g.Floats))]
			switch g.N(4) {
			case 0:
				v = math.Nextafter(v, math.Inf(1))
			case 1:
				v = math.Nextafter(v, math.Inf(-1))
			}
		}
	case 8, 9:
		v = baseFloats[g.N(len(baseFloats))]
	case 10:
		v = math.Ldexp(2*float64(g.U64()>>11)/(1<<53)-1, g.N(60)-40)
	case 11:
		v = float64(g.N(65)) / 64
	}
	g.note("%v", v)
	return v
}

// Unit returns a float in [0,1], often at the ends.
func (g *G) Unit() float64 {
	var v float64
	switch g.N(6) {
	case 0:
		v = float64(g.N(2))
	case 1:
		v = float64(g.N(17)) / 16
	default:
		v = float64(g.U64()>>11) / (1 << 53)
	}
	g.note("%v", v)
	return v
}

// Audio returns a sample value in [-1,1], sometimes 0 or at the ends.
func (g *G) Audio() float32 { return float32(2*g.Unit() - 1) }

func (g *G) In(lo, hi float64) float64 {
	v := lo + (hi-lo)*g.Unit()
	g.note("%v", v)
	return v
}

func (g *G) Len() int {
	switch g.N(6) {
	case 0:
		return g.N(3)
	case 5:
		return g.N(70)
	}
	return g.N(9)
}

func (g *G) Str() string {
	n := g.N(6)
	b := make([]byte, n)
	for i := range b {
		const cs = "abAB0 19.-%#sd:/\x00\xff\xc3\xa9"
		b[i] = cs[g.N(len(cs))]
	}
	g.note("%q", b)
	return string(b)
}

func (g *G) Pick(n int) int {
	v := g.N(n)
	g.note("op%d", v)
	return v
}

func (g *G) Fill(p any) { g.fill(reflect.ValueOf(p).Elem()) }

func (g *G) fill(v reflect.Value) {
	if !v.CanSet() {
		return
	}
	if f, ok := gens[v.Type()]; ok && g.Depth < 6 {
		g.Depth++
		v.Set(f.Call([]reflect.Value{reflect.ValueOf(g)})[0])
		g.Depth--
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(g.Int()))
	case reflect.Float64:
		v.SetFloat(g.Float())
	case reflect.Float32:
		v.SetFloat(float64(float32(g.Float())))
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i))
		}
	case reflect.Slice:
		n := g.Len()
		if n == 0 && g.N(2) == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n+g.N(3))
		for i := 0; i < n; i++ {
			g.fill(s.Index(i))
		}
		v.Set(s)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i))
		}
	case reflect.Ptr:
		if g.Depth > 4 {
			return
		}
		g.Depth++
		n := reflect.New(v.Type().Elem())
		g.fill(n.Elem())
		v.Set(n)
		g.Depth--
	}
}

// ---- replay driver ----

type Outcome struct {
	Contract string
	Seed     uint64
	Name     string
	Detail   string
	Input    []string
}

// Ctr is a contract as registered by the generated driver.
type Ctr struct {
	Name   string
	F      any
	Params []string
}

type config struct {
	Contracts []struct {
		Name   string
		Seeds  []uint64
		N      int
		Base   uint64
		Ints   []int64
		Floats []float64
		Millis int
	}
	HangSeconds int
	Out         string
}

type report struct {
	Outcome *Outcome
	Name    string
	Ran     int
	Skipped int
	Millis  int64
}

var gens = map[reflect.Type]reflect.Value{}

// Main is called by the generated driver. over maps "Contract/param" to a
// generator for that parameter, gs are generators for their result type.
func Main(ctrs []Ctr, gs []any, over map[string]any) {
	path := os.Getenv("VC_CFG")
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var cfg config
	if err := json.Unmarshal(b, &cfg); err != nil {
		panic(err)
	}
	debug.SetGCPercent(400)
	for _, g := range gs {
		v := reflect.ValueOf(g)
		gens[v.Type().Out(0)] = v
	}
	var reps []report
	flush := func() {
		b, _ := json.Marshal(reps)
		os.WriteFile(cfg.Out, b, 0o644)
	}
	by := map[string]Ctr{}
	for _, c := range ctrs {
		by[c.Name] = c
	}
	for _, cc := range cfg.Contracts {
		c, ok := by[cc.Name]
		if !ok {
			continue
		}
		t0 := time.Now()
		r := report{Name: cc.Name}
		f := reflect.ValueOf(c.F)
		var start atomic.Int64 // start of the current run
		var cur atomic.Uint64
		done := make(chan bool)
		var last *G
		try := func(seed uint64) *Outcome {
			g := NewG(seed, cc.Ints, cc.Floats)
			Cur = g
			last = g
			cur.Store(seed)
			start.Store(time.Now().UnixNano())
			var fail *Fail
			OnFail = func(x Fail) {
				if fail == nil {
					fail = &x
				}
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(Skip); ok {
							r.Skipped++
							fail = nil
							return
						}
						if fail == nil {
							fail = &Fail{Name: "no panic", Detail: fmt.Sprint(e) + where()}
						}
					}
				}()
				var args []reflect.Value
				for i := 0; i < f.Type().NumIn(); i++ {
					T := f.Type().In(i)
					v := reflect.New(T).Elem()
					g.note("%s:", c.Params[i])
					if o, ok := over[c.Name+"/"+c.Params[i]]; ok {
						v.Set(reflect.ValueOf(o).Call([]reflect.Value{reflect.ValueOf(g)})[0])
					} else {
						g.fill(v)
					}
					args = append(args, v)
				}
				g.note("| contract:")
				f.Call(args)
			}()
			start.Store(0)
			r.Ran++
			if fail != nil {
				return &Outcome{Contract: c.Name, Seed: seed, Name: fail.Name, Detail: fail.Detail, Input: g.Log}
			}
			return nil
		}
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(200 * time.Millisecond):
				}
				if s := start.Load(); s != 0 && time.Now().UnixNano()-s > int64(cfg.HangSeconds)*1e9 {
					r.Outcome = &Outcome{Contract: c.Name, Seed: cur.Load(), Name: "terminates", Detail: fmt.Sprintf("still running after %d s", cfg.HangSeconds), Input: append([]string{}, last.Log...)}
					reps = append(reps, r)
					flush()
					os.Exit(0)
				}
			}
		}()
		for _, s := range cc.Seeds {
			if r.Outcome == nil {
				r.Outcome = try(s)
			}
		}
		for i := 0; i < cc.N && r.Outcome == nil; i++ {
			if time.Since(t0) > time.Duration(cc.Millis)*time.Millisecond {
				break
			}
			r.Outcome = try(cc.Base + uint64(i))
		}
		close(done)
		r.Millis = time.Since(t0).Milliseconds()
		reps = append(reps, r)
		flush()
	}
	flush()
}

func where() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "zz_vc_") && !strings.Contains(l, "internal/vc/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 3 {
			break
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " at " + strings.Join(out, " < ")
}

// Same states that a and b hold the same elements in the same order.
func Same[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// StableSort states that b is the stable sort of a.
func StableSort[T comparable](a, b []T, less func(x, y T) bool) bool {
	c := append([]T(nil), a...)
	for i := 1; i < len(c); i++ {
		for j := i; j > 0 && less(c[j], c[j-1]); j-- {
			c[j], c[j-1] = c[j-1], c[j]
		}
	}
	return Same(c, b)
}
