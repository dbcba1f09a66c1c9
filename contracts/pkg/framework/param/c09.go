package param

import (
	"sync"
	"sync/atomic"

	"github.com/justyntemme/vst3go/internal/vc"
)

//vc:guard framework.param.Registry mu params order
//vc:guard framework.param.AutoRegistry Registry.mu nameToID autoEnabled
//vc:guard framework.param.AutoRegistry Registry.mu!atomic nextID
//vc:guard framework.param.Parameter atomic value

//vc:contract props=C09 lock=1
func ctr_LockRegAdd(r *Registry, ps []*Parameter) { r.Add(ps...) }

//vc:contract props=C09 lock=1
func ctr_LockRegGet(r *Registry, id uint32) { r.Get(id) }

//vc:contract props=C09 lock=1
func ctr_LockRegGetByIndex(r *Registry, i int32) { r.GetByIndex(i) }

//vc:contract props=C09 lock=1
func ctr_LockRegCount(r *Registry) { r.Count() }

//vc:contract props=C09 lock=1
func ctr_LockRegAll(r *Registry) { r.All() }

//vc:contract props=C09 lock=1
func ctr_LockAutoEnable(r *AutoRegistry, on bool) { r.EnableAutoID(on) }

//vc:contract props=C09 lock=1
func ctr_LockAutoRegister(r *AutoRegistry, ps []*Parameter) { r.Register(ps...) }

//vc:contract props=C09 lock=1
func ctr_LockAutoRegisterWithID(r *AutoRegistry, id uint32, p *Parameter) { r.RegisterWithID(id, p) }

//vc:contract props=C09 lock=1
func ctr_LockAutoGetByName(r *AutoRegistry, name string) { r.GetByName(name) }

//vc:contract props=C09 lock=1
func ctr_LockAutoGetID(r *AutoRegistry, name string) { r.GetID(name) }

//vc:contract props=C09 lock=1
func ctr_LockAutoClear(r *AutoRegistry) { r.Clear() }

//vc:contract props=C09 lock=1
func ctr_LockAutoReserve(r *AutoRegistry, n uint32) { r.Reserve(n) }

//vc:contract props=C09 lock=1
func ctr_LockParamGet(p *Parameter) { p.GetValue() }

//vc:contract props=C09 lock=1
func ctr_LockParamSet(p *Parameter, v float64) { p.SetValue(v) }

//vc:contract props=C09 lock=1
func ctr_LockParamGetPlain(p *Parameter) { p.GetPlainValue() }

//vc:contract props=C09 lock=1
func ctr_LockParamSetPlain(p *Parameter, v float64) { p.SetPlainValue(v) }

// ---- concurrent executions, under the race detector ----

type regOp struct {
	kind int
	id   uint32
	name string
	v    float64
}

func gen_RegOps(g *vc.G) []regOp {
	var r []regOp
	for n := g.Range(1, 6); n > 0; n-- {
		r = append(r, regOp{g.N(10), uint32(g.N(6)), string(rune('a' + g.N(6))), g.Unit()})
	}
	return r
}

// together runs functions concurrently; ok: none of them panicked.
func together(fs ...func()) bool {
	var wg sync.WaitGroup
	var failed atomic.Bool
	start := make(chan bool)
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					failed.Store(true)
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	return !failed.Load()
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressRegistry(a, b, c []regOp) {
	r := NewRegistry()
	do := func(l []regOp) func() {
		return func() {
			for _, o := range l {
				switch o.kind {
				case 0, 1, 2:
					r.Add(New(o.id, o.name).Build())
				case 3, 4:
					r.Add(New(o.id, o.name).Build(), New(o.id+1, o.name).Build())
				case 5:
					r.Get(o.id)
				case 6:
					r.GetByIndex(int32(o.id))
				case 7:
					r.Count()
				default:
					for _, p := range r.All() {
						p.SetValue(o.v)
					}
				}
			}
		}
	}
	vc.Ensures("concurrent operations do not panic", together(do(a), do(b), do(c)))
	vc.Ensures("the registry is intact after concurrent operations", invRegistry(r))
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressAutoRegistry(a, b, c []regOp) {
	r := NewAutoRegistry()
	var wrong atomic.Bool
	do := func(l []regOp, who string) func() {
		return func() {
			for _, o := range l {
				switch o.kind {
				case 0, 1:
					r.Register(New(0, who+o.name).Build())
				case 2:
					r.RegisterWithID(o.id, New(0, who+o.name).Build())
				case 3:
					r.Reserve(o.id)
				case 4:
					if p := r.GetByName("a" + o.name); p != nil && p.Name != "a"+o.name {
						wrong.Store(true)
					}
				case 5:
					r.GetID("b" + o.name)
				case 6:
					r.EnableAutoID(true)
				case 7:
					r.Clear()
				case 8:
					r.Get(o.id)
				default:
					r.All()
				}
			}
		}
	}
	vc.Ensures("concurrent operations do not panic", together(do(a, "a"), do(b, "b"), do(c, "c")))
	vc.Ensures("the registry is intact after concurrent operations", invRegistry(r.Registry))
	vc.Ensures("a parameter looked up by name has that name", !wrong.Load())
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressByName(n uint8) {
	r := NewAutoRegistry()
	a, b := New(0, "a").Build(), New(0, "b").Build()
	wrong := false
	ok := together(func() {
		for i := 0; i < 30; i++ {
			r.Clear()
			a.ID = 0
			r.Register(a)
			r.Clear()
			b.ID = 0
			r.Register(b)
		}
	}, func() {
		for i := 0; i < 200; i++ {
			p := r.GetByName("a")
			wrong = wrong || p != nil && p.Name != "a"
		}
	})
	vc.Ensures("concurrent operations do not panic", ok)
	vc.Ensures("a parameter looked up by name has that name", !wrong)
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressReserve(step uint8) {
	r := NewAutoRegistry()
	next := uint32(0)
	disjoint := true
	ok := together(func() {
		for i := 0; i < 150; i++ {
			r.RegisterWithID(r.nextID.Load()+uint32(step%3), New(0, "p").Build())
		}
	}, func() {
		for i := 0; i < 1500; i++ {
			s := r.Reserve(1)
			disjoint = disjoint && s >= next
			next = s + 1
		}
	})
	vc.Ensures("concurrent operations do not panic", ok)
	vc.Ensures("reserved ids are handed out once", disjoint)
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressParam(p *Parameter, x, y float64) {
	vc.Requires(unit(x) && unit(y))
	p.SetValue(x)
	whole := true
	ok := together(func() {
		for i := 0; i < 20; i++ {
			p.SetValue(x)
			p.GetPlainValue()
		}
	}, func() {
		for i := 0; i < 20; i++ {
			p.SetValue(y)
			p.GetPlainValue()
		}
	}, func() {
		for i := 0; i < 20; i++ {
			v := p.GetValue()
			whole = whole && (v == x || v == y)
		}
	})
	vc.Ensures("concurrent operations do not panic", ok)
	vc.Ensures("a value read is one that was set", whole)
}

//vc:contract props=C09 bounded=1 race=1
func ctr_StressParamPlain(p *Parameter, x, y float64) {
	vc.Ensures("concurrent operations do not panic", together(func() { p.SetPlainValue(x) }, func() { p.SetPlainValue(y) }, func() { p.FormatValue(p.GetValue()) }))
	vc.Ensures("the value stays normalized", unit(p.GetValue()))
}
