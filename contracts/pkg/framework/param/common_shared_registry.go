package param

import "github.com/justyntemme/vst3go/internal/vc"

// invRegistry is the representation invariant of Registry: the order lists
// every registered id once, and each id leads to a parameter with that id.
func invRegistry(r *Registry) bool {
	return r.params != nil && vc.Whole(r.order) && len(r.order) == len(r.params) &&
		orderOK(r.params, r.order) && distinct(r.order) && listed(r.params, r.order)
}

func orderOK(m map[uint32]*Parameter, order []uint32) bool {
	return vc.Forall(0, len(order), func(i int) bool {
		return vc.Has(m, order[i]) && m[order[i]] != nil && m[order[i]].ID == order[i]
	})
}

func distinct(order []uint32) bool {
	return vc.Forall(0, len(order), func(i int) bool {
		return vc.Forall(0, len(order), func(j int) bool { return !(i < j) || order[i] != order[j] })
	})
}

func listed(m map[uint32]*Parameter, order []uint32) bool {
	return vc.ForallKey(m, func(k uint32, v *Parameter) bool {
		return vc.Exists(0, len(order), func(i int) bool { return order[i] == k })
	})
}

func nonNilParams(ps []*Parameter) bool {
	return vc.Forall(0, len(ps), func(i int) bool { return ps[i] != nil })
}

// small: fewer than 2^31 parameters, so that counts fit the host's int32.
func small(r *Registry) bool { return len(r.order) < 1<<31 }

func gen_Params(g *vc.G) []*Parameter {
	var ps []*Parameter
	for n := g.Range(0, 5); n > 0; n-- {
		ps = append(ps, gen_Parameter(g))
	}
	return ps
}

func gen_Registry(g *vc.G) *Registry {
	r := NewRegistry()
	for k := g.Range(0, 4); k > 0; k-- {
		r.Add(gen_Params(g)...)
	}
	return r
}

//vc:loop param.Registry.Add
func loopRegAddShape(r *Registry, ps []*Parameter) bool {
	return r.params != nil && vc.Whole(r.order) && len(r.order) == len(r.params) && vc.Sep(r.order, ps)
}

//vc:loop param.Registry.Add
func loopRegAddOrder(r *Registry, ps []*Parameter) bool { return orderOK(r.params, r.order) }

//vc:loop param.Registry.Add
func loopRegAddDistinct(r *Registry, ps []*Parameter) bool { return distinct(r.order) }

//vc:loop param.Registry.Add
func loopRegAddListed(r *Registry, ps []*Parameter) bool { return listed(r.params, r.order) }

//vc:loop param.Registry.Add
func loopRegAddDone(r *Registry, ps []*Parameter, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return vc.Has(r.params, ps[i].ID) })
}

//vc:loop param.Registry.Add
func loopRegAddOld(r *Registry, ps []*Parameter, it int) bool {
	return len(r.order) >= vc.Pre(func() int { return len(r.order) }) &&
		vc.Forall(0, vc.Pre(func() int { return len(r.order) }), func(i int) bool { return r.order[i] == vc.Pre(func() uint32 { return r.order[i] }) })
}

//vc:loop param.Registry.Add
func loopRegAddMap(r *Registry, ps []*Parameter, it int) bool {
	return vc.Every(func(k uint32) bool {
		return !vc.Pre(func() bool { return vc.Has(r.params, k) }) || vc.Has(r.params, k) && r.params[k] == vc.Pre(func() *Parameter { return r.params[k] })
	})
}

//vc:loop param.Registry.All
func loopRegAll(r *Registry, it int, locRes []*Parameter) bool {
	return vc.Forall(0, it, func(i int) bool { return locRes[i] == r.params[r.order[i]] })
}

// Views of unexported state for the contracts of other packages.

func VCInvRegistry(r *Registry) bool { return invRegistry(r) }

func VCInvValues(r *Registry) bool {
	return vc.ForallKey(r.params, func(k uint32, p *Parameter) bool { return p != nil && unit(p.GetValue()) })
}

func VCParams(r *Registry) map[uint32]*Parameter { return r.params }

func VCOrder(r *Registry) []uint32 { return r.order }

func VCGenRegistry(g *vc.G) *Registry { return gen_Registry(g) }
