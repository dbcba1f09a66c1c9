package param

import "github.com/justyntemme/vst3go/internal/vc"

// invAuto extends the registry invariant: every known name leads to a
// registered parameter of that name.
func invAuto(r *AutoRegistry) bool {
	return r.Registry != nil && r.nameToID != nil && invRegistry(r.Registry) && namesOK(r)
}

func namesOK(r *AutoRegistry) bool {
	return vc.ForallKey(r.nameToID, func(k string, id uint32) bool {
		return vc.Has(r.params, id) && r.params[id] != nil && r.params[id].Name == k
	})
}

// unregistered: the registry does not hold p.
func unregistered(r *AutoRegistry, p *Parameter) bool {
	return vc.ForallKey(r.params, func(k uint32, v *Parameter) bool { return v != p })
}

func freshParams(r *AutoRegistry, ps []*Parameter, from int) bool {
	return vc.Forall(from, len(ps), func(i int) bool { return unregistered(r, ps[i]) })
}

func distinctParams(ps []*Parameter) bool {
	return vc.Forall(0, len(ps), func(i int) bool {
		return vc.Forall(0, len(ps), func(j int) bool { return !(i < j) || ps[i] != ps[j] })
	})
}

//vc:contract props=C04
func ctr_NewAutoRegistry() {
	r := NewAutoRegistry()
	vc.Ensures("a new registry is empty", r.Count() == 0 && len(r.nameToID) == 0)
	vc.Aux("registry invariant", invAuto(r))
}

//vc:contract props=C04
func ctr_AutoRegister(r *AutoRegistry, ps []*Parameter) {
	vc.Inv(invAuto(r))
	vc.Requires(nonNilParams(ps))
	vc.Requires(freshParams(r, ps, 0))
	vc.Requires(distinctParams(ps))
	vc.Inv(vc.Sep(r.order, ps))
	old := vc.Snap(r.order)
	oldn := vc.SnapMap(r.nameToID)
	err := r.Register(ps...)
	vc.Ensures("a registered parameter is found under its id and its name", err != nil || vc.Forall(0, len(ps), func(i int) bool {
		return vc.Has(r.nameToID, ps[i].Name) && vc.Has(r.params, r.nameToID[ps[i].Name]) && r.params[r.nameToID[ps[i].Name]].Name == ps[i].Name
	}))
	vc.Ensures("earlier parameters keep their positions and ids", len(r.order) >= len(old) && vc.Forall(0, len(old), func(i int) bool { return r.order[i] == old[i] && vc.Has(r.params, old[i]) }))
	vc.Ensures("a known name keeps its id", vc.ForallKey(oldn, func(k string, v uint32) bool { return vc.Has(r.nameToID, k) && r.nameToID[k] == v }))
	vc.Ensures("every position holds the parameter of its id", orderOK(r.params, r.order))
	vc.Ensures("no id is listed twice", distinct(r.order))
	vc.Ensures("every id is listed", listed(r.params, r.order) && len(r.order) == len(r.params))
	vc.Ensures("every known name leads to a parameter of that name", namesOK(r))
}

//vc:loop param.AutoRegistry.Register
func loopAutoShape(r *AutoRegistry, ps []*Parameter) bool {
	return r.Registry != nil && r.nameToID != nil && r.params != nil && vc.Whole(r.order) && len(r.order) == len(r.params) && vc.Sep(r.order, ps)
}

//vc:loop param.AutoRegistry.Register
func loopAutoOrder(r *AutoRegistry, ps []*Parameter) bool { return orderOK(r.params, r.order) }

//vc:loop param.AutoRegistry.Register
func loopAutoDistinct(r *AutoRegistry, ps []*Parameter) bool { return distinct(r.order) }

//vc:loop param.AutoRegistry.Register
func loopAutoListed(r *AutoRegistry, ps []*Parameter) bool { return listed(r.params, r.order) }

//vc:loop param.AutoRegistry.Register
func loopAutoNames(r *AutoRegistry, ps []*Parameter) bool { return namesOK(r) }

//vc:loop param.AutoRegistry.Register
func loopAutoFresh(r *AutoRegistry, ps []*Parameter, it int) bool { return freshParams(r, ps, it) }

//vc:loop param.AutoRegistry.Register
func loopAutoDone(r *AutoRegistry, ps []*Parameter, it int) bool {
	return vc.Forall(0, it, func(i int) bool { return vc.Has(r.nameToID, ps[i].Name) })
}

//vc:loop param.AutoRegistry.Register
func loopAutoOld(r *AutoRegistry, ps []*Parameter) bool {
	return len(r.order) >= vc.Pre(func() int { return len(r.order) }) &&
		vc.Forall(0, vc.Pre(func() int { return len(r.order) }), func(i int) bool { return r.order[i] == vc.Pre(func() uint32 { return r.order[i] }) })
}

//vc:loop param.AutoRegistry.Register
func loopAutoOldNames(r *AutoRegistry, ps []*Parameter) bool {
	return vc.Every(func(k string) bool {
		return !vc.Pre(func() bool { return vc.Has(r.nameToID, k) }) || vc.Has(r.nameToID, k) && r.nameToID[k] == vc.Pre(func() uint32 { return r.nameToID[k] })
	})
}

//vc:contract props=C04
func ctr_AutoRegisterOne(r *AutoRegistry, p *Parameter) {
	vc.Inv(invAuto(r))
	vc.Requires(p != nil && unregistered(r, p))
	known := vc.Has(r.nameToID, p.Name)
	old := vc.SnapMap(r.params)
	err := r.Register(p)
	vc.Ensures("a registered parameter is found under its id and its name", err != nil || r.Get(p.ID) == p && r.GetByName(p.Name) == p)
	vc.Ensures("an id held by another parameter is not taken", err == nil || !known)
	vc.Ensures("only a parameter of the same name gives way", vc.ForallKey(old, func(k uint32, v *Parameter) bool {
		return vc.Has(r.params, k) && (r.params[k] == v || err == nil && k == p.ID && v.Name == p.Name)
	}))
	vc.Ensures("a refused parameter is not registered", err == nil || unregistered(r, p) && len(r.params) == len(old))
	vc.Aux("registry invariant", invAuto(r))
}

//vc:contract props=C04
func ctr_RegisterWithID(r *AutoRegistry, id uint32, p *Parameter) {
	vc.Inv(invAuto(r))
	vc.Requires(p != nil)
	held := vc.Has(r.params, id)
	vc.Requires(held || unregistered(r, p))
	oldID := p.ID
	old := vc.SnapMap(r.params)
	oldn := vc.SnapMap(r.nameToID)
	err := r.RegisterWithID(id, p)
	vc.Ensures("an id in use is refused", (err != nil) == held)
	vc.Ensures("a registered parameter is found under its id and its name", err != nil || p.ID == id && r.Get(id) == p && r.GetByName(p.Name) == p)
	vc.Ensures("other parameters keep their ids", vc.ForallKey(old, func(k uint32, v *Parameter) bool { return vc.Has(r.params, k) && r.params[k] == v && v.ID == k }))
	vc.Ensures("other names keep their ids", vc.ForallKey(oldn, func(k string, v uint32) bool {
		return vc.Has(r.nameToID, k) && (r.nameToID[k] == v || err == nil && k == p.Name)
	}))
	vc.Ensures("a refused call changes nothing", err == nil || p.ID == oldID && len(r.params) == len(old) && len(r.nameToID) == len(oldn))
	vc.Aux("registry invariant", invAuto(r))
}

//vc:contract props=C04
func ctr_AutoLookup(r *AutoRegistry, name string) {
	vc.Inv(invAuto(r))
	p := r.GetByName(name)
	id, ok := r.GetID(name)
	vc.Ensures("name and id lookups agree", ok == (p != nil) && (!ok || p.Name == name && p.ID == id && r.Get(id) == p))
}

//vc:contract props=C04
func ctr_AutoClear(r *AutoRegistry) {
	vc.Inv(invAuto(r))
	r.Clear()
	vc.Ensures("a cleared registry is empty", r.Count() == 0 && len(r.params) == 0 && len(r.nameToID) == 0)
	vc.Aux("registry invariant", invAuto(r))
}

//vc:contract props=C04
func ctr_AutoReserve(r *AutoRegistry, n uint32, p *Parameter) {
	vc.Inv(invAuto(r))
	vc.Requires(p != nil && p.ID == 0 && r.autoEnabled && !vc.Has(r.nameToID, p.Name))
	vc.Requires(unregistered(r, p))
	first := r.Reserve(n)
	vc.Requires(uint64(first)+uint64(n) < 1<<32)
	r.Register(p)
	vc.Ensures("an automatic id is not one of the reserved ones", p.ID < first || p.ID >= first+n)
}

func gen_AutoRegistry(g *vc.G) *AutoRegistry {
	r := NewAutoRegistry()
	for k := g.Range(0, 6); k > 0; k-- {
		switch g.Range(0, 4) {
		case 0, 1:
			r.Register(gen_Params(g)...)
		case 2:
			r.RegisterWithID(uint32(g.Range(0, 6)), gen_Parameter(g))
		case 3:
			r.Reserve(uint32(g.Range(0, 3)))
		case 4:
			r.EnableAutoID(g.Range(0, 3) > 0)
		}
	}
	return r
}
