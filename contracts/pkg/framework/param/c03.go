package param

import "github.com/justyntemme/vst3go/internal/vc"

//vc:contract props=C03
func ctr_NewRegistry() {
	r := NewRegistry()
	vc.Ensures("a new registry is empty", r.Count() == 0 && len(r.All()) == 0 && r.GetByIndex(0) == nil)
	vc.Aux("registry invariant", invRegistry(r))
}

//vc:contract props=C03
func ctr_RegistryAdd(r *Registry, ps []*Parameter) {
	vc.Inv(invRegistry(r))
	vc.Requires(nonNilParams(ps))
	vc.Inv(vc.Sep(r.order, ps))
	old := vc.Snap(r.order)
	oldm := vc.SnapMap(r.params)
	err := r.Add(ps...)
	vc.Ensures("adding succeeds", err == nil)
	vc.Ensures("every added id is registered", vc.Forall(0, len(ps), func(i int) bool { return vc.Has(r.params, ps[i].ID) }))
	vc.Ensures("an id stays bound to the parameter first registered with it", vc.ForallKey(oldm, func(k uint32, v *Parameter) bool { return vc.Has(r.params, k) && r.params[k] == v }))
	vc.Ensures("earlier parameters keep their positions", len(r.order) >= len(old) && vc.Forall(0, len(old), func(i int) bool { return r.order[i] == old[i] }))
	vc.Ensures("every position holds the parameter of its id", orderOK(r.params, r.order))
	vc.Ensures("no id is listed twice", distinct(r.order))
	vc.Ensures("every id is listed", listed(r.params, r.order) && len(r.order) == len(r.params))
}

//vc:contract props=C03
func ctr_RegistryGet(r *Registry, id uint32) {
	vc.Inv(invRegistry(r))
	p := r.Get(id)
	vc.Ensures("a registered id leads to its parameter", !vc.Has(r.params, id) || p != nil && p == r.params[id] && p.ID == id)
	vc.Ensures("an unregistered id leads to none", vc.Has(r.params, id) || p == nil)
}

//vc:contract props=C03
func ctr_RegistryGetByIndex(r *Registry, i int32) {
	vc.Inv(invRegistry(r))
	vc.Requires(small(r))
	p := r.GetByIndex(i)
	n := r.Count()
	vc.Ensures("the count is the number of registered parameters", int(n) == len(r.params) && n >= 0)
	vc.Ensures("an index below the count leads to the parameter at that position", !(0 <= i && i < n) || p != nil && p.ID == r.order[i] && p == r.Get(p.ID))
	vc.Ensures("an index outside the count leads to none", 0 <= i && i < n || p == nil)
}

//vc:contract props=C03
func ctr_RegistryAll(r *Registry) {
	vc.Inv(invRegistry(r))
	vc.Requires(small(r))
	ps := r.All()
	vc.Ensures("all parameters are listed in registration order", len(ps) == int(r.Count()) && vc.Forall(0, len(ps), func(i int) bool { return ps[i] != nil && ps[i].ID == r.order[i] && ps[i] == r.params[r.order[i]] }))
	vc.Aux("registry invariant", invRegistry(r))
}
