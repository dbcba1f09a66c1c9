package process

import (
	"github.com/justyntemme/vst3go/internal/vc"
	"github.com/justyntemme/vst3go/pkg/framework/param"
)

func changesOK(c *Context) bool {
	return 0 <= c.changeCount && c.changeCount <= len(c.paramChanges) && vc.Whole(c.paramChanges)
}

func gen_Changes_c(g *vc.G) *Context {
	r := param.NewRegistry()
	for id := g.Range(0, 3); id >= 0; id-- {
		r.Add(&param.Parameter{ID: uint32(id), Max: 1})
	}
	c := NewContext(8, r)
	for n := g.Range(0, 30); n > 0; n-- {
		c.AddParameterChange(uint32(g.Range(0, 4)), g.Unit(), g.Range(-1, 4))
	}
	if g.N(8) == 0 {
		for n := g.Range(90, 130); n > 0; n-- {
			c.AddParameterChange(uint32(g.Range(0, 4)), g.Unit(), g.Range(-1, 4))
		}
	}
	return c
}

func gen_AddChange_c(g *vc.G) *Context   { return gen_Changes_c(g) }
func gen_SortChanges_c(g *vc.G) *Context { return gen_Changes_c(g) }
func gen_ResetChanges_c(g *vc.G) *Context { return gen_Changes_c(g) }
func gen_ApplyChange_c(g *vc.G) *Context { return gen_Changes_c(g) }

//vc:contract props=C11
func ctr_AddChange(c *Context, id uint32, v float64, off int) {
	vc.Inv(changesOK(c))
	old := vc.Snap(c.GetParameterChanges())
	c.AddParameterChange(id, v, off)
	now := c.GetParameterChanges()
	vc.Ensures("earlier changes stay as they are", len(now) >= len(old) && vc.Forall(0, len(old), func(i int) bool { return same(now[i], old[i]) }))
	vc.Ensures("a change is added last while there is room, and only then", (len(old) < len(c.paramChanges)) == (len(now) == len(old)+1) && len(now) <= len(old)+1)
	vc.Ensures("the added change is the one given", len(now) == len(old) || now[len(old)].ParamID == id && vc.Same64(now[len(old)].Value, v) && now[len(old)].SampleOffset == off)
	vc.Ensures("there are changes exactly if the list is not empty", c.HasParameterChanges() == (len(now) > 0))
	vc.Aux("change list invariant", changesOK(c))
}

func same(a, b ParameterChange) bool {
	return a.ParamID == b.ParamID && a.SampleOffset == b.SampleOffset && vc.Same64(a.Value, b.Value)
}

//vc:contract props=C11
func ctr_SortChanges(c *Context) {
	vc.Inv(changesOK(c))
	vc.Requires(vc.Forall(0, c.changeCount, func(i int) bool { return vc.Finite64(c.paramChanges[i].Value) }))
	old := vc.Snap(c.GetParameterChanges())
	c.SortParameterChanges()
	vc.Ensures("changes are put in offset order, those at one offset in the order they came, none lost", vc.StableSort(old, c.GetParameterChanges(), func(a, b ParameterChange) bool { return a.SampleOffset < b.SampleOffset }))
	vc.Aux("change list invariant", changesOK(c))
}

//vc:contract props=C11
func ctr_ResetChanges(c *Context) {
	vc.Inv(changesOK(c))
	c.ResetParameterChanges()
	vc.Ensures("no change is left after a reset", len(c.GetParameterChanges()) == 0 && !c.HasParameterChanges())
	vc.Aux("change list invariant", changesOK(c))
}

//vc:contract props=C11
func ctr_NewChanges(n int) {
	vc.Requires(0 <= n && n <= 1<<20)
	c := NewContext(n, nil)
	vc.Ensures("a new context has no changes and room for 128", !c.HasParameterChanges() && len(c.paramChanges) == 128)
	vc.Aux("change list invariant", changesOK(c))
}

//vc:contract props=C11
func ctr_ApplyChange(c *Context, ch ParameterChange) {
	vc.Inv(c.params != nil)
	vc.Requires(c.params.Get(ch.ParamID) != nil)
	c.ApplyParameterChange(ch)
	v := c.params.Get(ch.ParamID).GetValue()
	vc.Ensures("an applied change gives its parameter the normalized value", v >= 0 && v <= 1 && (!(ch.Value >= 0 && ch.Value <= 1) || v == ch.Value))
	vc.Ensures("the context reports the parameter's value", c.Param(ch.ParamID) == v)
}

//vc:contract props=C11
func ctr_ApplyUnknown(c *Context, ch ParameterChange) {
	vc.Inv(c.params != nil)
	vc.Requires(c.params.Get(ch.ParamID) == nil)
	c.ApplyParameterChange(ch)
	vc.Ensures("an unknown parameter reads as zero", c.Param(ch.ParamID) == 0 && c.ParamPlain(ch.ParamID) == 0)
}

func gen_ApplyUnknown_c(g *vc.G) *Context { return gen_Changes_c(g) }

func gen_SetNow_c(g *vc.G) *Context { return gen_Changes_c(g) }

//vc:contract props=C11
func ctr_SetNow(c *Context, id uint32, v float64, off int) {
	vc.Inv(changesOK(c) && c.params != nil)
	old := vc.Snap(c.GetParameterChanges())
	c.ApplyParameterChange(ParameterChange{ParamID: id, Value: v, SampleOffset: off})
	now := c.GetParameterChanges()
	vc.Ensures("applying a change leaves the pending changes alone", len(now) == len(old) && vc.Forall(0, len(old), func(i int) bool { return same(now[i], old[i]) }))
}
