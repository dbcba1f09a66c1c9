package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) beforeCall(fr *Frame, b *ssa.BasicBlock) {}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

func (x *Exec) call(fr *Frame, b *ssa.BasicBlock, c *ssa.CallCommon, st *State) []Value {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	if c.IsInvoke() {
		return x.invoke(fr, b, x.val(fr, c.Value), c.Method, args, st)
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, bi, c, args)
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			v := x.val(fr, mc)
			binds = v.fns[0].binds
		}
		return x.callFn(fr, b, fn, args, binds, st)
	}
	return x.callDyn(fr, b, x.val(fr, c.Value), c.Signature(), args, st)
}

func (x *Exec) callDyn(fr *Frame, b *ssa.BasicBlock, f Value, sig *types.Signature, args []Value, st *State) []Value {
	if len(f.fns) == 0 && len(f.c) == 1 {
		// a function value read from memory: closures known by identity
		if fv, ok := x.p.closures[f.c[0]]; ok {
			f.fns = []FuncVal{fv}
		} else if f.c[0].i != nil {
			if fn := x.p.funcByID(int(f.c[0].i.Int64())); fn != nil {
				f.fns = []FuncVal{{fn: fn}}
			}
		}
	}
	if len(f.fns) == 1 {
		return x.callFn(fr, b, f.fns[0].fn, args, f.fns[0].binds, st)
	}
	if len(f.fns) > 1 {
		var sts []*State
		var vals [][]Value
		rest := tTrue
		for i, g := range f.fns {
			cond := rest
			if i < len(f.fns)-1 {
				cond = tAnd(rest, orTrue(g.cond))
				rest = tAnd(rest, tNot(orTrue(g.cond)))
			}
			s := st.with(cond)
			if s.pc == tFalse {
				continue
			}
			v := x.callFn(fr, b, g.fn, args, g.binds, s)
			sts = append(sts, s)
			vals = append(vals, v)
		}
		m, conds := x.mergeStates(sts)
		*st = *m
		var out []Value
		for k := range vals[0] {
			var vs []Value
			for i := range vals {
				vs = append(vs, vals[i][k])
			}
			out = append(out, x.mergeValues(conds, vs))
		}
		return out
	}
	if f.pred != nil {
		return []Value{one(types.Typ[types.Bool], f.pred(args[0].c[0]))}
	}
	// unknown function value
	if x.spec == 0 {
		x.obligation("safety", x.safeName(fr, "function value not nil"), fr, st, tNot(tEq(f.c[0], tZero)))
	}
	if x.p.dynPure(sig, x.c) {
		// assumed pure and deterministic: an uninterpreted function of its arguments
		x.assume["callbacks of type "+types.TypeString(sig, types.RelativeTo(nil))+" are pure and deterministic"] = true
		return x.ufResults("dyn@"+typeKey(sig), sig, append([]Value{f}, args...), st)
	}
	unsup("call of unknown function value of type %s in %s", sig, fr.fn)
	return nil
}

func (x *Exec) ufResults(name string, sig *types.Signature, args []Value, st *State) []Value {
	var ts []*Term
	for _, a := range args {
		if len(a.fns) > 0 {
			ts = append(ts, x.fnID(a))
			continue
		}
		ts = append(ts, a.c...)
	}
	var out []Value
	rs := sig.Results()
	for i := 0; i < rs.Len(); i++ {
		v := Value{typ: rs.At(i).Type()}
		for k, c := range comps(v.typ) {
			t := mkUF(fmt.Sprintf("%s!r%d_%d", name, i, k), c.sort, ts...)
			if c.lo != nil {
				setRange(t, c.lo, c.hi)
			}
			v.c = append(v.c, t)
		}
		x.wellFormed(st, v, v.typ)
		out = append(out, v)
	}
	return out
}

func (x *Exec) callFn(fr *Frame, b *ssa.BasicBlock, fn *ssa.Function, args, binds []Value, st *State) []Value {
	name := fullName(fn)
	if strings.HasPrefix(name, vcPath+".") {
		return x.intrinsic(fr, st, strings.TrimPrefix(name, vcPath+"."), fn, args)
	}
	if vs, ok := x.lib(fr, b, st, name, fn, args); ok {
		return vs
	}
	inModule := fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	if !inModule && fn.Parent() != nil {
		p := fn.Parent()
		for p.Parent() != nil {
			p = p.Parent()
		}
		inModule = p.Pkg != nil && strings.HasPrefix(p.Pkg.Pkg.Path(), modPath)
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil && strings.HasPrefix(fn.Origin().Pkg.Pkg.Path(), modPath) {
		inModule = true
	}
	if !inModule && fn.Synthetic == "" {
		if x.p.inlineStd[name] && len(fn.Blocks) > 0 {
			inModule = true
		} else {
			unsup("call to %s has no contract", name)
		}
	}
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", name)
	}
	if sum := x.p.applyContract(fn, x); sum != nil {
		fn = sum
	}
	if !x.p.isContractFn(fn) {
		x.covered[x.p.fnKey(fn)] = true
	}
	var its []*Term
	if fr != nil && b != nil {
		its = x.itsAt(fr, b)
	}
	vs, out := x.runFunction(fn, args, binds, st, fr, its)
	*st = *out
	return vs
}

func (x *Exec) prepDefer(fr *Frame, d *deferred) {
	for _, a := range d.call.Args {
		d.args = append(d.args, x.val(fr, a))
	}
	if d.call.IsInvoke() || d.call.StaticCallee() == nil {
		d.fnv = x.val(fr, d.call.Value)
	} else if mc, ok := d.call.Value.(*ssa.MakeClosure); ok {
		d.fnv = x.val(fr, mc)
	}
}

func (x *Exec) runDefer(fr *Frame, b *ssa.BasicBlock, d deferred, st *State) {
	cond := d.cond
	// executed only on paths that registered it
	conj := map[*Term]bool{}
	for _, a := range conjSet(st.pc) {
		conj[a] = true
	}
	implied := true
	for _, a := range conjSet(cond) {
		if !conj[a] && a != tTrue {
			implied = false
		}
	}
	run := func(s *State) {
		switch {
		case d.call.IsInvoke():
			x.invoke(fr, b, d.fnv, d.call.Method, d.args, s)
		case d.call.StaticCallee() != nil:
			var binds []Value
			if len(d.fnv.fns) > 0 {
				binds = d.fnv.fns[0].binds
			}
			if bi, ok := d.call.Value.(*ssa.Builtin); ok {
				x.builtin(fr, s, bi, d.call, d.args)
				return
			}
			x.callFn(fr, b, d.call.StaticCallee(), d.args, binds, s)
		default:
			x.callDyn(fr, b, d.fnv, d.call.Signature(), d.args, s)
		}
	}
	if implied || fr.fn.Recover == nil && false {
		run(st)
		return
	}
	// a deferred call registered in a dominating block is always implied after merging
	s1 := st.with(cond)
	s2 := st.with(tNot(cond))
	if dominatesAll(cond, st.pc) {
		run(st)
		return
	}
	run(s1)
	m, _ := x.mergeStates([]*State{s1, s2})
	*st = *m
}

func dominatesAll(cond, pc *Term) bool { return cond == tTrue }

func (x *Exec) builtin(fr *Frame, st *State, bi *ssa.Builtin, c *ssa.CallCommon, args []Value) []Value {
	intT := types.Typ[types.Int]
	switch bi.Name() {
	case "len", "cap":
		T := c.Args[0].Type().Underlying()
		switch t := T.(type) {
		case *types.Slice:
			if bi.Name() == "len" {
				return []Value{one(intT, args[0].c[2])}
			}
			return []Value{one(intT, args[0].c[3])}
		case *types.Map:
			x.guardMap(fr, st, args[0], false)
			return []Value{one(intT, x.mapLen(st, args[0], t))}
		case *types.Basic:
			return []Value{one(intT, strLen(args[0].c[0]))}
		case *types.Array:
			return []Value{one(intT, mkInt(t.Len()))}
		case *types.Pointer:
			return []Value{one(intT, mkInt(t.Elem().Underlying().(*types.Array).Len()))}
		}
	case "append":
		T := c.Args[0].Type()
		E := T.Underlying().(*types.Slice).Elem()
		if bt, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			unsup("append string")
		}
		x.guardMap(fr, st, args[0], true)
		x.guardMap(fr, st, args[1], false)
		return []Value{x.appendSlice(fr, st, args[0], args[1], E, T)}
	case "copy":
		E := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if bt, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			unsup("copy string")
		}
		n := tIte(tLe(args[0].c[2], args[1].c[2]), args[0].c[2], args[1].c[2])
		x.guardMap(fr, st, args[0], true)
		x.guardMap(fr, st, args[1], false)
		x.copySlice(fr, st, args[0], args[1], E, n)
		return []Value{one(intT, n)}
	case "min", "max":
		T := c.Args[0].Type()
		r := args[0].c[0]
		for _, a := range args[1:] {
			y := a.c[0]
			var less *Term
			if floatSort(T) != "" {
				less = flt(y, r)
				if bi.Name() == "max" {
					less = flt(r, y)
				}
				r = tIte(tOr(fnan(y), tAnd(tNot(fnan(r)), less)), y, r)
				continue
			}
			less = tLt(y, r)
			if bi.Name() == "max" {
				less = tLt(r, y)
			}
			r = tIte(less, y, r)
		}
		return []Value{one(T, r)}
	case "delete":
		M := c.Args[0].Type().Underlying().(*types.Map)
		x.mapDelete(fr, st, args[0], M, args[1].c[0])
		return nil
	case "clear":
		switch t := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			for _, m := range x.elemMaps(t.Elem()) {
				d := x.heapInner(st, m.name, m.sort, args[0].c[0])
				z := tConstArr(arr("Int", m.sort), zeroOfSort(m.sort))
				x.heapSetInner(st, m.name, m.sort, args[0].c[0], copyInner(d, args[0].c[1], z, tZero, args[0].c[2]))
			}
			return nil
		case *types.Map:
			k := mapKey(t)
			ks := x.keySort(t.Key())
			x.mapSet(st, k+"!D", arr(ks, "Bool"), args[0].c[0], tConstArr(arr(ks, "Bool"), tFalse))
			x.mapSet(st, k+"!N", "Int", args[0].c[0], tZero)
			return nil
		}
	case "real":
		return []Value{one(c.Signature().Results().At(0).Type(), args[0].c[0])}
	case "imag":
		return []Value{one(c.Signature().Results().At(0).Type(), args[0].c[1])}
	case "complex":
		return []Value{{typ: c.Signature().Results().At(0).Type(), c: []*Term{args[0].c[0], args[1].c[0]}}}
	case "ssa:wrapnilchk":
		return []Value{args[0]}
	case "print", "println":
		return nil
	}
	unsup("builtin %s", bi.Name())
	return nil
}

// invoke dispatches an interface method call.
func (x *Exec) invoke(fr *Frame, b *ssa.BasicBlock, recv Value, m *types.Func, args []Value, st *State) []Value {
	if recv.dyn != nil {
		T := recv.dyn.typ
		fn := x.p.method(T, m)
		if fn == nil {
			unsup("method %s of %s", m.Name(), T)
		}
		return x.callFn(fr, b, fn, append([]Value{*recv.dyn}, args...), nil, st)
	}
	it := recv.typ
	key := typeKey(it) + "." + m.Name()
	x.obligation("safety", x.safeName(fr, "interface not nil"), fr, st, tNot(tEq(recv.c[0], tZero)))
	if _, ok := x.p.pure[key]; ok {
		x.assume["interface method "+key+" is pure and deterministic for implementations outside the repository"] = true
		return x.pureCall(key, m, recv, args, st)
	}
	if h, ok := x.abstractMethod(fr, st, key, recv, m, args); ok {
		return h
	}
	if impls, ok := x.p.closed[typeKey(it)]; ok {
		_ = impls
		return x.dispatch(fr, b, recv, m, args, st)
	}
	if key == "error.Error" {
		return []Value{one(types.Typ[types.String], mkUF("errstr", "Str", recv.c...))}
	}
	unsup("dynamic call %s", key)
	return nil
}

func (x *Exec) pureCall(key string, m *types.Func, recv Value, args []Value, st *State) []Value {
	return x.ufResults("pure@"+key, m.Type().(*types.Signature), append([]Value{{typ: recv.typ, c: recv.c}}, args...), st)
}

// linkPure relates the abstract pure method to the concrete one for a value of
// known dynamic type.
func (x *Exec) linkPure(fr *Frame, st *State, cond *Term, iv Value, conc Value) {
	it, ok := iv.typ.Underlying().(*types.Interface)
	if !ok || x.dry > 0 || x.bnd > 0 || len(x.p.pure) == 0 {
		return
	}
	// boxed values are immutable; methods of pointers may read mutable state
	if _, isp := conc.typ.Underlying().(*types.Pointer); isp {
		return
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		key := typeKey(iv.typ) + "." + m.Name()
		if _, ok := x.p.pure[key]; !ok || m.Type().(*types.Signature).Params().Len() > 0 {
			continue
		}
		fn := x.p.method(conc.typ, m)
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		uf := x.pureCall(key, m, iv, nil, st)
		x.spec++
		vs, _ := x.runFunction(fn, []Value{conc}, nil, st.clone(), nil, nil)
		x.spec--
		for k := range vs {
			for j := range vs[k].c {
				x.fact(st, tImp(cond, tEq(uf[k].c[j], vs[k].c[j])))
			}
		}
		x.covered[x.p.fnKey(fn)] = true
	}
}

func (x *Exec) dispatch(fr *Frame, b *ssa.BasicBlock, recv Value, m *types.Func, args []Value, st *State) []Value {
	impls := x.p.closed[typeKey(recv.typ)]
	x.assume["values of "+typeKey(recv.typ)+" have one of the dynamic types declared in the repository"] = true
	var sts []*State
	var vals [][]Value
	for _, T := range impls {
		tag := mkInt(int64(x.p.typeTag(T)))
		s := st.with(tEq(recv.c[0], tag))
		if s.pc == tFalse {
			continue
		}
		fn := x.p.method(T, m)
		rv := x.unbox(fr, s, recv, T)
		v := x.callFn(fr, b, fn, append([]Value{rv}, args...), nil, s)
		sts = append(sts, s)
		vals = append(vals, v)
	}
	if len(sts) == 0 {
		st.pc = tFalse
		var out []Value
		rs := m.Type().(*types.Signature).Results()
		for i := 0; i < rs.Len(); i++ {
			out = append(out, zeroValue(rs.At(i).Type()))
		}
		return out
	}
	mm, conds := x.mergeStates(sts)
	*st = *mm
	var out []Value
	for k := range vals[0] {
		var vs []Value
		for i := range vals {
			vs = append(vs, vals[i][k])
		}
		out = append(out, x.mergeValues(conds, vs))
	}
	return out
}
