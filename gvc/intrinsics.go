package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) strArg(v Value) string {
	if s, ok := strConsts[v.c[0]]; ok {
		return s
	}
	unsup("name argument must be a constant string")
	return ""
}

var boolT = types.Typ[types.Bool]

func blkOf(v Value) *Term {
	if v.cell != nil || len(v.c) == 0 {
		unsup("vc.Sep of a local variable")
	}
	if _, ok := v.typ.Underlying().(*types.Interface); ok {
		return v.c[1]
	}
	return v.c[0]
}

// intrinsic gives the symbolic reading of the specification vocabulary.
func (x *Exec) intrinsic(fr *Frame, st *State, name string, fn *ssa.Function, args []Value) []Value {
	switch name {
	case "Requires", "Inv":
		x.fact(st, args[0].c[0])
		return nil
	case "Assume":
		x.assume[x.strArg(args[0])] = true
		x.fact(st, args[1].c[0])
		return nil
	case "Ensures", "Aux":
		kind := "ensures"
		if name == "Aux" {
			kind = "aux"
		}
		g := args[1].c[0]
		x.obligation(kind, x.strArg(args[0]), fr, st, g)
		if x.dry == 0 && x.spec == 0 {
			x.ensN++
		}
		return nil
	case "Forall", "Exists":
		return []Value{one(boolT, x.quantInt(fr, st, name == "Forall", args[0].c[0], args[1].c[0], args[2]))}
	case "ForallKey":
		return []Value{one(boolT, x.quantKey(fr, st, args[0], args[1]))}
	case "Every":
		K := args[0].typ.Underlying().(*types.Signature).Params().At(0).Type()
		v := mkBound("k", x.keySort(K))
		if b, s, ok := intInfo(K); ok {
			lo, hi := bitsRange(b, s)
			setRange(v, lo, hi)
		}
		return []Value{one(boolT, mkForall(v, x.evalPred(fr, st, args[0], []Value{one(K, v)})))}
	case "Has":
		M := args[0].typ.Underlying().(*types.Map)
		_, has := x.mapRead(st, args[0], M, args[1].c[0])
		return []Value{one(boolT, has)}
	case "Snap":
		x.noBound(args)
		T := args[0].typ
		E := T.Underlying().(*types.Slice).Elem()
		nb := x.newBlock(st, "snap")
		for _, m := range x.elemMaps(E) {
			x.heapSetInner(st, m.name, m.sort, nb, x.heapInner(st, m.name, m.sort, args[0].c[0]))
			x.snapped(m.name, nb)
		}
		return []Value{{typ: T, c: []*Term{nb, args[0].c[1], args[0].c[2], args[0].c[2]}}}
	case "Old":
		x.noBound(args)
		op := fmt.Sprintf("frz@%d", len(x.frozen))
		x.frozen = append(x.frozen, st.clone())
		return []Value{x.freeze(op, args[0], args[0].typ)}
	case "SnapMap":
		x.noBound(args)
		T := args[0].typ
		M := T.Underlying().(*types.Map)
		nb := x.newBlock(st, "snap")
		k := mapKey(M)
		ks := x.keySort(M.Key())
		dom := x.mapGet(st, k+"!D", arr(ks, "Bool"), args[0].c[0])
		x.mapSet(st, k+"!D", arr(ks, "Bool"), nb, tIte(tEq(args[0].c[0], tZero), tConstArr(arr(ks, "Bool"), tFalse), dom))
		x.mapSet(st, k+"!N", "Int", nb, x.mapLen(st, args[0], M))
		x.snapped(k+"!D", nb)
		x.snapped(k+"!N", nb)
		for _, c := range comps(M.Elem()) {
			n := k + "!V#" + c.name
			x.mapSet(st, n, arr(ks, c.sort), nb, x.mapGet(st, n, arr(ks, c.sort), args[0].c[0]))
			x.snapped(n, nb)
		}
		return []Value{one(T, nb)}
	case "Pre":
		if len(x.preStack) == 0 {
			unsup("vc.Pre outside a loop annotation")
		}
		s := x.preStack[len(x.preStack)-1].clone()
		for c, v := range st.cells {
			s.cells[c] = v
		}
		s.pc = tTrue
		f := args[0].fns[0]
		x.spec++
		vs, _ := x.runFunction(f.fn, nil, f.binds, s, fr, nil)
		x.spec--
		return vs
	case "Sep":
		a, b := blkOf(args[0]), blkOf(args[1])
		return []Value{one(boolT, tOr(tEq(a, tZero), tEq(b, tZero), tNot(tEq(rootOf(a), rootOf(b)))))}
	case "Whole":
		return []Value{one(boolT, tEq(args[0].c[1], tZero))}
	case "Same64", "Same32", "Near64", "Near32":
		return []Value{one(boolT, fsame(args[0].c[0], args[1].c[0]))}
	case "Is64", "Is32":
		return []Value{one(boolT, tEq(args[0].c[0], args[1].c[0]))}
	case "Finite64", "Finite32":
		return []Value{one(boolT, ffinite(args[0].c[0]))}
	case "R64", "R32":
		return []Value{one(fn.Signature.Results().At(0).Type(), fval(args[0].c[0]))}
	case "RInt":
		return []Value{one(fn.Signature.Results().At(0).Type(), toReal(args[0].c[0]))}
	case "Le":
		return []Value{one(boolT, tLe(args[0].c[0], args[1].c[0]))}
	case "IntMod":
		return []Value{one(types.Typ[types.Int], tModF(args[0].c[0], args[1].c[0]))}
	case "Any":
		T := fn.Signature.Results().At(0).Type()
		x.noBound(nil)
		v := x.symbolic(st, T, "any")
		return []Value{v}
	case "Same":
		return []Value{one(boolT, x.sameSlice(st, args[0], args[1]))}
	case "StableSort":
		return []Value{one(boolT, x.stableSort(fr, st, args[0], args[1], args[2]))}
	case "Perm":
		return []Value{one(boolT, x.permTerm(st, args[0], args[1]))}
	}
	unsup("intrinsic vc.%s", name)
	return nil
}

func (x *Exec) noBound(args []Value) {
	for _, a := range args {
		for _, c := range a.c {
			if c.bound {
				unsup("copying intrinsic under a quantifier")
			}
		}
	}
	if x.bnd > 0 {
		unsup("copying intrinsic under a quantifier")
	}
}

func (x *Exec) evalPred(fr *Frame, st *State, f Value, args []Value) *Term {
	if len(f.fns) != 1 {
		unsup("quantifier body must be a function literal")
	}
	s := st.clone()
	s.pc = tTrue
	x.spec++
	x.bnd++
	defer func() { x.spec--; x.bnd-- }()
	vs, out := x.runFunction(f.fns[0].fn, args, f.fns[0].binds, s, fr, nil)
	if out.pc == tFalse {
		return tFalse
	}
	return vs[0].c[0]
}

func (x *Exec) quantInt(fr *Frame, st *State, all bool, lo, hi *Term, f Value) *Term {
	// small constant ranges are unfolded
	if lo.i != nil && hi.i != nil && lo.i.IsInt64() && hi.i.IsInt64() && hi.i.Int64()-lo.i.Int64() <= 16 {
		var ts []*Term
		for k := lo.i.Int64(); k < hi.i.Int64(); k++ {
			ts = append(ts, x.evalPred(fr, st, f, []Value{one(types.Typ[types.Int], mkInt(k))}))
		}
		if all {
			return tAnd(ts...)
		}
		return tOr(ts...)
	}
	v := mkBound("i", "Int")
	l, h := bitsRange(63, true)
	if r := rangeOf(lo); r != nil {
		l = r[0]
	}
	if r := rangeOf(hi); r != nil {
		h = r[1]
	}
	setRange(v, l, h)
	body := x.evalPred(fr, st, f, []Value{one(types.Typ[types.Int], v)})
	// re-centre the bound variable on the index it is used at
	if off := commonOffset(body, v); off != nil {
		w := mkBound("i", "Int")
		body = subst(body, map[*Term]*Term{v: tSub(w, off)}, map[*Term]*Term{})
		lo, hi = tAdd(lo, off), tAdd(hi, off)
		v = w
	}
	g := tAnd(mkRaw("<=", "Bool", lo, v), tNot(mkRaw("<=", "Bool", hi, v)))
	if all {
		return mkForall(v, tImp(g, body))
	}
	return mkExists(v, tAnd(g, body))
}

// commonOffset finds c such that every select on v uses index v+c.
func commonOffset(t, v *Term) *Term {
	var off *Term
	plain := false
	conflict := false
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].bound {
			i := t.args[1]
			if i == v {
				plain = true
			} else if i.op == "+" {
				l := linOf(i)
				if c, ok := l.c[v]; ok && c.Cmp(big.NewInt(1)) == 0 {
					rest := linSub(l, linOf(v)).term()
					if containsT(rest, v) {
						conflict = true
					} else if off == nil {
						off = rest
					} else if off != rest {
						conflict = true
					}
				}
			}
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	if plain || off == nil {
		return nil
	}
	if off.bound {
		// offsets that depend on an outer bound variable are left alone
		return nil
	}
	_ = conflict
	return off
}

func (x *Exec) quantKey(fr *Frame, st *State, m, f Value) *Term {
	M := m.typ.Underlying().(*types.Map)
	ks := x.keySort(M.Key())
	k := mapKey(M)
	v := mkBound("k", ks)
	if b, s, ok := intInfo(M.Key()); ok {
		lo, hi := bitsRange(b, s)
		setRange(v, lo, hi)
	}
	dom := tSelect(x.mapGet(st, k+"!D", arr(ks, "Bool"), m.c[0]), v)
	raw := Value{typ: M.Elem()}
	for _, c := range comps(M.Elem()) {
		raw.c = append(raw.c, tSelect(x.mapGet(st, k+"!V#"+c.name, arr(ks, c.sort), m.c[0]), v))
	}
	x.wellFormed(st, raw, M.Elem())
	kv := one(M.Key(), v)
	body := x.evalPred(fr, st, f, []Value{kv, raw})
	return tImp(tNot(tEq(m.c[0], tZero)), mkForall(v, tImp(dom, body)))
}

func (x *Exec) elemAt(st *State, s Value, abs *Term) Value {
	E := s.typ.Underlying().(*types.Slice).Elem()
	return x.load(nil, st, x.elemPtr(E, s.c[0], abs), E)
}

// sameSlice: equal length and the same elements in order.
func (x *Exec) sameSlice(st *State, a, b Value) *Term {
	E := a.typ.Underlying().(*types.Slice).Elem()
	i := mkBound("i", "Int")
	var eqs []*Term
	for _, m := range x.elemMaps(E) {
		eqs = append(eqs, tEq(tSelect(x.heapInner(st, m.name, m.sort, b.c[0]), i), tSelect(x.heapInner(st, m.name, m.sort, a.c[0]), tAdd(i, tSub(a.c[1], b.c[1])))))
	}
	g := tAnd(mkRaw("<=", "Bool", b.c[1], i), tNot(mkRaw("<=", "Bool", tAdd(b.c[1], b.c[2]), i)))
	return tAnd(tEq(a.c[2], b.c[2]), mkForall(i, tImp(g, tAnd(eqs...))))
}

// stableSort: b is the stable sort of a. As a goal it is shown with a witness
// permutation: the identity, or one introduced by a sort of the library model.
func (x *Exec) stableSort(fr *Frame, st *State, a, b, less Value) *Term {
	n := a.c[2]
	E := a.typ.Underlying().(*types.Slice).Elem()
	boff, aoff := b.c[1], a.c[1]
	lt := func(p, q *Term) *Term {
		return x.evalPred(fr, st, less, []Value{x.elemAt(st, b, p), x.elemAt(st, b, q)})
	}
	in := func(i, off *Term) *Term { return tAnd(tLe(off, i), tLt(i, tAdd(off, n))) }
	u, v := mkBound("u", "Int"), mkBound("v", "Int")
	g := tAnd(tLe(boff, u), tLt(u, v), tLt(v, tAdd(boff, n)))
	sorted := mkForall(u, mkForall(v, tImp(g, tNot(lt(v, u)))))
	alts := []*Term{tAnd(x.sameSlice(st, a, b), sorted)}
	for _, s := range x.sorts {
		// perm maps absolute indices of s to absolute indices of s
		so := s.s.c[1]
		pm := func(i *Term) *Term { return mkUF(s.perm, "Int", tAdd(i, tSub(so, boff))) }
		iv := func(i *Term) *Term { return mkUF(s.inv, "Int", tAdd(i, tSub(so, aoff))) }
		i, j := mkBound("i", "Int"), mkBound("j", "Int")
		var e1, e2 []*Term
		for _, m := range x.elemMaps(E) {
			ha, hb := x.heapInner(st, m.name, m.sort, a.c[0]), x.heapInner(st, m.name, m.sort, b.c[0])
			e1 = append(e1, tEq(tSelect(hb, i), tSelect(ha, tAdd(pm(i), tSub(aoff, so)))))
			e2 = append(e2, tEq(tSelect(hb, tAdd(iv(j), tSub(boff, so))), tSelect(ha, j)))
		}
		alts = append(alts, tAnd(tEq(a.c[2], b.c[2]), sorted,
			mkForall(i, tImp(in(i, boff), tAnd(append(e1, in(pm(i), so))...))),
			mkForall(j, tImp(in(j, aoff), tAnd(append(e2, in(iv(j), so))...))),
			mkForall(u, mkForall(v, tImp(tAnd(g, tNot(lt(u, v))), tLt(pm(u), pm(v)))))))
	}
	return tOr(alts...)
}

// permTerm: b is a permutation of a (both slices of the same length).
// Usable only as a goal after a sort, via the witness recorded by the sort model.
func (x *Exec) permTerm(st *State, a, b Value) *Term {
	unsup("vc.Perm")
	return nil
}

// symbolic creates an arbitrary value of type T.
func (x *Exec) symbolic(st *State, T types.Type, hint string) Value {
	v := Value{typ: T}
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		b := mkSym(hint, "Int")
		b.blkKind = 2
		addTermFact(b, tAnd(tGt(b, tZero), tLe(b, x.alloc0)))
		v.c = []*Term{b, tZero}
		if !isStruct(u.Elem()) && !isArray(u.Elem()) {
			v.region = elemRegion(u.Elem())
		}
		return v
	case *types.Slice:
		b := mkSym(hint, "Int")
		b.blkKind = 2
		addTermFact(b, tAnd(tGt(b, tZero), tLe(b, x.alloc0)))
		n, c := mkSym(hint+".len", "Int"), mkSym(hint+".cap", "Int")
		setRange(n, new(big.Int), maxLen)
		setRange(c, new(big.Int), maxLen)
		addTermFact(n, tLe(n, c))
		v.c = []*Term{b, tZero, n, c}
		return v
	case *types.Map:
		b := mkSym(hint, "Int")
		b.blkKind = 2
		addTermFact(b, tAnd(tGt(b, tZero), tLe(b, x.alloc0)))
		v.c = []*Term{b}
		return v
	}
	for _, c := range comps(T) {
		t := mkSym(hint+c.name, c.sort)
		if c.lo != nil {
			setRange(t, c.lo, c.hi)
		}
		v.c = append(v.c, t)
	}
	x.wellFormed(st, v, T)
	return v
}

// ---- lock discipline hooks (see locks.go) ----

// snapped notes a block that holds a snapshot: no code under test can reach it,
// so that a loop or an unknown callee leaves it alone.
func (x *Exec) snapped(name string, blk *Term) {
	if x.dry > 0 {
		return
	}
	if x.snaps == nil {
		x.snaps = map[string][]*Term{}
	}
	x.snaps[name] = append(x.snaps[name], blk)
}
