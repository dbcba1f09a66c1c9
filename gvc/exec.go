package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	name   string
	kind   string // safety, ensures, inv-entry, inv-step, requires, lock, unmodelled
	fn     string // function in /repo in which it arose
	nfacts int
	facts  []*Term
	pc     *Term
	goal   *Term
	cand   string
	status string
	solver string
	ms     int64
	model  string
	pos    string
}

type recEntry struct {
	name string
	blk  *Term
	off  *Term
	srt  string
}

type Recorder struct {
	entries []recEntry
	cells   map[*Cell]bool
	allocs  bool
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	it     *Term
	cands  []candidate
	phis   []*ssa.Phi
	active bool
	parent *loopInfo

	dryBack []*State
}

type candidate struct {
	key  string
	name string
	eval func(st *State, phis map[*ssa.Phi]Value, it *Term) *Term
}

type deferred struct {
	cond *Term
	call *ssa.CallCommon
	fnv  Value
	args []Value
}

type Frame struct {
	fn        *ssa.Function
	vals      map[ssa.Value]Value
	entry     *State
	args      []Value
	loops     map[*ssa.BasicBlock]*loopInfo
	rets      []retEdge
	defers    []deferred
	parent    *Frame
	parentIts []*Term
	path      string
	safeN     map[string]int
	unrolling *unrollInfo
}

type exitEdge struct {
	from, to *ssa.BasicBlock
	st       *State
	vals     map[ssa.Value]Value
}

type unrollInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	back   []edge
	exits  []exitEdge
	outs   []ssa.Value // loop values used after the loop
}

type retEdge struct {
	st   *State
	vals []Value
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

type Exec struct {
	frozen      []*State
	p           *Project
	c           *Contract
	facts       []*Term
	obs         []*Oblig
	recs        []*Recorder
	spec        int
	dry         int
	depth       int
	disabled    map[string]bool
	names       map[string]int
	cellN       int
	assume      map[string]bool
	covered     map[string]bool
	loopsSeen   map[string]bool
	callStack   []string
	preStack    []*State
	bndStack    int
	opts        map[string]string
	fnIDs       map[string]*ssa.Function
	dispatchOK  map[string]bool
	inSpecFn    int
	lockMode    bool
	guardObj    *Term
	reqDone     bool
	applyStack  []string
	covers      []*Oblig
	heldBlks    []*Term
	trace       bool
	ensN        int
	bnd         int
	alloc0      *Term
	used        map[string]bool
	inAtomic    int
	sorts       []sortInfo
	params      []Value
	snaps       map[string][]*Term
	guardedMu   map[*Term]bool
	guardRef    map[*Term]guardInfo
	guardAtomic map[*Term]guardInfo
	endPC       *Term
	endFacts    int
	intConsts   map[string]bool
	fltConsts   map[string]bool
}

func (x *Exec) obligation(kind, name string, fr *Frame, st *State, goal *Term) {
	if x.spec > 0 || x.dry > 0 {
		return
	}
	if st.pc == tFalse {
		return
	}
	if kind == "safety" && x.c.opts["lock"] != "" {
		// lock contracts decide the discipline only, for calls that do not panic
		x.fact(st, goal)
		return
	}
	fname := ""
	if fr != nil {
		fname = x.p.fnKey(fr.fn)
	}
	full := x.c.name + "/" + name
	n := x.names[full]
	x.names[full] = n + 1
	if n > 0 {
		full = fmt.Sprintf("%s~%d", full, n+1)
	}
	o := &Oblig{name: full, kind: kind, fn: fname, nfacts: len(x.facts), facts: x.facts[:len(x.facts):len(x.facts)], pc: st.pc, goal: goal}
	x.obs = append(x.obs, o)
	// once checked, the condition may be assumed on the rest of the path
	if kind == "safety" || kind == "requires" || kind == "lock" {
		x.fact(st, goal)
	}
}

func (x *Exec) fact(st *State, f *Term) {
	if f == tTrue {
		return
	}
	t := tImp(st.pc, f)
	if t == tTrue {
		return
	}
	if t.bound {
		// facts about bound variables are carried by the quantifier that is being built
		x.facts = append(x.facts, t)
		return
	}
	x.facts = append(x.facts, t)
}

func (x *Exec) record(name string, srt string, blk, off *Term) {
	for _, r := range x.recs {
		r.entries = append(r.entries, recEntry{name, blk, off, srt})
	}
}

// ---------- memory ----------

func mapSort2(s string) string { return arr("Int", arr("Int", s)) }

// ---- frozen references ----
//
// vc.Old(v) is v with every reference r replaced by frz@k(r): a reference to a
// copy of the object r was at that moment. Reading through frz@k(r) reads r in
// the state saved under k, and references found there are frozen likewise.

func isFrz(t *Term) bool { return frzOp(t) != "" }

// frzOp: the copy t refers into. A choice between a reference into a copy and
// nil counts as one.
func frzOp(t *Term) string {
	if strings.HasPrefix(t.op, "frz@") {
		return t.op
	}
	if t.op != "ite" {
		return ""
	}
	a, b := frzOp(t.args[1]), frzOp(t.args[2])
	switch {
	case a == b:
		return a
	case a != "" && t.args[2] == tZero:
		return a
	case b != "" && t.args[1] == tZero:
		return b
	case a != "" || b != "":
		unsup("a reference that may or may not be into a copy made by vc.Old")
	}
	return ""
}

func frzInner(t *Term) *Term {
	if t.op == "ite" {
		return tIte(t.args[0], frzInner(t.args[1]), frzInner(t.args[2]))
	}
	if t == tZero {
		return t
	}
	return t.args[0]
}

func (x *Exec) thaw(st *State, blk *Term) (*State, *Term) {
	if op := frzOp(blk); op != "" {
		k, _ := strconv.Atoi(op[4:])
		return x.frozen[k], frzInner(blk)
	}
	return st, blk
}

func frzOf(op string, b *Term) *Term {
	switch {
	case b == tZero:
		return b
	case b.op == "ite":
		return tIte(b.args[0], frzOf(op, b.args[1]), frzOf(op, b.args[2]))
	}
	t := mkUF(op, "Int", b)
	addTermFact(t, tEq(tEq(t, tZero), tEq(b, tZero)))
	return t
}

// freeze wraps the references in v.
func (x *Exec) freeze(op string, v Value, T types.Type) Value {
	if len(v.fns) > 0 || v.cell != nil {
		unsup("vc.Old of a function or local variable")
	}
	r := v
	r.dyn = nil
	r.c = append([]*Term{}, v.c...)
	switch u := T.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		r.c[0] = frzOf(op, r.c[0])
	case *types.Interface:
		r.c[1] = frzOf(op, r.c[1])
	case *types.Struct:
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(comps(u.Field(i).Type()))
			f := x.freeze(op, Value{typ: u.Field(i).Type(), c: r.c[k : k+n]}, u.Field(i).Type())
			copy(r.c[k:k+n], f.c)
			k += n
		}
	}
	return r
}

func (x *Exec) refreeze(blk *Term, v Value, T types.Type) Value {
	if !isFrz(blk) || len(v.fns) > 0 {
		return v
	}
	return x.freeze(frzOp(blk), v, T)
}

func (x *Exec) heapGet2(st *State, name, srt string, blk, off *Term) *Term {
	st, blk = x.thaw(st, blk)
	h := st.get(name, mapSort2(srt))
	return tSelect(tSelect(h, blk), off)
}
func (x *Exec) heapSet2(st *State, name, srt string, blk, off, v *Term) {
	if isFrz(blk) {
		unsup("writing to a copy made by vc.Old")
	}
	h := st.get(name, mapSort2(srt))
	st.heap[name] = tStore(h, blk, tStore(tSelect(h, blk), off, v))
	x.record(name, mapSort2(srt), blk, off)
}
func (x *Exec) heapInner(st *State, name, srt string, blk *Term) *Term {
	st, blk = x.thaw(st, blk)
	return tSelect(st.get(name, mapSort2(srt)), blk)
}
func (x *Exec) heapSetInner(st *State, name, srt string, blk, v *Term) {
	h := st.get(name, mapSort2(srt))
	st.heap[name] = tStore(h, blk, v)
	x.record(name, mapSort2(srt), blk, nil)
}

func (x *Exec) subBlk(key string, blk, off *Term) *Term {
	if isFrz(blk) {
		return frzOf(frzOp(blk), x.subBlk(key, frzInner(blk), off))
	}
	name := "sub@" + sanit(key)
	t := mkUF(name, "Int", blk, off)
	tag := x.p.subTag(name)
	if _, ok := termFacts[t]; !ok {
		fs := []*Term{
			tEq(mkUF("subTag", "Int", t), mkInt(int64(tag))),
			tEq(mkUF("subPar", "Int", t), blk),
			tEq(mkUF("subOff", "Int", t), off),
			tLt(t, tZero),
			tEq(mkUF("root", "Int", t), rootOf(blk)),
		}
		termFacts[t] = fs
	}
	return t
}

func rootOf(b *Term) *Term {
	if b.i != nil || b.blkKind != 0 {
		return b
	}
	if isSub(b) {
		return rootOf(b.args[0])
	}
	r := mkUF("root", "Int", b)
	if _, ok := termFacts[r]; !ok {
		termFacts[r] = []*Term{tImp(tGe(b, tZero), tEq(r, b))}
	}
	return r
}

// pointer to field i of the struct pointed to by p (type S)
func (x *Exec) fieldPtr(p Value, S types.Type, i int) Value {
	s := S.Underlying().(*types.Struct)
	f := s.Field(i)
	key := typeKey(S) + "." + f.Name()
	pt := types.NewPointer(f.Type())
	if p.cell != nil {
		if !isStruct(p.cell.typ) {
			unsup("field address of cell")
		}
		r := Value{typ: types.NewPointer(f.Type()), cell: p.cell, coff: p.coff, csub: f.Type()}
		for j := 0; j < i; j++ {
			r.coff += len(comps(s.Field(j).Type()))
		}
		return r
	}
	if isStruct(f.Type()) || isArray(f.Type()) {
		return Value{typ: pt, c: []*Term{x.subBlk(key, p.c[0], p.c[1]), tZero}}
	}
	return Value{typ: pt, c: []*Term{p.c[0], p.c[1]}, region: key}
}

func elemRegion(t types.Type) string { return "E:" + typeKey(t) }

// pointer to element idx of a block of elements of type E
func (x *Exec) elemPtr(E types.Type, blk, idx *Term) Value {
	pt := types.NewPointer(E)
	if isArray(E) {
		return Value{typ: pt, c: []*Term{x.subBlk("E:"+typeKey(E), blk, idx), tZero}}
	}
	if isStruct(E) {
		return Value{typ: pt, c: []*Term{blk, idx}}
	}
	return Value{typ: pt, c: []*Term{blk, idx}, region: elemRegion(E)}
}

func regionOf(p Value, T types.Type) string {
	if p.region != "" {
		return p.region
	}
	return elemRegion(T)
}

func (x *Exec) load(fr *Frame, st *State, p Value, T types.Type) Value {
	if p.cell != nil {
		v, ok := st.cells[p.cell]
		if !ok {
			v = zeroValue(p.cell.typ)
		}
		if p.csub != nil {
			n := len(comps(p.csub))
			v = Value{typ: p.csub, c: append([]*Term{}, v.c[p.coff:p.coff+n]...)}
			if !types.Identical(p.csub.Underlying(), T.Underlying()) {
				return x.reinterpret(v, p.csub, T)
			}
			v.typ = T
			return v
		}
		if !types.Identical(p.cell.typ.Underlying(), T.Underlying()) {
			return x.reinterpret(v, p.cell.typ, T)
		}
		v.typ = T
		return v
	}
	if s, ok := T.Underlying().(*types.Struct); ok && !isReal(T) {
		v := Value{typ: T}
		for i := 0; i < s.NumFields(); i++ {
			fp := x.fieldPtr(p, T, i)
			fv := x.load(fr, st, fp, s.Field(i).Type())
			v.c = append(v.c, fv.c...)
		}
		return v
	}
	if a, ok := T.Underlying().(*types.Array); ok {
		v := Value{typ: T}
		E := a.Elem()
		if isFrz(p.c[0]) {
			if _, ok := E.Underlying().(*types.Basic); !ok {
				unsup("copying array of references by vc.Old")
			}
		}
		if isStruct(E) {
			es := E.Underlying().(*types.Struct)
			for i := 0; i < es.NumFields(); i++ {
				ft := es.Field(i).Type()
				if isStruct(ft) || isArray(ft) {
					unsup("load array of nested struct %s", T)
				}
				for _, c := range comps(ft) {
					v.c = append(v.c, x.heapInner(st, typeKey(E)+"."+es.Field(i).Name()+"#"+c.name, c.sort, p.c[0]))
				}
			}
			return v
		}
		if isArray(E) {
			unsup("load array of array %s", T)
		}
		for _, c := range comps(E) {
			v.c = append(v.c, x.heapInner(st, elemRegion(E)+"#"+c.name, c.sort, p.c[0]))
		}
		return v
	}
	reg := regionOf(p, T)
	v := Value{typ: T}
	for _, c := range comps(T) {
		t := x.heapGet2(st, reg+"#"+c.name, c.sort, p.c[0], p.c[1])
		v.c = append(v.c, t)
	}
	x.wellFormed(st, v, T)
	return x.refreeze(p.c[0], v, T)
}

// facts every value of a Go type satisfies
func (x *Exec) wellFormed(st *State, v Value, T types.Type) {
	if isReal(T) {
		return
	}
	cs := comps(T)
	for i, c := range cs {
		if c.lo != nil && v.c[i].i == nil {
			typeRange(v.c[i], c.lo, c.hi)
		}
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer, *types.Chan:
		x.ptrWF(st, v.c[0])
	case *types.Map:
		x.ptrWF(st, v.c[0])
	case *types.Slice:
		x.ptrWF(st, v.c[0])
		addTermFact(v.c[2], tLe(v.c[2], v.c[3]))
		addTermFact(v.c[2], tLe(tAdd(v.c[1], v.c[3]), mkBig(maxLen)))
		addTermFact(v.c[0], tImp(tEq(v.c[0], tZero), tEq(v.c[3], tZero)))
		addTermFact(v.c[0], tGe(v.c[0], mkInt(-1<<62)))
	case *types.Interface:
		addTermFact(v.c[0], tGe(v.c[0], tZero))
		x.ptrWF(st, v.c[1])
		addTermFact(v.c[0], tImp(tEq(v.c[0], tZero), tAnd(tEq(v.c[1], tZero), tEq(v.c[2], tZero))))
	case *types.Struct:
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(comps(u.Field(i).Type()))
			x.wellFormed(st, Value{typ: u.Field(i).Type(), c: v.c[k : k+n]}, u.Field(i).Type())
			k += n
		}
	}
}

// a pointer value available in st refers to something already allocated
func (x *Exec) ptrWF(st *State, blk *Term) {
	if blk.i != nil || blk.blkKind != 0 {
		return
	}
	if isSub(blk) || isFrz(blk) {
		return
	}
	if blk.op == "ite" {
		x.ptrWF(st, blk.args[1])
		x.ptrWF(st, blk.args[2])
		return
	}
	f := tLe(rootOf(blk), st.alloc)
	if !blk.bound && !st.alloc.bound {
		addTermFact(blk, f)
	} else {
		addTermFact(blk, f)
	}
}

var termFacts = map[*Term][]*Term{}

func addTermFact(t, f *Term) {
	if f == tTrue {
		return
	}
	for _, g := range termFacts[t] {
		if g == f {
			return
		}
	}
	termFacts[t] = append(termFacts[t], f)
}

func typeRange(t *Term, lo, hi *big.Int) {
	if t.i != nil {
		return
	}
	if t.op == "ite" {
		typeRange(t.args[1], lo, hi)
		typeRange(t.args[2], lo, hi)
		return
	}
	if t.op == "select" || t.isSym {
		setRange(t, lo, hi)
	} else if len(t.args) > 0 {
		if _, uf := tt.funs[t.op]; uf {
			setRange(t, lo, hi)
		}
	}
}

func (x *Exec) reinterpret(v Value, from, to types.Type) Value {
	ff, tf := floatSort(from), floatSort(to)
	_, _, fi := intInfo(from)
	_, _, ti := intInfo(to)
	if ff != "" && ti {
		return Value{typ: to, c: []*Term{fbits(v.c[0])}}
	}
	if fi && tf != "" {
		return Value{typ: to, c: []*Term{ffrombits(v.c[0], tf)}}
	}
	unsup("reinterpret %s as %s", from, to)
	return Value{}
}

func (x *Exec) store(fr *Frame, st *State, p Value, v Value, T types.Type) {
	if p.cell != nil {
		if p.csub != nil {
			if len(v.fns) > 0 || v.cell != nil {
				unsup("function or local address stored in a struct variable")
			}
			if !types.Identical(p.csub.Underlying(), T.Underlying()) {
				v = x.reinterpret(v, T, p.csub)
			}
			old, ok := st.cells[p.cell]
			if !ok {
				old = zeroValue(p.cell.typ)
			}
			n := Value{typ: p.cell.typ, c: append([]*Term{}, old.c...)}
			copy(n.c[p.coff:], v.c)
			v, T = n, p.cell.typ
		}
		if !types.Identical(p.cell.typ.Underlying(), T.Underlying()) {
			v = x.reinterpret(v, T, p.cell.typ)
		}
		st.cells[p.cell] = v
		for _, r := range x.recs {
			r.cells[p.cell] = true
		}
		return
	}
	if v.cell != nil {
		unsup("address of local variable stored to memory in %s", fr.fn)
	}
	if s, ok := T.Underlying().(*types.Struct); ok && !isReal(T) {
		k := 0
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			n := len(comps(ft))
			x.store(fr, st, x.fieldPtr(p, T, i), Value{typ: ft, c: v.c[k : k+n]}, ft)
			k += n
		}
		return
	}
	if a, ok := T.Underlying().(*types.Array); ok {
		E := a.Elem()
		if isStruct(E) {
			es := E.Underlying().(*types.Struct)
			k := 0
			for i := 0; i < es.NumFields(); i++ {
				for _, c := range comps(es.Field(i).Type()) {
					x.heapSetInner(st, typeKey(E)+"."+es.Field(i).Name()+"#"+c.name, c.sort, p.c[0], v.c[k])
					k++
				}
			}
			return
		}
		if isArray(E) {
			unsup("store array of array")
		}
		for k, c := range comps(E) {
			x.heapSetInner(st, elemRegion(E)+"#"+c.name, c.sort, p.c[0], v.c[k])
		}
		return
	}
	reg := regionOf(p, T)
	if len(v.fns) > 0 && len(v.c) == 0 {
		v.c = []*Term{x.fnID(v)}
	}
	if _, ok := T.Underlying().(*types.Pointer); ok && v.region != "" && !isStruct(T.Underlying().(*types.Pointer).Elem()) && v.region != elemRegion(T.Underlying().(*types.Pointer).Elem()) {
		unsup("interior scalar pointer stored to memory")
	}
	for k, c := range comps(T) {
		x.heapSet2(st, reg+"#"+c.name, c.sort, p.c[0], p.c[1], v.c[k])
	}
}

func (x *Exec) fnID(v Value) *Term {
	if len(v.fns) == 0 {
		return v.c[0]
	}
	var r *Term
	for i := len(v.fns) - 1; i >= 0; i-- {
		f := v.fns[i]
		var id *Term
		if len(f.binds) == 0 {
			id = mkInt(int64(x.p.funcID(f.fn)))
		} else {
			id = mkSym("closure", "Int")
			addTermFact(id, tGt(id, mkInt(1<<40)))
			x.p.closures[id] = f
		}
		if r == nil {
			r = id
		} else {
			r = tIte(f.cond, id, r)
		}
	}
	return r
}

// newBlock allocates a fresh block.
func (x *Exec) newBlock(st *State, hint string) *Term {
	b := mkSym("new@"+hint, "Int")
	b.blkKind = 1
	b.epoch = b.id
	if x.bnd > 0 {
		// a local variable of a predicate: private to one evaluation, which
		// leaves nothing but its truth value behind
		if st.alloc.bound {
			unsup("allocation under a quantifier")
		}
		addTermFact(b, tGt(b, st.alloc))
		st.alloc = b
		return b
	}
	x.fact(st, tGt(b, st.alloc))
	st.alloc = b
	return b
}

func (x *Exec) zeroInit(st *State, p Value, T types.Type) {
	if s, ok := T.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			x.zeroInit(st, x.fieldPtr(p, T, i), s.Field(i).Type())
		}
		return
	}
	if a, ok := T.Underlying().(*types.Array); ok {
		x.zeroInitBlock(st, p.c[0], a.Elem())
		return
	}
	x.store(nil, st, p, zeroValue(T), T)
}

// zero-fills every element of a block
func (x *Exec) zeroInitBlock(st *State, blk *Term, E types.Type) {
	if s, ok := E.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isStruct(ft) || isArray(ft) {
				continue // contents of nested aggregates in fresh slices are left unspecified
			}
			for _, c := range comps(ft) {
				x.heapSetInner(st, typeKey(E)+"."+s.Field(i).Name()+"#"+c.name, c.sort, blk, tConstArr(arr("Int", c.sort), zeroOfSort(c.sort)))
			}
		}
		return
	}
	if isArray(E) {
		return
	}
	for _, c := range comps(E) {
		x.heapSetInner(st, elemRegion(E)+"#"+c.name, c.sort, blk, tConstArr(arr("Int", c.sort), zeroOfSort(c.sort)))
	}
}

// ---------- merging ----------

func (x *Exec) relConds(sts []*State) []*Term {
	common := map[*Term]int{}
	for _, s := range sts {
		for _, a := range conjSet(s.pc) {
			common[a]++
		}
	}
	out := make([]*Term, len(sts))
	for i, s := range sts {
		var cs []*Term
		for _, a := range conjSet(s.pc) {
			if common[a] != len(sts) {
				cs = append(cs, a)
			}
		}
		out[i] = tAnd(cs...)
	}
	return out
}

func (x *Exec) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{tTrue}
	}
	conds := x.relConds(sts)
	var common []*Term
	cm := map[*Term]int{}
	for _, s := range sts {
		for _, a := range conjSet(s.pc) {
			cm[a]++
		}
	}
	for _, a := range conjSet(sts[0].pc) {
		if cm[a] == len(sts) {
			common = append(common, a)
		}
	}
	d := tOr(conds...)
	if d != tTrue && (d.op == "or") && len(conds) > 1 && !d.bound {
		d = x.nameBool(d)
	}
	n := &State{pc: tAnd(append(common, d)...), heap: map[string]*Term{}, cells: map[*Cell]Value{}}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var srt string
		for _, s := range sts {
			if t, ok := s.heap[k]; ok {
				srt = t.sort
			}
		}
		var r *Term
		for i := len(sts) - 1; i >= 0; i-- {
			t := sts[i].get(k, srt)
			if r == nil {
				r = t
			} else {
				r = tIte(conds[i], t, r)
			}
		}
		n.heap[k] = r
	}
	cells := map[*Cell]bool{}
	for _, s := range sts {
		for c := range s.cells {
			cells[c] = true
		}
	}
	for c := range cells {
		var vs []Value
		for _, s := range sts {
			v, ok := s.cells[c]
			if !ok {
				v = zeroValue(c.typ)
			}
			vs = append(vs, v)
		}
		n.cells[c] = x.mergeValues(conds, vs)
	}
	same := true
	for _, s := range sts[1:] {
		if s.alloc != sts[0].alloc {
			same = false
		}
	}
	if same {
		n.alloc = sts[0].alloc
	} else {
		a := mkSym("alloc", "Int")
		for i, s := range sts {
			_ = i
			x.facts = append(x.facts, tGe(a, s.alloc))
		}
		n.alloc = a
	}
	return n, conds
}

func (x *Exec) nameBool(d *Term) *Term {
	if d.isSym || d.op == "not" && d.args[0].isSym {
		return d
	}
	if termSize(d, 12) < 12 {
		return d
	}
	p := mkSym("p", "Bool")
	x.facts = append(x.facts, tEq(p, d))
	return p
}

func termSize(t *Term, lim int) int {
	n := 1
	for _, a := range t.args {
		if n >= lim {
			return n
		}
		n += termSize(a, lim-n)
	}
	return n
}

func (x *Exec) mergeValues(conds []*Term, vs []Value) Value {
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = x.iteValue(conds[i], vs[i], r)
	}
	return r
}

func (x *Exec) iteValue(c *Term, a, b Value) Value {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	r := Value{typ: a.typ}
	if a.isTup || b.isTup {
		r.isTup = true
		for i := range a.tup {
			r.tup = append(r.tup, x.iteValue(c, a.tup[i], b.tup[i]))
		}
		return r
	}
	if a.iter != nil || b.iter != nil {
		if a.iter == b.iter {
			return a
		}
		unsup("merge of iterators")
	}
	if a.cell != nil || b.cell != nil {
		if a.cell == b.cell && a.coff == b.coff {
			return a
		}
		unsup("merge of distinct local pointers")
	}
	if len(a.fns) > 0 || len(b.fns) > 0 {
		if len(a.fns) == 1 && len(b.fns) == 1 && sameFn(a.fns[0], b.fns[0]) {
			return a
		}
		if len(a.fns) > 0 && len(b.fns) > 0 {
			for i, f := range a.fns {
				g := f
				if i < len(a.fns)-1 || f.cond != nil {
					g.cond = tAnd(c, orTrue(f.cond))
				} else {
					g.cond = c
				}
				r.fns = append(r.fns, g)
			}
			r.fns = append(r.fns, b.fns...)
			return r
		}
		a.c = []*Term{x.fnID(a)}
		b.c = []*Term{x.fnID(b)}
	}
	if a.region != b.region {
		ta, okA := a.typ.Underlying().(*types.Pointer)
		if okA && !isStruct(ta.Elem()) && !isArray(ta.Elem()) {
			// nil pointers have no region
			if a.c[0] == tZero {
				r.region = b.region
			} else if b.c[0] == tZero {
				r.region = a.region
			} else {
				unsup("merge of pointers into different fields")
			}
		}
	} else {
		r.region = a.region
	}
	if a.dyn != nil && b.dyn != nil && types.Identical(a.dyn.typ, b.dyn.typ) {
		d := x.iteValue(c, *a.dyn, *b.dyn)
		r.dyn = &d
	}
	if len(a.c) != len(b.c) {
		unsup("merge arity %s %s", a.typ, b.typ)
	}
	for i := range a.c {
		r.c = append(r.c, tIte(c, a.c[i], b.c[i]))
	}
	return r
}

func orTrue(t *Term) *Term {
	if t == nil {
		return tTrue
	}
	return t
}

func sameFn(a, b FuncVal) bool {
	if a.fn != b.fn || len(a.binds) != len(b.binds) {
		return false
	}
	for i := range a.binds {
		if !sameValue(a.binds[i], b.binds[i]) {
			return false
		}
	}
	return true
}

func sameValue(a, b Value) bool {
	if a.cell != b.cell || a.coff != b.coff || len(a.c) != len(b.c) || len(a.fns) != len(b.fns) {
		return false
	}
	for i := range a.c {
		if a.c[i] != b.c[i] {
			return false
		}
	}
	for i := range a.fns {
		if !sameFn(a.fns[i], b.fns[i]) {
			return false
		}
	}
	return true
}

// ---------- function execution ----------

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	out := make([]*ssa.BasicBlock, 0, len(post))
	for i := len(post) - 1; i >= 0; i-- {
		out = append(out, post[i])
	}
	return out
}

func findLoops(fn *ssa.Function, order []*ssa.BasicBlock) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				li := loops[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = li
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.blocks[n] {
						continue
					}
					li.blocks[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	ord := 0
	for _, b := range order {
		if li := loops[b]; li != nil {
			li.ord = ord
			ord++
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok {
					li.phis = append(li.phis, p)
				}
			}
		}
	}
	for _, li := range loops {
		for _, lj := range loops {
			if li != lj && lj.blocks[li.header] {
				if li.parent == nil || li.parent.blocks[lj.header] {
					li.parent = lj
				}
			}
		}
	}
	return loops
}

func (x *Exec) itsAt(fr *Frame, b *ssa.BasicBlock) []*Term {
	its := append([]*Term{}, fr.parentIts...)
	var ls []*loopInfo
	for _, li := range fr.loops {
		if li.blocks[b] && li.it != nil {
			ls = append(ls, li)
		}
	}
	sort.Slice(ls, func(i, j int) bool {
		return ls[i].blocks[ls[j].header] && ls[i] != ls[j] && !ls[j].blocks[ls[i].header]
	})
	for _, l := range ls {
		its = append(its, l.it)
	}
	return its
}

func (x *Exec) runFunction(fn *ssa.Function, args, binds []Value, st *State, parent *Frame, pits []*Term) ([]Value, *State) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if x.depth > 60 {
		unsup("inlining too deep at %s", fn)
	}
	rec := 0
	for p := parent; p != nil; p = p.parent {
		if p.fn == fn {
			rec++
		}
	}
	if rec > 2 {
		unsup("recursive function %s", fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	fr := &Frame{fn: fn, vals: map[ssa.Value]Value{}, entry: st.clone(), args: args, parent: parent, parentIts: pits}
	if parent != nil {
		fr.path = parent.path + ">" + fn.Name()
	} else {
		fr.path = fn.Name()
	}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, b := range fn.FreeVars {
		fr.vals[b] = binds[i]
	}
	order := rpo(fn)
	fr.loops = findLoops(fn, order)
	inc := map[*ssa.BasicBlock][]edge{order[0]: {{nil, st.clone()}}}
	x.runBlocks(fr, order, inc, nil)
	if len(fr.rets) == 0 {
		n := st.clone()
		n.pc = tFalse
		var vals []Value
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			vals = append(vals, zeroValue(rs.At(i).Type()))
		}
		return vals, n
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	out, conds := x.mergeStates(sts)
	nres := len(fr.rets[0].vals)
	vals := make([]Value, nres)
	for k := 0; k < nres; k++ {
		var vs []Value
		for _, r := range fr.rets {
			vs = append(vs, r.vals[k])
		}
		vals[k] = x.mergeValues(conds, vs)
	}
	return vals, out
}

func (x *Exec) runBlocks(fr *Frame, order []*ssa.BasicBlock, inc map[*ssa.BasicBlock][]edge, dryHeader *ssa.BasicBlock) {
	inOrder := map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		inOrder[b] = true
	}
	for _, b := range order {
		es := inc[b]
		var live []edge
		for _, e := range es {
			if e.st.pc != tFalse {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		var sts []*State
		for _, e := range live {
			sts = append(sts, e.st)
		}
		st, conds := x.mergeStates(sts)
		li := fr.loops[b]
		if b == dryHeader {
			// phis already set
		} else {
			nphi := map[*ssa.Phi]Value{}
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				var vs []Value
				for _, e := range live {
					for k, p := range b.Preds {
						if p == e.from {
							vs = append(vs, x.val(fr, phi.Edges[k]))
							break
						}
					}
				}
				nphi[phi] = x.mergeValues(conds, vs)
			}
			for p, v := range nphi {
				fr.vals[p] = v
			}
			if li != nil {
				if x.unroll(fr, li, st, order, inc, inOrder, dryHeader) {
					continue
				}
				st = x.enterLoop(fr, li, st, order)
			}
		}
		x.execBlock(fr, b, st, inc, inOrder, dryHeader)
	}
}

// unroll executes a loop whose trip count is a known constant iteration by
// iteration. It reports false, with everything restored, when the loop is not
// of that kind.
func (x *Exec) unroll(fr *Frame, li *loopInfo, st *State, order []*ssa.BasicBlock, inc map[*ssa.BasicBlock][]edge, inOrder map[*ssa.BasicBlock]bool, dryHeader *ssa.BasicBlock) bool {
	max := 16
	if s := x.opts["unroll"]; s != "" {
		fmt.Sscan(s, &max)
	}
	n, ok := x.tripCount(fr, li, st, max)
	forced := false
	if !ok {
		if k := x.p.unrollFn[x.p.fnKey(fr.fn)]; k > 0 {
			n, ok, forced = k, true, true
		}
	}
	if x.trace {
		fmt.Println("unroll", fr.path, li.ord, n, ok)
	}
	if !ok {
		return false
	}
	var body []*ssa.BasicBlock
	for _, b := range order {
		if li.blocks[b] {
			body = append(body, b)
		}
	}
	// snapshot
	mark, nobs, nrets, ndefs, nsorts := len(x.facts), len(x.obs), len(fr.rets), len(fr.defers), len(x.sorts)
	names := make(map[string]int, len(x.names))
	for k, v := range x.names {
		names[k] = v
	}
	vals := make(map[ssa.Value]Value, len(fr.vals))
	for k, v := range fr.vals {
		vals[k] = v
	}
	outer := fr.unrolling
	savedIt := li.it
	restore := func() bool {
		x.facts, x.obs, fr.rets, fr.defers, x.sorts = x.facts[:mark], x.obs[:nobs], fr.rets[:nrets], fr.defers[:ndefs], x.sorts[:nsorts]
		x.names = names
		fr.vals = vals
		fr.unrolling = outer
		li.it = savedIt
		return false
	}
	var outs []ssa.Value
	for _, b := range body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !li.blocks[r.Block()] {
					outs = append(outs, v)
					break
				}
			}
		}
	}
	cur := st
	var exits []exitEdge
	for k := 0; ; k++ {
		u := &unrollInfo{header: li.header, blocks: li.blocks, outs: outs}
		fr.unrolling = u
		li.it = mkInt(int64(k))
		for _, v := range outs {
			if _, isPhi := v.(*ssa.Phi); !isPhi || v.(*ssa.Phi).Block() != li.header {
				delete(fr.vals, v)
			}
		}
		x.runBlocks(fr, body, map[*ssa.BasicBlock][]edge{li.header: {{nil, cur.clone()}}}, li.header)
		fr.unrolling = outer
		exits = append(exits, u.exits...)
		if len(u.back) == 0 {
			break
		}
		if forced && k >= n {
			for _, e := range u.back {
				x.obligation("aux", x.p.fnKey(fr.fn)+": loop ends", fr, e.st, tFalse)
			}
			break
		}
		if k > n {
			if x.trace {
				fmt.Println("unroll abandoned: trip count not reached", k)
			}
			return restore()
		}
		var sts []*State
		for _, e := range u.back {
			sts = append(sts, e.st)
		}
		m, conds := x.mergeStates(sts)
		next := map[*ssa.Phi]Value{}
		for _, p := range li.phis {
			var vs []Value
			for _, e := range u.back {
				for i, pr := range li.header.Preds {
					if pr == e.from {
						vs = append(vs, x.val(fr, p.Edges[i]))
						break
					}
				}
			}
			next[p] = x.mergeValues(conds, vs)
		}
		for p, v := range next {
			fr.vals[p] = v
		}
		cur = m
	}
	li.it = savedIt
	if len(exits) > 1 {
		var sts []*State
		for _, e := range exits {
			sts = append(sts, e.st)
		}
		conds := x.relConds(sts)
		for _, v := range outs {
			var vs []Value
			var cs []*Term
			for i, e := range exits {
				if w, ok := e.vals[v]; ok {
					vs = append(vs, w)
					cs = append(cs, conds[i])
				}
			}
			if len(vs) == 0 {
				continue
			}
			if !x.tryHeader(func() { fr.vals[v] = x.mergeValues(cs, vs) }) {
				return restore()
			}
		}
	} else if len(exits) == 1 {
		for v, w := range exits[0].vals {
			fr.vals[v] = w
		}
	}
	for _, e := range exits {
		x.pushEdge(fr, e.from, e.to, e.st, inc, inOrder, dryHeader)
	}
	return true
}

// tripCount computes how often the loop runs when its header compares a linear
// induction variable with constants known on entry.
func (x *Exec) tripCount(fr *Frame, li *loopInfo, st *State, max int) (int, bool) {
	ifi, ok := li.header.Instrs[len(li.header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	if _, _, isInt := intInfo(bo.X.Type()); !isInt {
		return 0, false
	}
	ph := map[*ssa.Phi]Value{}
	step := map[*ssa.Phi]*big.Int{}
	for _, p := range li.phis {
		v := fr.vals[p]
		ph[p] = v
		if _, _, isInt := intInfo(p.Type()); !isInt || len(v.c) != 1 || v.c[0].i == nil {
			continue
		}
		for i, pr := range li.header.Preds {
			if !li.header.Dominates(pr) {
				continue
			}
			b, isB := p.Edges[i].(*ssa.BinOp)
			if !isB || b.X != ssa.Value(p) {
				continue
			}
			c, _ := b.Y.(*ssa.Const)
			if c == nil || c.Value == nil {
				continue
			}
			s, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
			if !ok {
				continue
			}
			if b.Op == token.SUB {
				s.Neg(s)
			} else if b.Op != token.ADD {
				continue
			}
			step[p] = s
		}
	}
	if len(step) == 0 {
		return 0, false
	}
	stays := li.blocks[li.header.Succs[0]]
	for k := 0; k <= max; k++ {
		for p, s := range step {
			ph[p] = Value{typ: ph[p].typ, c: []*Term{mkBig(new(big.Int).Add(fr.vals[p].c[0].i, new(big.Int).Mul(s, big.NewInt(int64(k)))))}}
		}
		var a, b *Term
		if !x.tryHeader(func() { a, b = x.headerCond(fr, li, st, ph, bo) }) || a.i == nil || b.i == nil {
			return 0, false
		}
		c := a.i.Cmp(b.i)
		var t bool
		switch bo.Op {
		case token.LSS:
			t = c < 0
		case token.LEQ:
			t = c <= 0
		case token.GTR:
			t = c > 0
		case token.GEQ:
			t = c >= 0
		case token.NEQ:
			t = c != 0
		case token.EQL:
			t = c == 0
		}
		if t != stays {
			return k, true
		}
	}
	return 0, false
}

func (x *Exec) tryHeader(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); !is {
				panic(r)
			}
			ok = false
		}
	}()
	f()
	return true
}

func (x *Exec) pushEdge(fr *Frame, from, to *ssa.BasicBlock, st *State, inc map[*ssa.BasicBlock][]edge, inOrder map[*ssa.BasicBlock]bool, dryHeader *ssa.BasicBlock) {
	if st.pc == tFalse {
		return
	}
	if u := fr.unrolling; u != nil {
		if to == u.header && to.Dominates(from) {
			u.back = append(u.back, edge{from, st})
			return
		}
		if !u.blocks[to] {
			e := exitEdge{from: from, to: to, st: st, vals: map[ssa.Value]Value{}}
			for _, v := range u.outs {
				if w, ok := fr.vals[v]; ok {
					e.vals[v] = w
				}
			}
			u.exits = append(u.exits, e)
			return
		}
	}
	if li := fr.loops[to]; li != nil && to.Dominates(from) {
		if to == dryHeader {
			li.dryBack = append(li.dryBack, st)
			return
		}
		x.backEdge(fr, li, from, st)
		return
	}
	if !inOrder[to] {
		return
	}
	inc[to] = append(inc[to], edge{from, st})
}

func (x *Exec) val(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return Value{typ: v.Type(), fns: []FuncVal{{fn: v}}}
	case *ssa.Global:
		b := namedSym("glob@"+v.Pkg.Pkg.Name()+"."+v.Name(), "Int")
		b.blkKind = 2
		return Value{typ: v.Type(), c: []*Term{b, tZero}, region: globRegion(v)}
	case *ssa.Builtin:
		return Value{typ: v.Type()}
	}
	r, ok := fr.vals[v]
	if !ok {
		unsup("value %s undefined in %s", v.Name(), fr.fn)
	}
	return r
}

func globRegion(v *ssa.Global) string {
	e := v.Type().Underlying().(*types.Pointer).Elem()
	if isStruct(e) || isArray(e) {
		return ""
	}
	return elemRegion(e)
}

func (x *Exec) constVal(c *ssa.Const) Value {
	T := c.Type()
	if isReal(T) {
		r := constToRat(c.Value)
		return Value{typ: T, c: []*Term{mkRat(r)}}
	}
	if c.Value == nil {
		return zeroValue(T)
	}
	if fs := floatSort(T); fs != "" {
		f, _ := constant.Float64Val(c.Value)
		if fs == "F32" {
			g, _ := constant.Float32Val(c.Value)
			return Value{typ: T, c: []*Term{fconst32(g)}}
		}
		return Value{typ: T, c: []*Term{fconst64(f)}}
	}
	if _, _, ok := intInfo(T); ok {
		b := new(big.Int)
		b.SetString(constant.ToInt(c.Value).ExactString(), 10)
		return Value{typ: T, c: []*Term{mkBig(b)}}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Value{typ: T, c: []*Term{mkBool(constant.BoolVal(c.Value))}}
	case constant.String:
		return Value{typ: T, c: []*Term{strConst(constant.StringVal(c.Value))}}
	case constant.Complex, constant.Float, constant.Int:
		if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return Value{typ: T, c: []*Term{fconst64(re), fconst64(im)}}
		}
	}
	unsup("constant %s of type %s", c, T)
	return Value{}
}

func constToRat(v constant.Value) *big.Rat {
	if v == nil {
		return new(big.Rat)
	}
	f := constant.ToFloat(v)
	n, d := constant.Num(f), constant.Denom(f)
	bn, bd := new(big.Int), new(big.Int)
	bn.SetString(n.ExactString(), 10)
	bd.SetString(d.ExactString(), 10)
	return new(big.Rat).SetFrac(bn, bd)
}

var strConsts map[*Term]string

func strConst(s string) *Term {
	t := namedSym("str@"+fmt.Sprintf("%x", s), "Str")
	if strConsts == nil {
		strConsts = map[*Term]string{}
	}
	strConsts[t] = s
	return t
}

func strLen(t *Term) *Term {
	if s, ok := strConsts[t]; ok {
		return mkInt(int64(len(s)))
	}
	r := mkUF("strlen", "Int", t)
	setRange(r, new(big.Int), maxLen)
	return r
}

func (x *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, inc map[*ssa.BasicBlock][]edge, inOrder map[*ssa.BasicBlock]bool, dryHeader *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		if st.pc == tFalse {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.val(fr, in.Cond).c[0]
			x.pushEdge(fr, b, b.Succs[0], st.with(c), inc, inOrder, dryHeader)
			x.pushEdge(fr, b, b.Succs[1], st.with(tNot(c)), inc, inOrder, dryHeader)
			return
		case *ssa.Jump:
			x.pushEdge(fr, b, b.Succs[0], st, inc, inOrder, dryHeader)
			return
		case *ssa.Return:
			var vs []Value
			for _, r := range in.Results {
				vs = append(vs, x.val(fr, r))
			}
			fr.rets = append(fr.rets, retEdge{st.clone(), vs})
			return
		case *ssa.Panic:
			x.obligation("safety", x.safeName(fr, "no explicit panic"), fr, st, tFalse)
			return
		default:
			x.execInstr(fr, b, in, st)
		}
	}
}

func (x *Exec) safeName(fr *Frame, what string) string {
	return x.p.fnKey(fr.fn) + ": " + what
}

// ---------- loops ----------

func sortedPhis(li *loopInfo) []*ssa.Phi { return li.phis }

func (x *Exec) freshLike(st *State, v Value, hint string) Value {
	r := Value{typ: v.typ, region: v.region}
	if v.cell != nil {
		return v
	}
	if v.iter != nil {
		return v
	}
	if v.isTup {
		unsup("loop-carried tuple")
	}
	if len(v.fns) > 0 {
		unsup("loop-carried function value")
	}
	cs := comps(v.typ)
	for i, c := range cs {
		_ = i
		r.c = append(r.c, mkSym(hint+c.name, c.sort))
	}
	x.wellFormed(st, r, v.typ)
	return r
}

func (x *Exec) enterLoop(fr *Frame, li *loopInfo, st *State, order []*ssa.BasicBlock) *State {
	entryPhis := map[*ssa.Phi]Value{}
	for _, p := range li.phis {
		entryPhis[p] = fr.vals[p]
	}
	var body []*ssa.BasicBlock
	for _, b := range order {
		if li.blocks[b] {
			body = append(body, b)
		}
	}
	// 1. find what the loop modifies (dry runs until stable)
	mods := map[string]*recEntryMod{}
	cellMods := map[*Cell]bool{}
	var dry *dryInfo
	epoch := tt.n
	for round := 0; ; round++ {
		if round > 6 {
			unsup("loop modification analysis did not stabilise in %s", fr.fn)
		}
		mark := len(x.facts)
		x.dry++
		rec := &Recorder{cells: map[*Cell]bool{}}
		x.recs = append(x.recs, rec)
		ds := x.havoc(fr, li, st, mods, cellMods, entryPhis)
		nrets, ndefs := len(fr.rets), len(fr.defers)
		savedIt := li.it
		li.it = mkSym("it", "Int")
		li.dryBack = nil
		dryIt := li.it
		headVals := map[*ssa.Phi]Value{}
		for _, p := range li.phis {
			headVals[p] = fr.vals[p]
		}
		inc := map[*ssa.BasicBlock][]edge{li.header: {{nil, ds}}}
		var nback, nexit int
		if u := fr.unrolling; u != nil {
			nback, nexit = len(u.back), len(u.exits)
		}
		x.runBlocks(fr, body, inc, li.header)
		if u := fr.unrolling; u != nil { // edges taken by a trial run do not count
			u.back, u.exits = u.back[:nback], u.exits[:nexit]
		}
		li.it = savedIt
		if len(fr.defers) != ndefs {
			unsup("defer inside loop in %s", fr.fn)
		}
		fr.rets = fr.rets[:nrets]
		x.recs = x.recs[:len(x.recs)-1]
		x.dry--
		defFacts := append([]*Term{}, x.facts[mark:]...)
		back := li.dryBack
		li.dryBack = nil
		x.facts = x.facts[:mark]
		changed := false
		for _, e := range rec.entries {
			m := mods[e.name]
			if m == nil {
				m = &recEntryMod{srt: e.srt}
				mods[e.name] = m
				changed = true
			}
			if m.full {
				continue
			}
			if e.blk != nil && e.blk.blkKind == 1 && e.blk.epoch > epoch {
				continue
			}
			if e.blk != nil && rootAlloc(e.blk, epoch) {
				continue
			}
			if e.blk == nil || e.blk.bound || maxEpoch(e.blk) > epoch {
				m.full = true
				changed = true
				continue
			}
			off := e.off
			if off != nil && (off.bound || maxEpoch(off) > epoch) {
				off = nil
			}
			// merge
			found := false
			for i := range m.tgts {
				if m.tgts[i].blk == e.blk {
					found = true
					if m.tgts[i].off != nil {
						if off == nil {
							m.tgts[i].off = nil
							m.tgts[i].offs = nil
							changed = true
						} else {
							has := false
							for _, o := range m.tgts[i].offs {
								if o == off {
									has = true
								}
							}
							if !has {
								m.tgts[i].offs = append(m.tgts[i].offs, off)
								changed = true
							}
						}
					}
				}
			}
			if !found {
				t := modTgt{blk: e.blk, off: off}
				if off != nil {
					t.offs = []*Term{off}
				}
				m.tgts = append(m.tgts, t)
				changed = true
			}
		}
		for c := range rec.cells {
			if _, pre := st.cells[c]; pre && !cellMods[c] {
				cellMods[c] = true
				changed = true
			}
		}
		for _, p := range li.phis {
			fr.vals[p] = entryPhis[p]
		}
		if !changed {
			if len(back) > 0 {
				dry = &dryInfo{head: ds, phis: headVals, it: dryIt, epoch: epoch, defs: map[*Term]*Term{}}
				m2 := len(x.facts)
				dry.back, _ = x.mergeStates(back)
				for _, f := range append(append([]*Term{}, defFacts...), x.facts[m2:]...) {
					if f.op == "=" && len(f.args) == 2 && f.sort == "Bool" {
						for i := range f.args {
							if f.args[i].isSym && f.args[i].epoch > epoch && f.args[i].sort == "Bool" {
								dry.defs[f.args[i]] = f.args[1-i]
							}
						}
					}
				}
				x.facts = x.facts[:m2]
				// definitions may mention one another
				for i := 0; i < 6; i++ {
					ch := false
					for k, v := range dry.defs {
						n := subst(v, dry.defs, map[*Term]*Term{})
						if n != v {
							dry.defs[k] = n
							ch = true
						}
					}
					if !ch {
						break
					}
				}
			}
			break
		}
	}
	// 2. candidates
	li.it = nil
	its := x.itsAt(fr, li.header)
	li.cands = x.loopCandidates(fr, li, st, entryPhis, its)
	li.cands = append(li.cands, x.autoCandidates(fr, li, st, entryPhis, mods, dry, fmt.Sprintf("%s@%d", fr.path, li.ord))...)
	// 3. entry obligations
	for _, c := range li.cands {
		if x.disabled[c.key] {
			continue
		}
		t := x.evalCand(c, st, entryPhis, tZero)
		if t == nil {
			continue
		}
		x.candOblig("inv-entry", c, fr, st, t)
	}
	// 4. havoc and assume
	hs := x.havoc(fr, li, st, mods, cellMods, entryPhis)
	li.it = mkSym("it", "Int")
	setRange(li.it, new(big.Int), new(big.Int).Lsh(big.NewInt(1), 62))
	head := map[*ssa.Phi]Value{}
	for _, p := range li.phis {
		head[p] = fr.vals[p]
	}
	for _, c := range li.cands {
		if x.disabled[c.key] {
			continue
		}
		t := x.evalCand(c, hs, head, li.it)
		if t != nil {
			x.fact(hs, t)
		}
	}
	for _, p := range li.phis {
		fr.vals[p] = head[p]
	}
	return hs
}

func rootAlloc(b *Term, epoch int) bool {
	for isSub(b) {
		b = b.args[0]
	}
	return b.blkKind == 1 && b.epoch > epoch
}

type modTgt struct {
	blk  *Term
	off  *Term
	offs []*Term
}
type recEntryMod struct {
	srt  string
	full bool
	tgts []modTgt
}

// havoc produces the arbitrary loop-head state.
func (x *Exec) havoc(fr *Frame, li *loopInfo, st *State, mods map[string]*recEntryMod, cells map[*Cell]bool, entryPhis map[*ssa.Phi]Value) *State {
	n := st.clone()
	a := mkSym("alloc", "Int")
	x.facts = append(x.facts, tGe(a, st.alloc))
	n.alloc = a
	names := make([]string, 0, len(mods))
	for k := range mods {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		m := mods[k]
		if m.full {
			hv := mkSym("hv@"+k, m.srt)
			old := st.get(k, m.srt)
			for _, b := range x.snaps[k] {
				hv = tStore(hv, b, tSelect(old, b))
			}
			n.heap[k] = hv
			x.record(k, m.srt, nil, nil)
			continue
		}
		h := st.get(k, m.srt)
		_, in := arrParts(m.srt)
		for _, t := range m.tgts {
			if t.off != nil && len(t.offs) > 0 && strings.HasPrefix(in, "(Array") {
				_, vs := arrParts(in)
				inner := tSelect(h, t.blk)
				for _, o := range t.offs {
					inner = tStore(inner, o, mkSym("hv@"+k, vs))
				}
				h = tStore(h, t.blk, inner)
			} else {
				h = tStore(h, t.blk, mkSym("hv@"+k, in))
			}
			x.record(k, m.srt, t.blk, nil)
		}
		n.heap[k] = h
	}
	cl := make([]*Cell, 0)
	for c := range cells {
		cl = append(cl, c)
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
	for _, c := range cl {
		v := st.cells[c]
		if v.typ == nil {
			v = zeroValue(c.typ)
		}
		n.cells[c] = x.freshLike(n, v, "hv@"+c.name)
		for _, r := range x.recs {
			r.cells[c] = true
		}
	}
	for _, p := range li.phis {
		v := entryPhis[p]
		hint := p.Comment
		if hint == "" {
			hint = p.Name()
		}
		if len(v.fns) > 0 {
			// constant function value through the loop
			fr.vals[p] = v
			continue
		}
		fr.vals[p] = x.freshLike(n, v, hint)
	}
	return n
}

func (x *Exec) backEdge(fr *Frame, li *loopInfo, from *ssa.BasicBlock, st *State) {
	if x.dry > 0 {
		return
	}
	next := map[*ssa.Phi]Value{}
	for _, p := range li.phis {
		for k, pr := range li.header.Preds {
			if pr == from {
				next[p] = x.val(fr, p.Edges[k])
				break
			}
		}
	}
	saved := map[*ssa.Phi]Value{}
	for _, p := range li.phis {
		saved[p] = fr.vals[p]
	}
	it1 := tAdd(li.it, tOne)
	for _, c := range li.cands {
		if x.disabled[c.key] {
			continue
		}
		t := x.evalCand(c, st, next, it1)
		if t == nil {
			continue
		}
		x.candOblig("inv-step", c, fr, st, t)
	}
	for _, p := range li.phis {
		fr.vals[p] = saved[p]
	}
}

func (x *Exec) candOblig(kind string, c candidate, fr *Frame, st *State, goal *Term) {
	if x.dry > 0 || x.spec > 0 || st.pc == tFalse {
		return
	}
	x.obs = append(x.obs, &Oblig{name: x.c.name + "/" + kind + " " + c.key, kind: kind, fn: x.p.fnKey(fr.fn), nfacts: len(x.facts), facts: x.facts[:len(x.facts):len(x.facts)], pc: st.pc, goal: goal, cand: c.key})
}

func (x *Exec) evalCand(c candidate, st *State, phis map[*ssa.Phi]Value, it *Term) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if x.trace {
					fmt.Println("cand", c.key, "dropped:", u.msg)
				}
				x.disabled[c.key] = true
				t = nil
				return
			}
			panic(r)
		}
	}()
	x.spec++
	defer func() { x.spec-- }()
	return c.eval(st.clone(), phis, it)
}

func (x *Exec) loopCandidates(fr *Frame, li *loopInfo, entry *State, entryPhis map[*ssa.Phi]Value, its []*Term) []candidate {
	var cs []candidate
	base := fmt.Sprintf("%s@%d", fr.path, li.ord)
	// (a) linear induction variables
	lps := linPhis(li, entryPhis)
	for _, p := range li.phis {
		p := p
		lp, ok := lps[p]
		if !ok {
			continue
		}
		init, stp := lp.init, mkBig(lp.step)
		cs = append(cs, candidate{key: base + "/lin:" + p.Name(), name: "induction variable", eval: func(st *State, ph map[*ssa.Phi]Value, it *Term) *Term {
			return tEq(ph[p].c[0], tAdd(init, tMul(stp, it)))
		}})
	}
	// (b) bound from the header comparison
	if ifi, ok := li.header.Instrs[len(li.header.Instrs)-1].(*ssa.If); ok {
		if bo, ok := ifi.Cond.(*ssa.BinOp); ok {
			if _, _, isInt := intInfo(bo.X.Type()); isInt {
				stays := li.blocks[li.header.Succs[0]]
				op := bo.Op
				if !stays {
					switch op {
					case token.LSS:
						op = token.GEQ
					case token.LEQ:
						op = token.GTR
					case token.GTR:
						op = token.LEQ
					case token.GEQ:
						op = token.LSS
					case token.EQL:
						op = token.NEQ
					case token.NEQ:
						op = token.EQL
					}
				}
				mk := func(name string, f func(a, b *Term) *Term) {
					cs = append(cs, candidate{key: base + "/bound:" + name, name: "loop bound", eval: func(st *State, ph map[*ssa.Phi]Value, it *Term) *Term {
						a, b := x.headerCond(fr, li, st, ph, bo)
						return tOr(tEq(it, tZero), f(a, b))
					}})
				}
				switch op {
				case token.LSS:
					mk("lt", func(a, b *Term) *Term { return tLe(a, b) })
				case token.LEQ:
					mk("le", func(a, b *Term) *Term { return tLe(a, tAdd(b, tOne)) })
				case token.GTR:
					mk("gt", func(a, b *Term) *Term { return tGe(a, b) })
				case token.GEQ:
					mk("ge", func(a, b *Term) *Term { return tGe(tAdd(a, tOne), b) })
				case token.NEQ:
					mk("ne1", func(a, b *Term) *Term { return tLe(a, b) })
					mk("ne2", func(a, b *Term) *Term { return tGe(a, b) })
				}
			}
		}
	}
	// (c) non-negativity of integer phis
	for _, p := range li.phis {
		p := p
		if _, s, ok := intInfo(p.Type()); ok && s {
			cs = append(cs, candidate{key: base + "/nn:" + p.Name(), name: "non-negative", eval: func(st *State, ph map[*ssa.Phi]Value, it *Term) *Term {
				return tGe(ph[p].c[0], tZero)
			}})
		}
	}
	// (d) contract templates
	owner := fr
	var tpls []*Template
	for f := fr; f != nil; f = f.parent {
		if ts := x.p.templates(f.fn, x.c); len(ts) > 0 {
			tpls = ts
			owner = f
			break
		}
	}
	for _, tp := range tpls {
		cs = append(cs, x.instTemplate(tp, fr, owner, li, base, its)...)
	}
	return cs
}

// headerCond evaluates the operands of the header comparison for given phi values.
func (x *Exec) headerCond(fr *Frame, li *loopInfo, st *State, ph map[*ssa.Phi]Value, bo *ssa.BinOp) (*Term, *Term) {
	saved := map[ssa.Value]Value{}
	for k, v := range fr.vals {
		saved[k] = v
	}
	x.spec++
	x.dry++
	mark := len(x.facts)
	defer func() {
		x.spec--
		x.dry--
		x.facts = x.facts[:mark]
		fr.vals = saved
	}()
	fr.vals = map[ssa.Value]Value{}
	for k, v := range saved {
		fr.vals[k] = v
	}
	for p, v := range ph {
		fr.vals[p] = v
	}
	s := st.clone()
	for _, in := range li.header.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
			continue
		}
		if v, ok := in.(ssa.Value); ok && v == ssa.Value(bo) {
			break
		}
		x.execInstr(fr, li.header, in, s)
	}
	return x.val(fr, bo.X).c[0], x.val(fr, bo.Y).c[0]
}

func (x *Exec) instTemplate(tp *Template, fr, owner *Frame, li *loopInfo, base string, its []*Term) []candidate {
	// bind parameters
	type slot struct {
		kind string
		v    Value
		typ  types.Type
	}
	fnp := tp.fn.Params
	var slots []slot
	pi := 0
	var phiSlots []int
	for i, p := range fnp {
		n := p.Name()
		switch {
		case n == "it":
			slots = append(slots, slot{kind: "it"})
		case n == "visited":
			c := visitedCell(fr, li)
			if c == nil {
				return nil
			}
			slots = append(slots, slot{kind: "vis", v: Value{typ: p.Type(), cell: c}})
		case n == "outer":
			if len(its) == 0 {
				return nil
			}
			slots = append(slots, slot{kind: "v", v: Value{typ: p.Type(), c: []*Term{its[len(its)-1]}}})
		case strings.HasPrefix(n, "phi"):
			slots = append(slots, slot{kind: "phi", typ: p.Type()})
			phiSlots = append(phiSlots, i)
		case strings.HasPrefix(n, "loc"):
			slots = append(slots, slot{kind: "loc", typ: p.Type()})
			phiSlots = append(phiSlots, i)
		default:
			if pi >= len(owner.args) || !types.Identical(owner.args[pi].typ, p.Type()) {
				// a template over other parameters does not apply here
				if pi < len(owner.args) && types.Identical(owner.args[pi].typ.Underlying(), p.Type().Underlying()) {
					slots = append(slots, slot{kind: "v", v: owner.args[pi]})
					pi++
					continue
				}
				return nil
			}
			slots = append(slots, slot{kind: "v", v: owner.args[pi]})
			pi++
		}
	}
	if tp.nested && len(its) == 0 || tp.top && len(its) > 0 {
		return nil
	}
	// assignments of phi slots
	assigns := [][]bindVal{{}}
	for _, si := range phiSlots {
		var next [][]bindVal
		for _, a := range assigns {
			if slots[si].kind == "loc" {
				for _, lv := range localsAt(fr, owner, li, slots[si].typ) {
					next = append(next, append(append([]bindVal{}, a...), lv))
				}
				continue
			}
			for _, p := range li.phis {
				if !types.Identical(p.Type(), slots[si].typ) {
					continue
				}
				next = append(next, append(append([]bindVal{}, a...), bindVal{phi: p, name: p.Name()}))
			}
		}
		assigns = next
		if len(assigns) > 64 {
			assigns = assigns[:64]
		}
	}
	var cs []candidate
	for _, as := range assigns {
		as := as
		key := base + "/tpl:" + tp.name
		for _, p := range as {
			key += ":" + p.name
		}
		cs = append(cs, candidate{key: key, name: tp.name, eval: func(st *State, ph map[*ssa.Phi]Value, it *Term) *Term {
			args := make([]Value, len(slots))
			k := 0
			for i, s := range slots {
				switch s.kind {
				case "it":
					args[i] = Value{typ: fnp[i].Type(), c: []*Term{it}}
				case "phi":
					args[i] = ph[as[k].phi]
					k++
				case "loc":
					args[i] = as[k].v
					k++
				case "vis":
					set := st.cells[s.v.cell].c[0]
					args[i] = Value{typ: s.v.typ, pred: func(t *Term) *Term { return tSelect(set, t) }}
				default:
					args[i] = s.v
				}
			}
			x.preStack = append(x.preStack, owner.entry)
			defer func() { x.preStack = x.preStack[:len(x.preStack)-1] }()
			t, _ := x.evalSpec(tp.fn, args, nil, st)
			return t
		}})
	}
	return cs
}

// visitedCell is the ghost cell of the keys a loop over a map has been through.
func visitedCell(fr *Frame, li *loopInfo) *Cell {
	for _, in := range li.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if v, ok := fr.vals[n.Iter]; ok && v.iter != nil {
				return v.iter.cell
			}
		}
	}
	return nil
}

type bindVal struct {
	phi  *ssa.Phi
	v    Value
	name string
}

// localsAt lists the values of type T computed before the loop in its frame
// or, for a loop of a callee, in the frames up to the owner of the template.
func localsAt(fr, owner *Frame, li *loopInfo, T types.Type) []bindVal {
	var out []bindVal
	for f := fr; f != nil; f = f.parent {
		for _, b := range f.fn.Blocks {
			if f == fr && (li.blocks[b] || !b.Dominates(li.header)) {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Type() == nil || !types.Identical(v.Type(), T) {
					continue
				}
				val, ok := f.vals[v]
				if !ok || val.cell != nil || len(val.fns) > 0 || len(val.c) == 0 {
					continue
				}
				dup := false
				for _, o := range out {
					same := len(o.v.c) == len(val.c)
					for i := range o.v.c {
						same = same && o.v.c[i] == val.c[i]
					}
					dup = dup || same
				}
				if !dup {
					out = append(out, bindVal{v: val, name: f.fn.Name() + "." + v.Name()})
				}
			}
		}
		if f == owner || len(out) > 16 {
			break
		}
	}
	return out
}

// evalSpec evaluates a boolean Go function as a specification term.
func (x *Exec) evalSpec(fn *ssa.Function, args, binds []Value, st *State) (*Term, *State) {
	x.spec++
	defer func() { x.spec-- }()
	vs, out := x.runFunction(fn, args, binds, st, nil, nil)
	if out.pc == tFalse {
		return tFalse, out
	}
	return vs[0].c[0], out
}
