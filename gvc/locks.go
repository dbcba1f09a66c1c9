package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock discipline. In contracts with the option lock=1 (or lock=2) every
// access of the code under contract to a field declared by
//
//	vc:guard pkg.Type mu field...
//
// generates the obligation that the mutex mu of the same object is held, for
// reading or for writing; contents of guarded maps and slices included. Objects
// allocated by the operation itself are not shared yet. With "atomic" for mu the
// field may only be accessed through sync/atomic. "field[]" is a field that is set
// once, whose content is guarded. With "mu!atomic" the fields
// are atomics whose writes need the mutex. lock=1 also demands that the
// operation takes each mutex once only, so that it is one critical section.

const lockGhost = "ghost@lock"
const lockCount = "ghost@lockcount"

func (x *Exec) lockOp(fr *Frame, st *State, mu Value, op string) {
	x.nilCheck(fr, st, mu, "mutex")
	if x.c.opts["lock"] == "" {
		return
	}
	blk := mu.c[0]
	if x.guardedMu == nil {
		x.guardedMu = map[*Term]bool{}
	}
	x.guardedMu[blk] = true
	h := st.get(lockGhost, arr("Int", "Int"))
	cur := tSelect(h, blk)
	var next *Term
	var need *Term
	var msg string
	switch op {
	case "lock":
		need, next, msg = tEq(cur, tZero), mkInt(-1), "mutex is not already held by this call (no self-deadlock)"
	case "unlock":
		need, next, msg = tEq(cur, mkInt(-1)), tZero, "unlocked mutex is locked for writing"
	case "rlock":
		need, next, msg = tEq(cur, tZero), tOne, "mutex is not already held by this call (no self-deadlock)"
	case "runlock":
		need, next, msg = tEq(cur, tOne), tZero, "unlocked mutex is locked for reading"
	}
	x.obligation("lock", x.safeName(fr, msg), fr, st, need)
	if op == "lock" || op == "rlock" {
		n := st.get(lockCount, arr("Int", "Int"))
		if x.c.opts["lock"] == "1" {
			x.obligation("lock", x.safeName(fr, "the operation is a single critical section"), fr, st, tEq(tSelect(n, blk), tZero))
		}
		st.heap[lockCount] = tStore(n, blk, tOne)
		x.record(lockCount, n.sort, blk, nil)
	}
	st.heap[lockGhost] = tStore(h, blk, next)
	x.record(lockGhost, h.sort, blk, nil)
}

// guardInfo: the mutex that guards something of an object.
type guardInfo struct {
	mu      *Term // nil: atomic access only
	base    *Term // the object
	what    string
	content bool // only its content is guarded, the field itself does not change
}

// guardOf: how the field behind addr is guarded.
func (x *Exec) guardOf(fr *Frame, st *State, fa *ssa.FieldAddr) (guardInfo, string, bool) {
	if x.c.opts["lock"] == "" || x.p.isContractFn(fr.fn) {
		return guardInfo{}, "", false
	}
	S := fa.X.Type().Underlying().(*types.Pointer).Elem()
	key := typeKey(S)
	fname := S.Underlying().(*types.Struct).Field(fa.Field).Name()
	for _, g := range x.p.guards {
		if g.typ != key {
			continue
		}
		for _, f := range g.fields {
			if strings.TrimSuffix(f, "[]") != fname {
				continue
			}
			p := x.val(fr, fa.X)
			if p.cell != nil {
				return guardInfo{}, "", false
			}
			gi := guardInfo{content: f != fname, base: p.c[0], what: key[strings.LastIndex(key, "/")+1:] + "." + fname}
			path := strings.TrimSuffix(g.mu, "!atomic")
			if path == "atomic" {
				return gi, "atomic", true
			}
			q, T := p, S
			for _, n := range strings.Split(path, ".") {
				if pt, ok := T.Underlying().(*types.Pointer); ok {
					q = x.load(fr, st, q, T)
					T = pt.Elem()
				}
				s := T.Underlying().(*types.Struct)
				found := false
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == n {
						q = x.fieldPtr(q, T, i)
						T = s.Field(i).Type()
						found = true
						break
					}
				}
				if !found {
					unsup("vc:guard: no field %s in %s", n, T)
				}
			}
			gi.mu = q.c[0]
			mode := "plain"
			if strings.HasSuffix(g.mu, "!atomic") {
				mode = "atomics"
			}
			return gi, mode, true
		}
	}
	return guardInfo{}, "", false
}

func (x *Exec) guardNeed(fr *Frame, st *State, gi guardInfo, write bool) {
	fresh := tGe(gi.base, x.alloc0)
	var held *Term
	msg := gi.what + " is read only with its lock held"
	if gi.mu == nil {
		held, msg = tFalse, gi.what+" is accessed through sync/atomic only"
	} else {
		cur := tSelect(st.get(lockGhost, arr("Int", "Int")), gi.mu)
		if write {
			held, msg = tEq(cur, mkInt(-1)), gi.what+" is written only with its lock held for writing"
		} else {
			held = tNot(tEq(cur, tZero))
		}
	}
	x.obligation("lock", x.safeName(fr, msg), fr, st, tOr(fresh, held))
}

// guardField is called when the address of a field is taken.
func (x *Exec) guardField(fr *Frame, st *State, fa *ssa.FieldAddr, p Value) {
	gi, mode, ok := x.guardOf(fr, st, fa)
	if !ok || mode != "atomics" || len(p.c) == 0 {
		return
	}
	if x.guardAtomic == nil {
		x.guardAtomic = map[*Term]guardInfo{}
	}
	x.guardAtomic[p.c[0]] = gi
}

// guardCheck is called for every load and store through a pointer.
func (x *Exec) guardCheck(fr *Frame, st *State, addr ssa.Value, write bool) {
	if x.c.opts["lock"] == "" {
		return
	}
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if gi, mode, ok := x.guardOf(fr, st, a); ok && mode != "atomics" && (write || !gi.content) {
			x.guardNeed(fr, st, gi, write)
		}
	case *ssa.IndexAddr:
		if _, ok := a.X.Type().Underlying().(*types.Slice); ok {
			x.guardMap(fr, st, x.val(fr, a.X), write)
		}
	}
}

// guardLoaded remembers that a map or slice came out of a guarded field.
func (x *Exec) guardLoaded(fr *Frame, st *State, addr ssa.Value, v Value) {
	if x.c.opts["lock"] == "" {
		return
	}
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	switch v.typ.Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		return
	}
	if gi, mode, ok := x.guardOf(fr, st, fa); ok && mode == "plain" && v.c[0].op != "int" {
		if x.guardRef == nil {
			x.guardRef = map[*Term]guardInfo{}
		}
		gi.what = "content of " + gi.what
		x.guardRef[v.c[0]] = gi
	}
}

// guardMap is called for accesses to the content of maps and slices.
func (x *Exec) guardMap(fr *Frame, st *State, m Value, write bool) {
	if x.c.opts["lock"] == "" || x.p.isContractFn(fr.fn) || len(m.c) == 0 {
		return
	}
	if gi, ok := x.guardRef[m.c[0]]; ok {
		x.guardNeed(fr, st, gi, write)
	}
}

// guardAtomicWrite is called for writing operations of atomics.
func (x *Exec) guardAtomicWrite(fr *Frame, st *State, p Value) {
	if x.c.opts["lock"] == "" || len(p.c) == 0 {
		return
	}
	if gi, ok := x.guardAtomic[p.c[0]]; ok {
		x.guardNeed(fr, st, gi, true)
	}
}

// lockEnd: every mutex is free when the operation ends.
func (x *Exec) lockEnd(st *State) {
	if x.c.opts["lock"] == "" {
		return
	}
	x.ensN++
	h := st.get(lockGhost, arr("Int", "Int"))
	g := tTrue
	for blk := range x.guardedMu {
		g = tAnd(g, tEq(tSelect(h, blk), tZero))
	}
	x.obligation("lock", "every lock is released at the end", nil, st, g)
}

func (x *Exec) abstractMethod(fr *Frame, st *State, key string, recv Value, m interface{ Name() string }, args []Value) ([]Value, bool) {
	return nil, false
}
