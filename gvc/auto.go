package main

import (
	"fmt"
	"go/token"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Automatic invariant candidates for element-wise loops. The candidates are
// read off one symbolic execution of the body; like every other candidate
// they count only if entry and step obligations are discharged.

type linPhi struct {
	init *Term
	step *big.Int
}

// linPhis finds the integer variables that change by a constant each iteration.
func linPhis(li *loopInfo, entryPhis map[*ssa.Phi]Value) map[*ssa.Phi]linPhi {
	out := map[*ssa.Phi]linPhi{}
	for _, p := range li.phis {
		if _, _, ok := intInfo(p.Type()); !ok {
			continue
		}
		var step *big.Int
		ok := true
		for k, pr := range li.header.Preds {
			if !li.header.Dominates(pr) {
				continue
			}
			e := p.Edges[k]
			bo, isB := e.(*ssa.BinOp)
			if !isB || (bo.Op != token.ADD && bo.Op != token.SUB) {
				ok = false
				break
			}
			var c *ssa.Const
			if bo.X == ssa.Value(p) {
				c, _ = bo.Y.(*ssa.Const)
			} else if bo.Y == ssa.Value(p) && bo.Op == token.ADD {
				c, _ = bo.X.(*ssa.Const)
			}
			if c == nil || c.Value == nil {
				ok = false
				break
			}
			s := new(big.Int)
			s.SetString(c.Value.ExactString(), 10)
			if bo.Op == token.SUB {
				s.Neg(s)
			}
			if step != nil && step.Cmp(s) != 0 {
				ok = false
			}
			step = s
		}
		if !ok || step == nil {
			continue
		}
		out[p] = linPhi{entryPhis[p].c[0], step}
	}
	return out
}

// dryInfo is what one symbolic run of the body left behind.
type dryInfo struct {
	head  *State
	back  *State
	phis  map[*ssa.Phi]Value
	it    *Term
	defs  map[*Term]*Term
	epoch int
}

// writes collects the indices at which inner differs from A.
func writes(inner, A *Term, out map[*Term]bool, seen map[*Term]bool) bool {
	if inner == A {
		return true
	}
	if seen[inner] {
		return true
	}
	seen[inner] = true
	switch inner.op {
	case "store":
		out[inner.args[1]] = true
		return writes(inner.args[0], A, out, seen)
	case "ite":
		return writes(inner.args[1], A, out, seen) && writes(inner.args[2], A, out, seen)
	}
	return false
}

func newSyms(t *Term, epoch int, except *Term, memo map[*Term]bool) bool {
	if t == except {
		return false
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t.isSym && !t.bound && t.epoch > epoch
	if !r {
		for _, a := range t.args {
			if newSyms(a, epoch, except, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

func (x *Exec) autoCandidates(fr *Frame, li *loopInfo, entry *State, entryPhis map[*ssa.Phi]Value, mods map[string]*recEntryMod, d *dryInfo, base string) []candidate {
	var cs []candidate
	if d == nil || d.back == nil {
		return nil
	}
	K := mkBound("k", "Int")
	setRange(K, new(big.Int), new(big.Int).Lsh(big.NewInt(1), 62))
	sub := map[*Term]*Term{}
	for p, l := range linPhis(li, entryPhis) {
		if v, ok := d.phis[p]; ok && len(v.c) == 1 {
			sub[v.c[0]] = tAdd(l.init, tMul(mkBig(l.step), K))
		}
	}
	sub[d.it] = K
	names := make([]string, 0, len(mods))
	for k := range mods {
		names = append(names, k)
	}
	sort.Strings(names)
	type tgt struct {
		k    string
		srt  string
		blk  *Term
		A    *Term // at loop head
		pre  *Term // before the loop
		post *Term // after one iteration
	}
	var tgts []tgt
	for _, k := range names {
		m := mods[k]
		_, in := arrParts(m.srt)
		if !strings.HasPrefix(in, "(Array") {
			continue
		}
		if m.full {
			continue
		}
		for _, t := range m.tgts {
			if newSyms(t.blk, d.epoch, nil, map[*Term]bool{}) {
				continue
			}
			g := tgt{k: k, srt: m.srt, blk: t.blk}
			g.A = tSelect(d.head.get(k, m.srt), t.blk)
			g.pre = tSelect(entry.get(k, m.srt), t.blk)
			g.post = tSelect(d.back.get(k, m.srt), t.blk)
			if g.A.isSym {
				sub[g.A] = g.pre
			}
			if t.off == nil {
				tgts = append(tgts, g)
			}
		}
	}
	memo := map[*Term]*Term{}
	for n, g := range tgts {
		g := g
		post := g.post
		if len(d.defs) > 0 {
			post = subst(post, d.defs, map[*Term]*Term{})
		}
		ws := map[*Term]bool{}
		if !writes(post, g.A, ws, map[*Term]bool{}) || len(ws) == 0 || len(ws) > 8 {
			continue
		}
		type wr struct {
			idx *Term // with K
			off *big.Int
			val *Term
		}
		var wrs []wr
		var stride *big.Int
		var lo *Term // lowest index without K
		bad := false
		for w := range ws {
			i := subst(w, sub, memo)
			if newSyms(i, d.epoch, K, map[*Term]bool{}) {
				bad = true
				break
			}
			l := linOf(i)
			c := l.c[K]
			if c == nil || c.Sign() == 0 {
				bad = true
				break
			}
			b := linSub(l, linOf(tMul(mkBig(c), K))).term()
			if b.bound {
				bad = true
				break
			}
			if stride == nil {
				stride = c
				lo = b
			} else if stride.Cmp(c) != 0 {
				bad = true
				break
			}
			df := tSub(b, lo)
			if df.i == nil {
				bad = true
				break
			}
			v := subst(tSelect(post, w), sub, memo)
			if newSyms(v, d.epoch, K, map[*Term]bool{}) {
				v = nil
			}
			wrs = append(wrs, wr{i, df.i, v})
		}
		if bad {
			continue
		}
		sort.Slice(wrs, func(i, j int) bool { return wrs[i].off.Cmp(wrs[j].off) < 0 })
		min, max := wrs[0].off, wrs[len(wrs)-1].off
		lo = tAdd(lo, mkBig(min))
		span := new(big.Int).Sub(max, min) // extra indices beyond the first
		at := func(st *State) *Term { return tSelect(st.get(g.k, g.srt), g.blk) }
		key := fmt.Sprintf("%s/auto%d:%s", base, n, g.k)
		cs = append(cs, candidate{key: key + ":frame", name: "untouched elements", eval: func(st *State, ph map[*ssa.Phi]Value, it *Term) *Term {
			j := mkBound("j", "Int")
			var first, last *Term // touched range [first, last)
			if stride.Sign() > 0 {
				first = lo
				last = tAdd(lo, tMul(mkBig(stride), it))
				if e := new(big.Int).Sub(new(big.Int).Add(span, big.NewInt(1)), stride); e.Sign() > 0 {
					last = tAdd(last, mkBig(e))
				}
			} else {
				last = tAdd(lo, mkBig(new(big.Int).Add(span, big.NewInt(1))))
				first = tAdd(lo, tAdd(tMul(mkBig(stride), it), mkBig(new(big.Int).Neg(stride))))
				if e := new(big.Int).Sub(new(big.Int).Neg(stride), big.NewInt(1)); e.Sign() > 0 {
					first = tAdd(first, mkBig(new(big.Int).Neg(e)))
				}
			}
			inner := at(st)
			if inner == g.pre {
				return tTrue
			}
			return mkForall(j, tOr(tAnd(tLe(first, j), tLt(j, last)), tEq(tSelect(inner, j), tSelect(g.pre, j))))
		}})
		for w, r := range wrs {
			r := r
			if r.val == nil {
				continue
			}
			cs = append(cs, candidate{key: fmt.Sprintf("%s:value%d", key, w), name: "element values", eval: func(st *State, ph map[*ssa.Phi]Value, it *Term) *Term {
				inner := at(st)
				// quantify over the index itself when it moves by one
				if stride.Cmp(big.NewInt(1)) == 0 {
					j := mkBound("j", "Int")
					k := tSub(j, subst(r.idx, map[*Term]*Term{K: tZero}, map[*Term]*Term{}))
					v := subst(r.val, map[*Term]*Term{K: k}, map[*Term]*Term{})
					b := tSub(j, k)
					return mkForall(j, tImp(tAnd(tLe(b, j), tLt(j, tAdd(b, it))), tEq(tSelect(inner, j), v)))
				}
				k := mkBound("k", "Int")
				m := map[*Term]*Term{K: k}
				return mkForall(k, tImp(tAnd(tLe(tZero, k), tLt(k, it)), tEq(tSelect(inner, subst(r.idx, m, map[*Term]*Term{})), subst(r.val, m, map[*Term]*Term{}))))
			}})
		}
	}
	return cs
}
