package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type vcText struct {
	text string
}

// buildVC renders the obligation as an SMT-LIB script. unsat = discharged.
const (
	vcFull   = iota
	vcGround // quantified assumptions abstracted to propositional atoms
	vcNear   // quantified assumptions over memory the goal does not mention dropped
	vcBare   // no library axioms inside quantified assumptions
	vcInst   // quantified assumptions replaced by their instances at the indices of the goal
)

func buildVC(facts []*Term, pc, goal *Term, level int, extra []*Term, wantModel []*Term) string {
	return buildVCMode(facts, pc, goal, level, extra, wantModel, vcFull)
}

// abstractQuants replaces quantified subterms for which drop holds by unconstrained
// propositional atoms, which weakens the assumptions.
func abstractQuants(as []*Term, drop func(q *Term) bool) ([]*Term, bool) {
	memo := map[*Term]*Term{}
	any := false
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if t.sort != "Bool" || len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.op {
		case "forall", "exists":
			if !t.bound && drop(t) {
				any = true
				r = mkSym("quant", "Bool")
			}
		default:
			changed := false
			args := make([]*Term, len(t.args))
			for i, a := range t.args {
				args[i] = f(a)
				changed = changed || args[i] != a
			}
			if changed {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, 0, len(as))
	for _, a := range as {
		b := f(a)
		if b != tTrue {
			out = append(out, b)
		}
	}
	return out, any
}

// memSyms collects the array-sorted constants of a term.
func memSyms(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if len(t.args) == 0 && strings.HasPrefix(t.sort, "(Array") {
		out[t] = true
	}
	for _, a := range t.args {
		memSyms(a, out, seen)
	}
}

func buildVCMode(facts []*Term, pc, goal *Term, level int, extra []*Term, wantModel []*Term, mode int) string {
	roots := append([]*Term{}, facts...)
	roots = append(roots, extra...)
	roots = append(roots, pc, tNot(goal))
	b := &vcBuilder{level: level, memo: map[polKey]*Term{}, bare: mode == vcBare || mode == vcInst}
	b.collectConsts(roots)
	var as []*Term
	for _, r := range roots {
		as = append(as, b.polar(r, true))
	}
	if mode == vcInst {
		any := false
		for _, a := range as {
			any = any || hasQuant(a)
		}
		if !any {
			return ""
		}
		as = instantiate(as, as[len(as)-1])
	}
	// ground axiom closure
	seen := map[*Term]bool{}
	var queue []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			// only the ground part inside
			for _, g := range groundSubs(t.args[1]) {
				visit(g)
			}
			return
		}
		if !t.bound {
			queue = append(queue, t)
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, a := range as {
		visit(a)
	}
	for i := 0; i < len(queue); i++ {
		for _, ax := range b.axioms(queue[i]) {
			ax = b.polar(ax, true)
			as = append(as, ax)
			visit(ax)
		}
		if i > 60000 {
			break
		}
	}
	for _, ax := range modPairs(queue) {
		as = append(as, b.polar(ax, true))
	}
	if level >= 2 {
		for _, ax := range libPairs(queue) {
			ax = b.polar(ax, true)
			as = append(as, ax)
			n := len(queue)
			visit(ax)
			for ; n < len(queue); n++ {
				for _, ax := range b.axioms(queue[n]) {
					ax = b.polar(ax, true)
					as = append(as, ax)
					visit(ax)
				}
			}
		}
		for _, ax := range pairAxioms(queue) {
			as = append(as, b.polar(ax, true))
		}
	}
	if mode == vcGround || mode == vcNear {
		near := map[*Term]bool{}
		memSyms(goal, near, map[*Term]bool{})
		var any bool
		as, any = abstractQuants(as, func(q *Term) bool {
			if mode == vcGround {
				return true
			}
			m := map[*Term]bool{}
			memSyms(q, m, map[*Term]bool{})
			for k := range m {
				if !near[k] {
					return true
				}
			}
			return false
		})
		if !any {
			return ""
		}
	}
	return printScript(as, wantModel)
}

// indexTerms collects the ground integer terms used as array indices.
func indexTerms(t *Term, out *[]*Term, have map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "select" && len(t.args) == 2 && t.args[1].sort == "Int" && !t.args[1].bound && !have[t.args[1]] {
		have[t.args[1]] = true
		*out = append(*out, t.args[1])
	}
	for _, a := range t.args {
		indexTerms(a, out, have, seen)
	}
}

// instantiate weakens every universally quantified assumption to its instances
// at the index terms of the goal, in two rounds.
func instantiate(as []*Term, goal *Term) []*Term {
	var idx []*Term
	have := map[*Term]bool{}
	indexTerms(goal, &idx, have, map[*Term]bool{})
	consts := func(t *Term, seen map[*Term]bool) {}
	consts = func(t *Term, seen map[*Term]bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		if len(t.args) == 0 && t.sort == "Int" && strings.HasPrefix(t.op, "sk!") && !have[t] {
			have[t] = true
			idx = append(idx, t)
		}
		for _, a := range t.args {
			consts(a, seen)
		}
	}
	consts(goal, map[*Term]bool{})
	if len(idx) > 16 {
		idx = idx[:16]
	}
	round := func() []*Term {
		memo := map[*Term]*Term{}
		var f func(t *Term, pos bool) *Term
		f = func(t *Term, pos bool) *Term {
			if t.sort != "Bool" || len(t.args) == 0 || !hasQuant(t) {
				return t
			}
			if pos {
				if r, ok := memo[t]; ok {
					return r
				}
			}
			r := t
			switch t.op {
			case "and", "or":
				xs := make([]*Term, len(t.args))
				for i, a := range t.args {
					xs[i] = f(a, pos)
				}
				if t.op == "and" {
					r = tAnd(xs...)
				} else {
					r = tOr(xs...)
				}
			case "not":
				r = tNot(f(t.args[0], !pos))
			case "=>":
				r = tImp(f(t.args[0], !pos), f(t.args[1], pos))
			case "ite":
				r = tIte(t.args[0], f(t.args[1], pos), f(t.args[2], pos))
				if hasQuant(t.args[0]) {
					r = mkSym("quant", "Bool")
				}
			case "forall", "exists":
				if (t.op == "forall") == pos && t.args[0].sort == "Int" {
					var xs []*Term
					for _, ix := range idx {
						xs = append(xs, f(subst(t.args[1], map[*Term]*Term{t.args[0]: ix}, map[*Term]*Term{}), pos))
					}
					if pos {
						r = tAnd(xs...)
					} else {
						r = tOr(xs...)
					}
				} else {
					r = mkSym("quant", "Bool")
				}
			default:
				r = mkSym("quant", "Bool")
			}
			if pos {
				memo[t] = r
			}
			return r
		}
		out := make([]*Term, 0, len(as))
		for _, a := range as {
			out = append(out, f(a, true))
		}
		return out
	}
	out := round()
	n := len(idx)
	seen := map[*Term]bool{}
	for _, a := range out {
		indexTerms(a, &idx, have, seen)
	}
	if len(idx) > n && len(idx) <= 24 {
		return round()
	}
	return out
}

func groundSubs(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !t.bound {
			out = append(out, t)
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return out
}

type polKey struct {
	t   *Term
	pos bool
}

type vcBuilder struct {
	bare   bool
	level  int
	consts []*Term
	memo   map[polKey]*Term
}

func (b *vcBuilder) collectConsts(roots []*Term) {
	set := map[string]*Term{}
	add := func(r *big.Rat) {
		t := mkRat(r)
		set[t.op] = t
	}
	add(new(big.Rat))
	add(big.NewRat(1, 1))
	add(big.NewRat(-1, 1))
	if b.level >= 1 {
		seen := map[*Term]bool{}
		var f func(t *Term)
		f = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if v, ok := isFC(t); ok && v == v && v < 1e300 && v > -1e300 {
				r := new(big.Rat)
				r.SetFloat64(v)
				if len(set) < 24 {
					add(r)
					add(new(big.Rat).Neg(r))
				}
			}
			if t.r != nil && t.r.Denom().BitLen() < 60 && t.r.Num().BitLen() < 200 {
				if f, exact := t.r.Float64(); exact && len(set) < 24 {
					_ = f
					add(t.r)
				}
			}
			for _, a := range t.args {
				f(a)
			}
		}
		for _, r := range roots {
			f(r)
		}
	}
	keys := make([]string, 0)
	for k := range set {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		b.consts = append(b.consts, set[k])
	}
}

func (b *vcBuilder) axioms(t *Term) []*Term {
	var out []*Term
	out = append(out, termFacts[t]...)
	if r, ok := ranges[t]; ok && t.i == nil {
		out = append(out, mkRaw("<=", "Bool", mkBig(r[0]), t), mkRaw("<=", "Bool", t, mkBig(r[1])))
	}
	out = append(out, floatAxioms(t, b.level, b.consts)...)
	out = append(out, libAxioms(t, b.level)...)
	out = append(out, divAxioms(t)...)
	return out
}

// divAxioms states the linear facts about division by a variable; the defining
// product is left to the nl mode.
func divAxioms(t *Term) []*Term {
	if t.op != "imod" && t.op != "idiv" {
		return nil
	}
	x, n := t.args[0], t.args[1]
	pos := tLt(tZero, n)
	small := tAnd(pos, tLe(tZero, x), tLt(x, n))
	if t.op == "idiv" {
		return []*Term{
			tImp(small, tEq(t, tZero)),
			tImp(tAnd(pos, tLe(tZero, x)), tAnd(tLe(tZero, t), tLe(t, x))),
			tImp(tAnd(pos, tLe(n, x)), tLe(mkInt(1), t)),
		}
	}
	return []*Term{
		tImp(pos, tAnd(tLe(tZero, t), tLt(t, n))),
		tImp(small, tEq(t, x)),
		tImp(tAnd(pos, tLe(n, x), tLt(x, tAdd(n, n))), tEq(t, tSub(x, n))),
		tImp(tAnd(pos, tLe(tSub(tZero, n), x), tLt(x, tZero)), tEq(t, tAdd(x, n))),
		tImp(tAnd(pos, tLe(tZero, x)), tLe(t, x)),
	}
}

// modPairs relates the remainders of numbers less than one period apart.
func modPairs(ts []*Term) []*Term {
	var ms []*Term
	for _, t := range ts {
		if t.op == "imod" {
			ms = append(ms, t)
		}
	}
	if len(ms) > 12 {
		ms = ms[:12]
	}
	var out []*Term
	for _, p := range ms {
		for _, q := range ms {
			if p == q || p.args[1] != q.args[1] {
				continue
			}
			n := p.args[1]
			d := tSub(q.args[0], p.args[0])
			g := tAnd(tLt(tZero, n), tLe(tZero, d), tLt(d, n))
			out = append(out, tImp(g, tEq(q, tIte(tLt(tAdd(p, d), n), tAdd(p, d), tSub(tAdd(p, d), n)))))
		}
	}
	return out
}

// polar rewrites quantified subformulas so that the axioms about terms that
// mention the bound variable are available inside the quantifier.
func (b *vcBuilder) polar(t *Term, pos bool) *Term {
	if t.sort != "Bool" || len(t.args) == 0 {
		return t
	}
	k := polKey{t, pos}
	if r, ok := b.memo[k]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = b.polar(a, pos)
		}
		if t.op == "and" {
			r = tAnd(as...)
		} else {
			r = tOr(as...)
		}
	case "not":
		r = tNot(b.polar(t.args[0], !pos))
	case "=>":
		r = tImp(b.polar(t.args[0], !pos), b.polar(t.args[1], pos))
	case "ite":
		if t.sort == "Bool" {
			c := t.args[0]
			r = tAnd(tImp(b.polar(c, !pos), b.polar(t.args[1], pos)), tImp(b.polar(tNot(c), !pos), b.polar(t.args[2], pos)))
			if !hasQuant(c) {
				r = tIte(c, b.polar(t.args[1], pos), b.polar(t.args[2], pos))
			}
		}
	case "=":
		if t.args[0].sort == "Bool" && (hasQuant(t.args[0]) || hasQuant(t.args[1])) {
			x, y := t.args[0], t.args[1]
			r = tAnd(tImp(b.polar(x, !pos), b.polar(y, pos)), tImp(b.polar(y, !pos), b.polar(x, pos)))
		} else {
			r = t
		}
	case "forall", "exists":
		v := t.args[0]
		if (t.op == "forall") != pos && !t.bound {
			// existential strength and closed: a fresh constant stands for the witness,
			// so that the axioms about the instance are ground
			sk := mkSym("sk", v.sort)
			if rg, ok := ranges[v]; ok {
				ranges[sk] = rg
			}
			r = b.polar(subst(t.args[1], map[*Term]*Term{v: sk}, map[*Term]*Term{}), pos)
			break
		}
		body := b.polar(t.args[1], pos)
		var ax []*Term
		if !b.bare {
			ax = b.boundAxioms(body, v)
		}
		if (t.op == "forall") == pos {
			// forall in positive position (or exists in negative): conjunction is the useful side
			if t.op == "forall" {
				body = tAnd(append([]*Term{body}, ax...)...)
			} else {
				body = tImp(tAnd(ax...), body)
			}
		} else {
			if t.op == "forall" {
				body = tImp(tAnd(ax...), body)
			} else {
				body = tAnd(append([]*Term{body}, ax...)...)
			}
		}
		r = mkRaw(t.op, "Bool", v, body)
	default:
		r = t
	}
	b.memo[k] = r
	return r
}

var hqMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if len(t.args) == 0 {
		return false
	}
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	if r, ok := hqMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	hqMemo[t] = r
	return r
}

func (b *vcBuilder) boundAxioms(body, v *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			return
		}
		for _, a := range t.args {
			f(a)
		}
		fb := freeBound(t, nil)
		has := false
		for _, q := range fb {
			if q == v {
				has = true
			}
		}
		if has && t != v {
			for _, ax := range b.axioms(t) {
				out = append(out, ax)
				if len(out) < 400 {
					f(ax)
				}
			}
		}
	}
	f(body)
	return out
}

// ---------- printing ----------

func printScript(as []*Term, wantModel []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	sb.WriteString("(declare-sort F32 0)(declare-sort F64 0)(declare-sort Str 0)\n")
	refs := map[*Term]int{}
	used := map[string]bool{}
	comm := map[string]bool{} // commutative operations below a quantifier
	var count func(t *Term)
	count = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if _, ok := tt.funs[t.op]; ok {
			used[t.op] = true
		}
		if t.bound {
			switch t.op {
			case "fadd32", "fadd64", "fmul32", "fmul64":
				comm[t.op] = true
			}
		}
		for _, a := range t.args {
			count(a)
		}
	}
	for _, a := range as {
		count(a)
	}
	for _, a := range wantModel {
		count(a)
	}
	for _, n := range tt.order {
		if used[n] {
			fmt.Fprintf(&sb, "(declare-fun %s %s)\n", n, tt.funs[n])
		}
	}
	// distinct string constants
	var strs []string
	for t := range strConsts {
		if refs[t] > 0 {
			strs = append(strs, t.op)
		}
	}
	sort.Strings(strs)
	if len(strs) > 1 {
		fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(strs, " "))
	}
	for _, op := range []string{"fadd32", "fadd64", "fmul32", "fmul64"} {
		if comm[op] {
			srt := "F" + op[4:]
			fmt.Fprintf(&sb, "(assert (forall ((?a %s) (?b %s)) (! (= (%s ?a ?b) (%s ?b ?a)) :pattern ((%s ?a ?b)))))\n", srt, srt, op, op, op)
		}
	}
	names := map[*Term]string{}
	nd := 0
	var emit func(t *Term) string
	var str func(t *Term, local map[*Term]string) string
	str = func(t *Term, local map[*Term]string) string {
		if n, ok := names[t]; ok {
			return n
		}
		if local != nil {
			if n, ok := local[t]; ok {
				return n
			}
		}
		if len(t.args) == 0 {
			return t.op
		}
		if t.op == "forall" || t.op == "exists" {
			body := quantBody(t.args[1], str, local)
			return fmt.Sprintf("(%s ((%s %s)) %s)", t.op, t.args[0].op, t.args[0].sort, body)
		}
		if t.op == "constarr" {
			return fmt.Sprintf("((as const %s) %s)", t.sort, str(t.args[0], local))
		}
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(t.op)
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(str(a, local))
		}
		b.WriteByte(')')
		return b.String()
	}
	done := map[*Term]bool{}
	emit = func(t *Term) string {
		// define shared ground subterms bottom-up
		var walk func(t *Term)
		walk = func(t *Term) {
			if done[t] {
				return
			}
			done[t] = true
			for _, a := range t.args {
				walk(a)
			}
			if !t.bound && len(t.args) > 0 && refs[t] > 1 {
				nd++
				n := fmt.Sprintf("$d%d", nd)
				fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort, str(t, nil))
				names[t] = n
			}
		}
		walk(t)
		return str(t, nil)
	}
	for _, a := range as {
		if a == tTrue {
			continue
		}
		s := emit(a)
		fmt.Fprintf(&sb, "(assert %s)\n", s)
	}
	if commMode {
		// terms order the operands of a sum or product by identity, which congruence
		// alone cannot see through
		var cs []*Term
		for t := range done {
			switch t.op {
			case "fadd32", "fadd64", "fmul32", "fmul64":
				if !t.bound {
					cs = append(cs, t)
				}
			}
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
		for _, t := range cs {
			fmt.Fprintf(&sb, "(assert (= %s (%s %s %s)))\n", emit(t), t.op, emit(t.args[1]), emit(t.args[0]))
		}
	}
	var mts []string
	for _, m := range wantModel {
		mts = append(mts, emit(m))
	}
	sb.WriteString("(check-sat)\n")
	if len(mts) > 0 {
		fmt.Fprintf(&sb, "(get-value (%s))\n", strings.Join(mts, " "))
	}
	return sb.String()
}

// commMode adds the commutativity of every float sum and product in a query.
var commMode bool

// quantBody prints a quantifier body with let-sharing of repeated bound subterms.
func quantBody(body *Term, str func(*Term, map[*Term]string) string, outer map[*Term]string) string {
	refs := map[*Term]int{}
	var order []*Term
	var f func(t *Term)
	f = func(t *Term) {
		if !t.bound || len(t.args) == 0 {
			return
		}
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if t.op == "forall" || t.op == "exists" {
			return
		}
		for _, a := range t.args {
			f(a)
		}
		order = append(order, t)
	}
	f(body)
	local := map[*Term]string{}
	for k, v := range outer {
		local[k] = v
	}
	var lets []string
	k := len(outer)
	for _, t := range order {
		if refs[t] > 1 && t != body {
			if _, ok := local[t]; ok {
				continue
			}
			k++
			n := fmt.Sprintf("?l%d_%d", t.id, k)
			s := str(t, local)
			lets = append(lets, fmt.Sprintf("(let ((%s %s)) ", n, s))
			local[t] = n
		}
	}
	return strings.Join(lets, "") + str(body, local) + strings.Repeat(")", len(lets))
}

// ---------- solvers ----------

type solverRes struct {
	status string // unsat, sat, unknown, timeout, error
	solver string
	out    string
	ms     int64
}

var solverBin = map[string][]string{
	"z3-new":  {"z3-new", "-smt2", "-in"},
	"z3-seed": {"z3-new", "-smt2", "-in", "smt.random_seed=7", "smt.arith.solver=2"},
	"z3":      {"z3", "-smt2", "-in"},
	"cvc5":    {"cvc5", "--lang=smt2", "-q"},
	"cvc5-fs": {"cvc5", "--lang=smt2", "-q", "--full-saturate-quant"},
}

func runSolver(ctx context.Context, name, script string, tmo time.Duration) solverRes {
	args := append([]string{}, solverBin[name]...)
	if strings.HasPrefix(name, "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(tmo.Seconds()+0.999)))
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", tmo.Milliseconds()))
	}
	c, cancel := context.WithTimeout(ctx, tmo+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	ms := time.Since(t0).Milliseconds()
	s := out.String()
	st := "unknown"
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			st = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			st = "error"
			break
		}
	}
	return solverRes{st, name, s, ms}
}

var (
	cacheMu   sync.Mutex
	vcCache   = map[string]solverRes{}
	vcBudget  = map[string]time.Duration{}
	solverMS  = map[string]int64{}
	solverCnt = map[string]int{}
	dumpDir   = os.Getenv("GVC_DUMP")
	quickT    = 5 * time.Second * scale
	slowT     = 25 * time.Second * scale
)

func account(r solverRes) {
	cacheMu.Lock()
	solverMS[r.solver] += r.ms
	if r.status == "unsat" {
		solverCnt[r.solver]++
	}
	cacheMu.Unlock()
}

// solve decides a script with the portfolio.
func solve(script string, slow bool, nSat bool) solverRes { return solveT(script, slow, quickT) }

func solveT(script string, slow bool, quickT time.Duration) solverRes {
	cacheMu.Lock()
	budget := quickT
	if slow {
		budget += slowT
	}
	if r, ok := vcCache[script]; ok && (r.status == "unsat" || r.status == "sat" || vcBudget[script] >= budget) {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	r := runSolver(ctx, "z3-new", script, quickT)
	account(r)
	if r.status == "error" {
		fmt.Fprintln(os.Stderr, "solver error:", firstLines(r.out, 3))
		os.WriteFile("/tmp/gvc-error.smt2", []byte(script), 0o644)
	}
	if r.status != "unsat" && r.status != "sat" && slow {
		ch := make(chan solverRes, 4)
		alts := []string{"cvc5", "z3-seed", "z3", "cvc5-fs"}
		for _, a := range alts {
			go func(a string) { ch <- runSolver(ctx, a, script, slowT) }(a)
		}
		best := r
		for range alts {
			q := <-ch
			account(q)
			if q.status == "unsat" || q.status == "sat" {
				best = q
				break
			}
		}
		r = best
	}
	cacheMu.Lock()
	vcCache[script], vcBudget[script] = r, budget
	cacheMu.Unlock()
	return r
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func parallel(n int, workers int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func dump(name, script string) {
	if dumpDir == "" {
		return
	}
	os.MkdirAll(dumpDir, 0o755)
	f := strings.Map(func(r rune) rune {
		if r == '/' || r == ' ' || r == '*' || r == '(' || r == ')' || r == ':' {
			return '_'
		}
		return r
	}, name)
	os.WriteFile(filepath.Join(dumpDir, f+".smt2"), []byte(script), 0o644)
}

var scale = func() time.Duration {
	n, err := strconv.Atoi(os.Getenv("GVC_SCALE"))
	if err != nil || n < 1 {
		return 1
	}
	return time.Duration(n)
}()
