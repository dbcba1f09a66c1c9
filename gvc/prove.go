package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ObResult struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Fn     string `json:"function"`
	Status string `json:"status"` // discharged, failed
	Solver string `json:"solver"`
	Ms     int64  `json:"ms"`
	Reason string `json:"reason,omitempty"`
	Output string `json:"output,omitempty"`
}

type CtrResult struct {
	Contract    string           `json:"contract"`
	Unsupported string           `json:"unsupported,omitempty"`
	Obs         []ObResult       `json:"obligations"`
	Functions   []string         `json:"functions"`
	Assumes     []string         `json:"assumptions"`
	Used        []string         `json:"trusted"`
	Candidates  int              `json:"candidates"`
	Dropped     int              `json:"candidates_dropped_unanswered"` // given up without a counterexample
	Invariants  []string         `json:"invariants"`
	Loops       int              `json:"loops"`
	SolverMS    map[string]int64 `json:"solver_ms"`
	SolverCnt   map[string]int   `json:"solver_cnt"`
	WallMS      int64            `json:"wall_ms"`
	Ints        []string         `json:"ints,omitempty"`
	Floats      []string         `json:"floats,omitempty"`
	Reach       string           `json:"reach"`
}

func resetAll() {
	resetTerms()
	termFacts = map[*Term][]*Term{}
	ranges = nil
	fconsts = nil
	strConsts = nil
	hqMemo = map[*Term]bool{}
}

func (p *Project) run(c *Contract, disabled map[string]bool, trace bool) (x *Exec, err error) {
	resetAll()
	p.closures = map[*Term]FuncVal{}
	x = &Exec{p: p, c: c, disabled: disabled, names: map[string]int{}, assume: map[string]bool{}, covered: map[string]bool{}, loopsSeen: map[string]bool{}, opts: c.opts, used: map[string]bool{}, trace: trace}
	nlMode = c.opts["nl"] == "1"
	commMode = c.opts["comm"] == "1"
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			if os.Getenv("GVC_PANIC") != "" {
				panic(r)
			}
			err = fmt.Errorf("internal: %v\n%s", r, string(debug.Stack()))
		}
	}()
	st := &State{pc: tTrue, heap: map[string]*Term{}, cells: map[*Cell]Value{}}
	x.alloc0 = namedSym("alloc@0", "Int")
	addTermFact(x.alloc0, tGe(x.alloc0, mkInt(1000000)))
	st.alloc = x.alloc0
	for _, prm := range c.fn.Params {
		x.params = append(x.params, x.symbolic(st, prm.Type(), prm.Name()))
	}
	if c.opts["lock"] != "" {
		// no lock is held at entry
		st.heap[lockGhost] = tConstArr(arr("Int", "Int"), tZero)
		st.heap[lockCount] = tConstArr(arr("Int", "Int"), tZero)
	}
	_, out := x.runFunction(c.fn, x.params, nil, st, nil, nil)
	x.lockEnd(out)
	x.endPC = out.pc
	x.endFacts = len(x.facts)
	return x, nil
}

func splitGoal(g *Term) []*Term {
	if g.op == "and" {
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	}
	if g.op == "=>" {
		var out []*Term
		for _, a := range splitGoal(g.args[1]) {
			out = append(out, tImp(g.args[0], a))
		}
		return out
	}
	if g.op == "forall" && g.args[1].op == "=>" && g.args[1].args[1].op == "and" {
		var out []*Term
		for _, a := range g.args[1].args[1].args {
			out = append(out, splitGoal(mkForall(g.args[0], tImp(g.args[1].args[0], a)))...)
		}
		return out
	}
	if g.op == "forall" && g.args[1].op == "and" {
		var out []*Term
		for _, a := range g.args[1].args {
			out = append(out, splitGoal(mkForall(g.args[0], a))...)
		}
		return out
	}
	return []*Term{g}
}

func levels(c *Contract) []int {
	s := c.opts["float"]
	if s == "" {
		return []int{1, 2}
	}
	var out []int
	for _, a := range strings.Split(s, ",") {
		n, _ := strconv.Atoi(a)
		out = append(out, n)
	}
	return out
}

type job struct {
	ob      *Oblig
	goal    *Term
	levels  []int
	cache   map[[2]int]string
	res     solverRes
	noSplit bool
}

var genMu sync.Mutex // term construction is not safe for concurrent use

func (x *Exec) mkJob(o *Oblig, g *Term) *job {
	return &job{ob: o, goal: g, levels: levels(x.c), cache: map[[2]int]string{}}
}

func (j *job) script(level, mode int) string {
	genMu.Lock()
	defer genMu.Unlock()
	k := [2]int{level, mode}
	if s, ok := j.cache[k]; ok {
		return s
	}
	s := buildVCMode(j.ob.facts, j.ob.pc, j.goal, level, nil, nil, mode)
	if s != "" && mode != vcFull {
		dump(fmt.Sprintf("pre%d_%s", mode, j.ob.name), s)
	}
	j.cache[k] = s
	return s
}

// solve tries weakened forms of the obligation first: fewer assumptions are
// sound, and the solver answers sooner when they suffice.
func (j *job) solve(slow bool) {
	done := false
	try := func(level, mode int, slow bool, t time.Duration) {
		if done {
			return
		}
		s := j.script(level, mode)
		if s == "" {
			return
		}
		var r solverRes
		if t > 0 {
			r = solveT(s, false, t)
		} else {
			r = solve(s, slow, false)
		}
		if r.status == "unsat" || mode == vcFull {
			j.res = r
		}
		done = r.status == "unsat" || r.status == "sat" && mode == vcFull && level == j.levels[len(j.levels)-1]
	}
	l0 := j.levels[0]
	try(l0, vcGround, false, quickT/6)
	try(l0, vcNear, false, quickT/6)
	if j.script(l0, vcInst) != "" {
		try(l0, vcFull, false, quickT/5)
		try(l0, vcInst, false, quickT/3)
		try(l0, vcBare, false, quickT/3)
	}
	if slow && !done && !j.noSplit {
		for _, l := range j.levels {
			try(l, vcFull, false, 0)
		}
		if !done {
			done = j.split(time.Now().Add(45 * time.Second * scale))
		}
	}
	for i, l := range j.levels {
		try(l, vcFull, slow && i == len(j.levels)-1, 0)
	}
	if slow {
		for _, l := range j.levels[:len(j.levels)-1] {
			try(l, vcFull, true, 0)
		}
	}
}

type sub struct {
	facts    []*Term
	pc, goal *Term
}

// shadow gives the integer a float term computes when nothing is rounded.
func shadow(t *Term) *Term {
	if c, ok := isFC(t); ok {
		if c == math.Trunc(c) && math.Abs(c) < 1<<53 {
			return mkInt(int64(c))
		}
		return nil
	}
	switch t.op {
	case "i2f32", "i2f64":
		return t.args[0]
	case "fadd32", "fadd64":
		if a, b := shadow(t.args[0]), shadow(t.args[1]); a != nil && b != nil {
			return tAdd(a, b)
		}
	case "fmul32", "fmul64":
		a, b := shadow(t.args[0]), shadow(t.args[1])
		if a == tZero || b == tZero {
			return tZero
		}
		if a != nil && b != nil && (a.i != nil || b.i != nil) {
			return tMul(a, b)
		}
	case "fneg32", "fneg64":
		if a := shadow(t.args[0]); a != nil {
			return tSub(tZero, a)
		}
	case "fnarrow", "fwiden":
		return shadow(t.args[0])
	}
	return nil
}

// ladder proves, one after the other, that the integer-valued float terms of the
// goal are computed exactly, and rewrites conversions to integers accordingly.
func (j *job) ladder(facts []*Term, pc, goal *Term, level int, ms *int64, end time.Time) (sub, bool) {
	q := sub{append([]*Term{}, facts...), pc, goal}
	any := false
	done := map[*Term]bool{}
	for n := 0; n < 24; n++ {
		genMu.Lock()
		var next *Term
		seen := map[*Term]bool{}
		var visit func(t *Term)
		visit = func(t *Term) {
			if seen[t] || next != nil || t.bound {
				return
			}
			seen[t] = true
			for _, a := range t.args {
				visit(a)
			}
			if next != nil || done[t] {
				return
			}
			if strings.HasPrefix(t.op, "f2i") && shadow(t.args[0]) != nil {
				next = t
			}
			switch t.op {
			case "fadd32", "fadd64", "fmul32", "fmul64", "fnarrow":
				if shadow(t) != nil {
					next = t
				}
			}
		}
		visit(q.goal)
		genMu.Unlock()
		if next == nil || time.Now().After(end) {
			break
		}
		done[next] = true
		genMu.Lock()
		var lemma *Term
		isInt := strings.HasPrefix(next.op, "f2i")
		if isInt {
			lemma = tEq(next, shadow(next.args[0]))
		} else {
			lemma = tAnd(tNot(fnan(next)), tEq(fval(next), toReal(shadow(next))))
		}
		genMu.Unlock()
		ok := true
		for _, l := range splitGoal(lemma) {
			for _, mode := range []int{vcGround, vcFull} {
				genMu.Lock()
				s := buildVCMode(q.facts, q.pc, l, level, nil, nil, mode)
				genMu.Unlock()
				ok = false
				if s == "" {
					continue
				}
				r := solveT(s, false, 2*time.Second*scale)
				*ms += r.ms
				if r.status == "unsat" {
					ok = true
					break
				}
			}
			if !ok {
				break
			}
		}
		if os.Getenv("GVC_TRACE") != "" {
			fmt.Printf("  ladder %v %v\n", ok, next.op)
		}
		if !ok {
			continue
		}
		any = true
		genMu.Lock()
		if isInt {
			m := map[*Term]*Term{next: shadow(next.args[0])}
			memo := map[*Term]*Term{}
			q.goal = subst(q.goal, m, memo)
			q.pc = subst(q.pc, m, memo)
			for i, f := range q.facts {
				q.facts[i] = subst(f, m, memo)
			}
		}
		q.facts = append(q.facts, lemma)
		genMu.Unlock()
	}
	return q, any
}

// split decides the obligation by cases on the conditions of the conditional
// terms of the goal: every case must be discharged.
func (j *job) split(end time.Time) bool {
	return j.splitFrom(sub{j.ob.facts, j.ob.pc, j.goal}, end)
}

func (j *job) splitFrom(from sub, end time.Time) bool {
	l0 := j.levels[len(j.levels)-1]
	var total int64
	var lost int32
	var rec func(q sub, depth int) bool
	rec = func(q sub, depth int) bool {
		var ms int64
		defer func() { atomic.AddInt64(&total, ms) }()
		if q.goal == tTrue || q.pc == tFalse {
			return true
		}
		for _, f := range q.facts {
			if f == tFalse {
				return true
			}
		}
		if time.Now().After(end) || atomic.LoadInt32(&lost) != 0 {
			return false
		}
		if depth > 0 {
			leaf := depth == splitDepth || splitCond(q.goal) == nil
			modes := []int{vcFull}
			if leaf {
				modes = []int{vcGround, vcFull, vcInst, vcBare}
				if q2, ok := j.ladder(q.facts, q.pc, q.goal, l0, &ms, end); ok {
					q = q2
					if q.goal == tTrue {
						return true
					}
				}
			}
			if leaf {
				genMu.Lock()
				n := lean(q)
				s := buildVCMode(n.facts, n.pc, n.goal, l0, nil, nil, vcGround)
				if s == "" {
					s = buildVCMode(n.facts, n.pc, n.goal, l0, nil, nil, vcFull)
				}
				dump(fmt.Sprintf("lean%d_%s", depth, j.ob.name), s)
				genMu.Unlock()
				r := solveT(s, false, quickT)
				ms += r.ms
				if os.Getenv("GVC_TRACE") != "" {
					fmt.Printf("  lean %d %s %s %dms\n", depth, j.ob.name, r.status, r.ms)
				}
				if r.status == "unsat" {
					return true
				}
			}
			for _, mode := range modes {
				genMu.Lock()
				s := buildVCMode(q.facts, q.pc, q.goal, l0, nil, nil, mode)
				genMu.Unlock()
				if s == "" {
					continue
				}
				dump(fmt.Sprintf("split%d_%d_%s", depth, mode, j.ob.name), s)
				t := 400 * time.Millisecond * scale
				if leaf && mode == vcFull {
					t = quickT
				} else if leaf {
					t = quickT / 2
				}
				r := solveT(s, false, t)
				if os.Getenv("GVC_TRACE") != "" {
					fmt.Printf("  split %d mode %d %s %s %dms\n", depth, mode, j.ob.name, r.status, r.ms)
				}
				ms += r.ms
				if r.status == "unsat" {
					return true
				}
				if r.status == "sat" && mode == vcFull {
					return false
				}
			}
		}
		if depth == splitDepth {
			return false
		}
		genMu.Lock()
		c := splitCond(q.goal)
		if c == nil {
			genMu.Unlock()
			return false
		}
		var subs [2]sub
		for i, v := range []*Term{tTrue, tFalse} {
			memo := map[*Term]*Term{}
			m := map[*Term]*Term{c: v}
			n := sub{pc: subst(q.pc, m, memo), goal: subst(q.goal, m, memo)}
			for _, f := range q.facts {
				if g := subst(f, m, memo); g != tTrue {
					n.facts = append(n.facts, g)
				}
			}
			if v == tTrue {
				n.facts = append(n.facts, c)
			} else {
				n.facts = append(n.facts, tNot(c))
			}
			subs[i] = n
		}
		genMu.Unlock()
		select {
		case splitTok <- true:
			other := make(chan bool, 1)
			go func() {
				ok := rec(subs[1], depth+1)
				<-splitTok
				other <- ok
			}()
			ok := rec(subs[0], depth+1)
			if !ok {
				atomic.StoreInt32(&lost, 1)
			}
			return <-other && ok
		default:
		}
		if rec(subs[0], depth+1) && rec(subs[1], depth+1) {
			return true
		}
		atomic.StoreInt32(&lost, 1)
		return false
	}
	if rec(from, 0) {
		j.res = solverRes{"unsat", "z3-new", "unsat", total}
		return true
	}
	return false
}

// lean drops the assumptions about float computations that do not occur in the goal.
func lean(q sub) sub {
	isOp := func(t *Term) bool {
		if t.sort != "F32" && t.sort != "F64" || len(t.args) == 0 {
			return false
		}
		switch t.op {
		case "select", "ite", "fabs32", "fabs64", "fneg32", "fneg64", "fwiden":
			return false
		}
		return true
	}
	ops := func(t *Term, seen map[*Term]bool) bool { // some operation outside seen?
		out := false
		done := map[*Term]bool{}
		var f func(t *Term)
		f = func(t *Term) {
			if done[t] || out {
				return
			}
			done[t] = true
			if isOp(t) && !seen[t] {
				out = true
				return
			}
			for _, a := range t.args {
				f(a)
			}
		}
		f(t)
		return out
	}
	in := map[*Term]bool{}
	var g func(t *Term)
	g = func(t *Term) {
		if !in[t] {
			in[t] = true
			for _, a := range t.args {
				g(a)
			}
		}
	}
	g(q.goal)
	var keep func(t *Term) *Term
	keep = func(t *Term) *Term {
		if t.op == "and" {
			var as []*Term
			for _, a := range t.args {
				as = append(as, keep(a))
			}
			return tAnd(as...)
		}
		if ops(t, in) {
			return tTrue
		}
		return t
	}
	n := sub{goal: q.goal, pc: keep(q.pc)}
	for _, f := range q.facts {
		if k := keep(f); k != tTrue {
			n.facts = append(n.facts, k)
		}
	}
	return n
}

const splitDepth = 12

// splitCond returns the innermost ground condition of a conditional term.
func splitCond(t *Term) *Term {
	seen := map[*Term]bool{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		for _, a := range t.args {
			if c := f(a); c != nil {
				return c
			}
		}
		if t.op == "ite" && t.sort != "Bool" && !t.args[0].bound && len(t.args[0].args) > 0 {
			return t.args[0]
		}
		return nil
	}
	return f(t)
}

func (j *job) lastScript() string { return j.script(j.levels[len(j.levels)-1], vcFull) }

var workers = 4

// splitTok bounds the number of case distinctions worked on at the same time.
var splitTok = make(chan bool, 4)

func (p *Project) prove(c *Contract, trace bool) *CtrResult {
	t0 := time.Now()
	res := &CtrResult{Contract: c.name}
	defer func() {
		res.WallMS = time.Since(t0).Milliseconds()
		res.SolverMS = solverMS
		res.SolverCnt = solverCnt
	}()
	disabled := map[string]bool{}
	var x *Exec
	total := map[string]bool{}
	proved := map[string]bool{} // scripts of candidate obligations proved
	_ = proved
	for round := 0; ; round++ {
		var err error
		x, err = p.run(c, disabled, trace)
		if err != nil {
			res.Unsupported = err.Error()
			if x != nil {
				res.Functions = keys(x.covered)
				res.Ints, res.Floats = p.constPool(x)
			}
			return res
		}
		var jobs []*job
		for _, o := range x.obs {
			if o.cand == "" {
				continue
			}
			total[o.cand] = true
			if o.goal == tTrue {
				continue
			}
			for _, g := range splitGoal(o.goal) {
				if g == tTrue {
					continue
				}
				jobs = append(jobs, x.mkJob(o, g))
			}
		}
		if trace {
			fmt.Printf("round %d: %d candidate obligations, %d disabled, %d obligations, %v\n", round, len(jobs), len(disabled), len(x.obs), time.Since(t0))
		}
		bad := map[string]bool{}
		parallel(len(jobs), workers, func(i int) {
			j := jobs[i]
			cacheMu.Lock()
			skip := bad[j.ob.cand]
			cacheMu.Unlock()
			if skip {
				return
			}
			j.solve(false)
			if j.res.status != "unsat" {
				cacheMu.Lock()
				bad[j.ob.cand] = true
				if j.res.status != "sat" {
					res.Dropped++
				}
				cacheMu.Unlock()
			}
		})
		if trace {
			for _, j := range jobs {
				if j.res.status != "unsat" && j.res.status != "" {
					fmt.Printf("  drop %s [%s] %s %dms\n", j.ob.cand, j.ob.kind, j.res.status, j.res.ms)
					dump(fmt.Sprintf("cand_r%d_%s", round, j.ob.name), j.lastScript())
				}
			}
		}
		if len(bad) == 0 {
			for k := range total {
				if !disabled[k] {
					res.Invariants = append(res.Invariants, k)
				}
			}
			sort.Strings(res.Invariants)
			for _, j := range jobs {
				res.Obs = append(res.Obs, ObResult{Name: j.ob.name, Kind: j.ob.kind, Fn: j.ob.fn, Status: "discharged", Solver: j.res.solver, Ms: j.res.ms})
			}
			break
		}
		for k := range bad {
			disabled[k] = true
		}
	}
	res.Candidates = len(total)
	// property obligations
	var jobs []*job
	for _, o := range x.obs {
		if o.cand != "" {
			continue
		}
		gs := splitGoal(o.goal)
		for _, g := range gs {
			if g == tTrue {
				jobs = append(jobs, &job{ob: o, goal: g, res: solverRes{status: "unsat", solver: "simplifier"}})
				continue
			}
			jobs = append(jobs, x.mkJob(o, g))
		}
	}
	parallel(len(jobs), workers, func(i int) {
		if jobs[i].goal == tTrue {
			return
		}
		jobs[i].solve(true)
	})
	cnt := map[string]int{}
	for _, j := range jobs {
		n := j.ob.name
		cnt[n]++
		if cnt[n] > 1 {
			n = fmt.Sprintf("%s#%d", n, cnt[n])
		}
		or := ObResult{Name: n, Kind: j.ob.kind, Fn: j.ob.fn, Solver: j.res.solver, Ms: j.res.ms}
		if j.res.status == "unsat" {
			or.Status = "discharged"
		} else {
			or.Status = "failed"
			or.Reason = j.res.status
			or.Output = firstLines(j.res.out, 5)
			dump(n, j.lastScript())
		}
		res.Obs = append(res.Obs, or)
	}
	// vacuity: the end of the contract must be reachable
	res.Reach = "reachable"
	if x.ensN == 0 {
		res.Reach = "no postcondition is reachable"
	} else if x.endPC == tFalse {
		res.Reach = "the end of the contract is unreachable"
	} else {
		s := buildVC(x.facts[:x.endFacts], x.endPC, tFalse, levels(c)[0], nil, nil)
		r := solve(s, false, true)
		if r.status == "unsat" {
			res.Reach = "the end of the contract is unreachable (" + r.solver + ": unsat)"
		} else {
			res.Reach = "not refuted (" + r.solver + ": " + r.status + ")"
		}
		dump("reach_"+c.name, s)
	}
	if strings.HasPrefix(res.Reach, "the end") || strings.HasPrefix(res.Reach, "no post") {
		res.Obs = append(res.Obs, ObResult{Name: c.name + "/postconditions are reachable", Kind: "reach", Status: "failed", Reason: res.Reach})
	}
	res.Functions = keys(x.covered)
	res.Assumes = keys(x.assume)
	res.Used = keys(x.used)
	res.Loops = len(x.loopsSeen)
	res.Ints, res.Floats = p.constPool(x)
	return res
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// constPool collects literals of the code under contract, as seeds for the replay generators.
func (p *Project) constPool(x *Exec) ([]string, []string) {
	is, fs := map[string]bool{}, map[string]bool{}
	for fn := range x.p.allFns() {
		if !x.covered[p.fnKey(fn)] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var rands [12]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if op == nil || *op == nil {
						continue
					}
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					if _, _, ok := intInfo(c.Type()); ok {
						is[c.Value.ExactString()] = true
					} else if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
						fs[strconv.FormatFloat(c.Float64(), 'g', -1, 64)] = true
					}
				}
			}
		}
	}
	return keys(is), keys(fs)
}
