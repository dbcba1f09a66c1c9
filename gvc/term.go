package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term. Terms are immutable; pointer equality is
// structural equality.
type Term struct {
	op   string // operator or symbol name
	args []*Term
	sort string
	id   int
	// const payloads
	i *big.Int // Int literal
	r *big.Rat // Real literal
	// classification of block constants: 1 = freshly allocated, 2 = pre-existing at entry
	blkKind int
	epoch   int  // creation order for symbols
	bound   bool // contains a bound variable
	isSym   bool
}

type termTable struct {
	m    map[string]*Term
	n    int
	syms map[string]int
	// declared function signatures: name -> (arg sorts, ret)
	funs     map[string]string
	order    []string
	mode     int
	maxEpoch map[*Term]int
}

var tt *termTable

func resetTerms() {
	tt = &termTable{m: map[string]*Term{}, syms: map[string]int{}, funs: map[string]string{}, maxEpoch: map[*Term]int{}}
	initTerms()
}

var (
	tTrue, tFalse *Term
	tZero, tOne   *Term
)

func initTerms() {
	tTrue = mkRaw("true", "Bool")
	tFalse = mkRaw("false", "Bool")
	tZero = mkInt(0)
	tOne = mkInt(1)
}

func mkRaw(op, srt string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(srt)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.n++
	t := &Term{op: op, args: args, sort: srt, id: tt.n}
	if op == "forall" || op == "exists" {
		t.bound = len(freeBound(args[1], map[*Term]bool{args[0]: true})) > 0
	} else {
		for _, a := range args {
			if a.bound {
				t.bound = true
			}
		}
	}
	tt.m[k] = t
	return t
}

func mkInt(n int64) *Term { return mkBig(big.NewInt(n)) }
func mkBig(n *big.Int) *Term {
	s := n.String()
	if n.Sign() < 0 {
		s = "(- " + new(big.Int).Neg(n).String() + ")"
	}
	t := mkRaw(s, "Int")
	if t.i == nil {
		t.i = new(big.Int).Set(n)
	}
	return t
}
func mkRat(r *big.Rat) *Term {
	num, den := new(big.Int).Set(r.Num()), r.Denom()
	neg := num.Sign() < 0
	if neg {
		num.Neg(num)
	}
	s := num.String() + ".0"
	if den.Cmp(big.NewInt(1)) != 0 {
		s = "(/ " + num.String() + ".0 " + den.String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	t := mkRaw(s, "Real")
	if t.r == nil {
		t.r = new(big.Rat).Set(r)
	}
	return t
}
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// fresh symbol
func mkSym(prefix, srt string) *Term {
	prefix = sanit(prefix)
	n := tt.syms[prefix]
	tt.syms[prefix] = n + 1
	name := prefix
	if n > 0 {
		name = fmt.Sprintf("%s!%d", prefix, n)
	}
	t := mkRaw(name, srt)
	t.isSym = true
	t.epoch = t.id
	if _, ok := tt.funs[name]; !ok {
		tt.funs[name] = "() " + srt
		tt.order = append(tt.order, name)
	}
	return t
}

// named symbol (idempotent)
func namedSym(name, srt string) *Term {
	name = sanit(name)
	t := mkRaw(name, srt)
	if !t.isSym {
		t.isSym = true
		t.epoch = 0
		tt.funs[name] = "() " + srt
		tt.order = append(tt.order, name)
		tt.syms[name]++
	}
	return t
}

// bound variable symbol
func mkBound(prefix, srt string) *Term {
	prefix = "?" + sanit(prefix)
	n := tt.syms[prefix]
	tt.syms[prefix] = n + 1
	name := fmt.Sprintf("%s%d", prefix, n)
	t := mkRaw(name, srt)
	t.isSym = true
	t.bound = true
	return t
}

func sanit(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '!', c == '.', c == '$', c == '%', c == '&', c == '?', c == '@':
			sb.WriteRune(c)
		case c == '[':
			sb.WriteString("$L")
		case c == ']':
			sb.WriteString("$R")
		case c == '*':
			sb.WriteString("$P")
		case c == '#':
			sb.WriteString("@")
		default:
			sb.WriteString("_")
		}
	}
	return sb.String()
}

// uninterpreted function application
func mkUF(name, ret string, args ...*Term) *Term {
	name = sanit(name)
	if _, ok := tt.funs[name]; !ok {
		as := make([]string, len(args))
		for i, a := range args {
			as[i] = a.sort
		}
		tt.funs[name] = "(" + strings.Join(as, " ") + ") " + ret
		tt.order = append(tt.order, name)
	}
	return mkRaw(name, ret, args...)
}

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

func arrParts(s string) (string, string) {
	// "(Array K V)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return in[:i], in[i+1:]
		}
	}
	panic("arrParts " + s)
}

func tNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mkRaw("not", "Bool", a)
}

func tAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == tTrue || seen[a] {
			continue
		}
		if a == tFalse {
			return tFalse
		}
		if a.op == "and" {
			for _, b := range a.args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[tNot(a)] {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mkRaw("and", "Bool", out...)
}

func tOr(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a == tFalse || seen[a] {
			continue
		}
		if a == tTrue {
			return tTrue
		}
		if a.op == "or" {
			for _, b := range a.args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[tNot(a)] {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	case 2:
		// (c & a) | (c & !a)  => c
		x, y := conjSet(out[0]), conjSet(out[1])
		if r := mergeCompl(x, y); r != nil {
			return tAnd(r...)
		}
	}
	return mkRaw("or", "Bool", out...)
}

func conjSet(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// if x and y differ in exactly one complementary literal, return the common part
func mergeCompl(x, y []*Term) []*Term {
	if len(x) != len(y) {
		return nil
	}
	in := map[*Term]bool{}
	for _, a := range x {
		in[a] = true
	}
	var diff *Term
	var common []*Term
	for _, b := range y {
		if in[b] {
			common = append(common, b)
			continue
		}
		if diff != nil {
			return nil
		}
		diff = b
	}
	if diff == nil || !in[tNot(diff)] {
		return nil
	}
	if common == nil {
		return []*Term{tTrue}
	}
	return common
}

func tImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return tNot(a)
	}
	if a == b {
		return tTrue
	}
	return mkRaw("=>", "Bool", a, b)
}

func tIff(a, b *Term) *Term { return tEq(a, b) }

func tIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if c.op == "not" {
		return tIte(c.args[0], b, a)
	}
	if a.sort == "Bool" {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return tNot(c)
		}
		if a == tTrue {
			return tOr(c, b)
		}
		if a == tFalse {
			return tAnd(tNot(c), b)
		}
		if b == tTrue {
			return tOr(tNot(c), a)
		}
		if b == tFalse {
			return tAnd(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, store(m,i,v), m) -> store(m,i,ite(c,v,m[i]))
	if a.op == "store" && a.args[0] == b {
		return tStore(b, a.args[1], tIte(c, a.args[2], tSelect(b, a.args[1])))
	}
	if b.op == "store" && b.args[0] == a {
		return tStore(a, b.args[1], tIte(c, tSelect(a, b.args[1]), b.args[2]))
	}
	if a.op == "store" && b.op == "store" && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
		return tStore(a.args[0], a.args[1], tIte(c, a.args[2], b.args[2]))
	}
	return mkRaw("ite", a.sort, c, a, b)
}

// provably distinct ints (syntactic)
func distinct(a, b *Term) bool {
	if a.i != nil && b.i != nil {
		return a.i.Cmp(b.i) != 0
	}
	if a.blkKind != 0 && b.blkKind != 0 && a != b {
		return true
	}
	if (a.blkKind != 0 && b.i != nil && b.i.Sign() == 0) || (b.blkKind != 0 && a.i != nil && a.i.Sign() == 0) {
		return true
	}
	// a newly allocated block is distinct from anything built before its allocation
	if a.blkKind == 1 && b.blkKind == 0 && allEpochBefore(b, a.epoch) && !b.bound && !isSub(b) {
		return true
	}
	if b.blkKind == 1 && a.blkKind == 0 && allEpochBefore(a, b.epoch) && !a.bound && !isSub(a) {
		return true
	}
	if isSub(a) && isSub(b) {
		if a.op != b.op {
			return true
		}
		return distinct(a.args[0], b.args[0]) || distinct(a.args[1], b.args[1])
	}
	if (isSub(a) && b.blkKind != 0) || (isSub(b) && a.blkKind != 0) {
		return true
	}
	if a.sort == "Int" {
		// linear difference
		d := linSub(linOf(a), linOf(b))
		if len(d.c) == 0 && d.k.Sign() != 0 {
			return true
		}
	}
	return false
}

func isSub(t *Term) bool { return strings.HasPrefix(t.op, "sub@") }

func allEpochBefore(t *Term, e int) bool {
	return maxEpoch(t) < e
}

func maxEpoch(t *Term) int {
	if t.isSym {
		return t.epoch
	}
	if len(t.args) == 0 {
		return 0
	}
	if m, ok := tt.maxEpoch[t]; ok {
		return m
	}
	m := 0
	for _, a := range t.args {
		if x := maxEpoch(a); x > m {
			m = x
		}
	}
	tt.maxEpoch[t] = m
	return m
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s %s", a.sort, b.sort, show(a), show(b)))
	}
	if distinct(a, b) {
		return tFalse
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	if a.r != nil && b.r != nil {
		return mkBool(a.r.Cmp(b.r) == 0)
	}
	if a.sort == "Str" && strings.HasPrefix(a.op, "str@") && strings.HasPrefix(b.op, "str@") {
		return tFalse
	}
	// push equality with constants through ite of constants
	if b.op == "ite" && a.op != "ite" {
		a, b = b, a
	}
	if a.op == "ite" && len(b.args) == 0 && (b.i != nil || b.r != nil) {
		x, y := a.args[1], a.args[2]
		if (x.i != nil && y.i != nil) || x.op == "ite" || y.op == "ite" {
			return tIte(a.args[0], tEq(x, b), tEq(y, b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw("=", "Bool", a, b)
}

func tSelect(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "ite" || a.args[2].op == "ite" || a.args[1].op == "constarr" || a.args[2].op == "constarr") {
			x, y := tSelect(a.args[1], i), tSelect(a.args[2], i)
			return tIte(a.args[0], x, y)
		}
		break
	}
	_, v := arrParts(a.sort)
	return mkRaw("select", v, a, i)
}

func tStore(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mkRaw("store", a.sort, a, i, v)
}

func tConstArr(srt string, v *Term) *Term { return mkRaw("constarr", srt, v) }

// ---- linear integer arithmetic normal form ----
type lin struct {
	c map[*Term]*big.Int
	k *big.Int
}

func linOf(t *Term) lin {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	linAcc(l, t, big.NewInt(1))
	return l
}

func linAcc(l lin, t *Term, m *big.Int) {
	if t.i != nil {
		l.k.Add(l.k, new(big.Int).Mul(t.i, m))
		return
	}
	if t.op == "+" && t.sort == "Int" {
		for _, a := range t.args {
			linAcc(l, a, m)
		}
		return
	}
	if t.op == "*" && t.sort == "Int" && t.args[0].i != nil {
		linAcc(l, t.args[1], new(big.Int).Mul(m, t.args[0].i))
		return
	}
	x, ok := l.c[t]
	if !ok {
		x = new(big.Int)
	}
	x = new(big.Int).Add(x, m)
	if x.Sign() == 0 {
		delete(l.c, t)
	} else {
		l.c[t] = x
	}
}

func linSub(a, b lin) lin {
	r := lin{map[*Term]*big.Int{}, new(big.Int).Sub(a.k, b.k)}
	for t, c := range a.c {
		r.c[t] = new(big.Int).Set(c)
	}
	for t, c := range b.c {
		x, ok := r.c[t]
		if !ok {
			x = new(big.Int)
		}
		x = new(big.Int).Sub(x, c)
		if x.Sign() == 0 {
			delete(r.c, t)
		} else {
			r.c[t] = x
		}
	}
	return r
}

func (l lin) term() *Term {
	var ks []*Term
	for t := range l.c {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var as []*Term
	for _, t := range ks {
		c := l.c[t]
		if c.Cmp(big.NewInt(1)) == 0 {
			as = append(as, t)
		} else {
			as = append(as, mkRaw("*", "Int", mkBig(c), t))
		}
	}
	if l.k.Sign() != 0 || len(as) == 0 {
		as = append(as, mkBig(l.k))
	}
	if len(as) == 1 {
		return as[0]
	}
	return mkRaw("+", "Int", as...)
}

func tAdd(a, b *Term) *Term {
	if a.sort == "Real" {
		return rAdd(a, b)
	}
	l := linOf(a)
	linAcc(l, b, big.NewInt(1))
	return l.term()
}
func tSub(a, b *Term) *Term {
	if a.sort == "Real" {
		return rAdd(a, rNeg(b))
	}
	l := linOf(a)
	linAcc(l, b, big.NewInt(-1))
	return l.term()
}
func tMul(a, b *Term) *Term {
	if a.sort == "Real" {
		return rMul(a, b)
	}
	if b.i != nil {
		a, b = b, a
	}
	if a.i != nil {
		l := lin{map[*Term]*big.Int{}, new(big.Int)}
		linAcc(l, b, a.i)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw("*", "Int", a, b)
}

// floor div / mod by positive constants (SMT-LIB semantics)
func tDivF(a, b *Term) *Term {
	if a.i != nil && b.i != nil && b.i.Sign() > 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.i, b.i, m)
		return mkBig(q)
	}
	if b.i != nil && b.i.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if b.i == nil && !nlMode {
		return mkUF("idiv", "Int", a, b)
	}
	return mkRaw("div", "Int", a, b)
}
func tModF(a, b *Term) *Term {
	if a.i != nil && b.i != nil && b.i.Sign() > 0 {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.i, b.i, m)
		return mkBig(m)
	}
	if b.i == nil && !nlMode {
		return mkUF("imod", "Int", a, b)
	}
	return mkRaw("mod", "Int", a, b)
}

func tLe(a, b *Term) *Term {
	if a.sort == "Real" {
		if a == b {
			return tTrue
		}
		if a.r != nil && b.r != nil {
			return mkBool(a.r.Cmp(b.r) <= 0)
		}
		return mkRaw("<=", "Bool", a, b)
	}
	d := linSub(linOf(a), linOf(b)) // a-b <= 0
	if len(d.c) == 0 {
		return mkBool(d.k.Sign() <= 0)
	}
	if lo, hi := rangeOf(a), rangeOf(b); lo != nil && hi != nil {
		if lo[1].Cmp(hi[0]) <= 0 {
			return tTrue
		}
		if lo[0].Cmp(hi[1]) > 0 {
			return tFalse
		}
	}
	// normalise: move so that canonical orientation
	return mkRaw("<=", "Bool", a, b)
}
func tLt(a, b *Term) *Term {
	if a.sort == "Real" {
		return tNot(tLe(b, a))
	}
	return tNot(tLe(b, a))
}
func tGe(a, b *Term) *Term { return tLe(b, a) }
func tGt(a, b *Term) *Term { return tLt(b, a) }

// ranges for integer terms (typed symbols); small interval analysis
var ranges map[*Term][2]*big.Int

func setRange(t *Term, lo, hi *big.Int) {
	if ranges == nil {
		ranges = map[*Term][2]*big.Int{}
	}
	if _, ok := ranges[t]; !ok {
		ranges[t] = [2]*big.Int{lo, hi}
	}
}

func rangeOf(t *Term) *[2]*big.Int {
	if t.i != nil {
		return &[2]*big.Int{t.i, t.i}
	}
	if r, ok := ranges[t]; ok {
		return &r
	}
	switch t.op {
	case "+":
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range t.args {
			r := rangeOf(a)
			if r == nil {
				return nil
			}
			lo.Add(lo, r[0])
			hi.Add(hi, r[1])
		}
		return &[2]*big.Int{lo, hi}
	case "*":
		if t.args[0].i != nil {
			r := rangeOf(t.args[1])
			if r == nil {
				return nil
			}
			x := new(big.Int).Mul(t.args[0].i, r[0])
			y := new(big.Int).Mul(t.args[0].i, r[1])
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			return &[2]*big.Int{x, y}
		}
		r, s := rangeOf(t.args[0]), rangeOf(t.args[1])
		if r == nil || s == nil {
			return nil
		}
		var lo, hi *big.Int
		for _, a := range r {
			for _, b := range s {
				p := new(big.Int).Mul(a, b)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		return &[2]*big.Int{lo, hi}
	case "mod":
		if t.args[1].i != nil && t.args[1].i.Sign() > 0 {
			return &[2]*big.Int{new(big.Int), new(big.Int).Sub(t.args[1].i, big.NewInt(1))}
		}
	case "div":
		if t.args[1].i != nil && t.args[1].i.Sign() > 0 {
			r := rangeOf(t.args[0])
			if r == nil {
				return nil
			}
			q0, q1, m := new(big.Int), new(big.Int), new(big.Int)
			q0.DivMod(r[0], t.args[1].i, m)
			q1.DivMod(r[1], t.args[1].i, m)
			return &[2]*big.Int{q0, q1}
		}
	case "ite":
		r, s := rangeOf(t.args[1]), rangeOf(t.args[2])
		if r == nil || s == nil {
			return nil
		}
		lo, hi := r[0], r[1]
		if s[0].Cmp(lo) < 0 {
			lo = s[0]
		}
		if s[1].Cmp(hi) > 0 {
			hi = s[1]
		}
		return &[2]*big.Int{lo, hi}
	}
	return nil
}

// ---- reals ----
func rAdd(a, b *Term) *Term {
	if a.r != nil && b.r != nil {
		return mkRat(new(big.Rat).Add(a.r, b.r))
	}
	if a.r != nil && a.r.Sign() == 0 {
		return b
	}
	if b.r != nil && b.r.Sign() == 0 {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw("+", "Real", a, b)
}
func rNeg(a *Term) *Term {
	if a.r != nil {
		return mkRat(new(big.Rat).Neg(a.r))
	}
	if a.op == "-" && len(a.args) == 1 {
		return a.args[0]
	}
	return mkRaw("-", "Real", a)
}
func rMul(a, b *Term) *Term {
	if a.r != nil && b.r != nil {
		return mkRat(new(big.Rat).Mul(a.r, b.r))
	}
	if b.r != nil {
		a, b = b, a
	}
	if a.r != nil {
		if a.r.Sign() == 0 {
			return a
		}
		if a.r.Cmp(big.NewRat(1, 1)) == 0 {
			return b
		}
		return mkRaw("*", "Real", a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw("*", "Real", a, b)
}

// ---- substitution ----
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "and":
		return tAnd(a...)
	case "or":
		return tOr(a...)
	case "not":
		return tNot(a[0])
	case "=>":
		return tImp(a[0], a[1])
	case "ite":
		return tIte(a[0], a[1], a[2])
	case "=":
		return tEq(a[0], a[1])
	case "select":
		return tSelect(a[0], a[1])
	case "store":
		return tStore(a[0], a[1], a[2])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = tAdd(r, x)
		}
		return r
	case "*":
		return tMul(a[0], a[1])
	case "<=":
		return tLe(a[0], a[1])
	case "forall", "exists":
		return mkRaw(t.op, t.sort, a...)
	case "fnarrow":
		return fconv(a[0], "F32")
	case "fwiden":
		return fconv(a[0], "F64")
	case "fabs32", "fabs64":
		return fabsT(a[0])
	case "fneg32", "fneg64":
		return fneg(a[0])
	}
	n := mkRaw(t.op, t.sort, a...)
	return n
}

// containsT reports whether t contains x.
func containsT(t, x *Term) bool {
	memo := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if len(t.args) == 0 {
			return false
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			if f(a) {
				r = true
				break
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func show(t *Term) string {
	s := (&printer{}).str(t, 0)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

type printer struct{}

func (p *printer) str(t *Term, d int) string {
	if len(t.args) == 0 {
		return t.op
	}
	if d > 12 {
		return "..."
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = p.str(a, d+1)
	}
	return "(" + t.op + " " + strings.Join(as, " ") + ")"
}

func mkForall(v *Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if !containsT(body, v) {
		return body
	}
	return mkRaw("forall", "Bool", v, body)
}
func mkExists(v *Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	if !containsT(body, v) {
		return body
	}
	return mkRaw("exists", "Bool", v, body)
}

// freeBound collects bound-variable symbols free in t (not in skip).
func freeBound(t *Term, skip map[*Term]bool) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var f func(t *Term, sk map[*Term]bool)
	f = func(t *Term, sk map[*Term]bool) {
		if !t.bound || seen[t] {
			return
		}
		if t.isSym {
			if !sk[t] {
				seen[t] = true
				out = append(out, t)
			}
			return
		}
		if t.op == "forall" || t.op == "exists" {
			n := map[*Term]bool{t.args[0]: true}
			for k := range sk {
				n[k] = true
			}
			f(t.args[1], n)
			return
		}
		seen[t] = true
		for _, a := range t.args {
			f(a, sk)
		}
	}
	f(t, skip)
	return out
}
