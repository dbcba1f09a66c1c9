package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/justyntemme/vst3go"
const vcPath = modPath + "/internal/vc"

type comp struct {
	name string
	sort string
	lo   *big.Int
	hi   *big.Int
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		s := strings.TrimPrefix(p.Path(), modPath+"/pkg/")
		return strings.ReplaceAll(s, "/", ".")
	})
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isArray(t types.Type) bool  { _, ok := t.Underlying().(*types.Array); return ok }

func isReal(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Real" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == vcPath
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 40)

func bitsRange(bits uint, signed bool) (*big.Int, *big.Int) {
	if signed {
		h := new(big.Int).Lsh(big.NewInt(1), bits-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	h := new(big.Int).Lsh(big.NewInt(1), bits)
	return new(big.Int), new(big.Int).Sub(h, big.NewInt(1))
}

func intInfo(t types.Type) (bits uint, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func floatSort(t types.Type) string {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.Float32:
		return "F32"
	case types.Float64, types.UntypedFloat:
		return "F64"
	}
	return ""
}

var compCache = map[types.Type][]comp{}

func comps(t types.Type) []comp {
	if c, ok := compCache[t]; ok {
		return c
	}
	c := comps0(t)
	compCache[t] = c
	return c
}

func comps0(t types.Type) []comp {
	if isReal(t) {
		return []comp{{"", "Real", nil, nil}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if b, s, ok := intInfo(t); ok {
			lo, hi := bitsRange(b, s)
			return []comp{{"", "Int", lo, hi}}
		}
		if fs := floatSort(t); fs != "" {
			return []comp{{"", fs, nil, nil}}
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return []comp{{"", "Bool", nil, nil}}
		case types.String, types.UntypedString:
			return []comp{{"", "Str", nil, nil}}
		case types.Complex128:
			return []comp{{"re", "F64", nil, nil}, {"im", "F64", nil, nil}}
		case types.Complex64:
			return []comp{{"re", "F32", nil, nil}, {"im", "F32", nil, nil}}
		case types.UnsafePointer:
			return []comp{{"blk", "Int", nil, nil}, {"off", "Int", nil, nil}}
		case types.UntypedNil:
			return []comp{{"", "Int", nil, nil}}
		}
	case *types.Pointer:
		return []comp{{"blk", "Int", nil, nil}, {"off", "Int", nil, nil}}
	case *types.Slice:
		z := new(big.Int)
		return []comp{{"blk", "Int", nil, nil}, {"off", "Int", z, maxLen}, {"len", "Int", z, maxLen}, {"cap", "Int", z, maxLen}}
	case *types.Map, *types.Chan, *types.Signature:
		return []comp{{"", "Int", nil, nil}}
	case *types.Interface:
		return []comp{{"tag", "Int", nil, nil}, {"blk", "Int", nil, nil}, {"off", "Int", nil, nil}}
	case *types.Struct:
		var out []comp
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, c := range comps(f.Type()) {
				c.name = f.Name() + "." + c.name
				out = append(out, c)
			}
		}
		return out
	case *types.Array:
		var out []comp
		for _, c := range comps(u.Elem()) {
			out = append(out, comp{c.name, arr("Int", c.sort), nil, nil})
		}
		return out
	case *types.Tuple:
		var out []comp
		for i := 0; i < u.Len(); i++ {
			out = append(out, comps(u.At(i).Type())...)
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

func zeroOfSort(s string) *Term {
	switch s {
	case "Int":
		return tZero
	case "Bool":
		return tFalse
	case "Real":
		return mkRat(new(big.Rat))
	case "F32":
		return fconst32(0)
	case "F64":
		return fconst64(0)
	case "Str":
		return strConst("")
	}
	if strings.HasPrefix(s, "(Array") {
		_, v := arrParts(s)
		return tConstArr(s, zeroOfSort(v))
	}
	unsup("zero of sort %s", s)
	return nil
}

func zeroValue(t types.Type) Value {
	cs := comps(t)
	v := Value{typ: t, c: make([]*Term, len(cs))}
	for i, c := range cs {
		v.c[i] = zeroOfSort(c.sort)
	}
	return v
}

type Cell struct {
	id   int
	typ  types.Type
	name string
}

type FuncVal struct {
	fn    *ssa.Function
	binds []Value
	cond  *Term // for merged function values
}

type Value struct {
	typ    types.Type
	c      []*Term
	region string
	cell   *Cell
	coff   int        // component at which a field of the cell starts
	csub   types.Type // the field's type; nil: the whole cell
	fns    []FuncVal
	tup    []Value
	isTup  bool
	iter   *mapIter
	pred   func(*Term) *Term // ghost predicate (annotations only)
	dyn    *Value            // statically known dynamic value of an interface
}

type mapIter struct {
	m    Value
	key  types.Type
	elem types.Type
	str  bool
	id   int
	cell *Cell // visited set cell
	n    int
}

type State struct {
	pc    *Term
	heap  map[string]*Term
	cells map[*Cell]Value
	alloc *Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, alloc: s.alloc, heap: make(map[string]*Term, len(s.heap)), cells: make(map[*Cell]Value, len(s.cells))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}
func (s *State) with(c *Term) *State {
	n := s.clone()
	n.pc = tAnd(s.pc, c)
	return n
}

// initial heap map symbol
func heapInit(name, srt string) *Term { return namedSym("H@"+name, srt) }

func (s *State) get(name, srt string) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	return heapInit(name, srt)
}
