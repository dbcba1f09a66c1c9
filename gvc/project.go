package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = envOr("VC_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var verifDir = "/verif"

type Contract struct {
	name  string
	fn    *ssa.Function
	pkg   *packages.Package
	file  string
	props []string
	opts  map[string]string
}

type Template struct {
	name   string
	fn     *ssa.Function
	target []string
	nested bool
	top    bool
}

type Project struct {
	prog       *ssa.Program
	pkgs       []*packages.Package
	contracts  []*Contract
	sums       map[string]*ssa.Function // summaries of callees by key
	tpls       map[string][]*Template
	pure       map[string]bool
	closed     map[string][]types.Type
	closedDecl map[string][]string
	inlineStd  map[string]bool
	unrollFn   map[string]int
	ctrFile    map[string]bool
	closures   map[*Term]FuncVal
	funcIDs    map[*ssa.Function]int
	funcs      []*ssa.Function
	subTags    map[string]int
	tags       map[string]int
	tagTypes   []types.Type
	lastIter   *Cell
	gstores    map[*ssa.Global][]ssa.Value
	gescape    map[*ssa.Global]bool
	overlay    map[string]string // overlay path -> source path
	guards     []guardDecl
}

type guardDecl struct {
	typ    string
	fields []string
	mu     string
}

// contractFiles returns the contract files for a property: relative package path -> files.
func contractFiles(prop string) map[string][]string {
	out := map[string][]string{}
	root := filepath.Join(verifDir, "contracts")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		out[rel] = append(out[rel], p)
		return nil
	})
	if prop == "" {
		return out
	}
	// a file is loaded for a property if its name starts with the property id (lower case);
	// files named common_* are loaded for every property that uses the package.
	res := map[string][]string{}
	lp := strings.ToLower(prop)
	for pk, fs := range out {
		use := false
		for _, f := range fs {
			for _, part := range strings.Split(strings.TrimSuffix(filepath.Base(f), ".go"), "_") {
				if part == lp {
					use = true
				}
			}
		}
		if !use {
			continue
		}
		for _, f := range fs {
			b := filepath.Base(f)
			ok := strings.HasPrefix(b, "common")
			for _, part := range strings.Split(strings.TrimSuffix(b, ".go"), "_") {
				if part == lp {
					ok = true
				}
			}
			if ok {
				res[pk] = append(res[pk], f)
			}
		}
	}
	// common files of packages that other loaded packages' contracts import
	for pk, fs := range out {
		if _, ok := res[pk]; ok {
			continue
		}
		for _, f := range fs {
			if strings.HasPrefix(filepath.Base(f), "common_shared") {
				res[pk] = append(res[pk], f)
			}
		}
	}
	return res
}

func overlayFor(files map[string][]string) map[string]string {
	ov := map[string]string{filepath.Join(repoDir, "internal/vc/vc.go"): filepath.Join(verifDir, "gvc/vcrt/vc.go")}
	for pk, fs := range files {
		for _, f := range fs {
			ov[filepath.Join(repoDir, pk, "zz_vc_"+filepath.Base(f))] = f
		}
	}
	return ov
}

type loadError struct{ msg string }

func (e loadError) Error() string { return e.msg }

func load(prop string) (*Project, error) {
	files := contractFiles(prop)
	if len(files) == 0 {
		return nil, fmt.Errorf("no contract files for %s", prop)
	}
	ov := overlayFor(files)
	content := map[string][]byte{}
	for k, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		content[k] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule | packages.NeedTypesSizes,
		Dir:     repoDir,
		Overlay: content,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0"),
	}
	var pats []string
	seen := map[string]bool{}
	for pk := range files {
		pats = append(pats, "./"+pk)
		seen[pk] = true
	}
	sort.Strings(pats)
	// everything in the module these packages depend on is loaded from source
	pats = append(pats, "./internal/vc", "sort", "math", "io")
	deps, err := moduleDeps(pats, ov)
	if err != nil {
		return nil, err
	}
	for _, d := range deps {
		pats = append(pats, d)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, loadError{strings.Join(errs, "\n")}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	_ = spkgs
	prog.Build()
	p := &Project{prog: prog, pkgs: pkgs, sums: map[string]*ssa.Function{}, tpls: map[string][]*Template{}, pure: map[string]bool{}, closed: map[string][]types.Type{}, closedDecl: map[string][]string{},
		unrollFn: map[string]int{}, inlineStd: map[string]bool{"sort.Search": true, "io.ReadFull": true, "io.ReadAtLeast": true}, ctrFile: map[string]bool{}, closures: map[*Term]FuncVal{}, funcIDs: map[*ssa.Function]int{}, subTags: map[string]int{}, tags: map[string]int{},
		overlay: ov}
	for k := range ov {
		p.ctrFile[k] = true
	}
	for _, pk := range pkgs {
		p.directives(pk)
	}
	sort.Slice(p.contracts, func(i, j int) bool { return p.contracts[i].name < p.contracts[j].name })
	p.scanGlobals()
	for k, ns := range p.closedDecl {
		I := p.lookupType(k)
		if I == nil {
			return nil, fmt.Errorf("vc:closed: no type %s", k)
		}
		for _, n := range ns {
			T := p.lookupType(n)
			if T == nil {
				return nil, fmt.Errorf("vc:closed: no type %s", n)
			}
			p.closed[typeKey(I)] = append(p.closed[typeKey(I)], T)
		}
	}
	return p, nil
}

// moduleDeps lists the packages of the module that the patterns depend on.
func moduleDeps(pats []string, ov map[string]string) ([]string, error) {
	ovb := map[string][]byte{}
	for k, src := range ov {
		b, _ := os.ReadFile(src)
		ovb[k] = b
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedImports | packages.NeedDeps, Dir: repoDir, Overlay: ovb,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var out []string
	packages.Visit(ps, func(p *packages.Package) bool {
		if strings.HasPrefix(p.PkgPath, modPath) {
			out = append(out, p.PkgPath)
		}
		return true
	}, nil)
	sort.Strings(out)
	return out, nil
}

func (p *Project) lookupType(n string) types.Type {
	ptr := strings.HasPrefix(n, "*")
	n = strings.TrimPrefix(n, "*")
	i := strings.LastIndex(n, ".")
	for _, pk := range p.pkgs {
		if pk.Name == n[:i] || pk.PkgPath == n[:i] {
			if o := pk.Types.Scope().Lookup(n[i+1:]); o != nil {
				if ptr {
					return types.NewPointer(o.Type())
				}
				return o.Type()
			}
		}
	}
	return nil
}

func (p *Project) directives(pk *packages.Package) {
	for _, f := range pk.Syntax {
		name := pk.Fset.Position(f.Pos()).Filename
		if !p.ctrFile[name] {
			continue
		}
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				fs := strings.Fields(strings.TrimPrefix(c.Text, "//"))
				if len(fs) == 0 {
					continue
				}
				switch fs[0] {
				case "vc:pure":
					for _, k := range fs[1:] {
						p.pure[k] = true
					}
				case "vc:closed":
					p.closedDecl[fs[1]] = append(p.closedDecl[fs[1]], fs[2:]...)
				case "vc:unroll":
					// vc:unroll N pkg.Fn...: the loops of Fn end within N
					// iterations, which is an obligation
					n := 0
					fmt.Sscan(fs[1], &n)
					for _, k := range fs[2:] {
						p.unrollFn[k] = n
					}
				case "vc:inline":
					for _, k := range fs[1:] {
						p.inlineStd[k] = true
					}
				case "vc:guard":
					// vc:guard pkg.Type mu field...
					p.guards = append(p.guards, guardDecl{typ: fs[1], mu: fs[2], fields: fs[3:]})
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				fs := strings.Fields(strings.TrimPrefix(c.Text, "//"))
				if len(fs) == 0 {
					continue
				}
				switch fs[0] {
				case "vc:contract":
					obj := pk.TypesInfo.Defs[fd.Name].(*types.Func)
					ct := &Contract{name: pk.Name + "." + strings.TrimPrefix(fd.Name.Name, "ctr_"), fn: p.prog.FuncValue(obj), pkg: pk, file: name, opts: map[string]string{}}
					for _, kv := range fs[1:] {
						k, v, _ := strings.Cut(kv, "=")
						if k == "props" {
							ct.props = strings.Split(v, ",")
						} else {
							ct.opts[k] = v
						}
					}
					p.contracts = append(p.contracts, ct)
				case "vc:summary":
					obj := pk.TypesInfo.Defs[fd.Name].(*types.Func)
					p.sums[fs[1]] = p.prog.FuncValue(obj)
				case "vc:loop":
					obj := pk.TypesInfo.Defs[fd.Name].(*types.Func)
					t := &Template{name: fd.Name.Name, fn: p.prog.FuncValue(obj)}
					for _, a := range fs[1:] {
						switch a {
						case "nested":
							t.nested = true
						case "top":
							t.top = true
						default:
							t.target = append(t.target, a)
							p.tpls[a] = append(p.tpls[a], t)
						}
					}
				}
			}
		}
	}
}

func (p *Project) isContractFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pos().IsValid() {
		return p.ctrFile[p.prog.Fset.Position(fn.Pos()).Filename]
	}
	return false
}

// fnKey: pkg.Type.Method or pkg.Func
func (p *Project) fnKey(fn *ssa.Function) string {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	suf := ""
	if f.Parent() != nil {
		i := strings.LastIndex(f.Name(), "$")
		suf = f.Name()[i:]
		if i < 0 {
			suf = "$"
		}
		return p.fnKey(f.Parent()) + suf
	}
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Name()
			}
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

func (p *Project) subTag(name string) int {
	if t, ok := p.subTags[name]; ok {
		return t
	}
	p.subTags[name] = len(p.subTags) + 1
	return p.subTags[name]
}

func (p *Project) funcID(fn *ssa.Function) int {
	if id, ok := p.funcIDs[fn]; ok {
		return id
	}
	p.funcs = append(p.funcs, fn)
	p.funcIDs[fn] = len(p.funcs)
	return len(p.funcs)
}

func (p *Project) funcByID(id int) *ssa.Function {
	if id > 0 && id <= len(p.funcs) {
		return p.funcs[id-1]
	}
	return nil
}

func (p *Project) typeTag(T types.Type) int {
	k := types.TypeString(T, nil)
	if t, ok := p.tags[k]; ok {
		return t
	}
	p.tagTypes = append(p.tagTypes, T)
	p.tags[k] = len(p.tagTypes)
	return len(p.tagTypes)
}

func (p *Project) implPred(x *Exec, tag *Term, iface *types.Interface, key string) *Term {
	t := mkUF("implements@"+key, "Bool", tag)
	for i, T := range p.tagTypes {
		f := mkUF("implements@"+key, "Bool", mkInt(int64(i+1)))
		if !types.Implements(T, iface) {
			f = tNot(f)
		}
		addTermFact(t, f)
	}
	return t
}

func (p *Project) templates(fn *ssa.Function, c *Contract) []*Template {
	var out []*Template
	out = append(out, p.tpls[p.fnKey(fn)]...)
	return out
}

func (p *Project) method(T types.Type, m *types.Func) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(T)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Project) dynPure(sig *types.Signature, c *Contract) bool {
	return sig.Results().Len() > 0 && c.opts["callbacks"] != "none"
}

// applyContract returns the summary that stands in for calls of fn in the
// contract being checked: contracts name the callees they use by contract
// (use=pkg.Fn), and a contract of the same property proves the summary
// (proves=pkg.Fn).
func (p *Project) applyContract(fn *ssa.Function, x *Exec) *ssa.Function {
	if x.c == nil || x.c.opts["use"] == "" {
		return nil
	}
	key := p.fnKey(fn)
	for _, u := range strings.Split(x.c.opts["use"], ",") {
		if u != key {
			continue
		}
		sum := p.sums[key]
		if sum == nil {
			unsup("no summary of %s", key)
		}
		for _, c := range p.contracts {
			if c.opts["proves"] == key && shareProp(c.props, x.c.props) {
				return sum
			}
		}
		unsup("no contract proves the summary of %s", key)
	}
	return nil
}

func shareProp(a, b []string) bool {
	for _, x := range b {
		found := false
		for _, y := range a {
			found = found || x == y
		}
		if !found {
			return false
		}
	}
	return true
}

// ---- package-level variables ----

func (p *Project) scanGlobals() {
	p.gstores = map[*ssa.Global][]ssa.Value{}
	p.gescape = map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg == nil && fn.Parent() == nil && fn.Origin() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var rands [12]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == ssa.Value(g) {
							p.gstores[g] = append(p.gstores[g], in.Val)
							if fn.Name() != "init" || fn.Synthetic == "" {
								p.gescape[g] = true
							}
							continue
						}
						p.gescape[g] = true
					case *ssa.UnOp:
						// a load: the value must not be written through
						if !readOnly(in, 0) {
							p.gescape[g] = true
						}
					case *ssa.DebugRef:
					case *ssa.IndexAddr, *ssa.FieldAddr:
						if !(fn.Name() == "init" && fn.Synthetic != "") && !addrReadOnly(in.(ssa.Value), 0) {
							p.gescape[g] = true
						}
					default:
						p.gescape[g] = true
					}
				}
			}
		}
	}
}

// readOnly: a loaded slice/map/pointer value is only read.
func readOnly(v ssa.Value, d int) bool {
	switch v.Type().Underlying().(type) {
	case *types.Basic, *types.Interface, *types.Signature:
		return true
	case *types.Struct, *types.Array:
		return true
	}
	if d > 4 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if !addrReadOnly(r, d+1) {
				return false
			}
		case *ssa.FieldAddr:
			if !addrReadOnly(r, d+1) {
				return false
			}
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.BinOp:
		case *ssa.Phi:
			return false
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			return false
		case *ssa.Slice:
			if !readOnly(r, d+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func addrReadOnly(v ssa.Value, d int) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if !readOnly(r, d+1) {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !addrReadOnly(r, d+1) {
				return false
			}
		case *ssa.IndexAddr:
			if !addrReadOnly(r, d+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// globalInit returns the value of a package-level variable that is assigned
// once, by its initialiser, and never written through.
func (p *Project) globalInit(x *Exec, g *ssa.Global) *Value {
	if p.gescape[g] {
		return nil
	}
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return nil
	}
	T := g.Type().Underlying().(*types.Pointer).Elem()
	st := p.gstores[g]
	if len(st) == 0 {
		if isStruct(T) || isArray(T) {
			return nil
		}
		v := zeroValue(T)
		return &v
	}
	if len(st) != 1 {
		return nil
	}
	switch v := st[0].(type) {
	case *ssa.Const:
		r := x.constVal(v)
		return &r
	case *ssa.Function:
		return &Value{typ: T, fns: []FuncVal{{fn: v}}}
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil
		}
		at := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if isStruct(at.Elem()) || isArray(at.Elem()) || len(comps(at.Elem())) != 1 {
			return nil
		}
		blk := namedSym("gdata@"+g.Pkg.Pkg.Name()+"."+g.Name(), "Int")
		blk.blkKind = 2
		c := comps(at.Elem())[0]
		in := tSelect(heapInit(elemRegion(at.Elem())+"#"+c.name, mapSort2(c.sort)), blk)
		vals := map[int64]ssa.Value{}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, q := range *ia.Referrers() {
				if s, ok := q.(*ssa.Store); ok {
					vals[k.Int64()] = s.Val
				}
			}
		}
		for i := int64(0); i < at.Len(); i++ {
			val := zeroValue(at.Elem())
			if e, ok := vals[i]; ok {
				k, ok := e.(*ssa.Const)
				if !ok {
					return nil
				}
				val = x.constVal(k)
			}
			addTermFact(blk, tEq(tSelect(in, mkInt(i)), val.c[0]))
		}
		n := mkInt(at.Len())
		return &Value{typ: T, c: []*Term{blk, tZero, n, n}}
	case *ssa.Call:
		if fn := v.Call.StaticCallee(); fn != nil && (fullName(fn) == "errors.New" || fullName(fn) == "fmt.Errorf") {
			blk := namedSym("gerr@"+g.Pkg.Pkg.Name()+"."+g.Name(), "Int")
			blk.blkKind = 2
			return &Value{typ: T, c: []*Term{mkInt(int64(p.errTag())), blk, tZero}}
		}
	}
	return nil
}

var errStringType = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil))

func (p *Project) errTag() int { return p.typeTag(errStringType) }

func constString(c *ssa.Const) string {
	if c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

var allFnsCache map[*ssa.Function]bool

func (p *Project) allFns() map[*ssa.Function]bool {
	if allFnsCache == nil {
		allFnsCache = ssautil.AllFunctions(p.prog)
	}
	return allFnsCache
}
