package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- known findings ----

type finding struct{ prop, ob, text string }

// loadFindings reads known_findings.txt: lines
//
//	finding: property=C00 obligation="<name>" <what fails>
//	fixed: property=C00 <commit> <what failed>
func loadFindings(prop string) []finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		if !strings.HasPrefix(l, "property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "property="+prop+" ")
		if !strings.HasPrefix(l, `obligation="`) {
			continue
		}
		l = strings.TrimPrefix(l, `obligation="`)
		i := strings.Index(l, `"`)
		if i < 0 {
			continue
		}
		out = append(out, finding{prop, l[:i], strings.TrimSpace(l[i+1:])})
	}
	return out
}

// ---- replay on the real code ----

type Outcome struct {
	Contract string
	Seed     uint64
	Name     string
	Detail   string
	Input    []string
}
type replayReport struct {
	Outcome *Outcome
	Name    string
	Ran     int
	Skipped int
	Millis  int64
}

type rcContract struct {
	Name   string
	Seeds  []uint64
	N      int
	Base   uint64
	Ints   []int64
	Floats []float64
	Millis int
}

func parseInts(ss []string) []int64 {
	var out []int64
	for _, s := range ss {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			out = append(out, v)
		} else if u, err := strconv.ParseUint(s, 10, 64); err == nil {
			out = append(out, int64(u))
		}
	}
	return out
}
func parseFloats(ss []string) []float64 {
	var out []float64
	for _, s := range ss {
		if v, err := strconv.ParseFloat(s, 64); err == nil && !math.IsInf(v, 0) && !math.IsNaN(v) {
			out = append(out, v)
		}
	}
	return out
}

// driver writes the generated test file of a package.
func (p *Project) driver(pkgPath string) (string, error) {
	var b bytes.Buffer
	for _, pk := range p.pkgs {
		if pk.PkgPath != pkgPath {
			continue
		}
		fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s\"\n)\n\nfunc TestVCReplay(t *testing.T) {\n\tvc.Main([]vc.Ctr{\n", pk.Name, vcPath)
		ctrNames := map[string]bool{}
		for _, c := range p.contracts {
			if c.pkg != pk {
				continue
			}
			ctrNames[strings.TrimPrefix(c.fn.Name(), "ctr_")] = true
			var ps []string
			for _, q := range c.fn.Params {
				ps = append(ps, strconv.Quote(q.Name()))
			}
			fmt.Fprintf(&b, "\t\t{Name: %q, F: %s, Params: []string{%s}},\n", c.name, c.fn.Name(), strings.Join(ps, ", "))
		}
		var gens, over []string
		for _, f := range pk.Syntax {
			if !p.ctrFile[pk.Fset.Position(f.Pos()).Filename] {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "gen_") {
					continue
				}
				rest := strings.TrimPrefix(fd.Name.Name, "gen_")
				i := strings.LastIndex(rest, "_")
				if i > 0 && ctrNames[rest[:i]] {
					over = append(over, fmt.Sprintf("%q: %s", pk.Name+"."+rest[:i]+"/"+rest[i+1:], fd.Name.Name))
				} else {
					gens = append(gens, fd.Name.Name)
				}
			}
		}
		fmt.Fprintf(&b, "\t}, []any{%s}, map[string]any{%s})\n}\n", strings.Join(gens, ", "), strings.Join(over, ", "))
	}
	return b.String(), nil
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GO") {
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.24.13/bin/go"); err == nil {
		path = "/opt/veriftools/go1.24.13/bin:" + path
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	return append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOCACHE="+filepath.Join(home, ".cache/go-build"), "GOPATH="+filepath.Join(home, "go"), "CGO_ENABLED=0")
}

// replay runs contracts of one package on the real code.
func (p *Project) replay(pkgPath string, cs []rcContract, hang int) ([]replayReport, string) {
	dir, err := os.MkdirTemp("", "gvc-replay")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(dir)
	src, _ := p.driver(pkgPath)
	drv := filepath.Join(dir, "driver_test.go")
	os.WriteFile(drv, []byte(src), 0o644)
	rel := strings.TrimPrefix(strings.TrimPrefix(pkgPath, modPath), "/")
	repl := map[string]string{filepath.Join(repoDir, rel, "zz_vc_driver_test.go"): drv}
	for k, v := range p.overlay {
		repl[k] = v
	}
	// the package's own tests are left out
	if fs, err := filepath.Glob(filepath.Join(repoDir, rel, "*_test.go")); err == nil {
		for _, f := range fs {
			repl[f] = ""
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	out := filepath.Join(dir, "out.json")
	total := 60
	for _, c := range cs {
		total += c.Millis/1000 + 1
	}
	cfg, _ := json.Marshal(map[string]any{"Contracts": cs, "HangSeconds": hang, "Out": out})
	cfgf := filepath.Join(dir, "cfg.json")
	os.WriteFile(cfgf, cfg, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(total+60)*time.Second)
	defer cancel()
	args := []string{"test", "-overlay", ovf, "-run", "^TestVCReplay$", "-vet=off", "-count=1", fmt.Sprintf("-timeout=%ds", total+30)}
	if t := os.Getenv("GVC_TAGS"); t != "" {
		args = append(args, "-tags", t)
	}
	race := p.anyRace(cs)
	limit := `ulimit -v 12000000; exec go "$@"`
	if race {
		args = append(args, "-race")
		limit = `exec go "$@"` // the race detector reserves address space
	}
	cmd := exec.CommandContext(ctx, "bash", append([]string{"-c", limit, "go"}, append(args, "./"+rel)...)...)
	cmd.Dir = repoDir
	cmd.Env = append(goEnv(), "VC_CFG="+cfgf, "GOMEMLIMIT=4GiB", "TMPDIR="+dir)
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1", "GORACE=log_path="+filepath.Join(dir, "race")+" exitcode=0 history_size=3")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	log, _ := cmd.CombinedOutput()
	b, err := os.ReadFile(out)
	if err != nil && !race {
		return nil, string(log)
	}
	var rs []replayReport
	if err == nil {
		if err := json.Unmarshal(b, &rs); err != nil {
			return nil, err.Error()
		}
	}
	if race {
		rs = p.races(pkgPath, cs, rs, dir, string(log))
	}
	return rs, string(log)
}

func (p *Project) anyRace(cs []rcContract) bool {
	if _, err := exec.LookPath("gcc"); err != nil {
		return false
	}
	for _, c := range p.contracts {
		for _, q := range cs {
			if c.opts["race"] != "" && c.name == q.Name {
				return true
			}
		}
	}
	return false
}

var raceCtr = regexp.MustCompile(`\bctr_(\w+)`)

// races adds what the race detector reported to the outcomes of the contracts.
func (p *Project) races(pkgPath string, cs []rcContract, rs []replayReport, dir, log string) []replayReport {
	text := ""
	if fs, err := filepath.Glob(filepath.Join(dir, "race.*")); err == nil {
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			text += string(b) + "\n"
		}
	}
	add := func(name, what, detail string) {
		for _, q := range cs {
			if q.Name[strings.LastIndex(q.Name, ".")+1:] != name {
				continue
			}
			var r *replayReport
			for i := range rs {
				if rs[i].Name == q.Name {
					r = &rs[i]
				}
			}
			if r == nil {
				rs = append(rs, replayReport{Name: q.Name})
				r = &rs[len(rs)-1]
			}
			if r.Outcome == nil {
				r.Outcome = &Outcome{Contract: q.Name, Name: what, Detail: detail}
			}
		}
	}
	for _, rep := range strings.Split(text, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		if m := raceCtr.FindStringSubmatch(rep); m != nil {
			add(m[1], "no data race", firstLines(strings.TrimSpace(rep), 40))
		}
	}
	if i := strings.Index(log, "fatal error: "); i >= 0 {
		if m := raceCtr.FindStringSubmatch(log[i:]); m != nil {
			add(m[1], "no fatal runtime error", firstLines(log[i:], 40))
		}
	}
	return rs
}

func modelSeeds(seed uint64) []uint64 { return nil }

func (p *Project) rc(c *Contract, r *CtrResult, n, millis int) rcContract {
	q := rcContract{Name: c.name, N: n, Base: seedBase() + 1, Millis: millis}
	if r != nil {
		q.Ints = append(q.Ints, parseInts(r.Ints)...)
		q.Floats = append(q.Floats, parseFloats(r.Floats)...)
	}
	return q
}

func seedBase() uint64 {
	s, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	return s * 1000003
}

// ---- check ----

func (p *Project) propContracts(prop string) []*Contract {
	var out []*Contract
	for _, c := range p.contracts {
		for _, q := range c.props {
			if q == prop {
				out = append(out, c)
			}
		}
	}
	return out
}

func runProve1(prop, name string, scale int, limit time.Duration) *CtrResult {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "prove1", prop, name)
	cmd.Env = append(os.Environ(), "GVC_SCALE="+strconv.Itoa(scale))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			var r CtrResult
			if json.Unmarshal([]byte(l[7:]), &r) == nil {
				return &r
			}
		}
	}
	why := "the verifier gave no answer within its time limit"
	if ctx.Err() == nil && err != nil {
		why = "the verifier ended abnormally: " + firstLines(stderr.String(), 6)
	}
	return &CtrResult{Contract: name, Unsupported: why}
}

func (r *CtrResult) failed() []ObResult {
	var out []ObResult
	if r.Unsupported != "" {
		out = append(out, ObResult{Name: r.Contract + "/verification conditions are generated", Kind: "unsupported", Status: "failed", Reason: r.Unsupported})
	}
	for _, o := range r.Obs {
		if o.Status != "discharged" {
			out = append(out, o)
		}
	}
	return out
}

func timedOut(fs []ObResult) bool {
	for _, f := range fs {
		if f.Kind == "unsupported" || (f.Reason != "sat" && f.Kind != "reach") {
			return true
		}
	}
	return false
}

func check(prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	thorough := tier == "thorough"
	deadline := t0.Add(480 * time.Second)
	if thorough {
		deadline = t0.Add(40 * time.Minute)
	}
	repDir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof"}
	writeEv := func(cov map[string]any, assumptions []string, violations int) {
		ev["coverage"] = cov
		ev["assumptions"] = assumptions
		ev["violations"] = violations
		ev["wall_s"] = math.Round(time.Since(t0).Seconds()*100) / 100
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}
	p, err := load(prop)
	if err != nil {
		f := filepath.Join(repDir, prop+"-load.json")
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "obligation": "the contracts type-check against the code", "verifier_output": err.Error()}, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Println("the contracts do not type-check against /repo:", firstLines(err.Error(), 10))
		writeEv(map[string]any{"obligations": 1, "discharged": 0, "checker_cmd": "gvc check " + prop, "trusted_base": trustedBase}, nil, 1)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, f)
		return 1
	}
	cs := p.propContracts(prop)
	if len(cs) == 0 {
		fmt.Fprintln(os.Stderr, "no contracts for", prop)
		return 2
	}
	// prove
	results := make([]*CtrResult, len(cs))
	var idx []int
	for i, c := range cs {
		if c.opts["bounded"] == "" {
			idx = append(idx, i)
		}
	}
	parallel(len(idx), 3, func(k int) {
		i := idx[k]
		left := time.Until(deadline)
		if left < 5*time.Second {
			results[i] = &CtrResult{Contract: cs[i].name, Unsupported: "not attempted: time budget of the check used up"}
			return
		}
		lim := 200 * time.Second
		if thorough {
			lim = 900 * time.Second
		}
		if lim > left {
			lim = left
		}
		results[i] = runProve1(prop, cs[i].name, 1, lim)
	})
	known := loadFindings(prop)
	isKnown := func(ob string) *finding {
		for i := range known {
			if known[i].ob == ob || strings.HasPrefix(ob, known[i].ob+"#") {
				return &known[i]
			}
		}
		return nil
	}
	usedKnown := map[*finding]bool{}
	var badC []int
	scan := func() {
		badC = nil
		for _, i := range idx {
			bad := false
			for _, f := range results[i].failed() {
				if k := isKnown(f.Name); k != nil {
					usedKnown[k] = true
				} else {
					bad = true
				}
			}
			if bad {
				badC = append(badC, i)
			}
		}
	}
	scan()
	// replay
	var outcomes []*Outcome
	reports := map[string]*replayReport{}
	replayLog := ""
	runReplay := func(is []int, millis, n int) {
		by := map[string][]rcContract{}
		for _, i := range is {
			c := cs[i]
			if c.opts["lock"] != "" {
				continue // says nothing about what a single execution does
			}
			by[c.pkg.PkgPath] = append(by[c.pkg.PkgPath], p.rc(c, results[i], n, millis))
		}
		var pks []string
		for k := range by {
			pks = append(pks, k)
		}
		sort.Strings(pks)
		var mu sync.Mutex
		parallel(len(pks), 4, func(k int) {
			rs, log := p.replay(pks[k], by[pks[k]], 10)
			mu.Lock()
			defer mu.Unlock()
			if rs == nil {
				replayLog += log
			}
			for i := range rs {
				r := rs[i]
				reports[r.Name] = &r
				if r.Outcome != nil && isKnown(r.Outcome.Contract+"/"+r.Outcome.Name) == nil {
					outcomes = append(outcomes, r.Outcome)
				}
			}
		})
	}
	var bounded []int
	for i, c := range cs {
		if c.opts["bounded"] != "" {
			bounded = append(bounded, i)
		}
	}
	if len(bounded) > 0 {
		ms := 6000
		if thorough {
			ms = 60000
		}
		runReplay(bounded, ms, 1<<30)
	}
	if len(badC) > 0 && len(outcomes) == 0 {
		ms := 60000 / len(badC)
		if ms < 4000 {
			ms = 4000
		}
		if ms > 30000 {
			ms = 30000
		}
		runReplay(badC, ms, 1<<30)
		if len(outcomes) == 0 {
			// the broken code may show at another contract of the property
			var all []int
			for _, i := range idx {
				all = append(all, i)
			}
			runReplay(all, 3000, 1<<30)
		}
		if len(outcomes) == 0 {
			// rule out a solver that ran short of time
			var again []int
			for _, i := range badC {
				if (timedOut(results[i].failed()) || results[i].Dropped > 0) && !strings.Contains(results[i].Unsupported, "unsupported:") {
					again = append(again, i)
				}
			}
			parallel(len(again), 2, func(k int) {
				i := again[k]
				left := time.Until(deadline.Add(150 * time.Second))
				if left < 20*time.Second {
					return
				}
				r := runProve1(prop, cs[i].name, 3, left)
				if r.Unsupported == "" || results[i].Unsupported != "" {
					results[i] = r
				}
			})
			scan()
		}
	} else if thorough && len(outcomes) == 0 {
		// cross-check of the verifier: proved contracts also run on concrete inputs
		runReplay(idx, 20000, 1<<30)
	}
	// evidence
	obs, dis := 0, 0
	solvers := map[string]int{}
	var solverMS int64
	fns, assumes, used := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var ctrInfo []map[string]any
	for i, c := range cs {
		r := results[i]
		if r == nil {
			m := map[string]any{"contract": c.name, "status": "bounded (concrete executions only, not counted as proved)"}
			if rp := reports[c.name]; rp != nil {
				m["executions"] = rp.Ran
				m["skipped_by_precondition"] = rp.Skipped
			}
			ctrInfo = append(ctrInfo, m)
			continue
		}
		d, f := 0, r.failed()
		for _, o := range r.Obs {
			obs++
			if o.Status == "discharged" {
				dis++
				d++
				solvers[o.Solver]++
			}
		}
		if r.Unsupported != "" {
			obs++
		}
		for _, v := range r.SolverMS {
			solverMS += v
		}
		for _, k := range r.Functions {
			fns[k] = true
		}
		for _, k := range r.Assumes {
			assumes[k] = true
		}
		for _, k := range r.Used {
			used[k] = true
		}
		m := map[string]any{"contract": c.name, "discharged": d, "failed": len(f), "loops": r.Loops, "loop_invariants": len(r.Invariants), "invariant_candidates": r.Candidates, "end": r.Reach, "wall_ms": r.WallMS}
		if rp := reports[c.name]; rp != nil {
			m["concrete_executions"] = rp.Ran
			m["concrete_skipped_by_precondition"] = rp.Skipped
		}
		ctrInfo = append(ctrInfo, m)
	}
	cov := map[string]any{
		"obligations": obs, "discharged": dis,
		"checker_cmd":           "bash /verif/run.sh " + prop,
		"trusted_base":          trustedBase,
		"functions_under_proof": keys(fns),
		"library_models_used":   keys(used),
		"contracts":             ctrInfo,
		"discharged_by":         solvers,
		"solver_ms":             solverMS,
		"bounded_contracts":     len(bounded),
	}
	as := append(keys(assumes), p.assumptionText(cs)...)
	vio := 0
	var lines []string
	for k := range usedKnown {
		lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s (obligation %q)", prop, k.text, k.ob))
	}
	sort.Strings(lines)
	for _, l := range lines {
		fmt.Println(l)
	}
	real := outcomes
	if len(badC) > 0 || len(real) > 0 {
		vio = 1
		var failed []ObResult
		for _, i := range badC {
			for _, f := range results[i].failed() {
				if isKnown(f.Name) == nil {
					failed = append(failed, f)
				}
			}
		}
		rec := map[string]any{"property": prop, "failed_obligations": failed}
		name := "bounded"
		if len(badC) > 0 {
			name = cs[badC[0]].name
		}
		suffix := " no-failing-input-found"
		if len(real) > 0 {
			o := real[0]
			name = o.Contract
			suffix = ""
			rec["failing_input"] = o
			rec["replay_cmd"] = fmt.Sprintf("VC_SEED=%d bash /verif/run.sh replay %s %s", o.Seed, prop, o.Contract)
			for i, c := range cs {
				if c.name == o.Contract && results[i] != nil {
					rec["ints"] = results[i].Ints
					rec["floats"] = results[i].Floats
				}
			}
		} else if replayLog != "" {
			rec["replay_log"] = firstLines(replayLog, 30)
		}
		f := filepath.Join(repDir, prop+"-"+name+".json")
		b, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
		for k, o := range failed {
			if k > 12 {
				fmt.Printf("  ... %d more\n", len(failed)-k)
				break
			}
			fmt.Printf("  failed obligation %q in %s: %s\n", o.Name, o.Fn, firstLines(o.Reason, 2))
		}
		for _, o := range real {
			fmt.Printf("  failing input: contract %s, %q does not hold, seed %d, %s\n    input: %s\n", o.Contract, o.Name, o.Seed, o.Detail, clip(strings.Join(o.Input, " "), 400))
		}
		writeEv(cov, as, vio)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, f, suffix)
		return 1
	}
	writeEv(cov, as, 0)
	fmt.Printf("%s: %d contracts, %d obligations, %d discharged, %d functions, %.1f s\n", prop, len(cs), obs, dis, len(fns), time.Since(t0).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

var trustedBase = []string{
	"gvc: translation of go/ssa to verification conditions, simplifier and VC printer (/verif/gvc)",
	"golang.org/x/tools/go/ssa and go/packages (front end)",
	"SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2: one answer 'unsat' discharges an obligation",
	"float32/float64 arithmetic: axioms of IEEE-754 (rounding error bounds, monotonicity, special values), /verif/gvc/float.go",
	"models of the Go standard library functions listed under library_models_used, /verif/gvc/lib.go",
	"the Go compiler and runtime; slices and strings shorter than 2^40 elements",
}

func (p *Project) assumptionText(cs []*Contract) []string {
	return []string{
		"representation invariants (vc.Inv) are assumed at entry and re-established by every contract of the type",
		"parameters of different Go types do not overlap through unsafe",
	}
}

// replayCmd runs contracts concretely; development aid and replay of findings.
func replayCmd(prop, pat string) int {
	p, err := load(prop)
	die(err)
	by := map[string][]rcContract{}
	ms := 3000
	if v, err := strconv.Atoi(os.Getenv("VC_MS")); err == nil {
		ms = v
	}
	for _, c := range p.propContracts(prop) {
		if !strings.Contains(c.name, pat) {
			continue
		}
		var pool *CtrResult
		if os.Getenv("VC_POOL") != "" {
			x, _ := p.run(c, map[string]bool{}, false)
			if x != nil {
				pool = &CtrResult{}
				pool.Ints, pool.Floats = p.constPool(x)
			}
		}
		q := p.rc(c, pool, 1<<30, ms)
		if s, err := strconv.ParseUint(os.Getenv("VC_SEED"), 10, 64); err == nil {
			q.Seeds = []uint64{s}
			q.N = 0
		}
		by[c.pkg.PkgPath] = append(by[c.pkg.PkgPath], q)
	}
	rc := 0
	for pk, l := range by {
		rs, log := p.replay(pk, l, 10)
		if rs == nil {
			fmt.Println(log)
			rc = 1
		}
		for _, r := range rs {
			if r.Outcome == nil {
				fmt.Printf("ok   %-40s %d runs, %d skipped, %d ms\n", r.Name, r.Ran, r.Skipped, r.Millis)
			} else {
				rc = 1
				fmt.Printf("FAIL %-40s run %d: %q %s seed %d\n     %s\n", r.Name, r.Ran, r.Outcome.Name, r.Outcome.Detail, r.Outcome.Seed, clip(strings.Join(r.Outcome.Input, " "), 600))
			}
		}
	}
	return rc
}
