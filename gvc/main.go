package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

func main() {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: gvc check PROP | prove PROP [contract-substring] | prove1 PROP CONTRACT | list PROP | replay PROP [contract]")
		os.Exit(2)
	}
	prop := os.Args[2]
	switch os.Args[1] {
	case "list":
		p, err := load(prop)
		die(err)
		for _, c := range p.contracts {
			fmt.Println(c.name, c.props, c.opts)
		}
	case "ssa":
		p, err := load(prop)
		die(err)
		for f := range p.allFns() {
			if strings.Contains(p.fnKey(f), os.Args[3]) {
				f.WriteTo(os.Stdout)
			}
		}
	case "prove":
		p, err := load(prop)
		die(err)
		pat := ""
		if len(os.Args) > 3 {
			pat = os.Args[3]
		}
		workers = 8
		for _, c := range p.contracts {
			if !strings.Contains(c.name, pat) || c.opts["bounded"] != "" {
				continue
			}
			r := p.prove(c, os.Getenv("GVC_TRACE") != "")
			printResult(r, os.Getenv("GVC_V") != "")
		}
	case "prove1":
		p, err := load(prop)
		die(err)
		for _, c := range p.contracts {
			if c.name == os.Args[3] {
				r := p.prove(c, false)
				b, _ := json.Marshal(r)
				os.Stdout.Write(append([]byte("RESULT "), append(b, '\n')...))
				return
			}
		}
		os.Exit(3)
	case "check":
		os.Exit(check(prop))
	case "replay":
		pat := ""
		if len(os.Args) > 3 {
			pat = os.Args[3]
		}
		os.Exit(replayCmd(prop, pat))
	}
}

func printResult(r *CtrResult, verbose bool) {
	ok, bad := 0, 0
	for _, o := range r.Obs {
		if o.Status == "discharged" {
			ok++
		} else {
			bad++
		}
	}
	mark := "OK  "
	if bad > 0 || r.Unsupported != "" {
		mark = "FAIL"
	}
	fmt.Printf("%s %-40s %d discharged, %d failed, %d/%d invariants, reach: %s, %d ms\n", mark, r.Contract, ok, bad, len(r.Invariants), r.Candidates, r.Reach, r.WallMS)
	if r.Unsupported != "" {
		fmt.Println("     unsupported:", r.Unsupported)
	}
	for _, o := range r.Obs {
		if o.Status != "discharged" {
			fmt.Printf("     FAILED %s [%s] in %s: %s (%s %d ms)\n", o.Name, o.Kind, o.Fn, o.Reason, o.Solver, o.Ms)
		} else if verbose {
			fmt.Printf("     ok %s [%s] %s %d ms\n", o.Name, o.Kind, o.Solver, o.Ms)
		}
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gvc:", err)
		os.Exit(2)
	}
}
