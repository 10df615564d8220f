package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	fnsel := flag.String("fn", "", "verify only contracts whose name contains this")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.BoolVar(&debugPanics, "dbg", false, "debug panics")
	dump := flag.String("dump", "", "dump queries of failing obligations to this directory")
	ssaf := flag.Bool("ssa", false, "print SSA")
	cache := flag.String("cache", "", "solver cache directory (development only)")
	prop := flag.String("prop", "", "decide this property (or ALL) and write a report")
	jsonOut := flag.String("json", "", "where to write the report")
	budget := flag.Duration("budget", 0, "time budget")
	flag.BoolVar(&noRetry, "noretry", false, "no second attempt with unguided invariants")
	hurry := flag.String("hurry", "", "when this file appears only 45 s are left (a failing input is known, the verdict is settled)")
	flag.BoolVar(&debugEmit, "emit", false, "explain broken texts")
	flag.Parse()
	if *hurry != "" {
		go func() {
			for {
				time.Sleep(500 * time.Millisecond)
				if _, err := os.Stat(*hurry); err == nil {
					noRetry = true
					d := time.Now().Add(45 * time.Second)
					if deadline.IsZero() || d.Before(deadline) {
						deadline = d
					}
					return
				}
			}
		}()
	}
	if *budget > 0 {
		deadline = time.Now().Add(*budget)
	}
	cacheDir = *cache
	dumpDrops = *dump
	p, err := LoadProgram(*repo)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	p.Specs = LoadSpecs(*specs)
	if *prop != "" {
		os.Exit(runCheck(p, *prop, *jsonOut))
	}
	for _, a := range p.Specs.Axioms {
		if a.Lemma && strings.Contains("lemma "+a.Name, *fnsel) {
			r := proveLemma(p, a)
			for _, o := range r.Obls {
				fmt.Printf("lemma %s: %s %s %.1fs\n", o.Name, o.Status, o.Solver, o.Secs)
				if *dump != "" && o.Status != "proved" {
					os.WriteFile(*dump+"/lemma-"+a.Name+".smt2", []byte(o.query), 0o644)
				}
			}
			if r.Unsupported != "" {
				fmt.Println("lemma", a.Name, r.Unsupported)
			}
		}
	}
	concurrentRoots = true
	names := append([]string{}, p.Specs.Order...)
	sort.Strings(names)
	bad := 0
	for _, n := range names {
		c := p.Specs.Contracts[n]
		if c.Kind != "func" || !strings.Contains(n, *fnsel) {
			continue
		}
		fn := p.Funcs[n]
		if fn == nil {
			fmt.Printf("MISSING %s\n", n)
			continue
		}
		if *ssaf {
			fn.WriteTo(os.Stdout)
		}
		r := VerifyFunction(p, c, fn, nil)
		np, nt := 0, 0
		for _, o := range r.Obls {
			switch o.Status {
			case "proved":
				np++
			case "trivial":
				nt++
			}
		}
		fmt.Printf("%-55s obls=%d proved=%d trivial=%d facts=%d dead=%d %.1fs %s %s\n", n, len(r.Obls), np, nt, r.NFacts, r.DeadReturns, r.Secs, r.Unsupported, r.Vacuous)
		if verbose {
			for _, i := range r.Invs {
				fmt.Println("    inv", i)
			}
		}
		for i, o := range r.Obls {
			if o.Status != "proved" && o.Status != "trivial" {
				bad++
				fmt.Printf("    %s %s %s [%s] %s %s\n", strings.ToUpper(o.Status), o.Kind, o.Name, o.Where, o.Src, o.Err)
				if *dump != "" {
					os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", *dump, strings.NewReplacer("(", "", ")", "", "*", "").Replace(n), i), []byte(o.query), 0o644)
					for k, q := range o.slices {
						os.WriteFile(fmt.Sprintf("%s/slice%d-%d.smt2", *dump, k, i), []byte(q), 0o644)
					}
				}
			}
		}
		if r.Unsupported != "" || r.Vacuous != "" {
			bad++
		}
	}
	fmt.Println("solver", solverTime.n, solverTime.m)
	if bad > 0 {
		os.Exit(1)
	}
}
