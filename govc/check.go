package main

// Property checks: which contracts decide a property, and the report.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type oblJSON struct {
	Fn     string  `json:"function"`
	Name   string  `json:"name"`
	Kind   string  `json:"kind"`
	Where  string  `json:"where,omitempty"`
	Src    string  `json:"src,omitempty"`
	Status string  `json:"status"`
	Solver string  `json:"solver,omitempty"`
	Secs   float64 `json:"secs"`
	Out    string  `json:"solver_output,omitempty"`
	Query  string  `json:"-"`
}

type fnJSON struct {
	Name        string   `json:"name"`
	Role        string   `json:"role"` // root: states the property; callee: its contract is used
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Invariants  []string `json:"loop_invariants,omitempty"`
	Inlined     []string `json:"inlined,omitempty"`
	Problem     string   `json:"problem,omitempty"`
	Note        string   `json:"note,omitempty"`
	Secs        float64  `json:"secs"`
}

type report struct {
	Property    string             `json:"property"`
	Functions   []fnJSON           `json:"functions"`
	Obligations int                `json:"obligations"`
	Discharged  int                `json:"discharged"`
	ByKind      map[string]int     `json:"by_kind"`
	Posts       []oblJSON          `json:"property_obligations"`
	Failed      []oblJSON          `json:"failed"`
	Problems    []string           `json:"problems"`
	Trusted     []string           `json:"trusted"`
	Assumptions []string           `json:"assumptions"`
	SolverSecs  map[string]float64 `json:"solver_secs"`
	SolverRuns  map[string]int     `json:"solver_runs"`
	Wall        float64            `json:"wall_s"`
}

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

// dropUnusable removes contracts of unexported helpers whose function is
// gone or has another signature now: callers then inline what is there.
func (p *Program) dropUnusable() {
	for n, c := range p.Specs.Contracts {
		if c.Kind != "func" || !c.Internal {
			continue
		}
		fn := p.Funcs[n]
		if fn == nil {
			c.Inline = true
			continue
		}
		sig := fn.Signature
		np := sig.Params().Len()
		if sig.Recv() != nil {
			np++
		}
		if np != len(c.Params) || sig.Results().Len() != len(c.Results) {
			c.Inline = true
			c.Dropped = "signature changed"
		}
	}
}

var _ = types.Typ

func runCheck(p *Program, prop string, jsonOut string) int {
	t0 := time.Now()
	p.dropUnusable()
	concurrentRun = prop == "C16"
	concurrentRoots = prop == "ALL"
	rep := &report{Property: prop, ByKind: map[string]int{}}
	var roots []string
	for _, n := range p.Specs.Order {
		c := p.Specs.Contracts[n]
		if c.Kind != "func" {
			continue
		}
		if prop == "ALL" || hasTag(c.Tags, prop) || concurrentRun && c.Concurrent {
			roots = append(roots, n)
			continue
		}
		for _, en := range c.Ensures {
			if hasTag(en.Tags, prop) {
				roots = append(roots, n)
				break
			}
		}
	}
	type job struct {
		name string
		role string
	}
	results := map[string]*FnResult{}
	roles := map[string]string{}
	filters := map[string]func(*Obl) bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	trusted, assumed := map[string]bool{}, map[string]bool{}
	var launch func(n, role string)
	launch = func(n, role string) {
		mu.Lock()
		defer mu.Unlock()
		if _, ok := roles[n]; ok {
			return
		}
		roles[n] = role
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := p.Specs.Contracts[n]
			fn := p.Funcs[n]
			if fn == nil || c.Inline && c.Dropped != "" {
				mu.Lock()
				results[n] = &FnResult{Name: n, Missing: true}
				mu.Unlock()
				return
			}
			sem <- struct{}{}
			var only func(*Obl) bool
			if role == "root" && prop != "ALL" {
				only = func(o *Obl) bool { return len(o.Tags) == 0 || hasTag(o.Tags, prop) || hasTag(c.Tags, prop) }
			}
			r := verifyOnce(p, c, fn, only, false, func(u string) {
				uc := p.Specs.Contracts[u]
				if uc != nil && uc.Kind == "func" {
					launch(u, "callee")
				}
			})
			<-sem
			mu.Lock()
			results[n] = r
			filters[n] = only
			mu.Unlock()
		}()
	}
	for _, a := range p.Specs.Axioms {
		if !a.Lemma {
			continue
		}
		wg.Add(1)
		go func(a *Axiom) {
			defer wg.Done()
			sem <- struct{}{}
			r := proveLemma(p, a)
			<-sem
			mu.Lock()
			results[r.Name] = r
			roles[r.Name] = "lemma"
			mu.Unlock()
		}(a)
	}
	for _, n := range roots {
		launch(n, "root")
	}
	wg.Wait()
	// what is left: once more with every reading of the loop invariants
	var again []string
	for n, r := range results {
		if !r.Missing && roles[n] != "lemma" && failedResult(r) {
			again = append(again, n)
		}
	}
	sort.Slice(again, func(i, j int) bool { return results[again[i]].Secs < results[again[j]].Secs })
	for _, n := range again {
		results[n] = retryUnguided(p, p.Specs.Contracts[n], p.Funcs[n], filters[n], results[n])
	}
	// a helper's contract that no longer holds says nothing by itself: its
	// callers are verified again with the helper inlined
	var retry []string
	bad := func(r *FnResult) bool {
		if r.Unsupported != "" || r.Vacuous != "" {
			return true
		}
		for _, o := range r.Obls {
			if o.Status != "proved" && o.Status != "trivial" {
				return true
			}
		}
		return false
	}
	for n, r := range results {
		c := p.Specs.Contracts[n]
		if c != nil && c.Internal && !r.Missing && bad(r) {
			retry = append(retry, n)
		}
	}
	sort.Strings(retry)
	if len(retry) > 0 && (deadline.IsZero() || time.Now().Before(deadline)) {
		inl := map[string]bool{}
		for _, n := range retry {
			p.Specs.Contracts[n].Inline = true
			inl[n] = true
		}
		nFailed = 0
		okAll := true
		redo := map[string]*FnResult{}
		for n, r := range results {
			uses := false
			for _, u := range r.Used {
				uses = uses || inl[u]
			}
			if !uses || inl[n] {
				continue
			}
			c := *p.Specs.Contracts[n]
			for _, h := range retry {
				c.Invs = append(append([]*Clause{}, c.Invs...), p.Specs.Contracts[h].Invs...)
			}
			prop := prop
			role := roles[n]
			only := func(o *Obl) bool {
				return role != "root" || len(o.Tags) == 0 || hasTag(o.Tags, prop) || hasTag(c.Tags, prop)
			}
			nr := VerifyFunction(p, &c, p.Funcs[n], only)
			redo[n] = nr
			if bad(nr) {
				okAll = false
			}
		}
		if okAll && len(redo) > 0 {
			for n, r := range redo {
				results[n] = r
			}
			for _, n := range retry {
				results[n] = &FnResult{Name: n, Missing: true, Unsupported: ""}
				p.Specs.Contracts[n].Dropped = "helper changed; callers verified with it inlined"
			}
		}
	}
	var names []string
	for n := range results {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		r := results[n]
		c := p.Specs.Contracts[n]
		fj := fnJSON{Name: n, Role: roles[n], Secs: r.Secs, Invariants: r.Invs, Inlined: r.Inlined}
		if r.Missing {
			if c.Internal {
				fj.Note = "not under contract any more (" + strings.TrimSpace(c.Dropped+" internal helper") + ")"
			} else {
				fj.Problem = "the function does not exist"
				rep.Problems = append(rep.Problems, n+": the function does not exist")
			}
			rep.Functions = append(rep.Functions, fj)
			continue
		}
		if r.Unsupported != "" {
			fj.Problem = "outside the verifier's reach: " + r.Unsupported
			rep.Problems = append(rep.Problems, n+": "+fj.Problem)
		}
		if r.Vacuous != "" {
			fj.Problem = "vacuous: " + r.Vacuous
			rep.Problems = append(rep.Problems, n+": "+fj.Problem)
		}
		for _, o := range r.Obls {
			fj.Obligations++
			rep.ByKind[o.Kind]++
			oj := oblJSON{Fn: n, Name: o.Name, Kind: o.Kind, Where: o.Where, Src: o.Src, Status: o.Status, Solver: o.Solver, Secs: o.Secs, Out: o.Err}
			if o.Status == "proved" || o.Status == "trivial" {
				fj.Discharged++
			} else {
				rep.Failed = append(rep.Failed, oj)
			}
			if hasTag(o.Tags, prop) {
				rep.Posts = append(rep.Posts, oj)
			}
		}
		rep.Obligations += fj.Obligations
		rep.Discharged += fj.Discharged
		rep.Functions = append(rep.Functions, fj)
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Assumptions {
			assumed[t] = true
		}
	}
	keys := func(m map[string]bool) []string {
		ks := []string{}
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	rep.Trusted, rep.Assumptions = keys(trusted), keys(assumed)
	// obligations that were tried come before those the time did not suffice for
	sort.SliceStable(rep.Failed, func(i, j int) bool {
		return !strings.Contains(rep.Failed[i].Out, "time budget") && strings.Contains(rep.Failed[j].Out, "time budget")
	})
	rep.SolverSecs, rep.SolverRuns = solverTime.m, solverTime.n
	rep.Wall = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(rep, "", " ")
	if jsonOut != "" {
		os.WriteFile(jsonOut, b, 0o644)
	}
	for _, f := range rep.Failed {
		fmt.Printf("FAILED %s %s %s [%s] %s %s\n", f.Fn, f.Kind, f.Name, f.Where, f.Src, f.Status)
	}
	for _, f := range rep.Problems {
		fmt.Println("PROBLEM", f)
	}
	fmt.Printf("%s: %d functions, %d/%d obligations, %.1fs\n", prop, len(rep.Functions), rep.Discharged, rep.Obligations, rep.Wall)
	if len(roots) == 0 {
		fmt.Println("no contract states", prop)
		return 3
	}
	if len(rep.Failed) > 0 || len(rep.Problems) > 0 {
		return 1
	}
	return 0
}
