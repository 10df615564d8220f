package main

// Verification of one function against its contract.

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Name        string
	Obls        []*Obl
	Cands       []*Cand
	Used        []string
	Trusted     []string
	Inlined     []string
	Assumptions []string
	Unsupported string
	Missing     bool
	Vacuous     string
	Secs        float64
	NFacts      int
	Invs        []string
	DeadReturns int
	exec        *Exec
}

func (e *Exec) reset() {
	e.facts = nil
	e.obls = nil
	e.cands = nil
	e.seq = 0
	e.cseq = map[*Term]int{}
	e.names = map[string]int{}
	e.wt = map[*Term]bool{}
	e.writes = map[string]*loopWrites{}
	e.curLoops = nil
	e.stack = nil
	e.initH = map[string]*Term{}
	e.heapSort = map[string]string{}
	e.used = map[string]bool{}
	e.trusted = map[string]bool{}
	e.inlined = map[string]bool{}
	e.globals = map[*ssa.Global]Value{}
	e.assumptions = map[string]bool{}
	e.axs = nil
	e.patNamed = map[*Term]bool{}
	e.texts = map[*Term]*eText{}
	e.textItems = map[*Term][]titem{}
}

func NewExec(p *Program, c *Contract, fn *ssa.Function) *Exec {
	w := NewWorld(p)
	e := &Exec{w: w, tc: w.tc, P: p, C: c, fn: fn, implIfaces: map[string]*types.Interface{}}
	e.prevWrites = map[string]*loopWrites{}
	e.concurrent = concurrentRun || c.Concurrent && concurrentRoots
	return e
}

func sameWrites(a, b map[string]*loopWrites) bool {
	if len(a) != len(b) {
		return false
	}
	for k, x := range a {
		y := b[k]
		if y == nil || x.alloc != y.alloc || len(x.comps) != len(y.comps) || len(x.full) != len(y.full) {
			return false
		}
		for c := range x.full {
			if !y.full[c] {
				return false
			}
		}
		for c, m := range x.comps {
			n := y.comps[c]
			if len(n) != len(m) {
				return false
			}
			for r := range m {
				if !n[r] {
					return false
				}
			}
		}
	}
	return true
}

// generate runs the executor until the loop write sets are stable.
func (e *Exec) generate() {
	for pass := 0; ; pass++ {
		if pass > 6 {
			panic(unsupported{"loop write sets do not stabilise"})
		}
		e.reset()
		e.runContract()
		if sameWrites(e.writes, e.prevWrites) {
			return
		}
		e.prevWrites = e.writes
	}
}

func (e *Exec) runContract() {
	tc, w := e.tc, e.w
	c, fn := e.C, e.fn
	e.site = "entry"
	st := &State{reach: tc.True(), heap: map[string]*Term{}}
	st.alloc = tc.Const("|alloc@entry|", "Int")
	e.entry = st
	e.assumeGlobal(tc.Cmp("<=", tc.Int(0), st.alloc))
	fr := &Frame{id: "f", fn: fn, env: map[ssa.Value]Value{}}
	e.vars = map[string]SpecVal{}
	e.params = nil
	e.paramTypes = nil
	for i, p := range fn.Params {
		t := tc.Const(q("p:"+fmt.Sprint(i)+":"+paramName(c, i, p)), w.Sort(p.Type()))
		fr.env[p] = t
		e.wellTyped(st, t, p.Type())
		e.params = append(e.params, t)
		e.paramTypes = append(e.paramTypes, p.Type())
		if i < len(c.Params) {
			e.vars[c.Params[i]] = SpecVal{t: t, typ: p.Type()}
		}
	}
	if len(c.Params) != len(fn.Params) {
		panic(unsupported{fmt.Sprintf("contract of %s names %d parameters, the function has %d", c.Name, len(c.Params), len(fn.Params))})
	}
	if r := fn.Signature.Recv(); r != nil {
		if _, ok := r.Type().Underlying().(*types.Pointer); ok {
			e.assumeGlobal(tc.Not(tc.Eq(e.params[0], w.NilRef())))
		}
	}
	pkg := e.P.contractPkg(c)
	ctx := &EvalCtx{e: e, st: st, old: st, vars: e.vars, pkg: pkg}
	for _, rq := range c.Requires {
		e.assume(st, e.specBool(ctx, rq))
	}
	for _, h := range c.Hyps {
		e.assumptions["only inputs with, at "+c.Name+": "+h.Src] = true
		e.assume(st, e.specBool(ctx, h))
	}
	e.entry = st.clone()
	e.emitEntry(st)
	e.preFacts = len(e.facts)
	e.stack = []string{funcKey(fn)}
	e.runFunction(fr, st)
	// postconditions
	for _, r := range fr.rets {
		e.site = fmt.Sprintf("ret%d", r.idx)
		pc := &EvalCtx{e: e, st: r.st, old: e.entry, vars: map[string]SpecVal{}, pkg: pkg}
		for k, v := range e.vars {
			pc.vars[k] = v
		}
		for i, v := range r.vals {
			name := fmt.Sprintf("r%d", i)
			if i < len(c.Results) {
				name = c.Results[i]
			}
			rt := fn.Signature.Results().At(i).Type()
			pc.vars[name] = SpecVal{t: e.asTerm(r.st, v, rt), typ: rt}
		}
		where := e.posOf(r.pos)
		e.emitExit(r.st, r.vals, pc.vars, where)
		for _, f := range c.Finals {
			e.assumptions["in the final state of "+c.Name+": "+f.Src] = true
			e.assume(r.st, e.specBool(pc, f))
		}
		for i, h := range c.Hints {
			t := e.specBool(pc, h)
			e.oblige(r.st, "assert", "assert["+clauseName(h, i)+"]", h.Tags, t, h.Src+" @return "+where)
			e.assume(r.st, t)
		}
		for i, en := range c.Ensures {
			t := e.specBool(pc, en)
			e.oblige(r.st, "post", "ensures["+clauseName(en, i)+"]", en.Tags, t, en.Src+" @return "+where)
		}
		e.frameObls(c, r.st, pc, where)
	}
	e.retStates = nil
	for _, r := range fr.rets {
		e.retStates = append(e.retStates, r.st)
	}
}

func paramName(c *Contract, i int, p *ssa.Parameter) string {
	if i < len(c.Params) {
		return c.Params[i]
	}
	return p.Name()
}

// frameObls: everything that existed at entry and is not listed in modifies is unchanged.
func (e *Exec) frameObls(c *Contract, st *State, pc *EvalCtx, where string) {
	tc := e.tc
	octx := &EvalCtx{e: e, st: e.entry, old: e.entry, vars: e.vars, pkg: pc.pkg}
	allowed := map[string][]*Term{}
	whole := map[string]bool{}
	for _, m := range c.Modifies {
		for _, l := range e.modLocs(octx, m) {
			if l.ref == nil {
				whole[l.comp] = true
			} else {
				allowed[l.comp] = append(allowed[l.comp], l.ref)
			}
		}
	}
	var comps []string
	for k := range st.heap {
		comps = append(comps, k)
	}
	sort.Strings(comps)
	for _, k := range comps {
		if strings.HasPrefix(k, "I:") || strings.HasPrefix(k, "E:") || whole[k] || len(c.Emits) > 0 && k == "G:open" {
			continue
		}
		h0 := e.initHeap(k, e.heapSort[k])
		h1 := st.heap[k]
		if h0 == h1 {
			continue
		}
		if strings.HasPrefix(k, "G:") && !strings.HasPrefix(e.heapSort[k], "(Array Ref") {
			e.oblige(st, "frame", "frame["+k+"]", nil, tc.Eq(h0, h1), "modifies "+where)
			continue
		}
		r := e.fresh("frame."+k, "Ref")
		cond := []*Term{tc.Cmp("<", tc.App("rootid", "Int", r), e.entry.alloc), tc.Not(tc.Eq(r, e.w.NilRef()))} // nothing is stored at nil
		for _, a := range allowed[k] {
			cond = append(cond, tc.Not(tc.Eq(r, a)))
		}
		e.oblige(st, "frame", "frame["+k+"]", nil, tc.Implies(tc.And(cond...), tc.Eq(tc.Select(h1, r), tc.Select(h0, r))), "modifies "+where)
	}
}

func (e *Exec) factsUpTo(n int, alive map[int]bool) []*Term {
	var out []*Term
	for _, f := range e.facts[:n] {
		if f.cand > 0 && !alive[f.cand] {
			continue
		}
		out = append(out, f.t)
	}
	return out
}

// prepare builds the query of one obligation. Queries are built one after
// the other in a fixed order, so that their text is the same on every run.
func (e *Exec) prepare(o *Obl, alive map[int]bool, full bool) {
	if o.Goal.kind == 'l' && o.Goal.op == "true" {
		return
	}
	var qs string
	if full {
		fs := e.factsUpTo(o.NFacts, alive)
		qs = e.buildQuery(fs, o.Goal, false)
		o.slices = nil
		if len(fs) > 250 {
			n := len(fs)
			for _, d := range []int{4, 2} {
				if s := e.sliceFacts(fs, o.Goal, d); len(s) < n {
					n = len(s)
					o.slices = append(o.slices, e.buildQuery(s, o.Goal, false))
				}
			}
		}
	} else {
		named := map[*Term]int{}
		for _, f := range e.facts[:o.NFacts] {
			if f.cand > 0 && alive[f.cand] {
				named[f.t] = f.cand
			}
		}
		qs = e.buildQuery(e.factsUpTo(o.NFacts, alive), o.Goal, false, named)
	}
	o.query = qs
	if os.Getenv("GOVC_HASH") != "" { // are the queries the same on every run?
		h := sha256.Sum256([]byte(qs))
		fmt.Printf("QUERY %s %s %s %d %x\n", e.C.Name, o.Name, o.Where, len(alive), h[:6])
	}
}

// check one obligation
func (e *Exec) discharge(o *Obl, full bool) {
	if o.Goal.kind == 'l' && o.Goal.op == "true" {
		o.Status = "trivial"
		o.Solver = "simplifier"
		return
	}
	qs := o.query
	var r solveRes
	if !full {
		r = solveCand(qs, o.Cand > 0 && e.cands[o.Cand-1].user)
		o.core = parseCore(r.out)
	} else {
		r = solve(qs, full, o.slices...)
	}
	o.Solver, o.Secs = r.solver, o.Secs+r.secs
	o.Err = ""
	switch r.status {
	case "unsat":
		o.Status = "proved"
		o.query, o.slices = "", nil
	case "sat":
		o.Status = "failed"
	default:
		o.Status = "unknown"
		o.Err = ""
		for _, l := range strings.Split(r.out, "\n") {
			if !strings.HasPrefix(l, "WARNING") {
				o.Err += l + "\n"
			}
		}
		o.Err = strings.TrimSpace(o.Err)
		if len(o.Err) > 300 {
			o.Err = o.Err[:300]
		}
	}
}

// parseCore: the candidates a proof used
func parseCore(out string) map[int]bool {
	i := strings.Index(out, "unsat")
	if i < 0 {
		return nil
	}
	m := map[int]bool{}
	for _, f := range strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(out[i+5:])) {
		if strings.HasPrefix(f, "cand_") {
			var n int
			fmt.Sscanf(f, "cand_%d_", &n)
			m[n] = true
		} else {
			return nil
		}
	}
	return m
}

var dumpDrops string

func c0user(e *Exec, o *Obl) bool { return e.cands[o.Cand-1].user }

// VerifyFunction first binds telling metavariable names of loop invariants to
// the variables of that name; if the proof fails it tries all variables.
func VerifyFunction(p *Program, c *Contract, fn *ssa.Function, only func(*Obl) bool) *FnResult {
	return retryUnguided(p, c, fn, only, verifyOnce(p, c, fn, only, false, nil))
}

func failedResult(r *FnResult) bool {
	for _, o := range r.Obls {
		if o.Status != "proved" && o.Status != "trivial" {
			return true
		}
	}
	return false
}

func retryUnguided(p *Program, c *Contract, fn *ssa.Function, only func(*Obl) bool, r *FnResult) *FnResult {
	if noRetry || r.exec == nil || !r.exec.guided || r.Unsupported != "" || !deadline.IsZero() && time.Now().After(deadline) || !failedResult(r) {
		return r
	}
	if r2 := verifyOnce(p, c, fn, only, true, nil); !failedResult(r2) {
		return r2
	}
	return r
}

var noRetry bool

func verifyOnce(p *Program, c *Contract, fn *ssa.Function, only func(*Obl) bool, noGuide bool, uses func(string)) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{Name: c.Name}
	e := NewExec(p, c, fn)
	e.noGuide = noGuide
	res.exec = e
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				res.Unsupported = x.msg
				return
			case specErr:
				res.Unsupported = "spec: " + x.msg
				return
			}
			if debugPanics {
				panic(r)
			}
			res.Unsupported = fmt.Sprintf("internal: %v", r)
		}
	}()
	e.generate()
	if uses != nil {
		for u := range e.used {
			uses(u)
		}
	}
	e.axioms()
	alive := map[int]bool{}
	for _, c := range e.cands {
		alive[c.id] = true
	}
	// Houdini
	var candObls []*Obl
	for _, o := range e.obls {
		if o.Cand > 0 {
			candObls = append(candObls, o)
		}
	}
	status := map[*Obl]bool{}
	for round := 0; len(candObls) > 0; round++ {
		var todo []*Obl
		for _, o := range candObls {
			if alive[o.Cand] {
				todo = append(todo, o)
			}
		}
		var wg sync.WaitGroup
		for _, o := range todo {
			if status[o] && o.core != nil {
				ok := true
				for c := range o.core {
					ok = ok && alive[c]
				}
				if ok {
					continue
				}
			}
			e.prepare(o, alive, false)
			wg.Add(1)
			go func(o *Obl) {
				defer wg.Done()
				e.discharge(o, false)
			}(o)
		}
		wg.Wait()
		killed := false
		for _, o := range todo {
			status[o] = o.Status == "proved" || o.Status == "trivial"
			if !status[o] && alive[o.Cand] {
				delete(alive, o.Cand)
				e.cands[o.Cand-1].alive = false
				killed = true
				if verbose {
					if dumpDrops != "" && c0user(e, o) {
						os.WriteFile(dumpDrops+"/drop-"+strings.NewReplacer("/", "_", ":", "_", " ", "").Replace(o.Name+"-"+o.Where)+".smt2", []byte(o.query), 0o644)
					}
					fmt.Printf("    drop %s [%s] (%s, %s) %s\n", o.Name, o.Where, o.Status, o.Solver, o.Src)
				}
			}
		}
		if !killed {
			break
		}
	}
	for _, c := range e.cands {
		if alive[c.id] {
			res.Invs = append(res.Invs, c.loop+": "+c.name+" ("+c.src+")")
		}
	}
	var wg sync.WaitGroup
	for _, o := range e.obls {
		if o.Cand > 0 {
			if alive[o.Cand] {
				res.Obls = append(res.Obls, o)
			}
			continue
		}
		if only != nil && !only(o) {
			continue
		}
		res.Obls = append(res.Obls, o)
		e.prepare(o, alive, true)
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			e.discharge(o, true)
		}(o)
	}
	// vacuity: the preconditions and the reachable returns must be satisfiable
	vac := make([]string, 1+len(e.retStates))
	wg.Add(1)
	preQ := e.buildQuery(e.factsUpTo(e.preFacts, alive), nil, false)
	go func() {
		defer wg.Done()
		qs := preQ
		solverSem <- struct{}{}
		r := runSolver("z3-em", qs, 2*time.Second)
		<-solverSem
		if r.status == "unsat" {
			vac[0] = "preconditions are contradictory"
		}
		if r.status == "error" {
			vac[0] = "solver error: " + r.out
		}
	}()
	anyRet := make([]bool, len(e.retStates))
	for i, rs := range e.retStates {
		wg.Add(1)
		qs := e.buildQuery(append(e.factsUpTo(len(e.facts), alive), rs.reach), nil, false)
		go func(i int) {
			defer wg.Done()
			solverSem <- struct{}{}
			r := runSolver("z3-em", qs, 2*time.Second)
			<-solverSem
			anyRet[i] = r.status != "unsat"
		}(i)
	}
	wg.Wait()
	if vac[0] != "" {
		res.Vacuous = vac[0]
	}
	ok := len(e.retStates) == 0
	for _, a := range anyRet {
		ok = ok || a
	}
	if !ok {
		res.Vacuous = "no return is reachable under the assumptions"
	}
	res.DeadReturns = 0
	for _, a := range anyRet {
		if !a {
			res.DeadReturns++
		}
	}
	keys := func(m map[string]bool) []string {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	res.Used, res.Trusted, res.Inlined, res.Assumptions = keys(e.used), keys(e.trusted), keys(e.inlined), keys(e.assumptions)
	res.Cands = e.cands
	res.NFacts = len(e.facts)
	return res
}

var verbose, debugPanics bool

// concurrentRun: every function is checked for its lock discipline;
// concurrentRoots: those whose contract says so
var concurrentRun, concurrentRoots bool
