package main

// SMT queries and solver processes.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const preludeBase = `(set-option :produce-models %s)
(set-logic ALL)
(declare-sort Str 0)
(declare-sort Val 0)
(declare-sort Func 0)
(declare-datatypes ((Ref 0)) (((nilref) (obj (oid Int)) (sub (sbase Ref) (sfid Int)))))
(declare-datatypes ((Slice 0)) (((mkslice (sarr Ref) (slen Int) (scap Int)))))
`

var builtinFuns = map[string]bool{"obj": true, "sub": true, "mkslice": true, "sarr": true, "slen": true, "scap": true}

// buildQuery renders facts /\ not goal.
func (e *Exec) buildQuery(facts []*Term, goal *Term, model bool, named ...map[*Term]int) string {
	w, tc := e.w, e.tc
	p := &Printer{tc: tc, refs: map[*Term]int{}, names: map[*Term]string{}, used: map[*Term]bool{}, funs: map[string]bool{}}
	var asserts []*Term
	asserts = append(asserts, facts...)
	if goal != nil {
		asserts = append(asserts, tc.Not(goal))
	}
	for _, t := range asserts {
		p.count(t)
	}
	// axioms: include those whose trigger symbols occur
	included := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, ax := range e.axioms() {
			if included[ax.name] {
				continue
			}
			hit := len(ax.keys) == 0
			for _, k := range ax.keys {
				all := true
				for _, f := range k {
					if !p.funs[f] && !p.usedName(f) {
						all = false
					}
				}
				if all {
					hit = true
				}
			}
			if hit {
				included[ax.name] = true
				asserts = append([]*Term{ax.t}, asserts...)
				p.count(ax.t)
				changed = true
			}
		}
	}
	// ground typing facts of boxed values, string literals, type ids
	var extra []*Term
	var boxes []*Term
	for t := range p.refs {
		if t.free {
			continue
		}
		if bt, ok := w.boxType(t); ok {
			boxes = append(boxes, t)
			_ = bt
		}
	}
	sort.Slice(boxes, func(i, j int) bool { return boxes[i].id < boxes[j].id })
	for _, b := range boxes {
		bt, _ := w.boxType(b)
		extra = append(extra, tc.Eq(tc.App("typeof", "Int", b), w.Tid(bt)), tc.Eq(tc.App(q("unbox:"+typeKey(bt)), b.args[0].sort, b), b.args[0]))
	}
	extra = append(extra, tc.Eq(tc.App("typeof", "Int", w.NilVal()), tc.Int(0)))
	for _, x := range extra {
		p.count(x)
	}
	// quantified box axioms for box symbols under quantifiers
	var boxOps []string
	for f := range p.funs {
		if strings.HasPrefix(f, "|box:") {
			boxOps = append(boxOps, f)
		}
	}
	sort.Strings(boxOps)
	for _, f := range boxOps {
		bti, _ := boxTypes.Load(f)
		bt := bti.(types.Type)
		b := tc.BVar(w.Sort(bt))
		bx := tc.App(f, "Val", b)
		ax := tc.Quant("forall", []*Term{b}, tc.And(tc.Eq(tc.App("typeof", "Int", bx), w.Tid(bt)), tc.Eq(tc.App(q("unbox:"+typeKey(bt)), w.Sort(bt), bx), b)), [][]*Term{{bx}})
		p.count(ax)
		extra = append(extra, ax)
	}
	// kindof facts for known type ids
	if p.funs["|uf:kindof|"] {
		for i, t := range w.tidTyp {
			extra = append(extra, tc.Eq(tc.App("|uf:kindof|", "Int", tc.Int(int64(i+1))), tc.Int(reflectKind(t))))
		}
		extra = append(extra, tc.Eq(tc.App("|uf:kindof|", "Int", tc.Int(0)), tc.Int(0)))
		for _, x := range extra {
			p.count(x)
		}
	}
	for f := range p.funs {
		if strings.HasPrefix(f, "|implements:") {
			it := e.implIfaces[f]
			if it == nil {
				continue
			}
			for i, t := range w.tidTyp {
				x := tc.App(f, "Bool", tc.Int(int64(i+1)))
				if !types.Implements(t, it) {
					x = tc.Not(x)
				}
				extra = append(extra, x)
				p.count(x)
			}
		}
	}
	var lits []*Term
	for c := range p.used {
		if _, ok := tc.strval[c]; ok {
			lits = append(lits, c)
		}
	}
	sort.Slice(lits, func(i, j int) bool { return lits[i].id < lits[j].id })
	if p.funs["strlen"] {
		es := tc.Str("")
		found := false
		for _, l := range lits {
			if l == es {
				found = true
			}
		}
		if !found {
			lits = append(lits, es)
			p.count(es)
		}
	}
	useByte := p.funs["sbyte"]
	for _, l := range lits {
		v := tc.strval[l]
		if p.funs["strlen"] {
			x := tc.Eq(tc.App("strlen", "Int", l), tc.Int(int64(len(v))))
			extra = append(extra, x)
			p.count(x)
		}
		if useByte && len(v) <= 12 {
			for i := 0; i < len(v); i++ {
				x := tc.Eq(tc.App("sbyte", "Int", l, tc.Int(int64(i))), tc.Int(int64(v[i])))
				extra = append(extra, x)
				p.count(x)
			}
		}
	}

	var head strings.Builder
	mm := "false"
	if model {
		mm = "true"
	}
	if len(named) > 0 {
		head.WriteString("(set-option :produce-unsat-cores true)\n")
	}
	fmt.Fprintf(&head, preludeBase, mm)
	var ops []string
	for o := range w.opq {
		ops = append(ops, o)
	}
	sort.Strings(ops)
	for _, o := range ops {
		fmt.Fprintf(&head, "(declare-sort %s 0)\n", o)
	}
	for _, o := range []string{"Time", "Buf", "RV", "GSeq"} {
		if !w.opq[o] {
			fmt.Fprintf(&head, "(declare-sort %s 0)\n", o)
		}
	}
	for _, d := range w.dts {
		head.WriteString(d + "\n")
	}
	// declare constants and functions in use
	var cs []string
	for c := range p.used {
		cs = append(cs, c.op)
	}
	sort.Strings(cs)
	for _, c := range cs {
		fmt.Fprintf(&head, "(declare-fun %s () %s)\n", c, tc.decls[c])
	}
	var fs []string
	for f := range p.funs {
		if _, ok := tc.funs[f]; ok && !builtinFuns[f] {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	for _, f := range fs {
		fmt.Fprintf(&head, "(declare-fun %s %s)\n", f, tc.funs[f])
	}
	for _, x := range extra {
		s := p.expr(x)
		fmt.Fprintf(&p.sb, "(assert %s)\n", s)
	}
	if len(lits) > 1 {
		p.sb.WriteString("(assert (distinct")
		for _, l := range lits {
			p.sb.WriteString(" " + l.op)
		}
		p.sb.WriteString("))\n")
	}
	for i, t := range asserts {
		s := p.expr(t)
		if len(named) > 0 {
			if c := named[0][t]; c > 0 {
				fmt.Fprintf(&p.sb, "(assert (! %s :named cand_%d_%d))\n", s, c, i)
				continue
			}
		}
		fmt.Fprintf(&p.sb, "(assert %s)\n", s)
	}
	tail := "(check-sat)\n"
	if len(named) > 0 {
		tail += "(get-unsat-core)\n"
	}
	return head.String() + p.sb.String() + tail
}

func (p *Printer) usedName(f string) bool {
	for c := range p.used {
		if c.op == f {
			return true
		}
	}
	return false
}

func reflectKind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

type axiomT struct {
	name string
	t    *Term
	keys [][]string
}

// axioms of the logic (evaluated once per executor)
func (e *Exec) axioms() []axiomT {
	if e.axs != nil {
		return e.axs
	}
	tc, w := e.tc, e.w
	var out []axiomT
	r := tc.BVar("Ref")
	f := tc.BVar("Int")
	n := tc.BVar("Int")
	rid := func(x *Term) *Term { return tc.App("rootid", "Int", x) }
	out = append(out,
		axiomT{"rootid-nil", tc.Eq(rid(w.NilRef()), tc.Int(-1000000)), [][]string{{"rootid"}}},
		axiomT{"rootid-obj", tc.Quant("forall", []*Term{n}, tc.Eq(rid(tc.raw("obj", "Ref", n)), n), [][]*Term{{tc.raw("obj", "Ref", n)}}), [][]string{{"rootid"}}},
		axiomT{"rootid-sub", tc.Quant("forall", []*Term{r, f}, tc.Eq(rid(tc.raw("sub", "Ref", r, f)), rid(r)), [][]*Term{{tc.raw("sub", "Ref", r, f)}}), [][]string{{"rootid"}}})
	s := tc.BVar("Str")
	sl := tc.App("strlen", "Int", s)
	out = append(out, axiomT{"strlen", tc.Quant("forall", []*Term{s}, tc.And(tc.Cmp("<=", tc.Int(0), sl), tc.Cmp("<=", sl, tc.Lit("9223372036854775807", "Int")), tc.Implies(tc.Eq(sl, tc.Int(0)), tc.Eq(s, tc.Str("")))), [][]*Term{{sl}}), [][]string{{"strlen"}}})
	s2, i2 := tc.BVar("Str"), tc.BVar("Int")
	sb := tc.App("sbyte", "Int", s2, i2)
	out = append(out, axiomT{"sbyte", tc.Quant("forall", []*Term{s2, i2}, tc.And(tc.Cmp("<=", tc.Int(0), sb), tc.Cmp("<", sb, tc.Int(256))), [][]*Term{{sb}}), [][]string{{"sbyte"}}})
	s3, lo, hi := tc.BVar("Str"), tc.BVar("Int"), tc.BVar("Int")
	ss := tc.App("substr", "Str", s3, lo, hi)
	out = append(out, axiomT{"substr-len", tc.Quant("forall", []*Term{s3, lo, hi}, tc.Implies(tc.And(tc.Cmp("<=", tc.Int(0), lo), tc.Cmp("<=", lo, hi), tc.Cmp("<=", hi, tc.App("strlen", "Int", s3))),
		tc.Eq(tc.App("strlen", "Int", ss), tc.raw("-", "Int", hi, lo))), [][]*Term{{ss}}), [][]string{{"substr", "strlen"}}})
	for nm, sig := range tc.funs {
		if strings.HasPrefix(nm, "|card:") {
			srt := sig[1:strings.LastIndex(sig, ") ")]
			d := tc.BVar(srt)
			c := tc.App(nm, "Int", d)
			out = append(out, axiomT{nm, tc.Quant("forall", []*Term{d}, tc.And(tc.Cmp("<=", tc.Int(0), c), tc.Eq(tc.Eq(c, tc.Int(0)), tc.Eq(d, tc.raw("constarr", srt, tc.False())))), [][]*Term{{c}}), [][]string{{nm}}})
		}
	}
	use := map[string]bool{}
	for _, u := range e.C.Use {
		use[u] = true
	}
	for _, a := range e.P.Specs.Axioms {
		if e.lemmaUnderProof == a.Name {
			break // later lemmas and the lemma itself are not available
		}
		ctx := &EvalCtx{e: e, st: e.entry, old: e.entry, vars: map[string]SpecVal{}, noSide: true}
		t := func() *Term {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(specErr); ok {
						panic(unsupported{"axiom " + a.Name + ": " + s.msg})
					}
					panic(r)
				}
			}()
			return ctx.Bool(a.E)
		}()
		var keys [][]string
		if t.kind == 'q' {
			for _, pt := range t.pats {
				m := map[string]bool{}
				var rec func(x *Term)
				rec = func(x *Term) {
					if x.kind == 'a' && strings.HasPrefix(x.op, "|uf:") {
						m[x.op] = true
					}
					for _, y := range x.args {
						rec(y)
					}
				}
				for _, x := range pt {
					rec(x)
				}
				var k []string
				for n := range m {
					k = append(k, n)
				}
				sort.Strings(k)
				keys = append(keys, k)
			}
		}
		if len(keys) == 0 {
			m := map[string]bool{}
			seen := map[*Term]bool{}
			var rec func(x *Term)
			rec = func(x *Term) {
				if seen[x] {
					return
				}
				seen[x] = true
				if x.kind == 'a' && strings.HasPrefix(x.op, "|uf:") || x.kind == 'c' && strings.HasPrefix(x.op, "|uf:") {
					m[x.op] = true
				}
				for _, y := range x.args {
					rec(y)
				}
			}
			rec(t)
			for n := range m {
				keys = append(keys, []string{n})
			}
		}
		out = append(out, axiomT{"spec:" + a.Name, t, keys})
	}
	e.axs = out
	return out
}

// ---------------------------------------------------------------- solver

type solveRes struct {
	status string // unsat | sat | unknown
	solver string
	secs   float64
	out    string
}

var solverSem = make(chan struct{}, 8)
var cacheDir string
var solverTime = struct {
	sync.Mutex
	m map[string]float64
	n map[string]int
}{m: map[string]float64{}, n: map[string]int{}}

func runSolver(name string, query string, timeout time.Duration) solveRes {
	var args []string
	// limits count processor time, so that a busy machine gives the same
	// answers; the wall clock only stops what hangs
	timeout = time.Duration(float64(timeout) * slowDown)
	cpu := int(timeout.Seconds() + 0.5)
	if cpu < 1 {
		cpu = 1
	}
	wall := 4*timeout + 5*time.Second
	if !deadline.IsZero() {
		if left := time.Until(deadline) + 5*time.Second; left < wall {
			wall = left
		}
	}
	if wall < 2*time.Second {
		wall = 2 * time.Second
	}
	tsec := int(wall.Seconds())
	switch name {
	case "z3-new", "z3":
		args = []string{"-in", fmt.Sprintf("-T:%d", tsec), "-memory:3000"}
	case "z3-em": // E-matching only; the facts about loops stay as they are
		// (solving them for a memory would lose their triggers)
		name = "z3-new"
		args = []string{"-in", fmt.Sprintf("-T:%d", tsec), "-memory:3000", "smt.auto_config=false", "smt.mbqi=false", "smt.solve_eqs.non_ground=false"}
	case "cvc5":
		args = []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", wall.Milliseconds()), "--full-saturate-quant"}
	case "cvc5-fmf":
		name = "cvc5"
		args = []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", wall.Milliseconds()), "--finite-model-find"}
	}
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), wall+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", fmt.Sprintf("ulimit -t %d; exec \"$0\" \"$@\"", cpu), name}, args...)...)
	cmd.Stdin = strings.NewReader(query)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	secs := time.Since(t0).Seconds()
	o := out.String()
	st := "unknown"
	for _, ln := range strings.Split(o, "\n") {
		ln = strings.TrimSpace(ln)
		if ln == "unsat" || ln == "sat" {
			st = ln
			break
		}
		if ln == "unknown" || ln == "timeout" {
			break
		}
		if strings.HasPrefix(ln, "(error") {
			st = "error"
			break
		}
	}
	solverTime.Lock()
	solverTime.m[name] += secs
	solverTime.n[name]++
	solverTime.Unlock()
	return solveRes{st, name, secs, o}
}

// solveCand: candidate invariants get short runs; a loop invariant of the
// contract gets a second configuration.
func solveCand(query string, user bool) solveRes {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	key := cacheKey(query)
	if key != "" {
		if b, err := os.ReadFile(key); err == nil {
			f := strings.SplitN(string(b), "\n", 3)
			return solveRes{f[0], f[1] + "(cached)", 0, f[2]}
		}
	}
	if !deadline.IsZero() && time.Now().After(deadline) {
		return solveRes{"unknown", "none", 0, "time budget of the check used up"}
	}
	r := runSolver("z3-em", query, candT)
	if r.status == "error" {
		panic("solver error: " + r.out)
	}
	if user && r.status != "unsat" && r.status != "sat" {
		if r2 := runSolver("z3-new", query, candT2); r2.status == "unsat" {
			r = r2
		} else if r2 := runSolver("z3", query, candT2+time.Second); r2.status == "unsat" {
			r = r2
		}
	}
	if key != "" {
		os.WriteFile(key, []byte(r.status+"\n"+r.solver+"\n"+r.out), 0o644)
	}
	return r
}

func cacheKey(query string) string {
	if cacheDir == "" {
		return ""
	}
	h := sha256.Sum256([]byte(query))
	return filepath.Join(cacheDir, fmt.Sprintf("%x", h[:16]))
}

var candT, candT2 = 4 * time.Second, 2 * time.Second

// solve tries the portfolio; unsat from any solver discharges the obligation.
func solve(query string, full bool, slices ...string) solveRes {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	key := cacheKey(query)
	if key != "" {
		if b, err := os.ReadFile(key); err == nil {
			f := strings.SplitN(string(b), " ", 2)
			if f[0] == "unsat" || !full {
				return solveRes{f[0], f[1] + "(cached)", 0, ""}
			}
		}
	}
	if !deadline.IsZero() && time.Now().After(deadline) {
		return solveRes{"unknown", "none", 0, "time budget of the check used up"}
	}
	r := runSolver("z3-em", query, quickT)
	if r.status == "error" {
		panic("solver error: " + r.out)
	}
	if r.status != "unsat" && r.status != "sat" && full {
		for _, q := range slices {
			if r2 := runSolver("z3-em", q, quickT); r2.status == "unsat" {
				r = r2
				break
			}
		}
	}
	if r.status != "unsat" && r.status != "sat" && full {
		first := r
		for i, alt := range []struct {
			n string
			t time.Duration
		}{{"cvc5", 3 * time.Second}, {"z3-new", 5 * time.Second}, {"z3", 10 * time.Second}, {"cvc5", 15 * time.Second}, {"z3-new", 40 * time.Second}} {
			if i > 1 && atomic.LoadInt32(&nFailed) >= 3 || !deadline.IsZero() && time.Now().After(deadline) {
				break // the verdict is settled; the rest is only reported
			}
			r2 := runSolver(alt.n, query, alt.t)
			if r2.status == "unsat" || r2.status == "sat" {
				r = r2
				break
			}
		}
		if r.status != "unsat" && r.status != "sat" {
			r = first
		}
		if r.status != "unsat" {
			atomic.AddInt32(&nFailed, 1)
		}
	}
	if key != "" && (r.status == "unsat" || !full) {
		os.WriteFile(key, []byte(r.status+" "+r.solver), 0o644)
	}
	return r
}

var quickT = 5 * time.Second

// slowDown scales every limit: below 1 it shows which proofs would fail on a
// slower machine (development only)
var slowDown = func() float64 {
	f := 1.0
	fmt.Sscan(os.Getenv("GOVC_SCALE"), &f)
	return f
}()

var (
	deadline time.Time
	nFailed  int32 // obligations the whole portfolio failed on
)
