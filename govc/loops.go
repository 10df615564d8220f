package main

// Loop cutting with Houdini-style candidate invariants.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type candEval func(st *State, phi map[*ssa.Phi]Value, ghostI *Term) (*Term, bool)

func (e *Exec) enterLoop(fr *Frame, lp *Loop, st *State, phis []*ssa.Phi, entryVals map[*ssa.Phi]Value) (*liveLoop, func(*State, *ssa.BasicBlock, int)) {
	tc := e.tc
	key := lp.key
	e.site = key
	e.normEmit(st)
	entrySt := st.clone()
	e.seq++
	ll := &liveLoop{lp: lp, key: key, entrySeq: e.seq, entryAlloc: st.alloc}
	// iterator advanced by this header
	for _, ins := range lp.header.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if it, ok := fr.env[nx.Iter].(*IterV); ok {
				ll.iter = it
			}
		}
	}
	var parent *liveLoop
	if n := len(e.curLoops); n > 0 {
		parent = e.curLoops[n-1]
	}
	// havoc
	ghostI := e.fresh("iter", "Int")
	e.assumeGlobal(tc.Cmp("<=", tc.Int(0), ghostI))
	ll.ghostI = ghostI
	headPhi := map[*ssa.Phi]Value{}
	for _, ph := range phis {
		if _, ok := entryVals[ph].(*Term); !ok {
			// non-term phi must be loop invariant
			headPhi[ph] = entryVals[ph]
			continue
		}
		t := e.fresh("phi."+phName(ph), e.w.Sort(ph.Type()))
		headPhi[ph] = t
		fr.env[ph] = t
	}
	var full []string
	if w := e.prevWrites[key]; w != nil {
		if w.alloc {
			a := e.fresh("alloc", "Int")
			e.assumeGlobal(tc.Cmp("<=", st.alloc, a))
			st.alloc = a
		}
		comps := map[string]bool{}
		for c := range w.comps {
			comps[c] = true
		}
		for c := range w.full {
			comps[c] = true
		}
		var cs []string
		for c := range comps {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		fil := tc.Const("freshInLoop", "Ref")
		for _, c := range cs {
			srt := e.heapSort[c]
			if srt == "" {
				continue // written only in an earlier pass
			}
			cur := e.H(st, c, srt)
			if w.full[c] {
				full = append(full, c)
				st.heap[c] = e.fresh("loop."+c, srt)
				continue
			}
			var refs []*Term
			fresh := false
			for r := range w.comps[c] {
				if r == fil {
					fresh = true
					continue
				}
				refs = append(refs, r)
			}
			sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
			_, vs := arraySorts(srt)
			base := cur
			if fresh {
				nb := e.fresh("loop."+c, srt)
				b := tc.BVar("Ref")
				e.assumeGlobal(tc.Quant("forall", []*Term{b}, tc.Implies(tc.Cmp("<", tc.App("rootid", "Int", b), entrySt.alloc), tc.Eq(tc.Select(nb, b), tc.Select(cur, b))), [][]*Term{{tc.Select(nb, b)}}))
				base = nb
				for _, r := range refs {
					base = tc.Store(base, r, e.fresh("loopat."+c, vs))
				}
			} else {
				for _, r := range refs {
					base = tc.Store(base, r, e.fresh("loopat."+c, vs))
				}
			}
			st.heap[c] = base
		}
	}
	for _, ph := range phis {
		if t, ok := headPhi[ph].(*Term); ok {
			e.wellTyped(st, t, ph.Type())
		}
	}
	ll.headSt = st.clone()

	// candidates
	type cd struct {
		c    *Cand
		eval candEval
	}
	var cds []cd
	add := func(name, src string, user bool, ev candEval) {
		hd, ok := ev(st, headPhi, ghostI)
		if !ok {
			return
		}
		if hd.kind == 'l' && hd.op == "true" {
			return
		}
		en, ok := ev(entrySt, entryVals, tc.Int(0))
		if !ok {
			return
		}
		c := &Cand{id: len(e.cands) + 1, name: name, loop: key, alive: true, user: user, src: src}
		e.cands = append(e.cands, c)
		sv := e.site
		e.site = key
		e.obls = append(e.obls, &Obl{Name: "inv-entry:" + name, Kind: "inv", Fn: e.C.Name, Where: key, Goal: tc.Implies(entrySt.reach, en), NFacts: len(e.facts), Cand: c.id, Src: src})
		e.site = sv
		e.facts = append(e.facts, Fact{t: tc.Implies(st.reach, hd), cand: c.id})
		cds = append(cds, cd{c, ev})
	}
	e.autoCands(fr, lp, phis, entryVals, add)
	e.frameCands(full, entrySt, add)
	e.emitCands(entrySt, add)
	e.userCands(fr, lp, ll, entrySt, parent, phis, add)

	back := func(bst *State, pred *ssa.BasicBlock, pi int) {
		sv := e.site
		e.site = fmt.Sprintf("%s.back%d", key, pred.Index)
		e.backEmit(ll.headSt, bst)
		pv := map[*ssa.Phi]Value{}
		for _, ph := range phis {
			pv[ph] = e.val(fr, bst, ph.Edges[pi])
			if _, ok := headPhi[ph].(*Term); !ok {
				if pv[ph] != headPhi[ph] {
					e.unsup("loop-carried address")
				}
			}
		}
		ni := tc.Add(ghostI, tc.Int(1))
		for _, c := range cds {
			t, ok := c.eval(bst, pv, ni)
			if !ok {
				e.unsup("candidate %s cannot be evaluated on back edge", c.c.name)
			}
			e.obls = append(e.obls, &Obl{Name: "inv-preserve:" + c.c.name, Kind: "inv", Fn: e.C.Name, Where: e.site, Goal: tc.Implies(bst.reach, t), NFacts: len(e.facts), Cand: c.c.id, Src: c.c.src})
		}
		if len(bst.defers) != len(entrySt.defers) {
			e.unsup("defer inside a loop")
		}
		e.site = sv
	}
	return ll, back
}

// frameCands: a loop that writes places unknown to the engine changes nothing
// that existed before and that the function may not modify
func (e *Exec) frameCands(full []string, entrySt *State, add func(string, string, bool, candEval)) {
	if len(full) == 0 {
		return
	}
	tc := e.tc
	octx := &EvalCtx{e: e, st: e.entry, old: e.entry, vars: e.vars, pkg: e.P.contractPkg(e.C)}
	allowed := map[string][]*Term{}
	for _, m := range e.C.Modifies {
		for _, l := range e.modLocs(octx, m) {
			if l.ref != nil {
				allowed[l.comp] = append(allowed[l.comp], l.ref)
			}
		}
	}
	for _, c := range full {
		c := c
		if !strings.HasPrefix(e.heapSort[c], "(Array Ref") || strings.HasPrefix(c, "I:") || strings.HasPrefix(c, "E:") {
			continue
		}
		for bi, base := range []*State{e.entry, entrySt} {
			k := []string{"frame", "frame-loop"}[bi]
			base := base
			h0, ok := base.heap[c]
			if !ok {
				if base == e.entry {
					h0 = e.initHeap(c, e.heapSort[c])
				} else {
					continue
				}
			}
			add(k+":"+c, "the loop changes nothing else", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
				h1, ok := st.heap[c]
				if !ok {
					return nil, false
				}
				b := tc.BVar("Ref")
				cond := []*Term{tc.Cmp("<", tc.App("rootid", "Int", b), base.alloc), tc.Not(tc.Eq(b, e.w.NilRef()))}
				for _, a := range allowed[c] {
					cond = append(cond, tc.Not(tc.Eq(b, a)))
				}
				return tc.Quant("forall", []*Term{b}, tc.Implies(tc.And(cond...), tc.Eq(tc.Select(h1, b), tc.Select(h0, b))), [][]*Term{{tc.Select(h1, b)}}), true
			})
		}
	}
}

func phName(ph *ssa.Phi) string { return ph.Name() }

func (e *Exec) autoCands(fr *Frame, lp *Loop, phis []*ssa.Phi, entry map[*ssa.Phi]Value, add func(string, string, bool, candEval)) {
	tc := e.tc
	for _, ph := range phis {
		ph := ph
		ev, ok := entry[ph].(*Term)
		if !ok {
			continue
		}
		get := func(m map[*ssa.Phi]Value) *Term { t, _ := m[ph].(*Term); return t }
		add("same:"+ph.Name(), ph.Comment+" unchanged", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			t := get(m)
			if t == nil {
				return nil, false
			}
			return tc.Eq(t, ev), true
		})
		if ev.sort == "Slice" && e.w.SArr(ev).op == "obj" {
			add("newer:"+ph.Name(), "the elements of "+ph.Comment+" are as new as its first", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
				t := get(m)
				if t == nil {
					return nil, false
				}
				return tc.Cmp("<=", e.w.RootID(e.w.SArr(ev)), e.w.RootID(e.w.SArr(t))), true
			})
		}
		if ev.sort != "Int" {
			continue
		}
		add("up:"+ph.Name(), ph.Comment+" == init + $i", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			return tc.Eq(get(m), tc.Add(ev, i)), true
		})
		add("down:"+ph.Name(), ph.Comment+" == init - $i", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			return tc.Eq(get(m), tc.Sub(ev, i)), true
		})
		add("ge:"+ph.Name(), ph.Comment+" >= init", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			return tc.Cmp("<=", ev, get(m)), true
		})
		add("le:"+ph.Name(), ph.Comment+" <= init + $i", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			return tc.Cmp("<=", get(m), tc.Add(ev, i)), true
		})
		// bounds from comparisons in the loop
		for _, b := range lp.header.Parent().Blocks {
			if !lp.body[b] {
				continue
			}
			for _, ins := range b.Instrs {
				bo, ok := ins.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				default:
					continue
				}
				var other ssa.Value
				if dependsOnPhi(bo.X, ph) {
					other = bo.Y
				} else if dependsOnPhi(bo.Y, ph) {
					other = bo.X
				} else {
					continue
				}
				var bound *Term
				if c, ok := other.(*ssa.Const); ok {
					if v, ok := e.constant(c).(*Term); ok && v.sort == "Int" {
						bound = v
					}
				} else if oi, ok := other.(ssa.Instruction); ok && oi.Block() != nil && !lp.body[oi.Block()] {
					bound, _ = fr.env[other].(*Term)
				} else if p, ok := other.(*ssa.Parameter); ok {
					bound, _ = fr.env[p].(*Term)
				} else if cl, ok := other.(*ssa.Call); ok && isLen(cl) {
					// len(x) recomputed in the loop with x loop invariant
					a := cl.Call.Args[0]
					if ai, ok := a.(ssa.Instruction); (ok && !lp.body[ai.Block()]) || !ok {
						if at, ok := fr.env[a].(*Term); ok {
							switch u := a.Type().Underlying().(type) {
							case *types.Slice:
								bound = e.w.SLen(at)
							case *types.Basic:
								_ = u
								bound = e.strlen(at)
							}
						}
					}
				}
				if bound == nil || bound.sort != "Int" {
					continue
				}
				bd := bound
				nm := fmt.Sprintf("%s:b%d", ph.Name(), bd.id)
				add("bound<=:"+nm, ph.Comment+" <= bound", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
					return tc.Cmp("<=", get(m), bd), true
				})
				add("bound<:"+nm, ph.Comment+" < bound", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
					return tc.Cmp("<", get(m), bd), true
				})
				add("bound-1<=:"+nm, "bound - 1 <= "+ph.Comment, false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
					return tc.Cmp("<=", tc.Sub(bd, tc.Int(1)), get(m)), true
				})
				add("bound+<:"+nm, ph.Comment+" <= max(init,bound)", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
					return tc.Or(tc.Cmp("<=", get(m), bd), tc.Eq(get(m), ev)), true
				})
			}
		}
	}
}

func isLen(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

func dependsOnPhi(v ssa.Value, ph *ssa.Phi) bool {
	if v == ssa.Value(ph) {
		return true
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if b.X == ssa.Value(ph) || b.Y == ssa.Value(ph) {
			return true
		}
	}
	return false
}

func collectMetas(x *Expr, into map[string]*SType, order *[]string) {
	if x.Op == "meta" {
		if _, ok := into[x.S]; !ok {
			into[x.S] = x.T
			*order = append(*order, x.S)
		}
	}
	for _, a := range x.A {
		collectMetas(a, into, order)
	}
	for _, p := range x.Pats {
		for _, y := range p {
			collectMetas(y, into, order)
		}
	}
}

func usesName(x *Expr, n string) bool {
	if x.Op == "id" && x.S == n {
		return true
	}
	for _, a := range x.A {
		if usesName(a, n) {
			return true
		}
	}
	return false
}

// in-scope loop-invariant values and header phis usable for metavariables
type metaBind struct {
	v     ssa.Value
	name  string
	phi   *ssa.Phi
	val   *Term
	typ   types.Type
	place *PlaceV
	src   map[string]bool // names of the variables holding the value
}

// varNames: names of the source variables that hold an SSA value
func (e *Exec) varNames(fn *ssa.Function) map[ssa.Value]map[string]bool {
	if m, ok := e.vnames[fn]; ok {
		return m
	}
	m := map[ssa.Value]map[string]bool{}
	put := func(v ssa.Value, n string) {
		if m[v] == nil {
			m[v] = map[string]bool{}
		}
		m[v][n] = true
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.DebugRef:
				if id, ok := x.Expr.(*ast.Ident); ok && !x.IsAddr {
					put(x.X, id.Name)
				}
			case *ssa.Phi:
				if x.Comment != "" {
					put(x, x.Comment)
				}
			}
		}
	}
	if e.vnames == nil {
		e.vnames = map[*ssa.Function]map[ssa.Value]map[string]bool{}
	}
	e.vnames[fn] = m
	return m
}

// sourceNames: the variables or ".field"s that hold a value. A parameter of
// an inlined function also has the names of its argument.
func (e *Exec) sourceNames(fr *Frame, fn *ssa.Function, x ssa.Value, m map[string]bool) {
	for n := range e.varNames(fn)[x] {
		m[n] = true
	}
	if u, ok := x.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
				m["."+st.Field(fa.Field).Name()] = true
			}
		}
	}
	if p, ok := x.(*ssa.Parameter); ok && fr != nil && fr.fn == fn && fr.parent != nil && fr.parent.fn != nil {
		t, ok := fr.env[p].(*Term)
		if !ok {
			return
		}
		for v, u := range fr.parent.env {
			if u == Value(t) {
				e.sourceNames(fr.parent, fr.parent.fn, v, m)
			}
		}
	}
}

// indexNames: the variables or ".field"s a loop (or, with nil, a function) indexes
func (e *Exec) indexNames(fr *Frame, fn *ssa.Function, lp *Loop) map[string]bool {
	m := map[string]bool{}
	for _, b := range fn.Blocks {
		if lp != nil && !lp.body[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if ia, ok := ins.(*ssa.IndexAddr); ok {
				e.sourceNames(fr, fn, ia.X, m)
			}
		}
	}
	return m
}

// iterated: what the function iterates over or hands to functions that may
func (e *Exec) iterated() map[string]bool {
	m := e.indexNames(nil, e.fn, nil)
	for _, b := range e.fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Range:
				e.sourceNames(nil, e.fn, x.X, m)
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f == nil || len(f.Blocks) == 0 {
					continue
				}
				for _, a := range x.Call.Args {
					switch a.Type().Underlying().(type) {
					case *types.Map, *types.Slice:
						e.sourceNames(nil, e.fn, a, m)
					}
				}
			}
		}
	}
	return m
}

// rangeMatches: does the range(...) filter of an invariant admit the loop? A
// filter naming nothing the function iterates over admits every loop, and a
// loop no filter names (its variables were renamed, say) is admitted by all.
func (e *Exec) rangeMatches(fr *Frame, inv *Clause, ll *liveLoop) bool {
	if inv.Range == nil || e.noGuide {
		return true
	}
	var idx map[string]bool
	if ll.iter != nil {
		idx = ll.iter.names
	} else {
		idx = e.indexNames(fr, ll.lp.header.Parent(), ll.lp)
	}
	names := func(c *Clause) bool {
		for _, n := range c.Range {
			if idx[n] || n == "[]" && ll.iter == nil {
				return true
			}
		}
		return false
	}
	if names(inv) {
		e.guided = true
		return true
	}
	all := e.iterated()
	known := false
	for _, n := range inv.Range {
		if all[n] || n == "[]" {
			known = true
		}
	}
	if !known {
		return true
	}
	e.guided = true
	for _, c := range e.C.Invs {
		if names(c) {
			return false
		}
	}
	if os.Getenv("GOVC_LOOPS") != "" {
		fmt.Fprintf(os.Stderr, "unnamed loop in %s: %v\n", ll.lp.header.Parent(), idx)
	}
	return true
}

// sameMeta: may a metavariable of a type stand for a variable of type t? Sets
// are maps to struct{} or to bool.
func sameMeta(t, want types.Type) bool {
	if typeKey(t) == typeKey(want) {
		return true
	}
	a, ok1 := t.Underlying().(*types.Map)
	b, ok2 := want.Underlying().(*types.Map)
	if !ok1 || !ok2 || typeKey(a.Key()) != typeKey(b.Key()) {
		return false
	}
	st, ok := b.Elem().Underlying().(*types.Struct)
	return ok && st.NumFields() == 0 && isBoolType(a.Elem())
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (e *Exec) scopeValues(fr *Frame, lp *Loop, phis []*ssa.Phi) []metaBind {
	var out []metaBind
	for _, ph := range phis {
		out = append(out, metaBind{name: ph.Name(), phi: ph, typ: ph.Type(), src: e.varNames(ph.Parent())[ph]})
	}
	type held struct {
		t   *Term
		typ string
	}
	seen := map[held]bool{}
	for f := fr; f != nil; f = f.parent {
		if f.fn == nil {
			continue
		}
		for _, p := range f.fn.Params {
			if t, ok := f.env[p].(*Term); ok && !seen[held{t, typeKey(p.Type())}] {
				seen[held{t, typeKey(p.Type())}] = true
				out = append(out, metaBind{v: p, name: p.Name(), val: t, typ: p.Type(), src: map[string]bool{p.Name(): true}})
			}
		}
		for _, b := range f.fn.Blocks {
			if f == fr && (!b.Dominates(lp.header) || lp.body[b] && b != lp.header) {
				continue
			}
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok {
					continue
				}
				if f == fr && b == lp.header {
					if _, isphi := v.(*ssa.Phi); isphi {
						continue
					}
				}
				if t, ok := f.env[v].(*Term); ok && !seen[held{t, typeKey(v.Type())}] {
					seen[held{t, typeKey(v.Type())}] = true
					out = append(out, metaBind{v: v, name: v.Name(), val: t, typ: v.Type(), src: e.varNames(f.fn)[v]})
				}
				if tu, ok := f.env[v].(*TupleV); ok {
					_ = tu
				}
			}
		}
	}
	return out
}

func (e *Exec) userCands(fr *Frame, lp *Loop, ll *liveLoop, entrySt *State, parent *liveLoop, phis []*ssa.Phi, add func(string, string, bool, candEval)) {
	if it := ll.iter; it != nil && !it.isStr {
		// keys already visited were in the map when the loop started
		add("visited", "visited keys were in the map", true, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			cur, ok := st.heap[it.key]
			if !ok {
				return nil, false
			}
			tc := e.tc
			b := tc.BVar(e.w.Sort(it.mt.Key()))
			return tc.Quant("forall", []*Term{b}, tc.Implies(tc.Select(cur, b), tc.Select(it.dom0, b)), [][]*Term{{tc.Select(cur, b)}}), true
		})
	}
	if len(e.C.Invs) == 0 {
		return
	}
	scope := e.scopeValues(fr, lp, phis)
	// sets kept as maps to bool: what is in them is true
	for _, s := range scope {
		s := s
		mt, ok := s.typ.Underlying().(*types.Map)
		if !ok || !isBoolType(mt.Elem()) || s.phi != nil {
			continue
		}
		if _, param := s.v.(*ssa.Parameter); param && fr.parent == nil {
			continue
		}
		add("true:"+s.name, "what is in "+s.name+" is true", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			return e.allTrue(st, s.val, mt), true
		})
	}
	indexed := map[ssa.Value]bool{}
	for b := range lp.body {
		for _, ins := range b.Instrs {
			if ia, ok := ins.(*ssa.IndexAddr); ok {
				indexed[ia.X] = true
			}
		}
	}
	for ci, inv := range e.C.Invs {
		if !e.rangeMatches(fr, inv, ll) {
			continue
		}
		metas := map[string]*SType{}
		var order []string
		collectMetas(inv.E, metas, &order)
		pkg := e.P.contractPkg(e.C)
		// enumerate bindings
		var binds []map[string]metaBind
		binds = append(binds, map[string]metaBind{})
		for _, m := range order {
			var want types.Type
			func() {
				defer func() { recover() }()
				want, _ = e.P.resolveType(metas[m], pkg)
			}()
			// a metavariable with a telling name is bound to the variable of
			// that name if there is one
			named := false
			fits := func(s metaBind) bool { return s.src[m[1:]] }
			switch m {
			case "$grown": // a variable of the loop
				fits = func(s metaBind) bool { return s.phi != nil }
			case "$over": // what the loop indexes
				fits = func(s metaBind) bool { return s.v != nil && indexed[s.v] }
			}
			if len(m) > 2 && !e.noGuide {
				for _, s := range scope {
					if want != nil && sameMeta(s.typ, want) && fits(s) {
						named = true
						e.guided = true
					}
				}
			}
			var next []map[string]metaBind
			for _, b := range binds {
				for _, s := range scope {
					if want != nil && !sameMeta(s.typ, want) {
						continue
					}
					if named && !fits(s) {
						continue
					}
					nb := map[string]metaBind{}
					for k, v := range b {
						nb[k] = v
					}
					nb[m] = s
					next = append(next, nb)
				}
			}
			binds = next
			if len(binds) > 400 {
				binds = binds[:400]
			}
		}
		for bi, b := range binds {
			b := b
			// a candidate that mentions no loop-varying thing through metas still varies with the heap
			ev := func(st *State, m map[*ssa.Phi]Value, i *Term) (t *Term, ok bool) {
				defer func() {
					if r := recover(); r != nil {
						switch r.(type) {
						case specErr, unsupported:
							t, ok = nil, false
							return
						}
						if _, isrt := r.(string); isrt {
							t, ok = nil, false
							return
						}
						panic(r)
					}
				}()
				vars := map[string]SpecVal{}
				for k, v := range e.vars {
					vars[k] = v
				}
				vars["$i"] = SpecVal{t: i, typ: tInt}
				if parent != nil {
					vars["$$i"] = SpecVal{t: parent.ghostI, typ: tInt}
					if parent.iter != nil {
						e.bindIter(vars, "$$", parent.iter, st)
					}
				}
				if ll.iter != nil {
					e.bindIter(vars, "$", ll.iter, st)
				}
				mv := map[string]SpecVal{}
				for k, s := range b {
					if s.phi != nil {
						pt, isT := m[s.phi].(*Term)
						if !isT {
							return nil, false
						}
						mv[k] = SpecVal{t: pt, typ: s.typ}
					} else {
						mv[k] = SpecVal{t: s.val, typ: s.typ}
					}
				}
				ctx := &EvalCtx{e: e, st: st, old: e.entry, pre: entrySt, vars: vars, pkg: pkg, metas: mv}
				return ctx.Bool(inv.E), true
			}
			name := fmt.Sprintf("%s/%d", clauseName(inv, ci), bi)
			add(name, inv.Src, true, ev)
		}
	}
}

func (e *Exec) bindIter(vars map[string]SpecVal, pre string, it *IterV, st *State) {
	cur, ok := st.heap[it.key]
	if !ok {
		return
	}
	if it.isStr {
		vars[pre+"pos"] = SpecVal{t: cur, typ: tInt}
		vars[pre+"str"] = SpecVal{t: it.s, typ: tStr}
		return
	}
	vars[pre+"visited"] = SpecVal{t: cur, g: &SType{Op: "garr", A: goSType(it.mt.Key()), B: &SType{Op: "name", Name: "bool"}}}
	vars[pre+"map"] = SpecVal{t: it.ref, typ: it.mt}
	vars[pre+"dom0"] = SpecVal{t: it.dom0, g: &SType{Op: "garr", A: goSType(it.mt.Key()), B: &SType{Op: "name", Name: "bool"}}}
}

// allTrue: every entry of a map to bool is true
func (e *Exec) allTrue(st *State, m *Term, mt *types.Map) *Term {
	tc := e.tc
	b := tc.BVar(e.w.Sort(mt.Key()))
	ok, v := e.mapLoad(st, mt, m, b)
	return tc.Quant("forall", []*Term{b}, tc.Implies(ok, v), [][]*Term{{ok}, {v}})
}
