package main

// Symbolic executor over go/ssa: generates the proof obligations of one
// function against its contract.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type TupleV struct{ vs []Value }
type ClosureV struct {
	fn    *ssa.Function
	binds []Value
}
type FuncV struct{ fn *ssa.Function }
type IterV struct {
	key   string
	isStr bool
	s     *Term
	ref   *Term
	mt    *types.Map
	dom0  *Term
	frag  string
	names map[string]bool // of the variable or field iterated over
}

// PlaceV is an address that is not an object reference by itself.
type PlaceV struct {
	kind string // field | elem | global
	ref  *Term
	typ  types.Type // struct type (field) or element type (elem) or global type
	idx  int
	i    *Term
	path []pathStep // field path inside an element
	glob *ssa.Global
}
type pathStep struct {
	t types.Type
	i int
}

type deferred struct {
	call  *ssa.CallCommon
	args  []Value
	fnv   Value
	site  string
	reach *Term
	fr    *Frame
}

type State struct {
	reach  *Term
	heap   map[string]*Term
	alloc  *Term
	defers []*deferred
	emit   map[*Term]*GS // texts being written; never changed in place
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{reach: s.reach, heap: h, alloc: s.alloc, defers: append([]*deferred{}, s.defers...), emit: s.emit}
}

type Fact struct {
	t    *Term
	cand int // >0: only assumed while candidate is alive
}

type Obl struct {
	Name   string
	Kind   string // post | pre | panic | inv | frame | lock | assert
	Tags   []string
	Fn     string
	Where  string
	Goal   *Term
	NFacts int
	Cand   int // candidate this obligation belongs to (Houdini), 0 otherwise
	Src    string
	// result
	Status string // proved | failed | unknown | trivial
	Solver string
	Secs   float64
	Model  string
	Err    string
	query  string
	slices []string     // the query with fewer facts
	core   map[int]bool // candidates its proof used (nil: unknown)
}

type Cand struct {
	id    int
	name  string
	loop  string
	alive bool
	user  bool
	src   string
}

type loopWrites struct {
	comps map[string]map[*Term]bool // nil ref key => full
	full  map[string]bool
	alloc bool
}

type Loop struct {
	key    string
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *Loop
}

type Frame struct {
	id      string
	fn      *ssa.Function
	env     map[ssa.Value]Value
	parent  *Frame
	loops   map[*ssa.BasicBlock]*Loop // header -> loop
	inLoop  map[*ssa.BasicBlock][]*Loop
	outer   []*liveLoop
	rets    []retSite
	defers0 int
	args    []Value
	binds   []Value
}

type liveLoop struct {
	lp         *Loop
	entrySeq   int
	entryAlloc *Term
	ghostI     *Term
	headSt     *State
	iter       *IterV
	key        string
}

type retSite struct {
	st   *State
	vals []Value
	pos  token.Pos
	idx  int
}

type Exec struct {
	w                  *World
	tc                 *TermCtx
	P                  *Program
	C                  *Contract
	fn                 *ssa.Function
	facts              []Fact
	obls               []*Obl
	cands              []*Cand
	seq                int
	cseq               map[*Term]int
	names              map[string]int
	entry              *State
	vars               map[string]SpecVal // contract variable bindings
	wt                 map[*Term]bool
	writes, prevWrites map[string]*loopWrites
	curLoops           []*liveLoop
	site               string
	depth              int
	stack              []string
	initH              map[string]*Term
	heapSort           map[string]string
	used               map[string]bool // contracts applied
	trusted            map[string]bool
	inlined            map[string]bool
	globals            map[*ssa.Global]Value
	vnames             map[*ssa.Function]map[ssa.Value]map[string]bool
	noGuide, guided    bool
	concurrent         bool
	params             []*Term
	paramTypes         []types.Type
	assumptions        map[string]bool
	axs                []axiomT
	implIfaces         map[string]*types.Interface
	lemmaUnderProof    string
	preFacts           int
	retStates          []*State
	patNamed           map[*Term]bool
	texts              map[*Term]*eText
	textItems          map[*Term][]titem
	ghostExec          bool
}

func (e *Exec) unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...) + " (at " + e.site + ")"})
}

func sortAbbrev(s string) string {
	r := strings.NewReplacer("(", "", ")", "", " ", "_", "|", "")
	return r.Replace(s)
}

// fresh creates a new constant named after the current site.
func (e *Exec) fresh(prefix, sort string) *Term {
	base := prefix + "@" + e.site + "%" + sortAbbrev(sort)
	e.names[base]++
	n := base
	if k := e.names[base]; k > 1 {
		n = fmt.Sprintf("%s~%d", base, k)
	}
	t := e.tc.Const(q(n), sort)
	e.seq++
	e.cseq[t] = e.seq
	return t
}

func (e *Exec) maxSeq(t *Term) int {
	m := map[*Term]bool{}
	t.Consts(m)
	r := 0
	for c := range m {
		if e.cseq[c] > r {
			r = e.cseq[c]
		}
	}
	return r
}

func (e *Exec) assume(st *State, t *Term) {
	f := e.tc.Implies(st.reach, t)
	if f.kind == 'l' && f.op == "true" {
		return
	}
	e.facts = append(e.facts, Fact{t: f})
}
func (e *Exec) assumeGlobal(t *Term) {
	if t.kind == 'l' && t.op == "true" {
		return
	}
	e.facts = append(e.facts, Fact{t: t})
}

func (e *Exec) oblige(st *State, kind, name string, tags []string, goal *Term, src string) {
	g := e.tc.Implies(st.reach, goal)
	if kind == "panic" || kind == "lock" || kind == "pre" {
		// collapse identical obligations
		if g.op == "true" && g.kind == 'l' {
			return
		}
	}
	o := &Obl{Name: name, Kind: kind, Tags: tags, Fn: e.C.Name, Where: e.site, Goal: g, NFacts: len(e.facts), Src: src}
	e.obls = append(e.obls, o)
	if kind == "panic" || kind == "pre" {
		// afterwards execution continues only if it held
		e.assume(st, goal)
	}
}

// ---------- heap

func (e *Exec) H(st *State, comp, srt string) *Term {
	if t, ok := st.heap[comp]; ok {
		return t
	}
	return e.initHeap(comp, srt)
}

func (e *Exec) initHeap(comp, srt string) *Term {
	if t, ok := e.initH[comp]; ok {
		return t
	}
	if comp == "G:held" {
		t := e.tc.raw("constarr", srt, e.tc.Int(0))
		e.initH[comp] = t
		e.heapSort[comp] = srt
		return t
	}
	t := e.tc.Const(q("H0:"+comp), srt)
	e.initH[comp] = t
	e.heapSort[comp] = srt
	return t
}

func (e *Exec) setH(st *State, comp string, v *Term) {
	e.heapSort[comp] = v.sort
	e.initHeap(comp, v.sort)
	st.heap[comp] = v
}

// recordWrite notes a heap write for every active loop. ref==nil: whole component.
func (e *Exec) recordWrite(comp string, ref *Term) {
	for _, ll := range e.curLoops {
		w := e.writes[ll.key]
		if w == nil {
			w = &loopWrites{comps: map[string]map[*Term]bool{}, full: map[string]bool{}}
			e.writes[ll.key] = w
		}
		if ref == nil {
			w.full[comp] = true
			continue
		}
		if w.comps[comp] == nil {
			w.comps[comp] = map[*Term]bool{}
		}
		if e.maxSeq(ref) < ll.entrySeq {
			w.comps[comp][ref] = true
		} else if e.isFreshIn(ref, ll) {
			w.comps[comp][e.tc.Const("freshInLoop", "Ref")] = true
		} else {
			w.full[comp] = true
		}
	}
}

func (e *Exec) isFreshIn(ref *Term, ll *liveLoop) bool {
	for ref.kind == 'a' && ref.op == "sub" {
		ref = ref.args[0]
	}
	if ref.kind == 'a' && ref.op == "obj" {
		base, _ := splitOff(ref.args[0])
		return e.cseq[base] >= ll.entrySeq && strings.HasPrefix(base.op, "|alloc@")
	}
	return false
}

func (e *Exec) recordAlloc() {
	for _, ll := range e.curLoops {
		w := e.writes[ll.key]
		if w == nil {
			w = &loopWrites{comps: map[string]map[*Term]bool{}, full: map[string]bool{}}
			e.writes[ll.key] = w
		}
		w.alloc = true
	}
}

func (e *Exec) newObj(st *State) *Term {
	e.recordAlloc()
	r := e.w.Obj(st.alloc)
	st.alloc = e.tc.Add(st.alloc, e.tc.Int(1))
	return r
}

func (e *Exec) storeComp(st *State, comp, srt string, ref, v *Term) {
	h := e.H(st, comp, srt)
	e.recordWrite(comp, ref)
	e.setH(st, comp, e.tc.Store(h, ref, v))
}

// load reads the value of type t stored at ref.
func (e *Exec) load(st *State, ref *Term, t types.Type) *Term {
	if isLockType(t) {
		return e.w.Zero(t)
	}
	if u := asStruct(t); u != nil {
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = e.loadField(st, ref, t, i)
		}
		return e.w.MkStruct(t, fs)
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		comp, srt := e.w.compElem(a.Elem())
		return e.tc.Select(e.H(st, comp, srt), ref)
	}
	comp, srt := e.w.compCell(t)
	v := e.tc.Select(e.H(st, comp, srt), ref)
	e.wellTyped(st, v, t)
	return v
}

func (e *Exec) loadField(st *State, ref *Term, t types.Type, i int) *Term {
	ft := asStruct(t).Field(i).Type()
	if isSubStruct(ft) {
		return e.load(st, e.w.Sub(ref, t, i), ft)
	}
	comp, srt := e.w.compField(t, i)
	v := e.tc.Select(e.H(st, comp, srt), ref)
	e.wellTyped(st, v, ft)
	return v
}

func (e *Exec) store(st *State, ref *Term, t types.Type, v *Term) {
	if isLockType(t) {
		return
	}
	if u := asStruct(t); u != nil {
		for i := 0; i < u.NumFields(); i++ {
			e.storeField(st, ref, t, i, e.w.Sel(v, t, i))
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		comp, srt := e.w.compElem(a.Elem())
		e.storeComp(st, comp, srt, ref, v)
		return
	}
	comp, srt := e.w.compCell(t)
	e.storeComp(st, comp, srt, ref, v)
}

func (e *Exec) storeField(st *State, ref *Term, t types.Type, i int, v *Term) {
	ft := asStruct(t).Field(i).Type()
	if isSubStruct(ft) {
		e.store(st, e.w.Sub(ref, t, i), ft, v)
		return
	}
	comp, srt := e.w.compField(t, i)
	e.storeComp(st, comp, srt, ref, v)
}

// wellTyped adds the facts every value of a Go type satisfies.
func (e *Exec) wellTyped(st *State, v *Term, t types.Type) {
	if v.free || v.kind == 'l' || e.wt[v] {
		return
	}
	e.wt[v] = true
	tc := e.tc
	if asStruct(t) != nil {
		u := asStruct(t)
		if v.kind == 'a' && v.op == mkName(v.sort) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			e.wellTyped(st, e.w.Sel(v, t, i), u.Field(i).Type())
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(u.Kind())
			e.assumeGlobal(tc.And(tc.Cmp("<=", tc.BigInt(lo), v), tc.Cmp("<=", v, tc.BigInt(hi))))
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if !isObjTerm(v) {
			e.assumeAllocated(st, v, e.w.RootID(v))
		}
	case *types.Slice:
		if v.op == "mkslice" {
			return
		}
		e.assumeGlobal(tc.And(tc.Cmp("<=", tc.Int(0), e.w.SLen(v)), tc.Cmp("<=", e.w.SLen(v), e.w.SCap(v)),
			tc.Cmp("<=", e.w.SCap(v), tc.Int(math.MaxInt64)),
			tc.Implies(tc.Eq(e.w.SArr(v), e.w.NilRef()), tc.Eq(e.w.SCap(v), tc.Int(0)))))
		e.assumeAllocated(st, v, e.w.RootID(e.w.SArr(v)))
	}
}

// assumeAllocated: references found in the heap the function started with
// existed then, others exist now
func (e *Exec) assumeAllocated(st *State, v, id *Term) {
	tc := e.tc
	if e.entry != nil && st.alloc != e.entry.alloc && v.kind == 'a' && v.op == "select" && len(v.args) == 2 && v.args[0].kind == 'c' && v.args[1].sort == "Ref" && strings.HasPrefix(strings.TrimPrefix(v.args[0].op, "|"), "H0:") {
		e.assumeGlobal(tc.Implies(tc.Cmp("<", e.w.RootID(v.args[1]), e.entry.alloc), tc.Cmp("<", id, e.entry.alloc)))
	}
	e.assume(st, tc.Cmp("<", id, st.alloc))
}

func isObjTerm(v *Term) bool { return v.kind == 'a' && (v.op == "obj") }

func intRange(k types.BasicKind) (string, string) {
	switch k {
	case types.Int8:
		return "-128", "127"
	case types.Int16:
		return "-32768", "32767"
	case types.Int32:
		return "-2147483648", "2147483647"
	case types.Uint8:
		return "0", "255"
	case types.Uint16:
		return "0", "65535"
	case types.Uint32:
		return "0", "4294967295"
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615"
	}
	return "-9223372036854775808", "9223372036854775807"
}

// boxV makes an interface value and states its typing facts.
func (e *Exec) boxV(v *Term, t types.Type) *Term {
	b := e.w.Box(v, t)
	return b
}

func (e *Exec) strFacts(t *Term) {}

// ---------- places

func (e *Exec) placeLoad(st *State, p *PlaceV) *Term {
	switch p.kind {
	case "field":
		return e.loadField(st, p.ref, p.typ, p.idx)
	case "elem":
		comp, srt := e.w.compElem(p.typ)
		v := e.tc.Select(e.tc.Select(e.H(st, comp, srt), p.ref), p.i)
		e.wellTyped(st, v, p.typ)
		t := p.typ
		for _, s := range p.path {
			v = e.w.Sel(v, s.t, s.i)
			t = asStruct(s.t).Field(s.i).Type()
			e.wellTyped(st, v, t)
		}
		return v
	}
	e.unsup("load from place %s", p.kind)
	return nil
}

func (e *Exec) placeStore(st *State, p *PlaceV, v *Term) {
	switch p.kind {
	case "field":
		e.storeField(st, p.ref, p.typ, p.idx, v)
		return
	case "elem":
		comp, srt := e.w.compElem(p.typ)
		a := e.tc.Select(e.H(st, comp, srt), p.ref)
		cur := e.tc.Select(a, p.i)
		nv := e.setPath(cur, p.path, v)
		e.storeComp(st, comp, srt, p.ref, e.tc.Store(a, p.i, nv))
		return
	}
	e.unsup("store to place %s", p.kind)
}

func (e *Exec) setPath(cur *Term, path []pathStep, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	return e.w.SetField(cur, s.t, s.i, e.setPath(e.w.Sel(cur, s.t, s.i), path[1:], v))
}

// ---------- values

func (e *Exec) val(fr *Frame, st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Function:
		return &FuncV{x}
	case *ssa.Global:
		return &PlaceV{kind: "global", glob: x, typ: x.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		e.unsup("value %s (%T) not available in %s", v.Name(), v, fr.fn)
	}
	return r
}

func (e *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	return e.asTerm(st, e.val(fr, st, v), v.Type())
}

func (e *Exec) asTerm(st *State, x Value, t types.Type) *Term {
	switch y := x.(type) {
	case *Term:
		return y
	case *PlaceV:
		if y.kind == "global" {
			return e.globalRef(y.glob)
		}
		e.unsup("address of %s %s escapes", y.kind, y.typ)
	case *FuncV:
		return e.tc.Const(q("fn:"+y.fn.String()), "Func")
	case *ClosureV:
		return e.fresh("closure", "Func")
	}
	e.unsup("value %T is not a term", x)
	return nil
}

func (e *Exec) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.w.Zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		e.unsup("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.tc.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		return e.tc.BigInt(constant.ToInt(c.Value).ExactString())
	case b.Info()&types.IsString != 0:
		return e.tc.Str(constant.StringVal(c.Value))
	case b.Kind() == types.Float32:
		f, _ := constant.Float32Val(c.Value)
		return e.tc.Float32(f)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return e.tc.Float64(f)
	}
	e.unsup("constant %s", c)
	return nil
}

func (e *Exec) globalRef(g *ssa.Global) *Term {
	n := e.P.globalID(g)
	return e.w.Obj(e.tc.Int(int64(-1 - n)))
}

// loadGlobal: globals never written outside package initialisation are constants.
func (e *Exec) loadGlobal(st *State, g *ssa.Global) *Term {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	kind, op := e.P.globalInit(g)
	switch kind {
	case "zero":
		return e.w.Zero(t)
	case "const":
		if v, ok := e.globals[g]; ok {
			return v.(*Term)
		}
		v := e.evalInit(op, 0)
		if v == nil {
			v = e.tc.Const(q("glob:"+g.String()), e.w.Sort(t))
		}
		e.globals[g] = v
		e.wellTyped(e.entry, v, t)
		return v
	}
	// mutable: live in the heap
	return e.load(st, e.globalRef(g), t)
}

// evalInit evaluates a pure package-level initialiser expression.
func (e *Exec) evalInit(v ssa.Value, d int) (r *Term) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(unsupported); ok {
				r = nil
				return
			}
			panic(x)
		}
	}()
	if d > 12 {
		return nil
	}
	fr := &Frame{id: "init", env: map[ssa.Value]Value{}, fn: nil}
	var get func(v ssa.Value, d int) Value
	get = func(v ssa.Value, d int) Value {
		if d > 12 {
			e.unsup("deep initialiser")
		}
		switch x := v.(type) {
		case *ssa.Const:
			return e.constant(x)
		case *ssa.MakeInterface:
			return e.boxV(get(x.X, d+1).(*Term), x.X.Type())
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch p := x.X.(type) {
				case *ssa.Global:
					return e.loadGlobal(e.entry, p)
				case *ssa.Alloc: // composite literal local
					return e.w.Zero(p.Type().Underlying().(*types.Pointer).Elem())
				}
			}
		case *ssa.Call:
			var args []Value
			if x.Call.IsInvoke() {
				args = append(args, get(x.Call.Value, d+1))
			}
			for _, a := range x.Call.Args {
				args = append(args, get(a, d+1))
			}
			e.site = "init"
			var key string
			var sig *types.Signature
			if x.Call.IsInvoke() {
				key = ifaceKey(x.Call.Value.Type(), x.Call.Method)
				sig = x.Call.Signature()
			} else if f := x.Call.StaticCallee(); f != nil {
				key = funcKey(f)
				sig = f.Signature
			}
			c := e.P.Specs.Contracts[key]
			if c == nil || c.Returns == nil {
				e.unsup("init call %s", key)
			}
			rs := e.applyContract(fr, e.entry.clone(), c, key, sig, args, "init", false)
			return rs[0]
		case *ssa.ChangeType:
			return get(x.X, d+1)
		}
		e.unsup("initialiser %T", v)
		return nil
	}
	save := e.site
	defer func() { e.site = save }()
	x, ok := get(v, d).(*Term)
	if !ok {
		return nil
	}
	return x
}

// ---------- function execution

func (e *Exec) mergeVals(conds []*Term, vs []Value, t types.Type, st *State) Value {
	same := true
	for _, v := range vs[1:] {
		if v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if _, ok := vs[0].(*TupleV); ok {
		n := len(vs[0].(*TupleV).vs)
		out := &TupleV{}
		for i := 0; i < n; i++ {
			var xs []Value
			for _, v := range vs {
				xs = append(xs, v.(*TupleV).vs[i])
			}
			out.vs = append(out.vs, e.mergeVals(conds, xs, nil, st))
		}
		return out
	}
	// field places with a common shape
	if p0, ok := vs[0].(*PlaceV); ok {
		for _, v := range vs[1:] {
			p, ok := v.(*PlaceV)
			if !ok || p.kind != p0.kind || p.idx != p0.idx || p.typ != p0.typ || p.glob != p0.glob || len(p.path) != len(p0.path) {
				e.unsup("merging different addresses")
			}
		}
		np := *p0
		var refs, is []Value
		for _, v := range vs {
			p := v.(*PlaceV)
			refs = append(refs, p.ref)
			is = append(is, p.i)
		}
		if p0.ref != nil {
			np.ref = e.mergeVals(conds, refs, nil, st).(*Term)
		}
		if p0.i != nil {
			np.i = e.mergeVals(conds, is, nil, st).(*Term)
		}
		return &np
	}
	var r *Term
	for i := len(vs) - 1; i >= 0; i-- {
		t2, ok := vs[i].(*Term)
		if !ok {
			t2 = e.asTerm(st, vs[i], t)
		}
		if r == nil {
			r = t2
		} else {
			r = e.tc.Ite(conds[i], t2, r)
		}
	}
	return r
}

func (e *Exec) mergeStates(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	out := &State{heap: map[string]*Term{}}
	for _, s := range sts {
		if len(s.emit) > 0 {
			for i := range sts {
				sts[i] = sts[i].clone()
			}
			out.emit = e.mergeEmit(sts)
			break
		}
	}
	var rs []*Term
	for _, s := range sts {
		rs = append(rs, s.reach)
	}
	out.reach = e.tc.Or(rs...)
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.heap {
			keys[k] = true
		}
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var r *Term
		for i := len(sts) - 1; i >= 0; i-- {
			v := e.H(sts[i], k, e.heapSort[k])
			if r == nil {
				r = v
			} else {
				r = e.tc.Ite(rs[i], v, r)
			}
		}
		out.heap[k] = r
	}
	al := sts[len(sts)-1].alloc
	same := true
	for _, s := range sts {
		if s.alloc != al {
			same = false
		}
	}
	if !same {
		// a fresh bound above all of them keeps terms small
		a := e.fresh("alloc", "Int")
		for _, s := range sts {
			e.assumeGlobal(e.tc.Implies(s.reach, e.tc.Cmp("<=", s.alloc, a)))
		}
		al = a
	}
	out.alloc = al
	out.defers = sts[0].defers
	for _, s := range sts[1:] {
		if len(s.defers) != len(out.defers) {
			e.unsup("different defer stacks merge")
		}
		for i := range s.defers {
			if s.defers[i] != out.defers[i] {
				e.unsup("different defer stacks merge")
			}
		}
	}
	out.defers = append([]*deferred{}, out.defers...)
	return out
}

func findLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*Loop, map[*ssa.BasicBlock][]*Loop) {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := loops[s]
				if lp == nil {
					lp = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.body[x] {
						continue
					}
					lp.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	in := map[*ssa.BasicBlock][]*Loop{}
	for _, b := range fn.Blocks {
		var ls []*Loop
		for _, lp := range loops {
			if lp.body[b] {
				ls = append(ls, lp)
			}
		}
		sort.Slice(ls, func(i, j int) bool { // outermost first
			if len(ls[i].body) != len(ls[j].body) {
				return len(ls[i].body) > len(ls[j].body)
			}
			return ls[i].header.Index < ls[j].header.Index
		})
		in[b] = ls
	}
	for _, lp := range loops {
		ls := in[lp.header]
		for i, l := range ls {
			if l == lp && i > 0 {
				lp.parent = ls[i-1]
			}
		}
	}
	return loops, in
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] && !s.Dominates(b) {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// runFunction executes fn from state st and returns its return sites.
func (e *Exec) runFunction(fr *Frame, st *State) {
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		e.unsup("function %s has no body", fn)
	}
	fr.loops, fr.inLoop = findLoops(fn)
	for h, lp := range fr.loops {
		lp.key = fmt.Sprintf("%s.b%d", fr.id, h.Index)
	}
	live := map[*Loop]*liveLoop{}
	backs := map[*Loop]func(st *State, pred *ssa.BasicBlock, predIdx int){}
	outStates := map[*ssa.BasicBlock][]*State{} // per successor index
	saveLoops := e.curLoops
	defer func() { e.curLoops = saveLoops }()

	for _, b := range rpo(fn) {
		var ins []*State
		var inPred []int // index in b.Preds
		if b.Index == 0 {
			ins = append(ins, st)
			inPred = append(inPred, -1)
		} else {
			used := map[*ssa.BasicBlock]int{}
			for pi, p := range b.Preds {
				k := used[p]
				used[p]++
				if b.Dominates(p) && fr.loops[b] != nil && fr.loops[b].body[p] {
					continue // back edge
				}
				os := outStates[p]
				if os == nil {
					continue
				}
				// k-th occurrence of b among p's successors
				cnt := 0
				for si, s := range p.Succs {
					if s == b {
						if cnt == k {
							if os[si] != nil && !(os[si].reach.kind == 'l' && os[si].reach.op == "false") {
								ins = append(ins, os[si])
								inPred = append(inPred, pi)
							}
						}
						cnt++
					}
				}
			}
		}
		if len(ins) == 0 {
			continue
		}
		var cl []*liveLoop
		cl = append(cl, saveLoops...)
		for _, lp := range fr.inLoop[b] {
			if ll := live[lp]; ll != nil {
				cl = append(cl, ll)
			}
		}
		e.curLoops = cl
		e.site = fmt.Sprintf("%s.b%d", fr.id, b.Index)
		cur := e.mergeStates(ins)
		var conds []*Term
		for _, s := range ins {
			conds = append(conds, s.reach)
		}
		// phis (entry values)
		var phis []*ssa.Phi
		entryVals := map[*ssa.Phi]Value{}
		for _, ins2 := range b.Instrs {
			ph, ok := ins2.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			var vs []Value
			for k, pi := range inPred {
				vs = append(vs, e.val(fr, ins[k], ph.Edges[pi]))
			}
			entryVals[ph] = e.mergeVals(conds, vs, ph.Type(), cur)
		}
		for _, ph := range phis {
			fr.env[ph] = entryVals[ph]
		}
		if lp := fr.loops[b]; lp != nil {
			ll, back := e.enterLoop(fr, lp, cur, phis, entryVals)
			live[lp] = ll
			backs[lp] = back
			e.curLoops = append(append([]*liveLoop{}, e.curLoops...), ll)
		}
		outs := e.runBlock(fr, b, cur, len(phis))
		outStates[b] = outs
		// back edges
		for si, s := range b.Succs {
			if outs == nil || outs[si] == nil {
				continue
			}
			if s.Dominates(b) && fr.loops[s] != nil && fr.loops[s].body[b] {
				if os := outs[si]; !(os.reach.kind == 'l' && os.reach.op == "false") {
					k := 0
					for sj := 0; sj < si; sj++ {
						if b.Succs[sj] == s {
							k++
						}
					}
					for pi, p := range s.Preds {
						if p == b {
							if k == 0 {
								if bk := backs[fr.loops[s]]; bk != nil {
									bk(os, b, pi)
								}
								break
							}
							k--
						}
					}
				}
			}
		}
	}
}

func (e *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, skip int) []*State {
	outs := make([]*State, len(b.Succs))
	for ii, ins := range b.Instrs {
		if ii < skip {
			continue
		}
		e.site = fmt.Sprintf("%s.b%d.i%d", fr.id, b.Index, ii)
		if st.reach.kind == 'l' && st.reach.op == "false" {
			return outs
		}
		switch x := ins.(type) {
		case *ssa.Jump:
			outs[0] = st
			return outs
		case *ssa.If:
			c := e.term(fr, st, x.Cond)
			t, f := st, st.clone()
			f.reach = e.tc.And(st.reach, e.tc.Not(c))
			t.reach = e.tc.And(t.reach, c)
			outs[0], outs[1] = t, f
			return outs
		case *ssa.Return:
			var vs []Value
			for _, r := range x.Results {
				vs = append(vs, e.val(fr, st, r))
			}
			fr.rets = append(fr.rets, retSite{st: st, vals: vs, pos: x.Pos(), idx: len(fr.rets)})
			return outs
		case *ssa.Panic:
			e.oblige(st, "panic", "explicit-panic", nil, e.tc.False(), e.posOf(x.Pos()))
			return outs
		default:
			e.instr(fr, st, ins)
		}
	}
	return outs
}

func (e *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.P.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

// implOp names the predicate "the dynamic type has these methods".
func implOp(it *types.Interface) string {
	var ns []string
	for i := 0; i < it.NumMethods(); i++ {
		ns = append(ns, it.Method(i).Name())
	}
	sort.Strings(ns)
	return q("implements:" + strings.Join(ns, ","))
}

func (e *Exec) nonNil(st *State, ref *Term, what string, pos token.Pos) {
	e.oblige(st, "panic", "nil-deref", nil, e.tc.Not(e.tc.Eq(ref, e.w.NilRef())), what+" "+e.posOf(pos))
}

func (e *Exec) instr(fr *Frame, st *State, ins ssa.Instruction) {
	tc := e.tc
	set := func(v ssa.Value, x Value) { fr.env[v] = x }
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		r := e.newObj(st)
		if a, ok := t.Underlying().(*types.Array); ok {
			comp, srt := e.w.compElem(a.Elem())
			e.storeComp(st, comp, srt, r, tc.raw("constarr", arr("Int", e.w.Sort(a.Elem())), e.w.Zero(a.Elem())))
		} else {
			e.store(st, r, t, e.w.Zero(t))
		}
		if k := typeKey(t); len(e.C.Emits) > 0 && (k == "bytes.Buffer" || k == "strings.Builder") {
			e.newText(st, r)
		}
		set(x, r)
	case *ssa.BinOp:
		set(x, e.binop(st, x.Op, e.val(fr, st, x.X), e.val(fr, st, x.Y), x.X.Type(), x.Y.Type(), x.Type(), x.Pos()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			v := e.deref(fr, st, x.X, x.Pos())
			e.guardLoad(st, e.val(fr, st, x.X), x.Type(), v, x.Pos())
			set(x, v)
		case token.NOT:
			set(x, tc.Not(e.term(fr, st, x.X)))
		case token.SUB:
			a := e.term(fr, st, x.X)
			if a.sort == fp64 || a.sort == fp32 {
				set(x, tc.raw("fp.neg", a.sort, a))
			} else {
				set(x, tc.Sub(tc.Int(0), a))
			}
		default:
			e.unsup("unary %s", x.Op)
		}
	case *ssa.ChangeInterface:
		v := e.val(fr, st, x.X)
		if t, ok := v.(*Term); ok && len(e.C.Emits) > 0 {
			if it := x.X.Type().Underlying().(*types.Interface); !it.Empty() {
				// the static type says what it implements
				e.assumeGlobal(e.tc.Or(e.tc.Eq(t, e.w.NilVal()), e.implementsT(t, it)))
			}
		}
		set(x, v)
	case *ssa.ChangeType:
		v := e.val(fr, st, x.X)
		if t, ok := v.(*Term); ok && t.sort != e.w.Sort(x.Type()) {
			set(x, e.castStruct(t, x.X.Type(), x.Type()))
			return
		}
		set(x, v)
	case *ssa.Convert:
		set(x, e.convert(st, e.term(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		v := e.val(fr, st, x.X)
		set(x, e.boxV(e.asTerm(st, v, x.X.Type()), x.X.Type()))
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, st, b))
		}
		set(x, &ClosureV{fn: x.Fn.(*ssa.Function), binds: bs})
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		r := e.newObj(st)
		comp, srt := e.w.compMapDom(mt)
		e.storeComp(st, comp, srt, r, tc.raw("constarr", arr(e.w.Sort(mt.Key()), "Bool"), tc.False()))
		set(x, r)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		l, c := e.term(fr, st, x.Len), e.term(fr, st, x.Cap)
		e.oblige(st, "panic", "makeslice-len", nil, tc.And(tc.Cmp("<=", tc.Int(0), l), tc.Cmp("<=", l, c)), e.posOf(x.Pos()))
		r := e.newObj(st)
		comp, srt := e.w.compElem(et)
		e.storeComp(st, comp, srt, r, tc.raw("constarr", arr("Int", e.w.Sort(et)), e.w.Zero(et)))
		set(x, e.w.MkSlice(r, l, c))
	case *ssa.MapUpdate:
		mt := x.Map.Type().Underlying().(*types.Map)
		m := e.term(fr, st, x.Map)
		e.oblige(st, "panic", "nil-map-write", nil, tc.Not(tc.Eq(m, e.w.NilRef())), e.posOf(x.Pos()))
		e.guardMap(st, m, true, x.Pos())
		e.mapStore(st, mt, m, e.term(fr, st, x.Key), e.term(fr, st, x.Value))
	case *ssa.Lookup:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := e.term(fr, st, x.X)
			e.guardMap(st, m, false, x.Pos())
			k := e.term(fr, st, x.Index)
			ok, v := e.mapLoad(st, mt, m, k)
			v = tc.Ite(ok, v, e.w.Zero(mt.Elem()))
			if x.CommaOk {
				set(x, &TupleV{[]Value{v, ok}})
			} else {
				set(x, v)
			}
			return
		}
		set(x, e.strIndex(st, e.term(fr, st, x.X), e.term(fr, st, x.Index), x.Pos()))
	case *ssa.Index:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			set(x, e.strIndex(st, e.term(fr, st, x.X), e.term(fr, st, x.Index), x.Pos()))
			return
		}
		set(x, tc.Select(e.term(fr, st, x.X), e.term(fr, st, x.Index)))
	case *ssa.Field:
		fv := e.w.Sel(e.term(fr, st, x.X), x.X.Type(), x.Field)
		if e.concurrent && e.guardOf(x.X.Type(), x.Field) < 0 {
			if _, ok := x.Type().Underlying().(*types.Map); ok {
				e.assume(st, tc.Implies(tc.Not(e.gFresh(fv)), tc.Eq(e.guardian(fv), e.w.NilRef())))
			}
		}
		set(x, fv)
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		base := e.val(fr, st, x.X)
		if p, ok := base.(*PlaceV); ok && p.kind == "elem" {
			np := *p
			np.path = append(append([]pathStep{}, p.path...), pathStep{pt, x.Field})
			set(x, &np)
			return
		}
		if p, ok := base.(*PlaceV); ok && p.kind == "global" {
			if k, _ := e.P.globalInit(p.glob); k != "mut" && !isSubStruct(asStruct(pt).Field(x.Field).Type()) {
				// constant global: project
				set(x, &PlaceV{kind: "globfield", glob: p.glob, typ: pt, idx: x.Field})
				return
			}
		}
		ref := e.asTerm(st, base, x.X.Type())
		e.nonNil(st, ref, "field "+asStruct(pt).Field(x.Field).Name(), x.Pos())
		if isSubStruct(asStruct(pt).Field(x.Field).Type()) {
			set(x, e.w.Sub(ref, pt, x.Field))
		} else {
			set(x, &PlaceV{kind: "field", ref: ref, typ: pt, idx: x.Field})
		}
	case *ssa.IndexAddr:
		i := e.term(fr, st, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := e.term(fr, st, x.X)
			e.oblige(st, "panic", "index-range", nil, tc.And(tc.Cmp("<=", tc.Int(0), i), tc.Cmp("<", i, e.w.SLen(s))), e.posOf(x.Pos()))
			set(x, &PlaceV{kind: "elem", ref: e.w.SArr(s), typ: u.Elem(), i: i})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			ref := e.term(fr, st, x.X)
			e.oblige(st, "panic", "index-range", nil, tc.And(tc.Cmp("<=", tc.Int(0), i), tc.Cmp("<", i, tc.Int(at.Len()))), e.posOf(x.Pos()))
			set(x, &PlaceV{kind: "elem", ref: ref, typ: at.Elem(), i: i})
		default:
			e.unsup("IndexAddr on %s", x.X.Type())
		}
	case *ssa.Store:
		addr := e.val(fr, st, x.Addr)
		v := e.val(fr, st, x.Val)
		e.storeTo(fr, st, addr, x.Addr.Type(), v, x.Pos())
	case *ssa.Slice:
		set(x, e.slice(fr, st, x))
	case *ssa.Extract:
		t := e.val(fr, st, x.Tuple).(*TupleV)
		set(x, t.vs[x.Index])
	case *ssa.TypeAssert:
		set(x, e.typeAssert(fr, st, x))
	case *ssa.Range:
		key := "I:" + e.site
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := e.term(fr, st, x.X)
			e.guardMap(st, m, false, x.Pos())
			d := e.mapDom(st, mt, m)
			it := &IterV{key: key, ref: m, mt: mt, dom0: d, names: map[string]bool{}}
			e.sourceNames(fr, x.Parent(), x.X, it.names)
			e.setH(st, key, tc.raw("constarr", arr(e.w.Sort(mt.Key()), "Bool"), tc.False()))
			e.recordWrite(key, nil)
			set(x, it)
			return
		}
		s := e.term(fr, st, x.X)
		e.setH(st, key, tc.Int(0))
		e.recordWrite(key, nil)
		set(x, &IterV{key: key, isStr: true, s: s})
	case *ssa.Next:
		set(x, e.next(fr, st, x))
	case *ssa.Call:
		set(x, e.call(fr, st, x.Common(), x.Pos()))
	case *ssa.Defer:
		d := &deferred{call: x.Common(), site: e.site, reach: st.reach, fr: fr}
		if !x.Common().IsInvoke() {
			if x.Common().StaticCallee() == nil || true {
				d.fnv = e.val2(fr, st, x.Common().Value)
			}
		} else {
			d.args = append(d.args, e.val(fr, st, x.Common().Value))
		}
		for _, a := range x.Common().Args {
			d.args = append(d.args, e.val(fr, st, a))
		}
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		for len(st.defers) > fr.defers0 {
			d := st.defers[len(st.defers)-1]
			st.defers = st.defers[:len(st.defers)-1]
			e.callWith(fr, st, d.call, d.fnv, d.args, x.Pos())
		}
	default:
		e.unsup("instruction %T", ins)
	}
}

func (e *Exec) val2(fr *Frame, st *State, v ssa.Value) Value {
	if b, ok := v.(*ssa.Builtin); ok {
		return b
	}
	return e.val(fr, st, v)
}

func (e *Exec) castStruct(v *Term, from, to types.Type) *Term {
	u1, u2 := asStruct(from), asStruct(to)
	if u1 != nil && u2 != nil && u1.NumFields() == u2.NumFields() {
		fs := make([]*Term, u1.NumFields())
		for i := range fs {
			fs[i] = e.w.Sel(v, from, i)
		}
		return e.w.MkStruct(to, fs)
	}
	e.unsup("ChangeType %s -> %s", from, to)
	return nil
}

func (e *Exec) deref(fr *Frame, st *State, p ssa.Value, pos token.Pos) Value {
	t := p.Type().Underlying().(*types.Pointer).Elem()
	switch a := e.val(fr, st, p).(type) {
	case *PlaceV:
		switch a.kind {
		case "global":
			return e.loadGlobal(st, a.glob)
		case "globfield":
			return e.w.Sel(e.loadGlobal(st, a.glob), a.typ, a.idx)
		}
		return e.placeLoad(st, a)
	case *Term:
		e.nonNil(st, a, "load", pos)
		return e.load(st, a, t)
	case *ClosureV:
		return a
	}
	e.unsup("deref of %T", p)
	return nil
}

func (e *Exec) storeTo(fr *Frame, st *State, addr Value, at types.Type, v Value, pos token.Pos) {
	t := at.Underlying().(*types.Pointer).Elem()
	tv := e.asTerm(st, v, t)
	e.guardStore(st, addr, t, tv, pos)
	switch a := addr.(type) {
	case *PlaceV:
		if a.kind == "global" {
			k, _ := e.P.globalInit(a.glob)
			if k != "mut" {
				e.unsup("store to constant global %s", a.glob)
			}
			e.store(st, e.globalRef(a.glob), t, tv)
			return
		}
		e.placeStore(st, a, tv)
	case *Term:
		e.nonNil(st, a, "store", pos)
		e.store(st, a, t, tv)
	default:
		e.unsup("store to %T", addr)
	}
}

func (e *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	comp, srt := e.w.compMapDom(mt)
	d := e.tc.Select(e.H(st, comp, srt), m)
	if !m.free && !isObjTerm(m) && !e.wt[d] {
		e.wt[d] = true
		e.assumeGlobal(e.tc.Implies(e.tc.Eq(m, e.w.NilRef()), e.tc.Eq(d, e.tc.raw("constarr", d.sort, e.tc.False()))))
	}
	return d
}

func (e *Exec) mapVals(st *State, mt *types.Map, m *Term) *Term {
	comp, srt := e.w.compMapVal(mt)
	return e.tc.Select(e.H(st, comp, srt), m)
}

func (e *Exec) mapLoad(st *State, mt *types.Map, m, k *Term) (ok, v *Term) {
	d := e.mapDom(st, mt, m)
	vs := e.mapVals(st, mt, m)
	v = e.tc.Select(vs, k)
	e.wellTyped(st, v, mt.Elem())
	return e.tc.Select(d, k), v
}

func (e *Exec) mapStore(st *State, mt *types.Map, m, k, v *Term) {
	tc := e.tc
	d := e.mapDom(st, mt, m)
	nd := tc.Store(d, k, tc.True())
	cd, sd := e.w.compMapDom(mt)
	cv, sv := e.w.compMapVal(mt)
	vs := e.mapVals(st, mt, m)
	e.storeComp(st, cd, sd, m, nd)
	e.storeComp(st, cv, sv, m, tc.Store(vs, k, v))
	e.assumeGlobal(tc.Eq(e.card(nd), tc.Ite(tc.Select(d, k), e.card(d), tc.Add(e.card(d), tc.Int(1)))))
}

func (e *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	tc := e.tc
	d := e.mapDom(st, mt, m)
	nd := tc.Store(d, k, tc.False())
	cd, sd := e.w.compMapDom(mt)
	// delete on a nil map is a no-op; the nil map's domain stays empty
	e.storeComp(st, cd, sd, m, nd)
	e.assumeGlobal(tc.Eq(e.card(nd), tc.Ite(tc.Select(d, k), tc.Sub(e.card(d), tc.Int(1)), e.card(d))))
}

// card is the number of keys of a map domain.
func (e *Exec) card(d *Term) *Term {
	ks, _ := arraySorts(d.sort)
	if d.op == "constarr" && d.args[0].op == "false" {
		return e.tc.Int(0)
	}
	return e.tc.App(q("card:"+sortAbbrev(ks)), "Int", d)
}

func (e *Exec) strIndex(st *State, s, i *Term, pos token.Pos) *Term {
	tc := e.tc
	e.oblige(st, "panic", "string-index-range", nil, tc.And(tc.Cmp("<=", tc.Int(0), i), tc.Cmp("<", i, e.strlen(s))), e.posOf(pos))
	v := e.sbyte(s, i)
	return v
}

func (e *Exec) strlen(s *Term) *Term {
	if v, ok := e.tc.strval[s]; ok {
		return e.tc.Int(int64(len(v)))
	}
	return e.tc.App("strlen", "Int", s)
}
func (e *Exec) sbyte(s, i *Term) *Term {
	if v, ok := e.tc.strval[s]; ok {
		if n, ok := i.intLit(); ok && n >= 0 && n < int64(len(v)) {
			return e.tc.Int(int64(v[n]))
		}
	}
	return e.tc.App("sbyte", "Int", s, i)
}

func (e *Exec) next(fr *Frame, st *State, x *ssa.Next) Value {
	tc := e.tc
	it := e.val(fr, st, x.Iter).(*IterV)
	e.recordWrite(it.key, nil)
	cur := e.H(st, it.key, "")
	if it.isStr {
		ok := tc.Cmp("<", cur, e.strlen(it.s))
		r := tc.App("runeat", "Int", it.s, cur)
		l := tc.App("runelen", "Int", it.s, cur)
		b := e.sbyte(it.s, cur)
		e.assume(st, tc.Cmp("<=", tc.Int(0), cur)) // an iterator position is never negative
		e.assume(st, tc.Implies(ok, tc.And(
			tc.Cmp("<=", tc.Int(0), b), tc.Cmp("<", b, tc.Int(256)),
			tc.Implies(tc.Cmp("<", b, tc.Int(128)), tc.And(tc.Eq(r, b), tc.Eq(l, tc.Int(1)))),
			tc.Implies(tc.Cmp("<=", tc.Int(128), b), tc.Cmp("<=", tc.Int(128), r)),
			tc.Cmp("<=", tc.Int(1), l), tc.Cmp("<=", tc.Add(cur, l), e.strlen(it.s)))))
		e.setH(st, it.key, tc.Ite(ok, tc.raw("+", "Int", cur, l), cur))
		return &TupleV{[]Value{ok, cur, r}}
	}
	e.guardMap(st, it.ref, false, x.Pos())
	k := e.fresh("key", e.w.Sort(it.mt.Key()))
	ok := e.fresh("ok", "Bool")
	d := e.mapDom(st, it.mt, it.ref)
	e.wellTyped(st, k, it.mt.Key())
	e.assume(st, tc.Implies(ok, tc.And(tc.Select(d, k), tc.Not(tc.Select(cur, k)))))
	b := tc.BVar(e.w.Sort(it.mt.Key()))
	e.assume(st, tc.Implies(tc.Not(ok), tc.Quant("forall", []*Term{b},
		tc.Implies(tc.And(tc.Select(d, b), tc.Select(it.dom0, b)), tc.Select(cur, b)), [][]*Term{{tc.Select(d, b)}, {tc.Select(cur, b)}})))
	if len(e.C.Emits) > 0 {
		// the number of visited keys; in the end all keys, if the map stays
		e.assume(st, tc.Implies(ok, tc.Eq(e.card(tc.Store(cur, k, tc.True())), tc.Add(e.card(cur), tc.Int(1)))))
		b2 := tc.BVar(e.w.Sort(it.mt.Key()))
		e.assume(st, tc.Implies(tc.And(tc.Not(ok), tc.Eq(d, it.dom0), tc.Quant("forall", []*Term{b2}, tc.Implies(tc.Select(cur, b2), tc.Select(it.dom0, b2)), [][]*Term{{tc.Select(cur, b2)}})), tc.Eq(cur, d)))
	}
	e.setH(st, it.key, tc.Ite(ok, tc.Store(cur, k, tc.True()), cur))
	_, v := e.mapLoad(st, it.mt, it.ref, k)
	return &TupleV{[]Value{ok, k, v}}
}

func (e *Exec) slice(fr *Frame, st *State, x *ssa.Slice) Value {
	tc := e.tc
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return e.term(fr, st, v)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := e.term(fr, st, x.X)
		n := e.strlen(s)
		lo, hi := get(x.Low, tc.Int(0)), get(x.High, n)
		e.oblige(st, "panic", "slice-range", nil, tc.And(tc.Cmp("<=", tc.Int(0), lo), tc.Cmp("<=", lo, hi), tc.Cmp("<=", hi, n)), e.posOf(x.Pos()))
		if lo == tc.Int(0) && hi == n {
			return s
		}
		return tc.App("substr", "Str", s, lo, hi)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		ref := e.term(fr, st, x.X)
		lo, hi := get(x.Low, tc.Int(0)), get(x.High, tc.Int(at.Len()))
		if lo != tc.Int(0) {
			e.unsup("slicing array at non-zero offset")
		}
		e.oblige(st, "panic", "slice-range", nil, tc.And(tc.Cmp("<=", tc.Int(0), hi), tc.Cmp("<=", hi, tc.Int(at.Len()))), e.posOf(x.Pos()))
		return e.w.MkSlice(ref, hi, tc.Int(at.Len()))
	case *types.Slice:
		s := e.term(fr, st, x.X)
		lo, hi := get(x.Low, tc.Int(0)), get(x.High, e.w.SLen(s))
		e.oblige(st, "panic", "slice-range", nil, tc.And(tc.Cmp("<=", tc.Int(0), lo), tc.Cmp("<=", lo, hi), tc.Cmp("<=", hi, e.w.SCap(s))), e.posOf(x.Pos()))
		if lo == tc.Int(0) {
			return e.w.MkSlice(e.w.SArr(s), hi, e.w.SCap(s))
		}
		// sub-slices are modelled as read-only copies
		e.assumptions["sub-slices s[a:b] with a>0 are modelled as copies (no writes through them)"] = true
		comp, srt := e.w.compElem(u.Elem())
		r := e.newObj(st)
		na := e.fresh("sub", arr("Int", e.w.Sort(u.Elem())))
		old := tc.Select(e.H(st, comp, srt), e.w.SArr(s))
		b := tc.BVar("Int")
		e.assumeGlobal(tc.Quant("forall", []*Term{b}, tc.Eq(tc.Select(na, b), tc.Select(old, tc.raw("+", "Int", b, lo))), [][]*Term{{tc.Select(na, b)}}))
		e.storeComp(st, comp, srt, r, na)
		return e.w.MkSlice(r, tc.Sub(hi, lo), tc.Sub(e.w.SCap(s), lo))
	}
	e.unsup("slice of %s", x.X.Type())
	return nil
}

func isIfaceType(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

func (e *Exec) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Value {
	tc := e.tc
	v := e.term(fr, st, x.X)
	var ok *Term
	var r *Term
	if isIfaceType(x.AssertedType) {
		it := x.AssertedType.Underlying().(*types.Interface)
		if bt, known := e.w.boxType(v); known {
			ok = tc.Bool(types.Implements(bt, it))
		} else if it.NumMethods() == 0 {
			ok = tc.Not(tc.Eq(v, e.w.NilVal()))
		} else {
			op := implOp(it)
			if o := e.implIfaces[op]; o != nil && !types.Identical(o, it) {
				e.unsup("two interfaces with the same method names")
			}
			e.implIfaces[op] = it
			ok = tc.And(tc.Not(tc.Eq(v, e.w.NilVal())), tc.App(op, "Bool", e.w.TypeOf(v)))
		}
		r = tc.Ite(ok, v, e.w.NilVal())
		if !x.CommaOk {
			r = v
		}
	} else {
		ok = tc.Eq(e.w.TypeOf(v), e.w.Tid(x.AssertedType))
		u := e.w.Unbox(v, x.AssertedType)
		if _, known := e.w.boxType(v); !known {
			e.assume(st, tc.Implies(ok, tc.Eq(e.w.Box(u, x.AssertedType), v)))
			e.wellTyped(st, u, x.AssertedType)
		}
		if x.CommaOk {
			r = tc.Ite(ok, u, e.w.Zero(x.AssertedType))
		} else {
			r = u
		}
	}
	if !x.CommaOk {
		e.oblige(st, "panic", "type-assert", nil, ok, e.posOf(x.Pos()))
		return r
	}
	return &TupleV{[]Value{r, ok}}
}

func (e *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	fs, ts := e.w.Sort(from), e.w.Sort(to)
	tc := e.tc
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fs == "Int" && ts == "Int":
		if fb != nil && tb != nil {
			lo, hi := intRange(tb.Kind())
			flo, fhi := intRange(fb.Kind())
			if flo == lo && fhi == hi || v.kind == 'l' {
				return v
			}
			in := tc.And(tc.Cmp("<=", tc.BigInt(lo), v), tc.Cmp("<=", v, tc.BigInt(hi)))
			r := tc.App(q("conv:"+tb.Name()), "Int", v)
			e.assumeGlobal(tc.And(tc.Implies(in, tc.Eq(r, v)), tc.Cmp("<=", tc.BigInt(lo), r), tc.Cmp("<=", r, tc.BigInt(hi))))
			return r
		}
		return v
	case fs == ts:
		return v
	case fs == "Int" && ts == fp64:
		if n, ok := v.intLit(); ok && n > -(1<<53) && n < 1<<53 {
			return tc.Float64(float64(n))
		}
		return tc.App("i2f", fp64, v)
	case fs == fp32 && ts == fp64:
		return tc.raw("(_ to_fp 11 53)", fp64, tc.Lit("RNE", "RoundingMode"), v)
	case fs == fp64 && ts == fp32:
		return tc.raw("(_ to_fp 8 24)", fp32, tc.Lit("RNE", "RoundingMode"), v)
	case fs == fp64 && ts == "Int":
		return tc.App(q("f2i:"+tb.Name()), "Int", v)
	}
	r := tc.App(q("conv:"+typeKey(from)+":"+typeKey(to)), ts, v)
	e.wellTyped(st, r, to)
	return r
}

func (e *Exec) binop(st *State, op token.Token, xv, yv Value, xt, yt, rt types.Type, pos token.Pos) *Term {
	tc := e.tc
	// func comparisons with nil
	if _, ok := xv.(*FuncV); ok {
		return tc.Bool(op == token.NEQ)
	}
	if _, ok := xv.(*ClosureV); ok {
		return tc.Bool(op == token.NEQ)
	}
	x, y := e.asTerm(st, xv, xt), e.asTerm(st, yv, yt)
	switch op {
	case token.EQL:
		return e.eq(st, x, y, xt, yt)
	case token.NEQ:
		return tc.Not(e.eq(st, x, y, xt, yt))
	}
	if x.sort == fp64 || x.sort == fp32 {
		rm := tc.Lit("RNE", "RoundingMode")
		switch op {
		case token.LSS:
			return tc.raw("fp.lt", "Bool", x, y)
		case token.LEQ:
			return tc.raw("fp.leq", "Bool", x, y)
		case token.GTR:
			return tc.raw("fp.lt", "Bool", y, x)
		case token.GEQ:
			return tc.raw("fp.leq", "Bool", y, x)
		case token.ADD:
			return tc.raw("fp.add", x.sort, rm, x, y)
		case token.SUB:
			return tc.raw("fp.sub", x.sort, rm, x, y)
		case token.MUL:
			return tc.raw("fp.mul", x.sort, rm, x, y)
		case token.QUO:
			return tc.raw("fp.div", x.sort, rm, x, y)
		}
	}
	if x.sort == "Str" {
		switch op {
		case token.ADD:
			return e.concat(x, y)
		case token.LSS:
			return tc.App("strlt", "Bool", x, y)
		case token.GTR:
			return tc.App("strlt", "Bool", y, x)
		case token.LEQ:
			return tc.Not(tc.App("strlt", "Bool", y, x))
		case token.GEQ:
			return tc.Not(tc.App("strlt", "Bool", x, y))
		}
	}
	if x.sort == "Int" {
		switch op {
		case token.LSS:
			return tc.Cmp("<", x, y)
		case token.LEQ:
			return tc.Cmp("<=", x, y)
		case token.GTR:
			return tc.Cmp(">", x, y)
		case token.GEQ:
			return tc.Cmp(">=", x, y)
		case token.ADD:
			e.assumptions["machine integers are treated as mathematical integers (no overflow in + - *)"] = true
			return tc.Add(x, y)
		case token.SUB:
			return tc.Sub(x, y)
		case token.MUL:
			return tc.raw("*", "Int", x, y)
		case token.QUO, token.REM:
			e.oblige(st, "panic", "div-zero", nil, tc.Not(tc.Eq(y, tc.Int(0))), e.posOf(pos))
			n := "godiv"
			if op == token.REM {
				n = "gomod"
			}
			return tc.App(n, "Int", x, y)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			return tc.App(q("bit:"+op.String()), "Int", x, y)
		}
	}
	e.unsup("binary %s on %s", op, xt)
	return nil
}

func (e *Exec) concat(x, y *Term) *Term {
	a, ok1 := e.tc.strval[x]
	b, ok2 := e.tc.strval[y]
	if ok1 && ok2 {
		return e.tc.Str(a + b)
	}
	return e.tc.App("sconcat", "Str", x, y)
}

func (e *Exec) eq(st *State, x, y *Term, xt, yt types.Type) *Term {
	tc := e.tc
	if x.sort == fp64 || x.sort == fp32 {
		return tc.raw("fp.eq", "Bool", x, y)
	}
	if x.sort != y.sort {
		// interface against concrete value
		if x.sort == "Val" && !isIfaceType(yt) {
			y = e.boxV(y, yt)
		} else if y.sort == "Val" && !isIfaceType(xt) {
			x = e.boxV(x, xt)
		}
	}
	if x.sort == "Slice" {
		// only comparison with nil
		if y == e.w.Zero(yt) {
			return tc.Eq(e.w.SArr(x), e.w.NilRef())
		}
		return tc.Eq(e.w.SArr(y), e.w.NilRef())
	}
	if x.sort == "Val" {
		if x == e.w.NilVal() || y == e.w.NilVal() {
			return tc.Eq(x, y)
		}
		if typeKey(xt) == "reflect.Type" && typeKey(yt) == "reflect.Type" {
			return tc.Eq(x, y)
		}
		e.assumptions["interface values are compared with an abstract Go '==' (ieq); comparing two equal uncomparable dynamic types panics and is outside the model"] = true
		return tc.App("ieq", "Bool", x, y)
	}
	if u := asStruct(xt); u != nil && x.sort == y.sort {
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			cs = append(cs, e.eq(st, e.w.Sel(x, xt, i), e.w.Sel(y, yt, i), ft, ft))
		}
		return tc.And(cs...)
	}
	return tc.Eq(x, y)
}
