package main

// Calls: builtins, locks, contracts, inlining.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func funcKey(f *ssa.Function) string {
	if f.Parent() != nil {
		return f.String()
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + typeKey(r.Type()) + ")." + f.Name()
	}
	if f.Pkg != nil {
		return shortPkg(f.Pkg.Pkg) + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return shortPkg(f.Object().Pkg()) + "." + f.Name()
	}
	return f.String()
}

func ifaceKey(t types.Type, m *types.Func) string {
	return typeKey(t) + "." + m.Name()
}

func (e *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos) Value {
	var fnv Value
	var args []Value
	if c.IsInvoke() {
		args = append(args, e.val(fr, st, c.Value))
	} else {
		fnv = e.val2(fr, st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	return e.callWith(fr, st, c, fnv, args, pos)
}

func packResults(rs []Value) Value {
	if len(rs) == 1 {
		return rs[0]
	}
	return &TupleV{rs}
}

func (e *Exec) callWith(fr *Frame, st *State, c *ssa.CallCommon, fnv Value, args []Value, pos token.Pos) Value {
	if c.IsInvoke() {
		recv := e.asTerm(st, args[0], c.Value.Type())
		return packResults(e.invoke(fr, st, c, recv, args[1:], pos))
	}
	switch f := fnv.(type) {
	case *ssa.Builtin:
		return e.builtin(fr, st, f, c, args, pos)
	case *FuncV:
		return packResults(e.callFn(fr, st, f.fn, nil, args, pos))
	case *ClosureV:
		return packResults(e.callFn(fr, st, f.fn, f.binds, args, pos))
	}
	if f := c.StaticCallee(); f != nil {
		return packResults(e.callFn(fr, st, f, nil, args, pos))
	}
	e.unsup("dynamic call of a function value")
	return nil
}

func (e *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, recv *Term, args []Value, pos token.Pos) []Value {
	m := c.Method
	// known dynamic type: devirtualise
	if bt, ok := e.w.boxType(recv); ok {
		if f := e.P.Prog.LookupMethod(bt, m.Pkg(), m.Name()); f != nil {
			return e.callFn(fr, st, f, nil, append([]Value{recv.args[0]}, args...), pos)
		}
	}
	if recv.kind == 'a' && recv.op == "ite" {
		// split on the dynamic type when both sides are known
		if e.allBoxed(recv) {
			s1, s2 := st.clone(), st.clone()
			s1.reach = e.tc.And(st.reach, recv.args[0])
			s2.reach = e.tc.And(st.reach, e.tc.Not(recv.args[0]))
			save := e.site
			e.site = save + ".t"
			r1 := e.invoke(fr, s1, c, recv.args[1], args, pos)
			e.site = save + ".f"
			r2 := e.invoke(fr, s2, c, recv.args[2], args, pos)
			e.site = save
			if len(s1.defers) != len(st.defers) {
				e.unsup("defer in split call")
			}
			ms := e.mergeStates([]*State{s1, s2})
			*st = *ms
			var out []Value
			for i := range r1 {
				out = append(out, e.mergeVals([]*Term{s1.reach, s2.reach}, []Value{r1[i], r2[i]}, nil, st))
			}
			return out
		}
	}
	e.oblige(st, "panic", "nil-interface-call", nil, e.tc.Not(e.tc.Eq(recv, e.w.NilVal())), m.Name()+" "+e.posOf(pos))
	key := ifaceKey(c.Value.Type(), m)
	ct := e.P.Specs.Contracts[key]
	if ct == nil {
		// embedded interface methods: look for any contract on the same method name of an embedded named interface
		ct, key = e.P.ifaceContract(c.Value.Type(), m)
	}
	if ct == nil {
		e.unsup("no contract for interface method %s", key)
	}
	return e.applyContract(fr, st, ct, key, m.Type().(*types.Signature), append([]Value{recv}, args...), e.posOf(pos), true)
}

func (e *Exec) allBoxed(t *Term) bool {
	if t.kind == 'a' && t.op == "ite" {
		return e.allBoxed(t.args[1]) && e.allBoxed(t.args[2])
	}
	_, ok := e.w.boxType(t)
	return ok
}

const maxInlineDepth = 12

func (e *Exec) callFn(fr *Frame, st *State, f *ssa.Function, binds []Value, args []Value, pos token.Pos) []Value {
	key := funcKey(f)
	if r, ok := e.lockCall(st, key, args, pos); ok {
		return r
	}
	if key == "json.Unmarshal" {
		return e.jsonUnmarshal(st, args)
	}
	if i := strings.IndexByte(key, '['); i > 0 && strings.HasPrefix(key, "slices.") {
		key = key[:i]
	}
	switch key {
	case "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return e.sortCall(st, key, f.Signature, args)
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		switch fv := args[1].(type) {
		case *ClosureV:
			e.readsOnly(fv.fn)
		case *FuncV:
			e.readsOnly(fv.fn)
		default:
			e.unsup("%s with an unknown function", key)
		}
		return e.sortCall(st, key, f.Signature, args)
	}
	if r, ok := e.emitCall(fr, st, key, f, args); ok {
		return r
	}
	if c := e.P.Specs.Contracts[key]; c != nil && !c.Inline {
		if c.Noop {
			return e.zeroResults(f.Signature)
		}
		return e.applyContract(fr, st, c, key, f.Signature, args, e.posOf(pos), true)
	}
	if len(f.Blocks) == 0 {
		e.unsup("no contract for external function %s", key)
	}
	// inline
	for _, s := range e.stack {
		if s == key {
			e.unsup("recursive function %s has no contract", key)
		}
	}
	if len(e.stack) > maxInlineDepth {
		e.unsup("inlining too deep at %s", key)
	}
	e.inlined[key] = true
	e.stack = append(e.stack, key)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	save := e.site
	nf := &Frame{id: save + ">" + f.Name(), fn: f, env: map[ssa.Value]Value{}, parent: fr, defers0: len(st.defers), args: args, binds: binds}
	for i, p := range f.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range f.FreeVars {
		nf.env[fv] = binds[i]
	}
	e.runFunction(nf, st.clone())
	e.site = save
	if len(nf.rets) == 0 {
		st.reach = e.tc.False()
		return e.zeroResults(f.Signature)
	}
	var sts []*State
	var conds []*Term
	for _, r := range nf.rets {
		sts = append(sts, r.st)
		conds = append(conds, r.st.reach)
	}
	e.site = save + ".ret"
	ms := e.mergeStates(sts)
	e.site = save
	*st = *ms
	n := f.Signature.Results().Len()
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		var vs []Value
		for _, r := range nf.rets {
			vs = append(vs, r.vals[i])
		}
		out[i] = e.mergeVals(conds, vs, f.Signature.Results().At(i).Type(), st)
	}
	return out
}

// unboxed takes an interface value apart if its dynamic type is known.
func (e *Exec) unboxed(t *Term) (types.Type, *Term, bool) {
	if bt, ok := e.w.boxType(t); ok {
		return bt, t.args[0], true
	}
	if t.kind == 'a' && t.op == "ite" {
		ta, a, ok1 := e.unboxed(t.args[1])
		tb, b, ok2 := e.unboxed(t.args[2])
		if ok1 && ok2 && types.Identical(ta, tb) {
			return ta, e.tc.Ite(t.args[0], a, b), true
		}
	}
	return nil, nil, false
}

// sortCall models the sorting functions of the standard library on slices:
// the elements are permuted. (Their order is not modelled.)
func (e *Exec) sortCall(st *State, key string, sig *types.Signature, args []Value) []Value {
	tc := e.tc
	t := sig.Params().At(0).Type()
	s, ok := args[0].(*Term)
	if !ok {
		e.unsup("%s of this value", key)
	}
	if isIfaceType(t) {
		bt, u, ok := e.unboxed(s)
		if !ok {
			e.unsup("%s of a value of unknown type", key)
		}
		t, s = bt, u
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		e.unsup("%s of %s", key, t)
	}
	e.trusted[key+" (permutes the elements)"] = true
	comp, srt := e.w.compElem(sl.Elem())
	old := e.named("unsorted", tc.Select(e.H(st, comp, srt), e.w.SArr(s)))
	n := e.w.SLen(s)
	es := e.w.Sort(sl.Elem())
	na := e.fresh("sorted", arr("Int", es))
	fwd, bwd := e.fresh("perm", arr("Int", "Int")), e.fresh("perm", arr("Int", "Int"))
	b := tc.BVar("Int")
	in := func(x *Term) *Term { return tc.And(tc.Cmp("<=", tc.Int(0), x), tc.Cmp("<", x, n)) }
	f, g := tc.Select(fwd, b), tc.Select(bwd, b)
	// the permutation is the identity outside the slice: its inverses are
	// unconditional, which keeps the instances of these facts finite
	rest := tc.Implies(tc.Cmp("<=", n, b), tc.Eq(tc.Select(na, b), tc.Select(old, b)))
	e.assume(st, tc.Quant("forall", []*Term{b}, tc.And(tc.Eq(in(b), in(f)), tc.Implies(in(b), tc.Eq(tc.Select(na, b), tc.Select(old, f))), rest, tc.Eq(tc.Select(bwd, f), b)), [][]*Term{{tc.Select(na, b)}}))
	e.assume(st, tc.Quant("forall", []*Term{b}, tc.And(tc.Eq(in(b), in(g)), tc.Implies(in(b), tc.Eq(tc.Select(na, g), tc.Select(old, b))), tc.Eq(tc.Select(fwd, g), b)), [][]*Term{{tc.Select(old, b)}}))
	// nothing reads index -1: there the two memories may differ. Taken as equal
	// they would match each other's facts for ever.
	if es == "Str" || es == "Val" || es == "Ref" || es == "Int" {
		e.assume(st, tc.Not(tc.Eq(tc.Select(na, tc.Int(-1)), tc.Select(old, tc.Int(-1)))))
	}
	e.storeComp(st, comp, srt, e.w.SArr(s), tc.Ite(tc.Cmp("<=", n, tc.Int(0)), old, na))
	return nil
}

// readsOnly: the function passed to a sort changes nothing and calls only
// what changes nothing
func (e *Exec) readsOnly(f *ssa.Function) {
	if len(f.Blocks) == 0 {
		e.unsup("comparison function %s", f)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.TypeAssert:
				e.unsup("comparison function that does more than compare")
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil {
					e.unsup("comparison function with an unknown call")
				}
				k := funcKey(g)
				if c := e.P.Specs.Contracts[k]; c != nil && (c.Returns != nil || c.Noop) {
					continue
				}
				switch k {
				case "strings.Compare", "cmp.Compare", "cmp.Less", "(*regexp.Regexp).String":
					continue
				}
				e.unsup("comparison function that calls %s", k)
			}
		}
	}
}

// named: a constant for a term, for use in patterns
func (e *Exec) named(n string, t *Term) *Term {
	if t.kind == 'c' {
		return t
	}
	c := e.fresh(n, t.sort)
	e.assumeGlobal(e.tc.Eq(c, t))
	return c
}

// jsonUnmarshal models json.Unmarshal(data, &x) for x of a basic type: it
// fails iff jsonok_T is false of the bytes, and stores jsonval_T otherwise.
func (e *Exec) jsonUnmarshal(st *State, args []Value) []Value {
	tc := e.tc
	v, ok := args[1].(*Term)
	if !ok {
		e.unsup("json.Unmarshal target")
	}
	bt, ok := e.w.boxType(v)
	if !ok {
		e.unsup("json.Unmarshal into a value of unknown type")
	}
	pt, ok := bt.Underlying().(*types.Pointer)
	if !ok {
		e.unsup("json.Unmarshal into a non-pointer")
	}
	t := pt.Elem()
	name := typeKey(t)
	uok, have := e.P.Specs.UFs["jsonok_"+name]
	if !have {
		e.unsup("json.Unmarshal into %s", name)
	}
	_ = uok
	e.trusted["json.Unmarshal"] = true
	data := e.asTerm(st, args[0], types.NewSlice(types.Typ[types.Byte]))
	comp, srt := e.w.compElem(types.Typ[types.Byte])
	b := tc.Select(e.H(st, comp, srt), e.w.SArr(data))
	n := e.w.SLen(data)
	old := e.load(st, v.args[0], t)
	okT := tc.App(q("uf:jsonok_"+name), "Bool", b, n)
	val := tc.App(q("uf:jsonval_"+name), e.w.Sort(t), b, n, old)
	e.store(st, v.args[0], t, tc.Ite(okT, val, e.fresh("junk", e.w.Sort(t))))
	err := e.fresh("err", "Val")
	e.assume(st, tc.Eq(tc.Eq(err, e.w.NilVal()), okT))
	return []Value{err}
}

func (e *Exec) zeroResults(sig *types.Signature) []Value {
	var out []Value
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, e.w.Zero(sig.Results().At(i).Type()))
	}
	return out
}

func (e *Exec) lockCall(st *State, key string, args []Value, pos token.Pos) ([]Value, bool) {
	if !strings.HasPrefix(key, "(*sync.") {
		return nil, false
	}
	tc := e.tc
	h := func() *Term { return e.H(st, "G:held", arr("Ref", "Int")) }
	acq := func(n int64) {
		r := e.asTerm(st, args[0], nil)
		e.oblige(st, "lock", "lock-not-held", nil, tc.Eq(tc.Select(h(), r), tc.Int(0)), e.posOf(pos))
		if e.concurrent {
			e.guardObl(st, "lock-nested", tc.Eq(h(), tc.raw("constarr", arr("Ref", "Int"), tc.Int(0))), pos)
		}
		e.storeComp(st, "G:held", arr("Ref", "Int"), r, tc.Int(n))
	}
	rel := func(n int64) {
		r := e.asTerm(st, args[0], nil)
		e.oblige(st, "lock", "unlock-held", nil, tc.Eq(tc.Select(h(), r), tc.Int(n)), e.posOf(pos))
		e.storeComp(st, "G:held", arr("Ref", "Int"), r, tc.Int(0))
	}
	switch key {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		acq(1)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		rel(1)
	case "(*sync.RWMutex).RLock":
		acq(2)
	case "(*sync.RWMutex).RUnlock":
		rel(2)
	default:
		return nil, false
	}
	return nil, true
}

// bindArgs maps contract parameter names to the actual arguments.
func (e *Exec) bindArgs(c *Contract, sig *types.Signature, st *State, args []Value, isIface bool) map[string]SpecVal {
	vars := map[string]SpecVal{}
	var tys []types.Type
	if r := sig.Recv(); r != nil {
		tys = append(tys, r.Type())
	} else if isIface {
		tys = append(tys, types.NewInterfaceType(nil, nil))
	}
	for i := 0; i < sig.Params().Len(); i++ {
		tys = append(tys, sig.Params().At(i).Type())
	}
	if len(tys) != len(args) {
		e.unsup("contract %s: %d arguments for %d parameters", c.Name, len(args), len(tys))
	}
	for i, a := range args {
		if i >= len(c.Params) || c.Params[i] == "_" {
			continue
		}
		t := e.asTerm(st, a, tys[i])
		vars[c.Params[i]] = SpecVal{t: t, typ: tys[i]}
	}
	return vars
}

func (e *Exec) applyContract(fr *Frame, st *State, c *Contract, key string, sig *types.Signature, args []Value, pos string, checkPre bool) []Value {
	tc := e.tc
	e.used[key] = true
	if c.Kind != "func" {
		e.trusted[key] = true
	}
	isIface := c.Kind == "iface"
	vars := e.bindArgs(c, sig, st, args, isIface)
	pkg := e.P.contractPkg(c)
	old := st.clone()
	ctx := &EvalCtx{e: e, st: st, old: old, vars: vars, pkg: pkg}
	if checkPre {
		if c.Kind == "func" {
			if r := sig.Recv(); r != nil {
				if _, ok := r.Type().Underlying().(*types.Pointer); ok {
					e.oblige(st, "panic", "nil-receiver", nil, tc.Not(tc.Eq(e.asTerm(st, args[0], r.Type()), e.w.NilRef())), key+" "+pos)
				}
			}
		}
		for i, rq := range c.Requires {
			t := e.specBool(ctx, rq)
			e.oblige(st, "pre", fmt.Sprintf("%s.requires[%s]", key, clauseName(rq, i)), rq.Tags, t, rq.Src+" "+pos)
		}
	}
	if c.Returns != nil {
		r := e.specVal(ctx, c.Returns)
		rt := sig.Results().At(0).Type()
		if r.t == nil {
			r.t = e.w.Zero(rt)
		}
		if e.w.Sort(rt) == "Val" && r.t.sort != "Val" {
			r.t = e.boxV(r.t, r.typ)
		}
		if r.t.sort != e.w.Sort(rt) {
			e.unsup("contract %s returns sort %s", key, r.t.sort)
		}
		e.wellTyped(st, r.t, rt)
		return []Value{r.t}
	}
	// frame
	if c.ModAny {
		e.unsup("contract %s modifies anything", key)
	}
	for _, m := range c.Modifies {
		e.havocLoc(ctx, m)
	}
	// results
	res := sig.Results()
	freshRes := map[string]bool{}
	for _, en := range c.Ensures {
		if en.E.Op == "call" && en.E.S == "fresh" && en.E.A[0].Op == "id" {
			freshRes[en.E.A[0].S] = true
		}
	}
	var out []Value
	post := &EvalCtx{e: e, st: st, old: old, vars: map[string]SpecVal{}, pkg: pkg}
	for k, v := range vars {
		post.vars[k] = v
	}
	allocates := c.Kind == "func" || len(freshRes) > 0
	for i := 0; i < res.Len(); i++ {
		rt := res.At(i).Type()
		name := fmt.Sprintf("r%d", i)
		if i < len(c.Results) {
			name = c.Results[i]
		}
		var t *Term
		if p := resultParam(c, name); e.ghostExec && p != "" && vars[p].t.sort == e.w.Sort(rt) {
			t = vars[p].t
		} else if freshRes[name] && e.w.Sort(rt) == "Ref" {
			t = e.newObj(st)
		} else {
			t = e.fresh("res."+short(key)+"."+name, e.w.Sort(rt))
		}
		out = append(out, t)
		post.vars[name] = SpecVal{t: t, typ: rt}
	}
	var emitted func([]Value)
	if len(c.Emits) > 0 {
		emitted = e.emitApply(st, c, sig, post.vars, pkg)
	}
	if allocates {
		a := e.fresh("alloc", "Int")
		e.recordAlloc()
		e.assumeGlobal(tc.Cmp("<=", st.alloc, a))
		st.alloc = a
	}
	for i := 0; i < res.Len(); i++ {
		e.wellTyped(st, out[i].(*Term), res.At(i).Type())
	}
	if emitted != nil {
		emitted(out)
	}
	for _, en := range c.Ensures {
		if en.Flags["local"] {
			continue
		}
		e.assume(st, e.specBool(post, en))
	}
	for _, d := range c.Defs {
		e.assumptions["definition at "+key+": "+d.Src] = true
		e.assume(st, e.specBool(post, d))
	}
	return out
}

func short(k string) string {
	return strings.NewReplacer("(", "", ")", "", "*", "").Replace(k)
}

func clauseName(c *Clause, i int) string {
	if c.Label != "" {
		return c.Label
	}
	return fmt.Sprint(i)
}

func (e *Exec) specBool(ctx *EvalCtx, c *Clause) *Term {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				e.unsup("contract clause %q: %s", c.Src, s.msg)
			}
			panic(r)
		}
	}()
	return ctx.Bool(c.E)
}

func (e *Exec) specVal(ctx *EvalCtx, x *Expr) SpecVal {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				e.unsup("contract expression %s: %s", x, s.msg)
			}
			panic(r)
		}
	}()
	return ctx.Eval(x)
}

// a heap location named by a modifies clause
type heapLoc struct {
	comp, sort string
	ref        *Term // nil: whole component
}

func (e *Exec) modLocs(ctx *EvalCtx, m *Expr) []heapLoc {
	var out []heapLoc
	var structLocs func(r *Term, t types.Type)
	structLocs = func(r *Term, t types.Type) {
		u := asStruct(t)
		if u == nil {
			if isLockType(t) {
				return
			}
			c, s := e.w.compCell(t)
			out = append(out, heapLoc{c, s, r})
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isSubStruct(ft) {
				structLocs(e.w.Sub(r, t, i), ft)
			} else {
				c, s := e.w.compField(t, i)
				out = append(out, heapLoc{c, s, r})
			}
		}
	}
	switch {
	case m.Op == "id":
		if g, ok := e.P.Specs.Ghosts[m.S]; ok {
			srt, _ := e.P.specSort(e.w, g, ctx.pkg)
			return []heapLoc{{"G:" + m.S, srt, nil}}
		}
	case m.Op == "field":
		v := e.specVal(ctx, m.A[0])
		idx := ctx.fieldPath(v.typ, m.S)
		if idx == nil {
			e.unsup("modifies: no field %s", m.S)
		}
		r := v.t
		t := deref(v.typ)
		for k, i := range idx {
			ft := asStruct(t).Field(i).Type()
			if isSubStruct(ft) {
				r = e.w.Sub(r, t, i)
				t = ft
				if k == len(idx)-1 {
					structLocs(r, t)
				}
			} else if k == len(idx)-1 {
				c, s := e.w.compField(t, i)
				out = append(out, heapLoc{c, s, r})
			} else { // pointer
				c, s := e.w.compField(t, i)
				r = e.tc.Select(e.H(ctx.st, c, s), r)
				t = deref(ft)
			}
		}
		return out
	case m.Op == "call" && m.S == "deref":
		v := e.specVal(ctx, m.A[0])
		structLocs(v.t, deref(v.typ))
		return out
	case m.Op == "call" && m.S == "contents":
		v := e.specVal(ctx, m.A[0])
		mt := v.typ.Underlying().(*types.Map)
		c, s := e.w.compMapDom(mt)
		c2, s2 := e.w.compMapVal(mt)
		return []heapLoc{{c, s, v.t}, {c2, s2, v.t}}
	case m.Op == "call" && m.S == "elemsof":
		v := e.specVal(ctx, m.A[0])
		st := v.typ.Underlying().(*types.Slice)
		c, s := e.w.compElem(st.Elem())
		return []heapLoc{{c, s, e.w.SArr(v.t)}}
	case m.Op == "call" && m.S == "allmaps":
		// every map of the given type
		t := e.specVal(ctx, m.A[0]).typ.Underlying().(*types.Map)
		c, s := e.w.compMapDom(t)
		c2, s2 := e.w.compMapVal(t)
		return []heapLoc{{c, s, nil}, {c2, s2, nil}}
	}
	e.unsup("modifies clause %s", m)
	return nil
}

func (e *Exec) havocLoc(ctx *EvalCtx, m *Expr) {
	st := ctx.st
	octx := *ctx
	octx.st = ctx.old
	for _, l := range e.modLocs(&octx, m) {
		if l.ref == nil {
			e.recordWrite(l.comp, nil)
			e.setH(st, l.comp, e.fresh("mod."+l.comp, l.sort))
			continue
		}
		_, vs := arraySorts(l.sort)
		e.storeComp(st, l.comp, l.sort, l.ref, e.fresh("mod."+l.comp, vs))
	}
}

func (e *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, pos token.Pos) Value {
	tc := e.tc
	switch b.Name() {
	case "len", "cap":
		x := e.asTerm(st, args[0], c.Args[0].Type())
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return e.w.SCap(x)
			}
			return e.w.SLen(x)
		case *types.Map:
			e.guardMap(st, x, false, pos)
			return e.card(e.mapDom(st, u, x))
		case *types.Basic:
			n := e.strlen(x)
			return n
		}
	case "append":
		stt := c.Args[0].Type().Underlying().(*types.Slice)
		s := e.asTerm(st, args[0], c.Args[0].Type())
		if bt, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			e.unsup("append string to bytes")
		}
		t := e.asTerm(st, args[1], c.Args[1].Type())
		return e.appendSlices(st, stt.Elem(), s, t)
	case "copy":
		dt := c.Args[0].Type().Underlying().(*types.Slice)
		d := e.asTerm(st, args[0], c.Args[0].Type())
		if _, ok := c.Args[1].Type().Underlying().(*types.Slice); !ok {
			e.unsup("copy from string")
		}
		s := e.asTerm(st, args[1], c.Args[1].Type())
		n := tc.Ite(tc.Cmp("<=", e.w.SLen(d), e.w.SLen(s)), e.w.SLen(d), e.w.SLen(s))
		comp, srt := e.w.compElem(dt.Elem())
		h := e.H(st, comp, srt)
		na := e.fresh("copy", arr("Int", e.w.Sort(dt.Elem())))
		da, sa := tc.Select(h, e.w.SArr(d)), e.named("src", tc.Select(h, e.w.SArr(s)))
		bv := tc.BVar("Int")
		e.assume(st, tc.Quant("forall", []*Term{bv}, tc.Eq(tc.Select(na, bv), tc.Ite(tc.And(tc.Cmp("<=", tc.Int(0), bv), tc.Cmp("<", bv, n)), tc.Select(sa, bv), tc.Select(da, bv))), [][]*Term{{tc.Select(na, bv)}, {tc.Select(sa, bv)}}))
		if e.concurrent {
			e.guardObl(st, "write-shared", e.gFresh(e.w.SArr(d)), pos)
		}
		e.storeComp(st, comp, srt, e.w.SArr(d), na)
		return n
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		e.guardMap(st, e.asTerm(st, args[0], mt), true, pos)
		e.mapDelete(st, mt, e.asTerm(st, args[0], mt), e.asTerm(st, args[1], mt.Key()))
		return &TupleV{}
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		return &TupleV{}
	}
	e.unsup("builtin %s", b.Name())
	return nil
}

func (e *Exec) appendSlices(st *State, et types.Type, s, t *Term) *Term {
	tc := e.tc
	e.assumptions["append is modelled as copying (no write into spare capacity shared with another live slice)"] = true
	comp, srt := e.w.compElem(et)
	h := e.H(st, comp, srt)
	sa, ta := tc.Select(h, e.w.SArr(s)), tc.Select(h, e.w.SArr(t))
	sl, tl := e.w.SLen(s), e.w.SLen(t)
	r := e.newObj(st)
	if n, ok := tl.intLit(); ok && n <= 8 {
		a := sa
		for i := int64(0); i < n; i++ {
			a = tc.Store(a, tc.Add(sl, tc.Int(i)), tc.Select(ta, tc.Int(i)))
		}
		if len(e.C.Emits) > 0 && n > 0 {
			// the same, with patterns
			old, na := e.named("before", sa), e.fresh("app", a.sort)
			b := tc.BVar("Int")
			e.assumeGlobal(tc.Eq(na, a))
			e.assumeGlobal(tc.Quant("forall", []*Term{b}, tc.Implies(tc.Cmp("<", b, sl), tc.Eq(tc.Select(na, b), tc.Select(old, b))), [][]*Term{{tc.Select(na, b)}, {tc.Select(old, b)}}))
			a = na
		}
		e.storeComp(st, comp, srt, r, a)
		nl := tc.Add(sl, tc.Int(n))
		cp := e.fresh("cap", "Int")
		e.assumeGlobal(tc.Cmp("<=", nl, cp))
		return e.w.MkSlice(r, nl, cp)
	}
	na := e.fresh("app", arr("Int", e.w.Sort(et)))
	nl := tc.raw("+", "Int", sl, tl)
	bv := tc.BVar("Int")
	e.assumeGlobal(tc.Quant("forall", []*Term{bv}, tc.Eq(tc.Select(na, bv),
		tc.Ite(tc.Cmp("<", bv, sl), tc.Select(sa, bv), tc.Select(ta, tc.Sub(bv, sl)))), [][]*Term{{tc.Select(na, bv)}}))
	bv2 := tc.BVar("Int")
	e.assumeGlobal(tc.Quant("forall", []*Term{bv2}, tc.Implies(tc.Cmp("<=", tc.Int(0), bv2), tc.Eq(tc.Select(na, tc.raw("+", "Int", sl, bv2)), tc.Select(ta, bv2))), [][]*Term{{tc.Select(ta, bv2)}}))
	e.storeComp(st, comp, srt, r, na)
	cp := e.fresh("cap", "Int")
	e.assumeGlobal(tc.Cmp("<=", nl, cp))
	return e.w.MkSlice(r, nl, cp)
}
