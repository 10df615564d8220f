package main

// Evaluation of specification expressions to SMT terms.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

type SpecVal struct {
	t   *Term
	typ types.Type // Go type, nil for ghost values
	g   *SType
}

type EvalCtx struct {
	e      *Exec
	pre    *State // state when the loop was entered
	st     *State
	old    *State
	vars   map[string]SpecVal
	pkg    *types.Package
	metas  map[string]SpecVal
	noSide bool // do not add well-typedness facts
}

type specErr struct{ msg string }

func (c *EvalCtx) fail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (p *Program) resolveType(st *SType, pkg *types.Package) (types.Type, string) {
	switch st.Op {
	case "ptr":
		t, _ := p.resolveType(st.A, pkg)
		return types.NewPointer(t), ""
	case "slice":
		t, _ := p.resolveType(st.A, pkg)
		return types.NewSlice(t), ""
	case "map":
		a, _ := p.resolveType(st.A, pkg)
		b, _ := p.resolveType(st.B, pkg)
		return types.NewMap(a, b), ""
	case "garr":
		return nil, "garr"
	}
	switch st.Name {
	case "any":
		return types.NewInterfaceType(nil, nil), ""
	case "RV":
		return p.findType("reflect", "Value"), ""
	case "RT":
		return p.findType("reflect", "Type"), ""
	case "Ref", "Time", "Buf", "Func", "Str", "GSeq":
		return nil, st.Name
	case "unit":
		return types.NewStruct(nil, nil), ""
	}
	if o := types.Universe.Lookup(st.Name); o != nil {
		return o.Type(), ""
	}
	for i := 0; i < len(st.Name); i++ {
		if st.Name[i] == '.' {
			return p.findType(st.Name[:i], st.Name[i+1:]), ""
		}
	}
	if pkg != nil {
		if o := pkg.Scope().Lookup(st.Name); o != nil {
			return o.Type(), ""
		}
	}
	t := p.findType("jsval", st.Name)
	return t, ""
}

func (p *Program) specSort(w *World, st *SType, pkg *types.Package) (string, types.Type) {
	if st.Op == "garr" {
		a, _ := p.specSort(w, st.A, pkg)
		b, _ := p.specSort(w, st.B, pkg)
		return arr(a, b), nil
	}
	t, g := p.resolveType(st, pkg)
	if g != "" {
		return g, nil
	}
	return w.Sort(t), t
}

func (c *EvalCtx) Bool(x *Expr) *Term {
	v := c.Eval(x)
	if v.t.sort != "Bool" {
		c.fail("not a boolean: %s", x)
	}
	return v.t
}

var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tStr = types.Typ[types.String]
var tF64 = types.Typ[types.Float64]

func (c *EvalCtx) lookup(name string) (SpecVal, bool) {
	if v, ok := c.vars[name]; ok {
		return v, true
	}
	if g, ok := c.e.P.Specs.Ghosts[name]; ok {
		srt, t := c.e.P.specSort(c.e.w, g, c.pkg)
		return SpecVal{t: c.e.H(c.st, "G:"+name, srt), typ: t, g: g}, true
	}
	return SpecVal{}, false
}

func (c *EvalCtx) Eval(x *Expr) SpecVal {
	e := c.e
	tc := e.tc
	switch x.Op {
	case "num":
		n, err := strconv.ParseInt(x.S, 10, 64)
		if err != nil {
			c.fail("bad number %s", x.S)
		}
		return SpecVal{t: tc.Int(n), typ: tInt}
	case "float":
		f, _ := strconv.ParseFloat(x.S, 64)
		return SpecVal{t: tc.Float64(f), typ: tF64}
	case "str":
		return SpecVal{t: tc.Str(x.S), typ: tStr}
	case "id":
		switch x.S {
		case "true":
			return SpecVal{t: tc.True(), typ: tBool}
		case "false":
			return SpecVal{t: tc.False(), typ: tBool}
		case "nil":
			return SpecVal{t: nil}
		}
		if v, ok := c.lookup(x.S); ok {
			return v
		}
		if d, ok := e.P.Specs.Defines[x.S]; ok && len(d.Params) == 0 {
			return c.Eval(d.E)
		}
		if u, ok := e.P.Specs.UFs[x.S]; ok && len(u.Args) == 0 {
			srt, t := e.P.specSort(e.w, u.Ret, c.pkg)
			return SpecVal{t: tc.Const(q("uf:"+u.Name), srt), typ: t, g: u.Ret}
		}
		if v, ok := e.P.globalByName(x.S, c.pkg); ok {
			return SpecVal{t: e.loadGlobal(c.st, v), typ: v.Type().Underlying().(*types.Pointer).Elem()}
		}
		c.fail("unknown name %s", x.S)
	case "meta":
		if v, ok := c.metas[x.S]; ok {
			return v
		}
		c.fail("unbound metavariable %s", x.S)
	case "old":
		oc := *c
		oc.st = c.old
		return oc.Eval(x.A[0])
	case "pre":
		if c.pre == nil {
			c.fail("pre outside a loop invariant")
		}
		oc := *c
		oc.st = c.pre
		return oc.Eval(x.A[0])
	case "un":
		v := c.Eval(x.A[0])
		if x.S == "!" {
			return SpecVal{t: tc.Not(v.t), typ: tBool}
		}
		if v.t.sort == fp64 {
			return SpecVal{t: tc.raw("fp.neg", fp64, v.t), typ: v.typ}
		}
		return SpecVal{t: tc.Sub(tc.Int(0), v.t), typ: v.typ}
	case "if":
		b := c.Bool(x.A[0])
		a1, a2 := c.Eval(x.A[1]), c.Eval(x.A[2])
		c.unifyNil(&a1, &a2)
		return SpecVal{t: tc.Ite(b, a1.t, a2.t), typ: a1.typ, g: a1.g}
	case "bin":
		return c.bin(x)
	case "field":
		return c.field(x)
	case "index":
		a, i := c.Eval(x.A[0]), c.Eval(x.A[1])
		if a.typ != nil {
			switch u := a.typ.Underlying().(type) {
			case *types.Slice:
				comp, srt := e.w.compElem(u.Elem())
				r := tc.Select(tc.Select(e.H(c.st, comp, srt), e.w.SArr(a.t)), i.t)
				c.wt(r, u.Elem())
				return SpecVal{t: r, typ: u.Elem()}
			case *types.Map:
				r := tc.Select(e.mapVals(c.st, u, a.t), i.t)
				c.wt(r, u.Elem())
				return SpecVal{t: r, typ: u.Elem()}
			case *types.Basic:
				return SpecVal{t: e.sbyte(a.t, i.t), typ: tInt}
			}
		}
		if a.g != nil && a.g.Op == "garr" {
			_, t := e.P.specSort(e.w, a.g.B, c.pkg)
			return SpecVal{t: tc.Select(a.t, i.t), typ: t, g: a.g.B}
		}
		c.fail("cannot index %s", x.A[0])
	case "quant":
		nc := *c
		nc.vars = map[string]SpecVal{}
		for k, v := range c.vars {
			nc.vars[k] = v
		}
		var bs []*Term
		for _, v := range x.Vars {
			srt, t := e.P.specSort(e.w, v.T, c.pkg)
			b := tc.BVar(srt)
			bs = append(bs, b)
			nc.vars[v.Name] = SpecVal{t: b, typ: t, g: v.T}
		}
		body := nc.Bool(x.A[0])
		var pats [][]*Term
		for _, p := range x.Pats {
			var ts []*Term
			for _, y := range p {
				ts = append(ts, c.cleanPattern(nc.Eval(y).t))
			}
			pats = append(pats, ts)
		}
		return SpecVal{t: tc.Quant(x.S, bs, body, pats), typ: tBool}
	case "call":
		return c.call(x)
	}
	c.fail("cannot evaluate %s", x)
	return SpecVal{}
}

func (c *EvalCtx) wt(t *Term, ty types.Type) {
	if !c.noSide {
		c.e.wellTyped(c.st, t, ty)
	}
}

func (c *EvalCtx) unifyNil(a, b *SpecVal) {
	if a.t == nil && b.t == nil {
		c.fail("nil vs nil")
	}
	if a.t == nil {
		*a = c.nilOf(*b)
	}
	if b.t == nil {
		*b = c.nilOf(*a)
	}
	// implicit boxing when one side is an interface
	if a.t.sort == "Val" && b.t.sort != "Val" && b.typ != nil {
		*b = SpecVal{t: c.e.boxV(b.t, b.typ), typ: a.typ}
	}
	if b.t.sort == "Val" && a.t.sort != "Val" && a.typ != nil {
		*a = SpecVal{t: c.e.boxV(a.t, a.typ), typ: b.typ}
	}
	if a.t.sort == fp64 && b.t.sort == "Int" {
		if n, ok := b.t.intLit(); ok {
			b.t = c.e.tc.Float64(float64(n))
		}
	}
}

func (c *EvalCtx) nilOf(v SpecVal) SpecVal {
	switch v.t.sort {
	case "Val":
		return SpecVal{t: c.e.w.NilVal(), typ: v.typ}
	case "Ref":
		return SpecVal{t: c.e.w.NilRef(), typ: v.typ}
	case "Slice":
		return SpecVal{t: c.e.w.Zero(v.typ), typ: v.typ}
	case "Func":
		return SpecVal{t: c.e.tc.Const("nilfunc", "Func"), typ: v.typ}
	}
	c.fail("nil of sort %s", v.t.sort)
	return SpecVal{}
}

func (c *EvalCtx) bin(x *Expr) SpecVal {
	tc := c.e.tc
	b := func(t *Term) SpecVal { return SpecVal{t: t, typ: tBool} }
	switch x.S {
	case "&&":
		return b(tc.And(c.Bool(x.A[0]), c.Bool(x.A[1])))
	case "||":
		return b(tc.Or(c.Bool(x.A[0]), c.Bool(x.A[1])))
	case "==>":
		return b(tc.Implies(c.Bool(x.A[0]), c.Bool(x.A[1])))
	case "<==>":
		return b(tc.Eq(c.Bool(x.A[0]), c.Bool(x.A[1])))
	}
	l, r := c.Eval(x.A[0]), c.Eval(x.A[1])
	c.unifyNil(&l, &r)
	if l.t.sort != r.t.sort {
		c.fail("sorts differ in %s: %s vs %s", x, l.t.sort, r.t.sort)
	}
	fp := l.t.sort == fp64 || l.t.sort == fp32
	switch x.S {
	case "==", "!=":
		var t *Term
		if l.t.sort == "Slice" && (x.A[0].S == "nil" || x.A[1].S == "nil") {
			t = tc.Eq(c.e.w.SArr(l.t), c.e.w.SArr(r.t))
		} else if fp {
			t = tc.Eq(l.t, r.t) // identity; use feq() for IEEE equality
		} else {
			t = tc.Eq(l.t, r.t)
		}
		if x.S == "!=" {
			t = tc.Not(t)
		}
		return b(t)
	case "<", "<=", ">", ">=":
		if fp {
			switch x.S {
			case "<":
				return b(tc.raw("fp.lt", "Bool", l.t, r.t))
			case "<=":
				return b(tc.raw("fp.leq", "Bool", l.t, r.t))
			case ">":
				return b(tc.raw("fp.lt", "Bool", r.t, l.t))
			}
			return b(tc.raw("fp.leq", "Bool", r.t, l.t))
		}
		return b(tc.Cmp(x.S, l.t, r.t))
	case "+":
		if l.t.sort == "Str" {
			return SpecVal{t: c.e.concat(l.t, r.t), typ: l.typ}
		}
		return SpecVal{t: tc.Add(l.t, r.t), typ: l.typ}
	case "-":
		return SpecVal{t: tc.Sub(l.t, r.t), typ: l.typ}
	case "*":
		return SpecVal{t: tc.raw("*", "Int", l.t, r.t), typ: l.typ}
	}
	c.fail("operator %s", x.S)
	return SpecVal{}
}

// field access through pointers and struct values, with promotion
func (c *EvalCtx) field(x *Expr) SpecVal {
	v := c.Eval(x.A[0])
	if v.typ == nil {
		c.fail("field %s of ghost value %s", x.S, x.A[0])
	}
	return c.fieldOf(v, x.S)
}

func (c *EvalCtx) fieldPath(t types.Type, name string) []int {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, c.pkg, name)
	if obj == nil {
		if n, ok := types.Unalias(deref(t)).(*types.Named); ok {
			obj, idx, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		return nil
	}
	return idx
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *EvalCtx) fieldOf(v SpecVal, name string) SpecVal {
	idx := c.fieldPath(v.typ, name)
	if idx == nil {
		c.fail("no field %s in %s", name, v.typ)
	}
	cur := v
	// cur.t is either a pointer (Ref) or a struct value
	isRef := false
	t := v.typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		isRef = true
		t = p.Elem()
	}
	for k, i := range idx {
		st := asStruct(t)
		ft := st.Field(i).Type()
		last := k == len(idx)-1
		if isRef {
			if isSubStruct(ft) {
				if last {
					if isLockType(ft) {
						return SpecVal{t: c.e.w.Sub(cur.t, t, i), typ: types.NewPointer(ft)}
					}
					return SpecVal{t: c.e.load(c.st, c.e.w.Sub(cur.t, t, i), ft), typ: ft}
				}
				cur = SpecVal{t: c.e.w.Sub(cur.t, t, i)}
			} else {
				comp, srt := c.e.w.compField(t, i)
				r := c.e.tc.Select(c.e.H(c.st, comp, srt), cur.t)
				c.wt(r, ft)
				cur = SpecVal{t: r, typ: ft}
				isRef = false
			}
		} else {
			cur = SpecVal{t: c.e.w.Sel(cur.t, t, i), typ: ft}
			c.wt(cur.t, ft)
		}
		t = ft
		if p, ok := ft.Underlying().(*types.Pointer); ok && !last {
			isRef = true
			t = p.Elem()
		}
	}
	cur.typ = t
	if p, ok := asStructOrPtr(cur.typ); ok {
		_ = p
	}
	return SpecVal{t: cur.t, typ: lastType(v.typ, idx)}
}

func asStructOrPtr(t types.Type) (types.Type, bool) { return t, false }

func lastType(t types.Type, idx []int) types.Type {
	for _, i := range idx {
		t = deref(t).Underlying().(*types.Struct).Field(i).Type()
	}
	return t
}

func (c *EvalCtx) call(x *Expr) SpecVal {
	e := c.e
	tc := e.tc
	arg := func(i int) SpecVal { return c.Eval(x.A[i]) }
	b := func(t *Term) SpecVal { return SpecVal{t: t, typ: tBool} }
	switch x.S {
	case "len":
		v := arg(0)
		if v.typ == nil {
			c.fail("len of ghost")
		}
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			return SpecVal{t: e.w.SLen(v.t), typ: tInt}
		case *types.Map:
			return SpecVal{t: e.card(e.mapDom(c.st, u, v.t)), typ: tInt}
		case *types.Basic:
			return SpecVal{t: e.strlen(v.t), typ: tInt}
		}
	case "has":
		v := arg(0)
		u := v.typ.Underlying().(*types.Map)
		return b(tc.Select(e.mapDom(c.st, u, v.t), arg(1).t))
	case "elems":
		v := arg(0)
		u, ok := v.typ.Underlying().(*types.Slice)
		if !ok {
			c.fail("elems of non-slice")
		}
		comp, srt := e.w.compElem(u.Elem())
		return SpecVal{t: tc.Select(e.H(c.st, comp, srt), e.w.SArr(v.t)), g: &SType{Op: "garr", A: &SType{Op: "name", Name: "int"}, B: goSType(u.Elem())}}
	case "dom":
		v := arg(0)
		u, ok := v.typ.Underlying().(*types.Map)
		if !ok {
			c.fail("dom of non-map")
		}
		return SpecVal{t: e.mapDom(c.st, u, v.t), g: &SType{Op: "garr", A: goSType(u.Key()), B: &SType{Op: "name", Name: "bool"}}}
	case "vals":
		v := arg(0)
		u := v.typ.Underlying().(*types.Map)
		return SpecVal{t: e.mapVals(c.st, u, v.t), g: &SType{Op: "garr", A: goSType(u.Key()), B: goSType(u.Elem())}}
	case "store":
		a := arg(0)
		return SpecVal{t: tc.Store(a.t, arg(1).t, arg(2).t), g: a.g, typ: a.typ}
	case "card":
		return SpecVal{t: e.card(arg(0).t), typ: tInt}
	case "emptyset":
		return SpecVal{t: tc.raw("constarr", arr("Str", "Bool"), tc.False()), g: &SType{Op: "garr", A: &SType{Op: "name", Name: "string"}, B: &SType{Op: "name", Name: "bool"}}}
	case "fresh":
		v := arg(0)
		r := v.t
		if r.sort == "Slice" {
			r = e.w.SArr(r)
		}
		return b(tc.And(tc.Cmp("<=", c.old.alloc, e.w.RootID(r)), tc.Not(tc.Eq(r, e.w.NilRef()))))
	case "allocated":
		r := arg(0).t
		if r.sort == "Slice" {
			r = e.w.SArr(r)
		}
		return b(tc.Cmp("<", e.w.RootID(r), c.st.alloc))
	case "nolocks":
		h := e.H(c.st, "G:held", arr("Ref", "Int"))
		return b(tc.Eq(h, tc.raw("constarr", arr("Ref", "Int"), tc.Int(0))))
	case "held":
		return SpecVal{t: tc.Select(e.H(c.st, "G:held", arr("Ref", "Int")), arg(0).t), typ: tInt}
	case "istype":
		t, _ := e.P.resolveType(x.T, c.pkg)
		v := arg(0)
		return b(tc.Eq(e.w.TypeOf(v.t), e.w.Tid(t)))
	case "typeof":
		return SpecVal{t: e.w.TypeOf(arg(0).t), typ: tInt}
	case "unbox":
		t, _ := e.P.resolveType(x.T, c.pkg)
		v := arg(0)
		r := e.w.Unbox(v.t, t)
		c.wt(r, t)
		return SpecVal{t: r, typ: t}
	case "box":
		v := arg(0)
		t := v.typ
		if x.T != nil {
			t, _ = e.P.resolveType(x.T, c.pkg)
		}
		if v.t.sort == "Val" {
			return v
		}
		any := types.NewInterfaceType(nil, nil)
		return SpecVal{t: e.boxV(v.t, t), typ: any}
	case "zero":
		t, _ := e.P.resolveType(x.T, c.pkg)
		return SpecVal{t: e.w.Zero(t), typ: t}
	case "feq":
		return b(tc.raw("fp.eq", "Bool", arg(0).t, arg(1).t))
	case "isnan":
		return b(tc.raw("fp.isNaN", "Bool", arg(0).t))
	case "isinf":
		return b(tc.raw("fp.isInfinite", "Bool", arg(0).t))
	case "floor":
		return SpecVal{t: tc.raw("fp.roundToIntegral", fp64, tc.Lit("RTN", "RoundingMode"), arg(0).t), typ: tF64}
	case "f2i":
		t, _ := e.P.resolveType(x.T, c.pkg)
		return SpecVal{t: e.convert(c.st, arg(0).t, tF64, t), typ: t}
	case "ftrunc":
		return SpecVal{t: tc.raw("fp.roundToIntegral", fp64, tc.Lit("RTZ", "RoundingMode"), arg(0).t), typ: tF64}
	case "f32to64":
		return SpecVal{t: tc.raw("(_ to_fp 11 53)", fp64, tc.Lit("RNE", "RoundingMode"), arg(0).t), typ: tF64}
	case "i2f":
		return SpecVal{t: e.convert(c.st, arg(0).t, tInt, tF64), typ: tF64}
	case "substr":
		return SpecVal{t: tc.App("substr", "Str", arg(0).t, arg(1).t, arg(2).t), typ: tStr}
	case "ieq":
		l, r := arg(0), arg(1)
		c.unifyNil(&l, &r)
		return b(tc.App("ieq", "Bool", l.t, r.t))
	case "implements":
		// implements(value, "M1,M2"): the dynamic type has these methods
		if x.A[1].Op != "str" {
			c.fail("implements needs a literal list of method names")
		}
		v := arg(0)
		e.findIface(q("implements:" + x.A[1].S))
		return b(tc.And(tc.Not(tc.Eq(v.t, e.w.NilVal())), tc.App(q("implements:"+x.A[1].S), "Bool", e.w.TypeOf(v.t))))
	case "emitlen", "emitcomma", "emititems":
		// the open argument list of a text
		v := arg(0)
		_, g := e.gsOf(c.st, v.t)
		if g == nil || g.dead || !g.top().listStage() {
			c.fail("no open list")
		}
		f := g.top()
		switch x.S {
		case "emitlen":
			return SpecVal{t: e.eLen(c.st, f.id), typ: tInt}
		case "emitcomma":
			return b(e.eOpen(c.st, f.id))
		}
		return SpecVal{t: e.eItems(c.st, f.id, f.elem), g: &SType{Op: "garr", A: &SType{Op: "name", Name: "int"}, B: goSType(f.elem)}}
	case "emitted":
		// the complete expression written so far
		v := arg(0)
		_, g := e.gsOf(c.st, v.t)
		if g == nil || g.dead || g.frames[0].op == nil && len(g.frames) == 1 {
			c.fail("no complete expression")
		}
		f := g.frames[0]
		op := f.op
		if op == nil {
			op = g.frames[1].recv
		}
		if op == nil || op.typ == nil {
			c.fail("no complete expression")
		}
		return SpecVal{t: op.t, typ: op.typ}
	case "addr":
		// address of sub-object field: addr(x.f)
		fx := x.A[0]
		v := c.Eval(fx.A[0])
		idx := c.fieldPath(v.typ, fx.S)
		t := deref(v.typ)
		r := v.t
		for _, i := range idx {
			r = e.w.Sub(r, t, i)
			t = asStruct(t).Field(i).Type()
		}
		return SpecVal{t: r, typ: types.NewPointer(t)}
	case "deref":
		v := arg(0)
		t := deref(v.typ)
		return SpecVal{t: e.load(c.st, v.t, t), typ: t}
	case "mk":
		c.fail("mk")
	case "unchanged":
		oc := *c
		oc.st = c.old
		l, r := c.Eval(x.A[0]), oc.Eval(x.A[0])
		return b(tc.Eq(l.t, r.t))
	}
	if d, ok := e.P.Specs.Defines[x.S]; ok {
		if len(d.Params) != len(x.A) {
			c.fail("define %s arity", x.S)
		}
		nc := *c
		nc.vars = map[string]SpecVal{}
		for k, v := range c.vars {
			nc.vars[k] = v
		}
		for i, p := range d.Params {
			nc.vars[p] = c.Eval(x.A[i])
		}
		return nc.Eval(d.E)
	}
	if u, ok := e.P.Specs.UFs[x.S]; ok {
		if len(u.Args) != len(x.A) {
			c.fail("uf %s arity", x.S)
		}
		var ts []*Term
		for i, a := range u.Args {
			srt, at := e.P.specSort(e.w, a, c.pkg)
			v := arg(i)
			if v.t == nil {
				v.t = c.nilOf(SpecVal{t: tc.Const("dummy!"+srt, srt), typ: at}).t
			}
			if srt == "Val" && v.t.sort != "Val" && v.typ != nil {
				v.t = e.boxV(v.t, v.typ)
			}
			if v.t.sort != srt {
				c.fail("uf %s argument %d: sort %s, want %s", x.S, i, v.t.sort, srt)
			}
			ts = append(ts, v.t)
		}
		srt, t := e.P.specSort(e.w, u.Ret, c.pkg)
		return SpecVal{t: tc.App(q("uf:"+u.Name), srt, ts...), typ: t, g: u.Ret}
	}
	c.fail("unknown function %s", x.S)
	return SpecVal{}
}

// cleanPattern names ground if-then-else subterms of a trigger, and the ground
// reads of updated heaps, by constants
// (solvers do not accept boolean structure inside triggers).
func (c *EvalCtx) cleanPattern(t *Term) *Term {
	e := c.e
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.kind != 'a' {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.op == "ite" {
			if !t.free {
				r = e.tc.Const(q(fmt.Sprintf("pat!%d", t.id)), t.sort)
				if !e.patNamed[r] {
					e.patNamed[r] = true
					e.facts = append(e.facts, Fact{t: e.tc.Eq(r, t)})
				}
			}
		} else {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = rec(a)
				ch = ch || as[i] != a
			}
			if ch {
				r = e.tc.raw(t.op, t.sort, as...)
			}
			if !t.free && (t.op == "store" || t.op == "select" && t.args[0].op == "store") && strings.HasPrefix(t.sort, "(Array") {
				// a read of an updated heap: give the solver the ground term,
				// so that the trigger also matches the heap it equals
				n := e.tc.Const(q(fmt.Sprintf("pat!%d", t.id)), t.sort)
				if !e.patNamed[n] {
					e.patNamed[n] = true
					e.facts = append(e.facts, Fact{t: e.tc.Eq(n, t)})
				}
				r = n
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func goSType(t types.Type) *SType {
	switch u := t.(type) {
	case *types.Pointer:
		return &SType{Op: "ptr", A: goSType(u.Elem())}
	case *types.Slice:
		return &SType{Op: "slice", A: goSType(u.Elem())}
	case *types.Map:
		return &SType{Op: "map", A: goSType(u.Key()), B: goSType(u.Elem())}
	case *types.Struct:
		return &SType{Op: "name", Name: "unit"}
	case *types.Interface:
		return &SType{Op: "name", Name: "any"}
	}
	k := typeKey(t)
	return &SType{Op: "name", Name: k}
}
