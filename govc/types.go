package main

// Mapping of Go types to SMT sorts and heap components.

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
	"sync"
)

// World holds everything that is shared by the verification of one function:
// the term context, the registered datatypes and type identifiers.
type World struct {
	tc     *TermCtx
	P      *Program
	dts    []string        // datatype declarations in dependency order
	dtDone map[string]bool // struct sort -> registered
	stype  map[string]*types.Struct
	tids   map[string]int  // type key -> id
	tidTyp []types.Type    // id-1 -> type
	fids   map[string]int  // "T.f" -> field id for sub refs
	opq    map[string]bool // opaque sorts declared
	boxed  map[*Term]bool  // box terms already given axioms
}

func NewWorld(p *Program) *World {
	return &World{tc: NewTermCtx(), P: p, dtDone: map[string]bool{}, stype: map[string]*types.Struct{}, tids: map[string]int{}, fids: map[string]int{}, opq: map[string]bool{}, boxed: map[*Term]bool{}}
}

var opaqueStructs = map[string]string{
	"reflect.Value":    "RV",
	"time.Time":        "Time",
	"sync.Mutex":       "Mutex",
	"sync.RWMutex":     "Mutex",
	"bytes.Buffer":     "Buf",
	"regexp.Regexp":    "RegexpV",
	"reflect.Method":   "RMethod",
	"net/http.Request": "HReq",
}

func typeKey(t types.Type) string {
	k, ok := typeKeys.Load(t)
	if ok {
		return k.(string)
	}
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return shortPkg(p) })
	s = aliasRx.ReplaceAllStringFunc(s, func(m string) string {
		switch m {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		case "any":
			return "interface{}"
		}
		return m
	})
	typeKeys.Store(t, s)
	return s
}

// aliasRx matches whole (possibly qualified) names, so that only the
// predeclared aliases are rewritten.
var aliasRx = regexp.MustCompile(`[\w.]+`)
var typeKeys sync.Map

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	path := p.Path()
	if strings.HasSuffix(path, "jsschema") {
		return "schema"
	}
	return path[strings.LastIndex(path, "/")+1:]
}

func opaqueSort(t types.Type) (string, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		s, ok := opaqueStructs[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
		return s, ok
	}
	return "", false
}

func isLockType(t types.Type) bool {
	s, ok := opaqueSort(t)
	return ok && s == "Mutex"
}

func q(s string) string { return "|" + strings.ReplaceAll(s, "|", "!") + "|" }

type unsupported struct{ msg string }

func (w *World) unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// asStruct returns the struct type if t is a (non opaque) struct.
func asStruct(t types.Type) *types.Struct {
	if _, ok := opaqueSort(t); ok {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (w *World) Sort(t types.Type) string {
	if s, ok := opaqueSort(t); ok {
		w.opq[s] = true
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Kind() == types.Float32:
			return fp32
		case u.Info()&types.IsFloat != 0:
			return fp64
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Val"
		case u.Kind() == types.UnsafePointer:
			return "Ref"
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return "Ref"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Val"
	case *types.Signature:
		return "Func"
	case *types.Struct:
		return w.structSort(t, u)
	case *types.Array:
		return arr("Int", w.Sort(u.Elem()))
	}
	w.unsup("no sort for type %s", t)
	return ""
}

func (w *World) structSort(t types.Type, u *types.Struct) string {
	name := "S:" + typeKey(t)
	if _, named := types.Unalias(t).(*types.Named); !named {
		name = "S:" + typeKey(u)
	}
	s := q(name)
	if w.dtDone[s] {
		return s
	}
	w.dtDone[s] = true
	w.stype[s] = u
	var fs []string
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, fmt.Sprintf("(%s %s)", selName(s, u, i), w.Sort(u.Field(i).Type())))
	}
	ctor := mkName(s)
	if len(fs) > 0 {
		w.dts = append(w.dts, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", s, ctor, strings.Join(fs, " ")))
	} else {
		w.dts = append(w.dts, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s))))", s, ctor))
	}
	return s
}

func unq(s string) string { return strings.Trim(s, "|") }

func mkName(sort string) string { return q("mk:" + unq(sort)) }
func selName(sort string, u *types.Struct, i int) string {
	return q("get:" + unq(sort) + "." + u.Field(i).Name() + fmt.Sprint(i))
}

// MkStruct / Sel on struct datatype values
func (w *World) MkStruct(t types.Type, fields []*Term) *Term {
	s := w.Sort(t)
	if len(fields) == 0 {
		return w.tc.Lit(mkName(s), s)
	}
	// eta: mk(sel0 x, sel1 x ...) -> x
	u := w.stype[s]
	if f0 := fields[0]; f0.kind == 'a' && f0.op == selName(s, u, 0) {
		x := f0.args[0]
		ok := true
		for i, f := range fields {
			if f.kind != 'a' || f.op != selName(s, u, i) || f.args[0] != x {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return w.tc.raw(mkName(s), s, fields...)
}

func (w *World) Sel(v *Term, t types.Type, i int) *Term {
	u := asStruct(t)
	s := w.Sort(t)
	if v.op == mkName(s) && v.kind == 'a' {
		return v.args[i]
	}
	if v.op == "ite" && v.kind == 'a' {
		a, b := w.Sel(v.args[1], t, i), w.Sel(v.args[2], t, i)
		return w.tc.Ite(v.args[0], a, b)
	}
	return w.tc.raw(selName(s, u, i), w.Sort(u.Field(i).Type()), v)
}

func (w *World) SetField(v *Term, t types.Type, i int, x *Term) *Term {
	u := asStruct(t)
	fs := make([]*Term, u.NumFields())
	for j := range fs {
		if j == i {
			fs[j] = x
		} else {
			fs[j] = w.Sel(v, t, j)
		}
	}
	return w.MkStruct(t, fs)
}

func (w *World) Zero(t types.Type) *Term {
	tc := w.tc
	if s, ok := opaqueSort(t); ok {
		w.opq[s] = true
		return tc.Const("zero!"+s, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tc.False()
		case u.Info()&types.IsInteger != 0:
			return tc.Int(0)
		case u.Kind() == types.Float32:
			return tc.Float32(0)
		case u.Info()&types.IsFloat != 0:
			return tc.Float64(0)
		case u.Info()&types.IsString != 0:
			return tc.Str("")
		case u.Kind() == types.UntypedNil:
			return w.NilVal()
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return tc.Lit("nilref", "Ref")
	case *types.Slice:
		return w.MkSlice(tc.Lit("nilref", "Ref"), tc.Int(0), tc.Int(0))
	case *types.Interface:
		return w.NilVal()
	case *types.Signature:
		return tc.Const("nilfunc", "Func")
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = w.Zero(u.Field(i).Type())
		}
		return w.MkStruct(t, fs)
	case *types.Array:
		return tc.raw("constarr", w.Sort(t), w.Zero(u.Elem()))
	}
	w.unsup("no zero for %s", t)
	return nil
}

func (w *World) NilVal() *Term { return w.tc.Const("nilV", "Val") }
func (w *World) NilRef() *Term { return w.tc.Lit("nilref", "Ref") }

func (w *World) MkSlice(a, l, c *Term) *Term { return w.tc.raw("mkslice", "Slice", a, l, c) }
func (w *World) sl(op, sort string, s *Term) *Term {
	if s.op == "mkslice" && s.kind == 'a' {
		switch op {
		case "sarr":
			return s.args[0]
		case "slen":
			return s.args[1]
		}
		return s.args[2]
	}
	if s.op == "ite" && s.kind == 'a' {
		return w.tc.Ite(s.args[0], w.sl(op, sort, s.args[1]), w.sl(op, sort, s.args[2]))
	}
	return w.tc.raw(op, sort, s)
}
func (w *World) SArr(s *Term) *Term { return w.sl("sarr", "Ref", s) }
func (w *World) SLen(s *Term) *Term { return w.sl("slen", "Int", s) }
func (w *World) SCap(s *Term) *Term { return w.sl("scap", "Int", s) }

// Tid returns the integer literal identifying a dynamic type.
func (w *World) Tid(t types.Type) *Term {
	k := typeKey(t)
	id, ok := w.tids[k]
	if !ok {
		id = len(w.tids) + 1
		w.tids[k] = id
		w.tidTyp = append(w.tidTyp, t)
	}
	return w.tc.Int(int64(id))
}

func (w *World) TypeOf(v *Term) *Term {
	if t, ok := w.boxType(v); ok {
		return w.Tid(t)
	}
	if v == w.NilVal() {
		return w.tc.Int(0)
	}
	return w.tc.App("typeof", "Int", v)
}

var boxTypes sync.Map // op -> types.Type

func (w *World) boxType(v *Term) (types.Type, bool) {
	if v.kind == 'a' && strings.HasPrefix(v.op, "|box:") {
		t, ok := boxTypes.Load(v.op)
		if !ok {
			return nil, false
		}
		return t.(types.Type), true
	}
	return nil, false
}

func (w *World) Box(v *Term, t types.Type) *Term {
	op := q("box:" + typeKey(t))
	boxTypes.Store(op, t)
	w.Tid(t)
	uop := q("unbox:" + typeKey(t))
	if v.kind == 'a' && v.op == uop {
		// box(unbox(x)) is only x under the right type; keep the application
	}
	if v.kind == 'a' && v.op == "ite" {
		return w.tc.Ite(v.args[0], w.Box(v.args[1], t), w.Box(v.args[2], t))
	}
	return w.tc.App(op, "Val", v)
}

func (w *World) Unbox(v *Term, t types.Type) *Term {
	if bt, ok := w.boxType(v); ok && typeKey(bt) == typeKey(t) {
		return v.args[0]
	}
	return w.tc.App(q("unbox:"+typeKey(t)), w.Sort(t), v)
}

// FieldID numbers struct fields for sub-object references.
func (w *World) FieldID(t types.Type, i int) *Term {
	k := typeKey(t) + "." + fmt.Sprint(i)
	id, ok := w.fids[k]
	if !ok {
		id = len(w.fids) + 1
		w.fids[k] = id
	}
	return w.tc.Int(int64(id))
}

func (w *World) Sub(r *Term, t types.Type, i int) *Term {
	return w.tc.raw("sub", "Ref", r, w.FieldID(t, i))
}
func (w *World) Obj(n *Term) *Term { return w.tc.raw("obj", "Ref", n) }
func (w *World) RootID(r *Term) *Term {
	switch {
	case r.kind == 'l' && r.op == "nilref":
		return w.tc.Int(-1000000)
	case r.kind == 'a' && r.op == "obj":
		return r.args[0]
	case r.kind == 'a' && r.op == "sub":
		return w.RootID(r.args[0])
	}
	return w.tc.App("rootid", "Int", r)
}

// heap component names and sorts
func (w *World) compField(t types.Type, i int) (string, string) {
	u := asStruct(t)
	return "F:" + typeKey(t) + "." + u.Field(i).Name() + "#" + fmt.Sprint(i), arr("Ref", w.Sort(u.Field(i).Type()))
}
func (w *World) compCell(t types.Type) (string, string) {
	return "C:" + typeKey(t), arr("Ref", w.Sort(t))
}
func (w *World) compElem(t types.Type) (string, string) {
	return "E:" + typeKey(t), arr("Ref", arr("Int", w.Sort(t)))
}
func (w *World) compMapDom(m *types.Map) (string, string) {
	return "MD:" + typeKey(m), arr("Ref", arr(w.Sort(m.Key()), "Bool"))
}
func (w *World) compMapVal(m *types.Map) (string, string) {
	return "MV:" + typeKey(m), arr("Ref", arr(w.Sort(m.Key()), w.Sort(m.Elem())))
}

// isSubStruct: a field that lives at its own sub reference
func isSubStruct(t types.Type) bool {
	return asStruct(t) != nil || isLockType(t)
}
