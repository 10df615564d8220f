package main

// Ghost execution of generated code. A function whose contract says "emits"
// writes the text of a Go expression to a writer. The text is parsed as it is
// written and the expression is executed on the symbolic heap: every call in
// it is a call of the real constructor or method under its contract (or
// inlined). Whatever is not recognised as a well-formed expression makes the
// text "broken", and the contract is that it is not broken when the function
// reports no error.
//
// The shape of what has been written so far (open calls, complete operand) is
// concrete; everything symbolic lives in heap components at the reference
// that stands for the text or for an open argument list:
//   E:broken  the text is not a well-formed, well-typed expression
//   E:len     number of items of an open list
//   E:open    the last item has not been followed by a comma yet
//   E:items:S the items

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type eOp struct {
	t   *Term
	typ types.Type // nil: interface value whose static type is its dynamic one
	un  string     // untyped constant: nil string bool int float
	nl  *Term      // a newline follows
}

type eFrame struct {
	kind  string // top list call comp conv
	id    *Term
	elem  types.Type // of a list
	fn    *ssa.Function
	recv  *eOp
	args  []*eOp
	fixed int
	vari  bool
	comma bool // fixed arguments: nothing, or a comma, precedes
	op    *eOp
	pend  string
	hole  *Term
	name  string
	ckind *Term
}

type GS struct {
	id     *Term
	frames []*eFrame
	dead   bool
}

// Emits clause of a contract
type Emits struct {
	Tags []string
	Out  string
	Name string
	List bool
	T    *SType
	Src  string
}

func parseEmits(s string) *Emits {
	em := &Emits{Src: s}
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		for _, t := range strings.Split(s[1:i], ",") {
			em.Tags = append(em.Tags, strings.TrimSpace(t))
		}
		s = strings.TrimSpace(s[i+1:])
	}
	f := strings.Fields(s)
	em.Out, em.Name = f[0], f[1]
	f = f[2:]
	if f[0] == "list" {
		em.List = true
		f = f[1:]
	}
	em.T = parseType(strings.Join(f, " "))
	return em
}

func (g *GS) clone() *GS {
	n := &GS{id: g.id, dead: g.dead}
	for _, f := range g.frames {
		c := *f
		c.args = append([]*eOp{}, f.args...)
		n.frames = append(n.frames, &c)
	}
	return n
}

func (g *GS) top() *eFrame { return g.frames[len(g.frames)-1] }

const (
	sBroken = "(Array Ref Bool)"
	sLen    = "(Array Ref Int)"
)

func (e *Exec) eBroken(st *State, id *Term) *Term {
	return e.tc.Select(e.H(st, "E:broken", sBroken), id)
}

func (e *Exec) eBreak(st *State, g *GS, cond *Term) {
	if cond == nil || cond.kind == 'l' && cond.op == "false" {
		return
	}
	e.storeComp(st, "E:broken", sBroken, g.id, e.tc.Or(e.eBroken(st, g.id), cond))
}

func (e *Exec) eDead(st *State, g *GS, why string) {
	if debugEmit {
		fmt.Printf("    emit: %s at %s: %s\n", e.C.Name, e.site, why)
	}
	e.eBreak(st, g, e.tc.True())
	g.dead = true
	g.frames = nil
}

var debugEmit bool

func (e *Exec) eLen(st *State, id *Term) *Term  { return e.tc.Select(e.H(st, "E:len", sLen), id) }
func (e *Exec) eOpen(st *State, id *Term) *Term { return e.tc.Select(e.H(st, "E:open", sBroken), id) }
func (e *Exec) eItems(st *State, id *Term, t types.Type) *Term {
	s := e.w.Sort(t)
	return e.tc.Select(e.H(st, "E:items:"+s, arr("Ref", arr("Int", s))), id)
}

// newList: the reference of an empty item list
func (e *Exec) newList(st *State, elem types.Type) *Term {
	id := e.newObj(st)
	e.storeComp(st, "E:len", sLen, id, e.tc.Int(0))
	e.storeComp(st, "E:open", sBroken, id, e.tc.False())
	return id
}

// writerKey: a buffer is known by its reference, any other writer by itself
func (e *Exec) writerKey(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		return nil
	}
	if bt, u, ok := e.unboxed(t); ok {
		k := typeKey(bt)
		if k == "*bytes.Buffer" || k == "*strings.Builder" {
			return u
		}
	}
	return t
}

// gsOf: the text of a writer, if it is under observation
func (e *Exec) gsOf(st *State, v Value) (*Term, *GS) {
	k := e.writerKey(v)
	if k == nil {
		return nil, nil
	}
	if g := st.emit[k]; g != nil {
		return k, g.clone()
	}
	return nil, nil
}

// newText: a new buffer holds an empty text
func (e *Exec) newText(st *State, r *Term) {
	st.setGS(r, &GS{id: r, frames: []*eFrame{{kind: "top"}}})
	e.storeComp(st, "E:broken", sBroken, r, e.tc.False())
}

func (st *State) setGS(k *Term, g *GS) {
	n := map[*Term]*GS{}
	for x, y := range st.emit {
		n[x] = y
	}
	n[k] = g
	st.emit = n
}

// ---------- text items

type titem struct {
	lit  string
	op   *eOp
	hole *Term
	kind *Term
	text *eText
	bad  string
	cond *Term // the item is not well-formed if this holds
}

// eText: the text held by a buffer when it was turned into a string
type eText struct {
	g      *GS
	broken *Term
}

func (e *Exec) flatten(st *State, s *Term) []titem {
	tc := e.tc
	if v, ok := tc.strval[s]; ok {
		return []titem{{lit: v}}
	}
	if x, ok := e.texts[s]; ok {
		return []titem{{text: x}}
	}
	if x, ok := e.textItems[s]; ok {
		return x
	}
	if s.kind == 'a' {
		switch s.op {
		case "sconcat":
			return append(append([]titem{}, e.flatten(st, s.args[0])...), e.flatten(st, s.args[1])...)
		case q("uf:quoted"):
			return []titem{{op: &eOp{t: s.args[0], un: "string"}}}
		case q("uf:itoa"):
			return []titem{{op: &eOp{t: s.args[0], un: "int"}}}
		case q("uf:kindname"):
			return []titem{{kind: s.args[0]}}
		case q("uf:fmtbool"):
			return []titem{{op: &eOp{t: s.args[0], un: "bool"}}}
		case q("uf:fmtfloat"):
			return []titem{e.floatItem(s.args[0], s.args[1], s.args[2], s.args[3])}
		}
	}
	return []titem{{hole: s}}
}

// floatItem: the literal strconv.FormatFloat makes
func (e *Exec) floatItem(f, verb, prec, bits *Term) titem {
	tc := e.tc
	v, ok1 := verb.intLit()
	p, ok2 := prec.intLit()
	b, ok3 := bits.intLit()
	bad := tc.Or(tc.raw("fp.isNaN", "Bool", f), tc.raw("fp.isInfinite", "Bool", f))
	if !ok1 || !ok2 || !ok3 || p != -1 || b != 64 || !strings.ContainsRune("gGeEf", rune(v)) {
		u := tc.App(q("uf:fmtfloatval"), fp64, f, verb, prec, bits)
		return titem{op: &eOp{t: u, un: "float"}, cond: bad}
	}
	val := tc.Ite(tc.raw("fp.isZero", "Bool", f), tc.Float64(0), f)
	return titem{op: &eOp{t: val, un: "float"}, cond: bad}
}

// rebox: a value of type t is the boxed form of what it holds
func (e *Exec) rebox(st *State, a *Term, t types.Type) {
	e.assumeGlobal(e.tc.Implies(e.tc.Eq(e.w.TypeOf(a), e.w.Tid(t)), e.tc.Eq(e.boxV(e.w.Unbox(a, t), t), a)))
}

func (e *Exec) verbItem(st *State, verb byte, a *Term) []titem {
	tc := e.tc
	bt, u, ok := e.unboxed(a)
	if !ok {
		switch verb {
		case 't':
			e.rebox(st, a, tBool)
			return []titem{{op: &eOp{t: e.w.Unbox(a, tBool), un: "bool"}, cond: tc.Not(tc.Eq(e.w.TypeOf(a), e.w.Tid(tBool)))}}
		case 'q':
			e.rebox(st, a, tStr)
			return []titem{{op: &eOp{t: e.w.Unbox(a, tStr), un: "string"}, cond: tc.Not(tc.Eq(e.w.TypeOf(a), e.w.Tid(tStr)))}}
		case 's':
			return []titem{{hole: e.w.Unbox(a, tStr), cond: tc.Not(tc.Eq(e.w.TypeOf(a), e.w.Tid(tStr)))}}
		}
		return []titem{{bad: "value of unknown type"}}
	}
	b, _ := bt.Underlying().(*types.Basic)
	if typeKey(bt) == "reflect.Kind" && (verb == 's' || verb == 'v') {
		return []titem{{kind: u}}
	}
	if b == nil || types.NewMethodSet(bt).Lookup(nil, "String") != nil || types.NewMethodSet(bt).Lookup(nil, "Error") != nil || types.NewMethodSet(bt).Lookup(nil, "Format") != nil {
		return []titem{{bad: "value of type " + bt.String()}}
	}
	switch {
	case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
		return e.flatten(st, u)
	case b.Info()&types.IsString != 0 && verb == 'q':
		return []titem{{op: &eOp{t: u, un: "string"}}}
	case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
		return []titem{{op: &eOp{t: u, un: "bool"}}}
	case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
		return []titem{{op: &eOp{t: u, un: "int"}}}
	case b.Kind() == types.Float64 && (verb == 'g' || verb == 'v'):
		return []titem{e.floatItem(u, tc.Int('g'), tc.Int(-1), tc.Int(64))}
	case b.Kind() == types.Float64:
		return []titem{e.floatItem(u, tc.Int(int64(verb)), tc.Int(6), tc.Int(64))}
	}
	return []titem{{bad: fmt.Sprintf("%%%c of %s", verb, bt)}}
}

// formatItems: fmt.Sprintf(f, args...)
func (e *Exec) formatItems(st *State, f *Term, args []*Term) []titem {
	v, ok := e.tc.strval[f]
	if !ok {
		return []titem{{bad: "format is not a literal"}}
	}
	var out []titem
	for i := 0; i < len(v); {
		j := strings.IndexByte(v[i:], '%')
		if j < 0 {
			out = append(out, titem{lit: v[i:]})
			break
		}
		if j > 0 {
			out = append(out, titem{lit: v[i : i+j]})
		}
		i += j + 1
		if i >= len(v) {
			return []titem{{bad: "format"}}
		}
		c := v[i]
		i++
		if c == '%' {
			out = append(out, titem{lit: "%"})
			continue
		}
		if !strings.ContainsRune("svdtqgfeGE", rune(c)) || len(args) == 0 {
			return []titem{{bad: "format verb"}}
		}
		out = append(out, e.verbItem(st, c, args[0])...)
		args = args[1:]
	}
	if len(args) > 0 {
		return []titem{{bad: "too many arguments"}}
	}
	return out
}

// variadic takes apart a slice of known length
func (e *Exec) variadic(st *State, s Value) ([]*Term, bool) {
	t, ok := s.(*Term)
	if !ok {
		return nil, false
	}
	n, ok := e.w.SLen(t).intLit()
	if !ok {
		return nil, false
	}
	comp, srt := e.w.compElem(types.NewInterfaceType(nil, nil))
	a := e.tc.Select(e.H(st, comp, srt), e.w.SArr(t))
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, e.tc.Select(a, e.tc.Int(i)))
	}
	return out, true
}

// ---------- calls that write or make text

// emitCall handles functions that write text to a writer that is under
// observation, or that make text.
func (e *Exec) emitCall(fr *Frame, st *State, key string, f *ssa.Function, args []Value) ([]Value, bool) {
	tc := e.tc
	results := func() []Value {
		var out []Value
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rt := f.Signature.Results().At(i).Type()
			r := e.fresh("wr", e.w.Sort(rt))
			e.wellTyped(st, r, rt)
			out = append(out, r)
		}
		return out
	}
	switch key {
	case "fmt.Sprintf":
		fs, ok := args[0].(*Term)
		as, ok2 := e.variadic(st, args[1])
		if !ok || !ok2 || len(e.C.Emits) == 0 {
			return nil, false
		}
		c := e.P.Specs.Contracts[key]
		r := e.applyContract(fr, st, c, key, f.Signature, args, "", true)
		e.textItems[r[0].(*Term)] = e.formatItems(st, fs, as)
		return r, true
	case "strings.TrimSuffix", "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight":
		// an expression does not end in what is cut off here
		s, ok := args[0].(*Term)
		if !ok {
			return nil, false
		}
		x := e.texts[s]
		if x != nil && x.g.dead {
			return []Value{s}, true
		}
		if x == nil || len(x.g.frames) != 1 || x.g.top().op == nil {
			return nil, false
		}
		if key == "strings.TrimSuffix" {
			suf, ok := tc.strval[args[1].(*Term)]
			if !ok || !strings.HasPrefix(suf, ".") {
				return nil, false
			}
			return []Value{s}, true
		}
		if key == "strings.TrimSpace" {
			r := e.fresh("text", "Str")
			g := x.g.clone()
			op := *g.top().op
			op.nl = tc.False()
			g.top().op = &op
			e.texts[r] = &eText{g, x.broken}
			return []Value{r}, true
		}
		return nil, false
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		k, g := e.gsOf(st, args[0])
		if g == nil {
			return results(), true
		}
		e.settle(st, g)
		st.setGS(k, g)
		r := e.fresh("text", "Str")
		e.texts[r] = &eText{g.clone(), e.eBroken(st, g.id)}
		return []Value{r}, true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
	default:
		return nil, false
	}
	k, g := e.gsOf(st, args[0])
	if g == nil {
		return results(), true
	}
	var items []titem
	switch key {
	case "fmt.Fprintf":
		fs, ok := args[1].(*Term)
		as, ok2 := e.variadic(st, args[2])
		if !ok || !ok2 {
			items = []titem{{bad: "arguments"}}
		} else {
			items = e.formatItems(st, fs, as)
		}
	case "fmt.Fprint", "fmt.Fprintln":
		as, ok := e.variadic(st, args[1])
		if !ok {
			items = []titem{{bad: "arguments"}}
			break
		}
		for i, a := range as {
			bt, _, ok := e.unboxed(a)
			if len(as) > 1 && (!ok || types.Default(bt).Underlying() != types.Typ[types.String]) {
				items = []titem{{bad: "arguments"}} // spaces between operands
				break
			}
			if i > 0 && key == "fmt.Fprintln" {
				items = append(items, titem{lit: " "})
			}
			items = append(items, e.verbItem(st, 'v', a)...)
		}
		if key == "fmt.Fprintln" {
			items = append(items, titem{lit: "\n"})
		}
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		if n, ok := args[1].(*Term).intLit(); ok && n < 128 {
			items = []titem{{lit: string(rune(n))}}
		} else {
			items = []titem{{bad: "byte"}}
		}
	default:
		if s, ok := args[1].(*Term); ok {
			items = e.flatten(st, s)
		} else {
			items = []titem{{bad: "text"}}
		}
	}
	e.emitItems(fr, st, g, items)
	st.setGS(k, g)
	return results(), true
}

// ---------- the parser

func (e *Exec) emitItems(fr *Frame, st *State, g *GS, items []titem) {
	save := e.site
	defer func() { e.site = save }()
	sub := 0
	step := func() { sub++; e.site = fmt.Sprintf("%s.e%d", save, sub) }
	for _, it := range items {
		if g.dead {
			return
		}
		step()
		switch {
		case it.bad != "":
			e.eDead(st, g, it.bad)
		case it.op != nil:
			e.eBreak(st, g, it.cond)
			op := *it.op
			e.pushOp(st, g, &op)
		case it.text != nil:
			e.eBreak(st, g, it.text.broken)
			x := it.text.g
			if x.dead || len(x.frames) != 1 || x.top().pend != "" || x.top().op == nil {
				e.eDead(st, g, "incomplete text")
				return
			}
			op := *x.top().op
			e.pushOp(st, g, &op)
		case it.hole != nil:
			e.eBreak(st, g, it.cond)
			e.tokIdent(st, g, it.hole, "")
		case it.kind != nil:
			if !e.startOp(st, g) {
				return
			}
			g.top().pend, g.top().ckind = "kind", it.kind
		default:
			s := it.lit
			for len(s) > 0 && !g.dead {
				step()
				c := s[0]
				switch {
				case c == ' ' || c == '\t' || c == '\r':
					s = s[1:]
				case c == '\n':
					e.tokNewline(st, g)
					s = s[1:]
				case c == '_' || unicode.IsLetter(rune(c)):
					n := 1
					for n < len(s) && (s[n] == '_' || unicode.IsLetter(rune(s[n])) || unicode.IsDigit(rune(s[n]))) {
						n++
					}
					e.tokIdent(st, g, e.tc.Str(s[:n]), s[:n])
					s = s[n:]
				case c >= '0' && c <= '9' || c == '-':
					n := 1
					for n < len(s) && (s[n] >= '0' && s[n] <= '9' || s[n] == '.' && n+1 < len(s) && s[n+1] >= '0' && s[n+1] <= '9') {
						n++
					}
					e.tokNumber(st, g, s[:n])
					s = s[n:]
				case c == '"' || c == '`':
					n := 1
					for n < len(s) && s[n] != c {
						if s[n] == '\\' && c == '"' {
							n++
						}
						n++
					}
					if n >= len(s) {
						e.eDead(st, g, "unterminated string")
						return
					}
					v, err := strconv.Unquote(s[:n+1])
					if err != nil {
						e.eDead(st, g, "string literal")
						return
					}
					e.pushOp(st, g, &eOp{t: e.tc.Str(v), un: "string"})
					s = s[n+1:]
				default:
					e.tokPunct(fr, st, g, c)
					s = s[1:]
				}
			}
		}
	}
}

// newline: afterwards only a token that can start a line may follow
func (e *Exec) afterNL(st *State, g *GS) {
	if op := g.top().op; op != nil && op.nl != nil {
		e.eBreak(st, g, op.nl)
	}
}

// listStage: is the frame at a place for list items?
func (f *eFrame) listStage() bool {
	return f.kind == "list" || f.kind == "comp" || f.kind == "call" && f.vari && len(f.args) == f.fixed
}

// startOp: an operand begins
func (e *Exec) startOp(st *State, g *GS) bool {
	f := g.top()
	if f.op != nil || f.pend != "" {
		e.eDead(st, g, "operand after "+f.pend+" or operand")
		return false
	}
	if f.kind == "call" && !f.listStage() && !f.comma {
		e.eDead(st, g, "no comma")
		return false
	}
	if f.listStage() {
		e.eBreak(st, g, e.eOpen(st, f.id))
	}
	return true
}

func (e *Exec) pushOp(st *State, g *GS, op *eOp) {
	if !e.startOp(st, g) {
		return
	}
	if op.nl == nil {
		op.nl = e.tc.False()
	}
	g.top().op = op
}

func (e *Exec) tokNumber(st *State, g *GS, s string) {
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		e.pushOp(st, g, &eOp{t: e.tc.Int(n), un: "int"})
		return
	}
	if x, err := strconv.ParseFloat(s, 64); err == nil && s != "-" {
		e.pushOp(st, g, &eOp{t: e.tc.Float64(x), un: "float"})
		return
	}
	e.eDead(st, g, "number "+s)
}

func (e *Exec) tokIdent(st *State, g *GS, t *Term, lit string) {
	f := g.top()
	switch f.pend {
	case "":
		switch lit {
		case "true", "false":
			e.pushOp(st, g, &eOp{t: e.tc.Bool(lit == "true"), un: "bool"})
			return
		case "nil":
			e.pushOp(st, g, &eOp{t: e.w.NilVal(), un: "nil"})
			return
		}
		if !e.startOp(st, g) {
			return
		}
		f.pend, f.hole, f.name = "ident", t, lit
	case "pkg.":
		if lit == "" {
			e.eDead(st, g, "name of unknown text after package")
			return
		}
		f.pend, f.name = "pkgsel", lit
	case "dot":
		if lit == "" {
			e.eDead(st, g, "name of unknown text after operand")
			return
		}
		f.pend, f.name = "sel", lit
	case "[]":
		f.pend, f.hole, f.name = "[]ident", t, lit
	case "[]pkg.":
		if lit == "" {
			e.eDead(st, g, "type of unknown text")
			return
		}
		f.pend, f.name = "[]pkgsel", lit
	default:
		e.eDead(st, g, "name after "+f.pend)
	}
}

// settle turns a pending name into the operand it denotes
func (e *Exec) settle(st *State, g *GS) bool {
	if g.dead {
		return false
	}
	f := g.top()
	switch f.pend {
	case "":
		return true
	case "ident":
		t := e.tc.App(q("uf:identval"), "Val", f.hole)
		e.eBreak(st, g, e.tc.Not(e.tc.App(q("uf:isident"), "Bool", f.hole)))
		f.op = &eOp{t: t, nl: e.tc.False()}
		f.pend = ""
		return true
	case "pkgsel":
		if gl, ok := e.jsvalMember(f.name).(*ssa.Global); ok {
			t := gl.Type().Underlying().(*types.Pointer).Elem()
			f.op = &eOp{t: e.loadGlobal(st, gl), typ: t, nl: e.tc.False()}
			f.pend = ""
			return true
		}
		e.eDead(st, g, "package member "+f.name)
		return false
	}
	e.eDead(st, g, "incomplete: "+f.pend)
	return false
}

func (e *Exec) jsvalMember(n string) ssa.Member {
	if n == "" || !unicode.IsUpper(rune(n[0])) {
		return nil
	}
	for _, p := range e.P.Pkgs {
		if shortPkg(p.Pkg) == "jsval" {
			return p.Members[n]
		}
	}
	return nil
}

func (e *Exec) tokNewline(st *State, g *GS) {
	f := g.top()
	switch f.pend {
	case "ident", "pkgsel":
		if !e.settle(st, g) {
			return
		}
	case "dot", "pkg.":
		return
	case "":
	default:
		e.eDead(st, g, "newline after "+f.pend)
		return
	}
	if f.op != nil {
		op := *f.op
		op.nl = e.tc.True()
		f.op = &op
		return
	}
	if f.listStage() {
		e.eBreak(st, g, e.eOpen(st, f.id))
	}
}

var basicKinds = map[string]int64{"bool": 1, "int": 2, "int8": 3, "int16": 4, "int32": 5, "int64": 6, "uint": 7, "uint8": 8, "uint16": 9, "uint32": 10, "uint64": 11, "float32": 13, "float64": 14, "string": 24}

func (e *Exec) isPkg(st *State, g *GS, f *eFrame) {
	if f.name == "" || f.name != "jsval" {
		e.eBreak(st, g, e.tc.Not(e.tc.Eq(f.hole, e.tc.Str("jsval"))))
	}
}

func (e *Exec) tokPunct(fr *Frame, st *State, g *GS, c byte) {
	f := g.top()
	e.afterNL(st, g)
	switch c {
	case '.':
		switch {
		case f.pend == "ident":
			e.isPkg(st, g, f)
			f.pend = "pkg."
			return
		case f.pend == "[]ident":
			e.isPkg(st, g, f)
			f.pend = "[]pkg."
			return
		case f.pend == "pkgsel":
			if !e.settle(st, g) {
				return
			}
			f.pend = "dot"
			return
		case f.pend == "" && f.op != nil:
			f.pend = "dot"
			return
		}
	case '(':
		switch f.pend {
		case "pkgsel":
			fn, ok := e.jsvalMember(f.name).(*ssa.Function)
			if !ok {
				e.eDead(st, g, "no function "+f.name)
				return
			}
			f.pend = ""
			e.openCall(st, g, fn, nil)
			return
		case "sel":
			op := f.op
			if op == nil || op.typ == nil || op.un != "" || !unicode.IsUpper(rune(f.name[0])) {
				e.eDead(st, g, "method "+f.name+" of a value of unknown type")
				return
			}
			ms := types.NewMethodSet(op.typ)
			sel := ms.Lookup(nil, f.name)
			if sel == nil {
				e.eDead(st, g, "no method "+f.name)
				return
			}
			fn := e.P.Prog.MethodValue(sel)
			if fn == nil {
				e.eDead(st, g, "method "+f.name)
				return
			}
			f.pend, f.op = "", nil
			e.openCall(st, g, fn, op)
			return
		case "kind":
			f.pend = ""
			g.frames = append(g.frames, &eFrame{kind: "conv", ckind: f.ckind})
			return
		case "ident":
			if k, ok := basicKinds[f.name]; ok {
				f.pend = ""
				g.frames = append(g.frames, &eFrame{kind: "conv", ckind: e.tc.Int(k)})
				return
			}
		}
	case '[':
		if f.pend == "" && e.startOp(st, g) {
			f.pend = "["
			return
		}
		if g.dead {
			return
		}
	case ']':
		if f.pend == "[" {
			f.pend = "[]"
			return
		}
	case '{':
		if f.pend == "[]pkgsel" {
			tm, ok := e.jsvalMember(f.name).(*ssa.Type)
			if !ok {
				break
			}
			f.pend = ""
			t := tm.Type()
			g.frames = append(g.frames, &eFrame{kind: "comp", elem: t, id: e.newList(st, t)})
			return
		}
	case ',':
		if !e.settle(st, g) {
			return
		}
		switch {
		case f.listStage() && f.op != nil:
			e.commit(st, g)
			e.storeComp(st, "E:open", sBroken, f.id, e.tc.False())
			return
		case f.listStage():
			e.eBreak(st, g, e.tc.Not(e.eOpen(st, f.id)))
			e.storeComp(st, "E:open", sBroken, f.id, e.tc.False())
			return
		case f.kind == "call" && f.op != nil && len(f.args) < f.fixed:
			f.args = append(f.args, f.op)
			f.op, f.comma = nil, true
			return
		}
	case ')':
		switch f.kind {
		case "call":
			if e.settle(st, g) {
				e.closeCall(fr, st, g)
			}
			return
		case "conv":
			if e.settle(st, g) {
				e.closeConv(st, g)
			}
			return
		}
	case '}':
		if f.kind == "comp" {
			if !e.settle(st, g) {
				return
			}
			e.commit(st, g)
			l := e.listSlice(st, f)
			g.frames = g.frames[:len(g.frames)-1]
			g.top().op = &eOp{t: l, typ: types.NewSlice(f.elem), nl: e.tc.False()}
			return
		}
	}
	e.eDead(st, g, fmt.Sprintf("%q after %q in %s", string(c), f.pend, f.kind))
}

func (e *Exec) openCall(st *State, g *GS, fn *ssa.Function, recv *eOp) {
	sig := fn.Signature
	n := sig.Params().Len()
	nf := &eFrame{kind: "call", fn: fn, recv: recv, fixed: n, comma: true}
	if sig.Variadic() {
		nf.vari = true
		nf.fixed = n - 1
		nf.elem = sig.Params().At(n - 1).Type().(*types.Slice).Elem()
		nf.id = e.newList(st, nf.elem)
	}
	g.frames = append(g.frames, nf)
}

// commit moves the operand into the list
func (e *Exec) commit(st *State, g *GS) {
	if g.dead {
		return
	}
	f := g.top()
	if f.op == nil || !f.listStage() {
		return
	}
	tc := e.tc
	t, br := e.assign(f.op, f.elem)
	e.eBreak(st, g, br)
	e.eBreak(st, g, f.op.nl)
	s := e.w.Sort(f.elem)
	n := e.eLen(st, f.id)
	e.storeComp(st, "E:items:"+s, arr("Ref", arr("Int", s)), f.id, tc.Store(e.eItems(st, f.id, f.elem), n, t))
	e.storeComp(st, "E:len", sLen, f.id, tc.Add(n, tc.Int(1)))
	e.storeComp(st, "E:open", sBroken, f.id, tc.True())
	f.op = nil
}

// listSlice: the slice value of a finished list
func (e *Exec) listSlice(st *State, f *eFrame) *Term {
	tc := e.tc
	n := e.eLen(st, f.id)
	comp, srt := e.w.compElem(f.elem)
	r := e.newObj(st)
	if f.kind == "call" {
		if k, ok := n.intLit(); ok && k == 0 {
			return e.w.Zero(types.NewSlice(f.elem))
		}
		e.storeComp(st, comp, srt, r, e.eItems(st, f.id, f.elem))
		return e.w.MkSlice(tc.Ite(tc.Eq(n, tc.Int(0)), e.w.NilRef(), r), n, n)
	}
	e.storeComp(st, comp, srt, r, e.eItems(st, f.id, f.elem))
	return e.w.MkSlice(r, n, n)
}

func (e *Exec) closeCall(fr *Frame, st *State, g *GS) {
	f := g.top()
	if f.op != nil {
		if f.listStage() {
			e.commit(st, g)
		} else {
			if len(f.args) >= f.fixed {
				e.eDead(st, g, "too many arguments")
				return
			}
			f.args = append(f.args, f.op)
			f.op = nil
		}
	}
	if len(f.args) != f.fixed {
		e.eDead(st, g, "too few arguments")
		return
	}
	sig := f.fn.Signature
	if sig.Results().Len() != 1 {
		e.eDead(st, g, "call without a single result")
		return
	}
	var args []Value
	if f.recv != nil {
		args = append(args, f.recv.t)
	}
	for i, a := range f.args {
		t, br := e.assign(a, sig.Params().At(i).Type())
		e.eBreak(st, g, br)
		args = append(args, t)
	}
	if f.vari {
		args = append(args, e.listSlice(st, f))
	}
	g.frames = g.frames[:len(g.frames)-1]
	save, sg := e.site, e.ghostExec
	e.ghostExec = true
	rs := e.callFn(fr, st, f.fn, nil, args, f.fn.Pos())
	e.ghostExec = sg
	e.site = save
	rt := sig.Results().At(0).Type()
	g.top().op = &eOp{t: e.asTerm(st, rs[0], rt), typ: rt, nl: e.tc.False()}
}

func (e *Exec) closeConv(st *State, g *GS) {
	f := g.top()
	tc := e.tc
	op := f.op
	if op == nil {
		e.eDead(st, g, "empty conversion")
		return
	}
	g.frames = g.frames[:len(g.frames)-1]
	var t, ok *Term
	k := f.ckind
	isk := func(lo, hi int64) *Term { return tc.And(tc.Cmp("<=", tc.Int(lo), k), tc.Cmp("<=", k, tc.Int(hi))) }
	switch op.un {
	case "int":
		t = tc.Ite(isk(2, 6), tc.App(q("uf:mkint"), "Val", k, op.t), tc.App(q("uf:mkuint"), "Val", k, op.t))
		ok = tc.Or(tc.And(isk(2, 6), tc.App(q("uf:fitsint"), "Bool", k, op.t)), tc.And(isk(7, 11), tc.App(q("uf:fitsuint"), "Bool", k, op.t)))
	case "float":
		t = tc.App(q("uf:mkfloat"), "Val", k, op.t)
		ok = tc.And(isk(13, 14), tc.App(q("uf:fitsfloat"), "Bool", k, op.t))
	case "bool":
		t, ok = e.boxV(op.t, tBool), isk(1, 1)
	case "string":
		t, ok = e.boxV(op.t, tStr), isk(24, 24)
	default:
		e.eDead(st, g, "conversion")
		return
	}
	e.eBreak(st, g, tc.Not(ok))
	g.top().op = &eOp{t: t, nl: tc.False()}
}

func inRange(e *Exec, v *Term, k types.BasicKind) *Term {
	lo, hi := intRange(k)
	return e.tc.And(e.tc.Cmp("<=", e.tc.BigInt(lo), v), e.tc.Cmp("<=", v, e.tc.BigInt(hi)))
}

// assign: the operand as a value of type T, and when that is a type error
func (e *Exec) assign(op *eOp, T types.Type) (*Term, *Term) {
	tc := e.tc
	bad := func() (*Term, *Term) {
		if debugEmit {
			fmt.Printf("    emit: %s at %s: cannot use %v %s as %s\n", e.C.Name, e.site, op.typ, op.un, T)
		}
		return e.fresh("illtyped", e.w.Sort(T)), tc.True()
	}
	iface := isIfaceType(T)
	b, _ := T.Underlying().(*types.Basic)
	switch op.un {
	case "nil":
		switch T.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Map, *types.Slice:
			return e.w.Zero(T), tc.False()
		}
		return bad()
	case "string":
		if b != nil && b.Info()&types.IsString != 0 {
			return op.t, tc.False()
		}
		if iface && T.Underlying().(*types.Interface).Empty() {
			return e.boxV(op.t, tStr), tc.False()
		}
		return bad()
	case "bool":
		if b != nil && b.Info()&types.IsBoolean != 0 {
			return op.t, tc.False()
		}
		if iface && T.Underlying().(*types.Interface).Empty() {
			return e.boxV(op.t, tBool), tc.False()
		}
		return bad()
	case "int":
		if b != nil && b.Info()&types.IsInteger != 0 {
			return op.t, tc.Not(inRange(e, op.t, b.Kind()))
		}
		if b != nil && b.Kind() == types.Float64 {
			return e.convert(e.entry, op.t, tInt, tF64), tc.False()
		}
		if iface && T.Underlying().(*types.Interface).Empty() {
			return e.boxV(op.t, tInt), tc.Not(inRange(e, op.t, types.Int))
		}
		return bad()
	case "float":
		if b != nil && b.Kind() == types.Float64 {
			return op.t, tc.False()
		}
		return bad() // the type of the literal depends on how it is written
	}
	if op.typ != nil {
		if types.AssignableTo(op.typ, T) {
			if iface && e.w.Sort(op.typ) != "Val" {
				return e.boxV(op.t, op.typ), tc.False()
			}
			if e.w.Sort(op.typ) == e.w.Sort(T) {
				return op.t, tc.False()
			}
		}
		return bad()
	}
	if iface {
		it := T.Underlying().(*types.Interface)
		if it.Empty() {
			return op.t, tc.False()
		}
		return op.t, tc.Not(e.implementsT(op.t, it))
	}
	return e.w.Unbox(op.t, T), tc.Not(tc.Eq(e.w.TypeOf(op.t), e.w.Tid(T)))
}

func (e *Exec) implementsT(v *Term, it *types.Interface) *Term {
	op := implOp(it)
	if e.implIfaces[op] == nil {
		e.implIfaces[op] = it
	}
	return e.tc.And(e.tc.Not(e.tc.Eq(v, e.w.NilVal())), e.tc.App(op, "Bool", e.w.TypeOf(v)))
}

// asVal: an operand whose type depends on the path
func (e *Exec) asVal(op *eOp) (*eOp, *Term) {
	if op.typ == nil && op.un == "" {
		return op, e.tc.False()
	}
	t, br := e.assign(op, types.NewInterfaceType(nil, nil))
	return &eOp{t: t, nl: op.nl}, br
}

// ---------- joins and loops

func sameOpShape(a, b *eOp) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.un == b.un && (a.typ == nil) == (b.typ == nil) && (a.typ == nil || types.Identical(a.typ, b.typ))
}

func sameFrame(a, b *eFrame) bool {
	if a.kind != b.kind || a.id != b.id || a.fn != b.fn || len(a.args) != len(b.args) || a.comma != b.comma || a.pend != b.pend || a.name != b.name && a.pend != "" || a.ckind != b.ckind && a.kind == "conv" || !sameOpShape(a.recv, b.recv) || (a.op == nil) != (b.op == nil) {
		return false
	}
	if a.pend != "" && a.hole != b.hole {
		return false
	}
	for i := range a.args {
		if !sameOpShape(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func sameShape(a, b *GS) bool {
	if a.dead || b.dead || len(a.frames) != len(b.frames) || a.id != b.id {
		return false
	}
	for i := range a.frames {
		if !sameFrame(a.frames[i], b.frames[i]) {
			return false
		}
	}
	return true
}

// mergeEmit joins what has been written on several paths. It may change the
// states (in place) before their heaps are merged.
func (e *Exec) mergeEmit(sts []*State) map[*Term]*GS {
	keys := map[*Term]bool{}
	for _, s := range sts {
		for k := range s.emit {
			keys[k] = true
		}
	}
	if len(keys) == 0 {
		return nil
	}
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	out := map[*Term]*GS{}
	for _, k := range ks {
		all := true
		for _, s := range sts {
			all = all && s.emit[k] != nil
		}
		if !all {
			continue // a buffer that does not outlive one of the paths
		}
		same := true
		for _, s := range sts[1:] {
			same = same && s.emit[k] == sts[0].emit[k]
		}
		if same {
			out[k] = sts[0].emit[k]
			continue
		}
		gs := make([]*GS, len(sts))
		for i, s := range sts {
			gs[i] = s.emit[k].clone()
		}
		equal := func() bool {
			for _, g := range gs[1:] {
				if !sameShape(gs[0], g) {
					return false
				}
			}
			return true
		}
		if !equal() {
			for i, s := range sts {
				if !gs[i].dead {
					if p := gs[i].top().pend; p == "ident" || p == "pkgsel" {
						e.settle(s, gs[i])
					}
				}
			}
		}
		if !equal() {
			for i, s := range sts {
				if !gs[i].dead && gs[i].top().pend == "" {
					e.commit(s, gs[i])
				}
			}
		}
		main := -1
		for i, g := range gs {
			if !g.dead && len(g.frames) == 1 && g.top().op != nil && g.top().pend == "" {
				main = i
				break
			}
		}
		for i, g := range gs {
			if main < 0 && !g.dead {
				main = i
			}
		}
		if main < 0 {
			out[k] = gs[0]
			continue
		}
		for i, s := range sts {
			if !gs[i].dead && !sameShape(gs[main], gs[i]) {
				e.eDead(s, gs[i], "paths that do not fit together")
			}
		}
		res := gs[main].clone()
		mergeOps := func(pick func(*GS) *eOp) *eOp {
			m := pick(gs[main])
			if m == nil {
				return nil
			}
			ops := make([]*eOp, len(gs))
			shape := true
			for i, g := range gs {
				if !g.dead {
					ops[i] = pick(g)
					shape = shape && sameOpShape(ops[i], m)
				}
			}
			if !shape {
				for i := range ops {
					if ops[i] != nil {
						o, br := e.asVal(ops[i])
						ops[i] = o
						e.eBreak(sts[i], gs[i], br)
					}
				}
			}
			r := *ops[main]
			for i := len(ops) - 1; i >= 0; i-- {
				if i == main || ops[i] == nil {
					continue
				}
				r.t = e.tc.Ite(sts[i].reach, ops[i].t, r.t)
				r.nl = e.tc.Ite(sts[i].reach, ops[i].nl, r.nl)
			}
			return &r
		}
		for fi := range res.frames {
			fi := fi
			f := res.frames[fi]
			f.op = mergeOps(func(g *GS) *eOp { return g.frames[fi].op })
			f.recv = mergeOps(func(g *GS) *eOp { return g.frames[fi].recv })
			for ai := range f.args {
				ai := ai
				f.args[ai] = mergeOps(func(g *GS) *eOp { return g.frames[fi].args[ai] })
			}
		}
		out[k] = res
	}
	return out
}

// normEmit puts the texts into the form they have at a loop head
func (e *Exec) normEmit(st *State) {
	var ks []*Term
	for k := range st.emit {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		g := st.emit[k].clone()
		if g.dead {
			continue
		}
		if p := g.top().pend; p == "ident" || p == "pkgsel" {
			e.settle(st, g)
		}
		if !g.dead && g.top().pend == "" {
			e.commit(st, g)
		}
		st.setGS(k, g)
	}
}

// backEmit: what a loop wrote must leave the text in the shape of the head
func (e *Exec) backEmit(head, st *State) {
	e.normEmit(st)
	for k, h := range head.emit {
		g := st.emit[k]
		ok := g != nil && (h.dead || !g.dead && sameShape(h, g))
		if ok && !h.dead {
			for i, f := range h.frames {
				ok = ok && sameOpTerms(f.op, g.frames[i].op) && sameOpTerms(f.recv, g.frames[i].recv)
				for j := range f.args {
					ok = ok && sameOpTerms(f.args[j], g.frames[i].args[j])
				}
			}
		}
		if !ok {
			if debugEmit {
				fmt.Printf("    emit: %s at %s: the loop changes the shape of the text\n", e.C.Name, e.site)
			}
			e.storeComp(st, "E:broken", sBroken, h.id, e.tc.True())
		}
	}
}

func sameOpTerms(a, b *eOp) bool {
	if a == nil || b == nil {
		return a == b
	}
	return sameOpShape(a, b) && a.t == b.t && a.nl == b.nl
}

// emitCands: candidate invariants about the texts
func (e *Exec) emitCands(entrySt *State, add func(string, string, bool, candEval)) {
	tc := e.tc
	var ks []*Term
	for k := range entrySt.emit {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		g := entrySt.emit[k]
		if g.dead {
			continue
		}
		id := g.id
		add("text-ok", "the text is well-formed", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			return tc.Not(e.eBroken(st, id)), true
		})
		f := g.top()
		if f.pend != "" || !f.listStage() {
			continue
		}
		lid := f.id
		n0 := e.eLen(entrySt, lid)
		add("text-len", "one item per iteration", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			return tc.Eq(e.eLen(st, lid), tc.Add(n0, i)), true
		})
		add("text-comma", "every item is followed by a comma", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			return tc.Not(e.eOpen(st, lid)), true
		})
		add("text-nocomma", "no comma after the last item", false, func(st *State, m map[*ssa.Phi]Value, i *Term) (*Term, bool) {
			return tc.Eq(e.eOpen(st, lid), tc.Cmp("<", tc.Int(0), e.eLen(st, lid))), true
		})
	}
}

// ---------- contracts

// emitEntry starts the texts of the function under verification
func (e *Exec) emitEntry(st *State) {
	pkg := e.P.contractPkg(e.C)
	for _, em := range e.C.Emits {
		v, ok := e.vars[em.Out]
		if !ok {
			e.unsup("emits: no parameter %s", em.Out)
		}
		g := &GS{id: e.newObj(st)}
		e.storeComp(st, "E:broken", sBroken, g.id, e.tc.False())
		f := &eFrame{kind: "top"}
		if em.List {
			t, _ := e.P.resolveType(em.T, pkg)
			f = &eFrame{kind: "list", elem: t, id: e.newList(st, t)}
		}
		g.frames = []*eFrame{f}
		st.setGS(v.t, g)
	}
}

// errResult: the error result of a call, nil if there is none
func errNil(e *Exec, sig *types.Signature, vals []Value, st *State) *Term {
	n := sig.Results().Len()
	if n == 0 || typeKey(sig.Results().At(n-1).Type()) != "error" {
		return e.tc.True()
	}
	return e.tc.Eq(e.asTerm(st, vals[n-1], sig.Results().At(n-1).Type()), e.w.NilVal())
}

// emitExit: obligations on what was written, and the names for it
func (e *Exec) emitExit(st *State, vals []Value, vars map[string]SpecVal, where string) {
	tc := e.tc
	pkg := e.P.contractPkg(e.C)
	for _, em := range e.C.Emits {
		key := e.vars[em.Out].t
		g := st.emit[key]
		ok := errNil(e, e.fn.Signature, vals, st)
		t, _ := e.P.resolveType(em.T, pkg)
		if g == nil {
			e.unsup("emits: text of %s lost", em.Out)
		}
		g = g.clone()
		e.settle(st, g)
		if !em.List {
			if !g.dead && (len(g.frames) != 1 || g.top().op == nil) {
				e.eDead(st, g, "the text is not a complete expression")
			}
			y, nl := e.fresh("emitted", e.w.Sort(t)), tc.False()
			if !g.dead {
				v, br := e.assign(g.top().op, t)
				e.eBreak(st, g, br)
				y, nl = v, g.top().op.nl
			}
			vars[em.Name] = SpecVal{t: y, typ: t}
			vars[em.Name+"_nl"] = SpecVal{t: nl, typ: tBool}
			e.oblige(st, "post", "emits["+em.Name+"]", em.Tags, tc.Implies(ok, tc.Not(e.eBroken(st, g.id))), em.Src+" @return "+where)
			if _, isp := t.Underlying().(*types.Pointer); isp {
				e.oblige(st, "post", "emits-new["+em.Name+"]", em.Tags, tc.Implies(ok, tc.Cmp("<=", e.entry.alloc, e.w.RootID(y))), em.Src+" @return "+where)
			}
			continue
		}
		if !g.dead && len(g.frames) != 1 {
			e.eDead(st, g, "the text is not a complete list")
		}
		n, items := e.fresh("emitted", "Int"), e.fresh("emitted", arr("Int", e.w.Sort(t)))
		open := tc.True()
		if !g.dead {
			e.commit(st, g)
			id := g.top().id
			n, items, open = e.eLen(st, id), e.eItems(st, id, t), e.eOpen(st, id)
		}
		vars[em.Name] = SpecVal{t: items, g: &SType{Op: "garr", A: &SType{Op: "name", Name: "int"}, B: goSType(t)}}
		vars[em.Name+"_len"] = SpecVal{t: n, typ: tInt}
		// no trailing comma
		e.oblige(st, "post", "emits["+em.Name+"]", em.Tags, tc.Implies(ok, tc.And(tc.Not(e.eBroken(st, g.id)), tc.Eq(open, tc.Cmp("<", tc.Int(0), n)))), em.Src+" @return "+where)
	}
}

// emitApply: a callee writes to its writer
func (e *Exec) emitApply(st *State, c *Contract, sig *types.Signature, vars map[string]SpecVal, pkg *types.Package) func(out []Value) {
	tc := e.tc
	var after []func([]Value)
	for _, em := range c.Emits {
		v := vars[em.Out]
		t, _ := e.P.resolveType(em.T, pkg)
		k, g := e.gsOf(st, v.t)
		if em.List {
			n, items := e.fresh("emitted", "Int"), e.fresh("emitted", arr("Int", e.w.Sort(t)))
			e.assumeGlobal(tc.Cmp("<=", tc.Int(0), n))
			vars[em.Name] = SpecVal{t: items, g: &SType{Op: "garr", A: &SType{Op: "name", Name: "int"}, B: goSType(t)}}
			vars[em.Name+"_len"] = SpecVal{t: n, typ: tInt}
			if g == nil {
				continue
			}
			if g.dead {
				continue
			}
			f := g.top()
			if f.pend != "" || f.op != nil || !f.listStage() || !types.Identical(f.elem, t) {
				e.eDead(st, g, "list at this place")
				st.setGS(k, g)
				continue
			}
			if n0, ok := e.eLen(st, f.id).intLit(); !ok || n0 != 0 {
				e.eDead(st, g, "list after other items")
				st.setGS(k, g)
				continue
			}
			s := e.w.Sort(t)
			e.storeComp(st, "E:items:"+s, arr("Ref", arr("Int", s)), f.id, items)
			e.storeComp(st, "E:len", sLen, f.id, n)
			e.storeComp(st, "E:open", sBroken, f.id, tc.Cmp("<", tc.Int(0), n))
			after = append(after, func(out []Value) {
				e.eBreak(st, g, tc.Not(errNil(e, sig, out, st)))
			})
			st.setGS(k, g)
			continue
		}
		var y *Term
		if _, isp := t.Underlying().(*types.Pointer); isp {
			y = e.newObj(st)
		} else {
			y = e.fresh("emitted", e.w.Sort(t))
		}
		nl := e.fresh("emittednl", "Bool")
		vars[em.Name] = SpecVal{t: y, typ: t}
		vars[em.Name+"_nl"] = SpecVal{t: nl, typ: tBool}
		if g == nil || g.dead {
			continue
		}
		op := &eOp{t: y, typ: t, nl: nl}
		if isIfaceType(t) {
			op.typ = nil
		}
		e.pushOp(st, g, op)
		st.setGS(k, g)
		after = append(after, func(out []Value) {
			e.eBreak(st, g, tc.Not(errNil(e, sig, out, st)))
		})
	}
	return func(out []Value) {
		for _, f := range after {
			f(out)
		}
	}
}

// resultParam: a contract that says its result is one of the arguments
func resultParam(c *Contract, res string) string {
	var find func(x *Expr) string
	find = func(x *Expr) string {
		if x.Op == "bin" && x.S == "&&" {
			if r := find(x.A[0]); r != "" {
				return r
			}
			return find(x.A[1])
		}
		if x.Op == "bin" && x.S == "==" && x.A[0].Op == "id" && x.A[1].Op == "id" && x.A[0].S == res {
			for _, p := range c.Params {
				if p == x.A[1].S {
					return p
				}
			}
		}
		return ""
	}
	for _, en := range c.Ensures {
		if r := find(en.E); r != "" {
			return r
		}
	}
	return ""
}

// findIface registers the interface of the package that an "implements" in a
// contract is about
func (e *Exec) findIface(op string) {
	if e.implIfaces[op] != nil {
		return
	}
	for _, p := range e.P.Pkgs {
		var ns []string
		for n := range p.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if t, ok := p.Members[n].(*ssa.Type); ok {
				if it, ok := t.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && implOp(it) == op {
					e.implIfaces[op] = it
					return
				}
			}
		}
	}
}
