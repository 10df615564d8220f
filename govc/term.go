package main

// Hash-consed SMT-LIB terms.  Every value the executor manipulates symbolically
// ends up as one of these.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	id    int
	op    string // SMT operator / constant name / literal text
	args  []*Term
	sort  string
	kind  byte // 'c' declared constant, 'l' literal, 'a' application, 'q' quantifier, 'b' bound var
	bound []*Term
	pats  [][]*Term
	free  bool    // contains bound variables (cannot be shared through define-fun)
	ub    []*Term // unbound bound-variables occurring in the term
}

type TermCtx struct {
	tab    map[string]*Term
	n      int
	decls  map[string]string // declared constants: name -> sort
	funs   map[string]string // declared functions: name -> "(args) ret"
	strs   map[string]*Term  // string literal constants
	strval map[*Term]string  // reverse
	bv     int
}

func NewTermCtx() *TermCtx {
	return &TermCtx{tab: map[string]*Term{}, decls: map[string]string{}, funs: map[string]string{}, strs: map[string]*Term{}, strval: map[*Term]string{}}
}

func (tc *TermCtx) intern(key string, mk func() *Term) *Term {
	if t, ok := tc.tab[key]; ok {
		return t
	}
	t := mk()
	tc.n++
	t.id = tc.n
	tc.tab[key] = t
	return t
}

func (tc *TermCtx) Lit(op, sort string) *Term {
	return tc.intern("l|"+op+"|"+sort, func() *Term { return &Term{op: op, sort: sort, kind: 'l'} })
}

func (tc *TermCtx) Const(name, sort string) *Term {
	if s, ok := tc.decls[name]; ok && s != sort {
		panic(fmt.Sprintf("constant %s redeclared with sort %s (was %s)", name, sort, s))
	}
	tc.decls[name] = sort
	return tc.intern("c|"+name, func() *Term { return &Term{op: name, sort: sort, kind: 'c'} })
}

func (tc *TermCtx) DeclFun(name string, args []string, ret string) {
	sig := "(" + strings.Join(args, " ") + ") " + ret
	if s, ok := tc.funs[name]; ok && s != sig {
		panic(fmt.Sprintf("function %s redeclared: %s vs %s", name, sig, s))
	}
	tc.funs[name] = sig
}

func (tc *TermCtx) BVar(sort string) *Term {
	tc.bv++
	name := "q" + strconv.Itoa(tc.bv)
	t := tc.intern("b|"+name, func() *Term { return &Term{op: name, sort: sort, kind: 'b', free: true} })
	t.ub = []*Term{t}
	return t
}

func unionUB(args []*Term, minus []*Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, m := range minus {
		seen[m] = true
	}
	for _, a := range args {
		for _, u := range a.ub {
			if !seen[u] {
				seen[u] = true
				r = append(r, u)
			}
		}
	}
	return r
}

func (tc *TermCtx) raw(op, sort string, args ...*Term) *Term {
	if len(args) == 0 {
		return tc.Lit(op, sort)
	}
	var sb strings.Builder
	sb.WriteString("a|")
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sort)
	for _, a := range args {
		if a == nil {
			panic("nil arg in " + op)
		}
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return tc.intern(sb.String(), func() *Term {
		ub := unionUB(args, nil)
		return &Term{op: op, args: append([]*Term{}, args...), sort: sort, kind: 'a', free: len(ub) > 0, ub: ub}
	})
}

func (tc *TermCtx) Quant(q string, bound []*Term, body *Term, pats [][]*Term) *Term {
	if body.op == "true" || body.op == "false" {
		return body
	}
	if len(bound) == 0 {
		return body
	}
	var sb strings.Builder
	sb.WriteString("q|" + q)
	for _, b := range bound {
		sb.WriteString("|" + strconv.Itoa(b.id))
	}
	sb.WriteString("#" + strconv.Itoa(body.id))
	for _, p := range pats {
		sb.WriteString("{")
		for _, t := range p {
			sb.WriteString(strconv.Itoa(t.id) + ",")
		}
	}
	return tc.intern(sb.String(), func() *Term {
		ub := unionUB([]*Term{body}, bound)
		return &Term{op: q, args: []*Term{body}, sort: "Bool", kind: 'q', bound: bound, pats: pats, free: len(ub) > 0, ub: ub}
	})
}

// ---------- constructors with light simplification

func (tc *TermCtx) True() *Term  { return tc.Lit("true", "Bool") }
func (tc *TermCtx) False() *Term { return tc.Lit("false", "Bool") }
func (tc *TermCtx) Bool(b bool) *Term {
	if b {
		return tc.True()
	}
	return tc.False()
}
func (tc *TermCtx) Int(n int64) *Term {
	if n < 0 {
		if n == math.MinInt64 {
			return tc.Lit("(- 9223372036854775808)", "Int")
		}
		return tc.Lit("(- "+strconv.FormatInt(-n, 10)+")", "Int")
	}
	return tc.Lit(strconv.FormatInt(n, 10), "Int")
}
func (tc *TermCtx) BigInt(s string) *Term {
	if strings.HasPrefix(s, "-") {
		return tc.Lit("(- "+s[1:]+")", "Int")
	}
	return tc.Lit(s, "Int")
}

func (t *Term) intLit() (int64, bool) {
	if t.kind != 'l' || t.sort != "Int" {
		return 0, false
	}
	s := t.op
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = strings.TrimSuffix(s[3:], ")")
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, false
	}
	if neg {
		n = -n
	}
	return n, true
}

const fp64 = "(_ FloatingPoint 11 53)"
const fp32 = "(_ FloatingPoint 8 24)"

func (tc *TermCtx) Float64(f float64) *Term {
	if math.IsNaN(f) {
		return tc.Lit("(_ NaN 11 53)", fp64)
	}
	return tc.Lit(fmt.Sprintf("((_ to_fp 11 53) #x%016x)", math.Float64bits(f)), fp64)
}
func (tc *TermCtx) Float32(f float32) *Term {
	return tc.Lit(fmt.Sprintf("((_ to_fp 8 24) #x%08x)", math.Float32bits(f)), fp32)
}

func (tc *TermCtx) Not(a *Term) *Term {
	switch {
	case a.op == "true":
		return tc.False()
	case a.op == "false":
		return tc.True()
	case a.op == "not" && a.kind == 'a':
		return a.args[0]
	}
	return tc.raw("not", "Bool", a)
}

func (tc *TermCtx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.op == "false" && a.kind == 'l' {
			return a
		}
		if a.op == "true" && a.kind == 'l' || seen[a] {
			continue
		}
		if a.op == "and" && a.kind == 'a' {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[tc.Not(a)] {
			return tc.False()
		}
	}
	switch len(out) {
	case 0:
		return tc.True()
	case 1:
		return out[0]
	}
	return tc.raw("and", "Bool", out...)
}

func (tc *TermCtx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.op == "true" && a.kind == 'l' {
			return a
		}
		if a.op == "false" && a.kind == 'l' || seen[a] {
			continue
		}
		if a.op == "or" && a.kind == 'a' {
			for _, x := range a.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[tc.Not(a)] {
			return tc.True()
		}
	}
	switch len(out) {
	case 0:
		return tc.False()
	case 1:
		return out[0]
	}
	// (p and a) or (p and not a)  ->  p
	if len(out) == 2 && out[0].op == "and" || len(out) == 2 && out[1].op == "and" {
		conj := func(t *Term) []*Term {
			if t.op == "and" && t.kind == 'a' {
				return t.args
			}
			return []*Term{t}
		}
		a, b := conj(out[0]), conj(out[1])
		am, bm := map[*Term]bool{}, map[*Term]bool{}
		for _, x := range a {
			am[x] = true
		}
		for _, x := range b {
			bm[x] = true
		}
		var common, ra, rb []*Term
		for _, x := range a {
			if bm[x] {
				common = append(common, x)
			} else {
				ra = append(ra, x)
			}
		}
		for _, x := range b {
			if !am[x] {
				rb = append(rb, x)
			}
		}
		if len(common) > 0 {
			return tc.And(append(common, tc.Or(tc.And(ra...), tc.And(rb...)))...)
		}
	}
	return tc.raw("or", "Bool", out...)
}

func (tc *TermCtx) Implies(a, b *Term) *Term {
	if a.op == "true" && a.kind == 'l' {
		return b
	}
	if a.op == "false" && a.kind == 'l' || b.op == "true" && b.kind == 'l' {
		return tc.True()
	}
	if b.op == "false" && b.kind == 'l' {
		return tc.Not(a)
	}
	return tc.raw("=>", "Bool", a, b)
}

func isLitDistinct(tc *TermCtx, a, b *Term) bool {
	if a == b {
		return false
	}
	if a.kind == 'l' && b.kind == 'l' && (a.sort == "Int" || a.sort == "Bool") {
		return true
	}
	if _, ok := tc.strval[a]; ok {
		if _, ok2 := tc.strval[b]; ok2 {
			return true
		}
	}
	if a.sort == "Ref" {
		ca, cb := refCtor(a), refCtor(b)
		if ca != "" && cb != "" && ca != cb {
			return true
		}
		return tc.refDistinct(a, b)
	}
	return false
}

func refCtor(t *Term) string {
	if t.kind == 'l' && t.op == "nilref" {
		return "nil"
	}
	if t.kind == 'a' && (t.op == "obj" || t.op == "sub") {
		return t.op
	}
	return ""
}

func (tc *TermCtx) Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts differ: %s:%s vs %s:%s", tc.Show(a), a.sort, tc.Show(b), b.sort))
	}
	if a == b {
		return tc.True()
	}
	if isLitDistinct(tc, a, b) {
		return tc.False()
	}
	if a.sort == "Bool" {
		if a.op == "true" {
			return b
		}
		if b.op == "true" {
			return a
		}
		if a.op == "false" {
			return tc.Not(b)
		}
		if b.op == "false" {
			return tc.Not(a)
		}
	}
	if a.op == "ite" && a.kind == 'a' {
		if x, y := tc.Eq(a.args[1], b), tc.Eq(a.args[2], b); (x.kind == 'l') || (y.kind == 'l') {
			return tc.Ite(a.args[0], x, y)
		}
	}
	if b.op == "ite" && b.kind == 'a' {
		if x, y := tc.Eq(a, b.args[1]), tc.Eq(a, b.args[2]); (x.kind == 'l') || (y.kind == 'l') {
			return tc.Ite(b.args[0], x, y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.raw("=", "Bool", a, b)
}

func (tc *TermCtx) Ite(c, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts differ: %s vs %s", a.sort, b.sort))
	}
	if c.op == "true" && c.kind == 'l' || a == b {
		return a
	}
	if c.op == "false" && c.kind == 'l' {
		return b
	}
	if a.sort == "Bool" {
		if a.op == "true" && a.kind == 'l' {
			return tc.Or(c, b)
		}
		if a.op == "false" && a.kind == 'l' {
			return tc.And(tc.Not(c), b)
		}
		if b.op == "true" && b.kind == 'l' {
			return tc.Or(tc.Not(c), a)
		}
		if b.op == "false" && b.kind == 'l' {
			return tc.And(c, a)
		}
	}
	return tc.raw("ite", a.sort, c, a, b)
}

func arraySorts(s string) (string, string) {
	// "(Array X Y)"
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func arr(a, b string) string { return "(Array " + a + " " + b + ")" }

func (tc *TermCtx) Select(a, i *Term) *Term {
	ks, vs := arraySorts(a.sort)
	if ks != i.sort {
		panic(fmt.Sprintf("select index sort %s, want %s", i.sort, ks))
	}
	for a.op == "store" && a.kind == 'a' {
		if a.args[1] == i {
			return a.args[2]
		}
		if isLitDistinct(tc, a.args[1], i) || tc.refDistinct(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return tc.raw("select", vs, a, i)
}

// refDistinct recognises syntactically different object references:
// obj(allocN) with different literal allocation constants.
func (tc *TermCtx) refDistinct(a, b *Term) bool {
	if a.sort != "Ref" || a == b {
		return false
	}
	if a.op == "sub" && b.op == "sub" && a.kind == 'a' && b.kind == 'a' {
		if a.args[1] != b.args[1] && a.args[1].kind == 'l' && b.args[1].kind == 'l' {
			return true
		}
		return a.args[1] == b.args[1] && tc.refDistinct(a.args[0], b.args[0])
	}
	fa, fb := isFreshRef(a), isFreshRef(b)
	if fa && fb {
		// both obj(alloc + k) with the same base and different k
		if n, ok := a.args[0].intLit(); ok {
			if m, ok := b.args[0].intLit(); ok {
				return n != m
			}
		}
		return distinctOffset(a.args[0], b.args[0])
	}
	return false
}

func isFreshRef(a *Term) bool { return a.op == "obj" && a.kind == 'a' }

func splitOff(t *Term) (*Term, int64) {
	if t.op == "+" && t.kind == 'a' && len(t.args) == 2 {
		if n, ok := t.args[1].intLit(); ok {
			return t.args[0], n
		}
	}
	return t, 0
}

func distinctOffset(a, b *Term) bool {
	x, n := splitOff(a)
	y, m := splitOff(b)
	return x == y && n != m
}

func (tc *TermCtx) Store(a, i, v *Term) *Term {
	ks, vs := arraySorts(a.sort)
	if ks != i.sort || vs != v.sort {
		panic(fmt.Sprintf("store into %s with index %s value %s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.kind == 'a' && a.args[1] == i {
		return tc.Store(a.args[0], i, v)
	}
	if a.op == "constarr" && a.args[0] == v {
		return a
	}
	return tc.raw("store", a.sort, a, i, v)
}

func (tc *TermCtx) Add(a, b *Term) *Term {
	if n, ok := b.intLit(); ok {
		if n == 0 {
			return a
		}
		if m, ok := a.intLit(); ok {
			return tc.Int(n + m)
		}
		x, k := splitOff(a)
		if k != 0 {
			if n+k == 0 {
				return x
			}
			return tc.raw("+", "Int", x, tc.Int(n+k))
		}
	} else if _, ok := a.intLit(); ok {
		return tc.Add(b, a)
	}
	return tc.raw("+", "Int", a, b)
}
func (tc *TermCtx) Sub(a, b *Term) *Term {
	if n, ok := b.intLit(); ok && n != math.MinInt64 {
		return tc.Add(a, tc.Int(-n))
	}
	if a == b {
		return tc.Int(0)
	}
	return tc.raw("-", "Int", a, b)
}
func (tc *TermCtx) Cmp(op string, a, b *Term) *Term {
	if n, ok := a.intLit(); ok {
		if m, ok := b.intLit(); ok {
			switch op {
			case "<":
				return tc.Bool(n < m)
			case "<=":
				return tc.Bool(n <= m)
			case ">":
				return tc.Bool(n > m)
			case ">=":
				return tc.Bool(n >= m)
			}
		}
	}
	switch op {
	case ">":
		return tc.Cmp("<", b, a)
	case ">=":
		return tc.Cmp("<=", b, a)
	}
	return tc.raw(op, "Bool", a, b)
}

// App applies a declared (uninterpreted or datatype) function.
func (tc *TermCtx) App(name, ret string, args ...*Term) *Term {
	if len(args) == 0 {
		return tc.Const(name, ret)
	}
	as := make([]string, len(args))
	for i, a := range args {
		as[i] = a.sort
	}
	tc.DeclFun(name, as, ret)
	return tc.raw(name, ret, args...)
}

func (tc *TermCtx) Str(s string) *Term {
	if t, ok := tc.strs[s]; ok {
		return t
	}
	name := fmt.Sprintf("str!%d", len(tc.strs))
	t := tc.Const(name, "Str")
	tc.strs[s] = t
	tc.strval[t] = s
	return t
}

// Subst replaces terms (by identity) everywhere, under quantifiers too.
func (tc *TermCtx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.kind {
		case 'a':
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if !ch {
				r = t
			} else {
				r = tc.rebuild(t, args)
			}
		case 'q':
			b := rec(t.args[0])
			var ps [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				ps = append(ps, q)
			}
			r = tc.Quant(t.op, t.bound, b, ps)
		default:
			r = t
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (tc *TermCtx) rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "and":
		return tc.And(args...)
	case "or":
		return tc.Or(args...)
	case "not":
		return tc.Not(args[0])
	case "=>":
		return tc.Implies(args[0], args[1])
	case "=":
		return tc.Eq(args[0], args[1])
	case "ite":
		return tc.Ite(args[0], args[1], args[2])
	case "select":
		return tc.Select(args[0], args[1])
	case "store":
		return tc.Store(args[0], args[1], args[2])
	}
	return tc.raw(t.op, t.sort, args...)
}

// Consts collects declared constants occurring in t.
func (t *Term) Consts(into map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.kind == 'c' {
			into[t] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				rec(x)
			}
		}
	}
	rec(t)
}

func (tc *TermCtx) Show(t *Term) string {
	var sb strings.Builder
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if d > 14 {
			sb.WriteString("...")
			return
		}
		switch t.kind {
		case 'a':
			sb.WriteString("(" + t.op)
			for _, a := range t.args {
				sb.WriteByte(' ')
				rec(a, d+1)
			}
			sb.WriteByte(')')
		case 'q':
			sb.WriteString("(" + t.op + " (")
			for _, b := range t.bound {
				sb.WriteString("(" + b.op + " " + b.sort + ")")
			}
			sb.WriteString(") ")
			rec(t.args[0], d+1)
			sb.WriteByte(')')
		default:
			if s, ok := tc.strval[t]; ok {
				sb.WriteString(strconv.Quote(s))
			} else {
				sb.WriteString(t.op)
			}
		}
	}
	rec(t, 0)
	return sb.String()
}

// ---------- printing a query

// Printer renders a set of assertions with shared subterms as define-fun.
type Printer struct {
	tc    *TermCtx
	refs  map[*Term]int
	names map[*Term]string
	sb    strings.Builder
	used  map[*Term]bool
	funs  map[string]bool
}

func (p *Printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	if t.kind == 'c' {
		p.used[t] = true
	}
	if t.kind == 'a' {
		p.funs[t.op] = true
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, ps := range t.pats {
		for _, x := range ps {
			p.count(x)
		}
	}
}

func (p *Printer) expr(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.inner(t)
	if !t.free && (t.kind == 'a' || t.kind == 'q') && p.refs[t] > 1 {
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&p.sb, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.names[t] = n
		return n
	}
	return s
}

func (p *Printer) inner(t *Term) string {
	switch t.kind {
	case 'a':
		if t.op == "constarr" {
			return "((as const " + t.sort + ") " + p.expr(t.args[0]) + ")"
		}
		parts := make([]string, 0, len(t.args)+1)
		parts = append(parts, t.op)
		for _, a := range t.args {
			parts = append(parts, p.expr(a))
		}
		return "(" + strings.Join(parts, " ") + ")"
	case 'q':
		var b []string
		for _, v := range t.bound {
			b = append(b, "("+v.op+" "+v.sort+")")
		}
		body := p.expr(t.args[0])
		if len(t.pats) > 0 {
			var ps string
			for _, pt := range t.pats {
				var q []string
				for _, x := range pt {
					q = append(q, p.expr(x))
				}
				ps += " :pattern (" + strings.Join(q, " ") + ")"
			}
			body = "(! " + body + ps + ")"
		}
		return "(" + t.op + " (" + strings.Join(b, " ") + ") " + body + ")"
	}
	return t.op
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
