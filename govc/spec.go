package main

// Contract files: a small specification language in the Gobra / Verus style.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Clause struct {
	Tags  []string // property ids
	Label string
	Src   string
	E     *Expr
	Flags map[string]bool
	Range []string // loops an invariant is meant for
}

type Contract struct {
	Kind       string // func | extern | iface
	Name       string // e.g. (*jsval.AllConstraint).Validate
	Params     []string
	Results    []string
	Requires   []*Clause
	Ensures    []*Clause
	Invs       []*Clause
	Defs       []*Clause // definitions of ghost state and uninterpreted functions: assumed by callers
	Finals     []*Clause // assumed in the state of every return
	Hints      []*Clause // ghost asserts proved then assumed at every return
	Modifies   []*Expr
	ModAny     bool
	Returns    *Expr
	HasMod     bool
	Internal   bool // unexported helper: may disappear in a refactoring
	Noop       bool
	Concurrent bool // may run at the same time as other such functions
	Inline     bool // never used at call sites
	Extra      map[string]string
	File       string
	LoopVars   []string
	Tags       []string // property ids decided by every obligation of the function
	Dropped    string
	Use        []string  // lemma names to make available
	Emits      []*Emits  // texts of Go expressions the function writes
	Hyps       []*Clause // restrict the inputs considered
}

type Define struct {
	Name   string
	Params []string
	E      *Expr
}

type UF struct {
	Name string
	Args []*SType
	Ret  *SType
}

type Axiom struct {
	Name   string
	E      *Expr
	Lemma  bool // proved on every run rather than assumed
	Induct string
	Keys   []string
}

type SpecFile struct {
	Contracts map[string]*Contract
	Order     []string
	Defines   map[string]*Define
	UFs       map[string]*UF
	Axioms    []*Axiom
	LemmaIdx  map[string]*Axiom
	Ghosts    map[string]*SType
	Guards    []Guard
}

// SType: type expression in specs
type SType struct {
	Op   string // name | ptr | slice | map | garr
	Name string
	A, B *SType
}

type Expr struct {
	Op   string // id num str float call field index bin un quant old if nil
	S    string
	A    []*Expr
	Vars []QVar
	Pats [][]*Expr
	T    *SType
}
type QVar struct {
	Name string
	T    *SType
}

func (e *Expr) String() string {
	switch e.Op {
	case "id", "num", "float":
		return e.S
	case "str":
		return fmt.Sprintf("%q", e.S)
	case "call":
		var as []string
		for _, a := range e.A {
			as = append(as, a.String())
		}
		return e.S + "(" + strings.Join(as, ", ") + ")"
	case "field":
		return e.A[0].String() + "." + e.S
	case "index":
		return e.A[0].String() + "[" + e.A[1].String() + "]"
	case "bin":
		return "(" + e.A[0].String() + " " + e.S + " " + e.A[1].String() + ")"
	case "un":
		return e.S + e.A[0].String()
	case "quant":
		var vs []string
		for _, v := range e.Vars {
			vs = append(vs, v.Name)
		}
		return "(" + e.S + " " + strings.Join(vs, ",") + " :: " + e.A[0].String() + ")"
	case "old", "pre":
		return e.Op + "(" + e.A[0].String() + ")"
	case "if":
		return "if(" + e.A[0].String() + "," + e.A[1].String() + "," + e.A[2].String() + ")"
	}
	return "?" + e.Op
}

// ---------------------------------------------------------------- lexer

type tok struct {
	k string // id num float str op eof
	s string
}

func lex(src string) ([]tok, error) {
	var ts []tok
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":="}
	isid := func(c byte) bool {
		return c == '_' || c == '$' || c == '\'' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
outer:
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
			continue
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				sb.WriteByte(src[j])
				j++
			}
			ts = append(ts, tok{"str", sb.String()})
			i = j + 1
			continue
		case c == '`':
			// character literal `x`
			ts = append(ts, tok{"num", fmt.Sprint(int(src[i+1]))})
			i += 3
			continue
		case c >= '0' && c <= '9':
			j := i
			fl := false
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.' && j+1 < len(src) && src[j+1] >= '0' && src[j+1] <= '9') {
				if src[j] == '.' {
					fl = true
				}
				j++
			}
			k := "num"
			if fl {
				k = "float"
			}
			ts = append(ts, tok{k, src[i:j]})
			i = j
			continue
		case isid(c):
			j := i
			for j < len(src) && isid(src[j]) {
				j++
			}
			ts = append(ts, tok{"id", src[i:j]})
			i = j
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				ts = append(ts, tok{"op", o})
				i += len(o)
				continue outer
			}
		}
		ts = append(ts, tok{"op", string(c)})
		i++
	}
	return append(ts, tok{"eof", ""}), nil
}

type parser struct {
	ts  []tok
	p   int
	src string
}

func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return t.s == s && t.k != "str"
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("spec: expected %q, got %q in: %s", s, p.peek().s, p.src))
	}
}

func (p *parser) typ() *SType {
	switch {
	case p.accept("*"):
		return &SType{Op: "ptr", A: p.typ()}
	case p.accept("["):
		if p.accept("]") {
			return &SType{Op: "slice", A: p.typ()}
		}
		k := p.typ()
		p.expect("]")
		return &SType{Op: "garr", A: k, B: p.typ()}
	case p.is("map"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &SType{Op: "map", A: k, B: p.typ()}
	}
	n := p.next().s
	if p.accept(".") {
		n += "." + p.next().s
	}
	return &SType{Op: "name", Name: n}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		nm := pr + 1
		if t.s == "==>" {
			nm = pr
		}
		r := p.expr(nm)
		l = &Expr{Op: "bin", S: t.s, A: []*Expr{l, r}}
	}
}

func (p *parser) unary() *Expr {
	if p.accept("!") {
		return &Expr{Op: "un", S: "!", A: []*Expr{p.unary()}}
	}
	if p.accept("-") {
		return &Expr{Op: "un", S: "-", A: []*Expr{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			e = &Expr{Op: "field", S: p.next().s, A: []*Expr{e}}
		case p.accept("["):
			i := p.expr(1)
			p.expect("]")
			e = &Expr{Op: "index", A: []*Expr{e, i}}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "num":
		return &Expr{Op: "num", S: t.s}
	case "float":
		return &Expr{Op: "float", S: t.s}
	case "str":
		return &Expr{Op: "str", S: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(1)
			p.expect(")")
			return e
		}
	case "id":
		switch t.s {
		case "forall", "exists":
			var vs []QVar
			for {
				n := p.next().s
				ty := p.typ()
				vs = append(vs, QVar{n, ty})
				if !p.accept(",") {
					break
				}
			}
			var pats [][]*Expr
			for p.accept("{") {
				var one []*Expr
				for {
					one = append(one, p.expr(1))
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				pats = append(pats, one)
			}
			p.expect("::")
			b := p.expr(1)
			return &Expr{Op: "quant", S: t.s, Vars: vs, Pats: pats, A: []*Expr{b}}
		case "if":
			c := p.expr(1)
			p.expect("then")
			a := p.expr(1)
			p.expect("else")
			b := p.expr(1)
			return &Expr{Op: "if", A: []*Expr{c, a, b}}
		case "old", "pre":
			p.expect("(")
			e := p.expr(1)
			p.expect(")")
			return &Expr{Op: t.s, A: []*Expr{e}}
		case "istype", "unbox", "box", "zero", "f2i":
			p.expect("(")
			e := &Expr{Op: "call", S: t.s}
			if t.s == "zero" {
				e.T = p.typ()
				p.expect(")")
				return e
			}
			e.A = []*Expr{p.expr(1)}
			if p.accept(",") {
				e.T = p.typ()
			}
			p.expect(")")
			return e
		}
		if strings.HasPrefix(t.s, "$") && p.is(":") && t.s != "$i" {
			// metavariable $x:type
			p.next()
			ty := p.typ()
			return &Expr{Op: "meta", S: t.s, T: ty}
		}
		if p.accept("(") {
			e := &Expr{Op: "call", S: t.s}
			if !p.accept(")") {
				for {
					e.A = append(e.A, p.expr(1))
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
			}
			return e
		}
		return &Expr{Op: "id", S: t.s}
	}
	panic(fmt.Sprintf("spec: unexpected %q in: %s", t.s, p.src))
}

func parseExpr(src string) *Expr {
	ts, _ := lex(src)
	p := &parser{ts: ts, src: src}
	e := p.expr(1)
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec: trailing %q in: %s", p.peek().s, src))
	}
	return e
}

func parseType(src string) *SType {
	ts, _ := lex(src)
	p := &parser{ts: ts, src: src}
	return p.typ()
}

// ---------------------------------------------------------------- files

var keywords = map[string]bool{"emits": true, "hyp": true, "func": true, "extern": true, "iface": true, "requires": true, "ensures": true, "inv": true, "modifies": true,
	"returns": true, "define": true, "uf": true, "axiom": true, "lemma": true, "internal": true, "noop": true, "assert": true, "defines": true, "proves": true, "final": true, "use": true, "inline": true, "ghost": true, "guard": true, "concurrent": true}

func LoadSpecs(dir string) *SpecFile {
	sf := &SpecFile{Contracts: map[string]*Contract{}, Defines: map[string]*Define{}, UFs: map[string]*UF{}, LemmaIdx: map[string]*Axiom{}, Ghosts: map[string]*SType{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sf.parse(filepath.Base(f), string(b))
	}
	return sf
}

func (sf *SpecFile) parse(file, src string) {
	var items []string
	for _, ln := range strings.Split(src, "\n") {
		if i := strings.Index(ln, "//"); i >= 0 && !strings.Contains(ln[:i], "\"") {
			ln = ln[:i]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t[("); i >= 0 {
			w = t[:i]
		}
		if keywords[w] {
			items = append(items, t)
		} else if len(items) > 0 {
			items[len(items)-1] += "\n" + t
		} else {
			panic("spec: stray line in " + file + ": " + t)
		}
	}
	var cur *Contract
	for _, it := range items {
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(fmt.Sprintf("%s: %v\n  item: %s", file, r, it))
				}
			}()
			kw, rest := it, ""
			if i := strings.IndexAny(it, " \t[\n"); i >= 0 {
				kw, rest = it[:i], strings.TrimSpace(it[i:])
			}
			switch kw {
			case "func", "extern", "iface":
				cur = parseHeader(kw, rest)
				cur.File = file
				if _, dup := sf.Contracts[cur.Name]; dup {
					panic("duplicate contract " + cur.Name)
				}
				sf.Contracts[cur.Name] = cur
				sf.Order = append(sf.Order, cur.Name)
			case "internal":
				cur.Internal = true
			case "concurrent":
				cur.Concurrent = true
			case "guard": // guard pkg.Type.field by lockfield
				f := strings.Fields(rest)
				i := strings.LastIndex(f[0], ".")
				sf.Guards = append(sf.Guards, Guard{f[0][:i], f[0][i+1:], f[2]})
			case "inline":
				cur.Inline = true
			case "noop":
				cur.Noop = true
			case "use":
				for _, s := range strings.Split(rest, ",") {
					cur.Use = append(cur.Use, strings.TrimSpace(s))
				}
			case "emits":
				cur.Emits = append(cur.Emits, parseEmits(rest))
			case "hyp":
				cur.Hyps = append(cur.Hyps, parseClause(rest))
			case "requires":
				cur.Requires = append(cur.Requires, parseClause(rest))
			case "proves": // a postcondition that callers do not get to see
				pc := parseClause(rest)
				pc.Flags["local"] = true
				cur.Ensures = append(cur.Ensures, pc)
			case "ensures":
				cur.Ensures = append(cur.Ensures, parseClause(rest))
			case "inv":
				var rg []string
				if strings.HasPrefix(rest, "range(") {
					i := strings.Index(rest, ")")
					for _, n := range strings.Split(rest[6:i], ",") {
						rg = append(rg, strings.TrimSpace(n))
					}
					rest = strings.TrimSpace(rest[i+1:])
				}
				ic := parseClause(rest)
				ic.Range = rg
				cur.Invs = append(cur.Invs, ic)
			case "defines":
				cur.Defs = append(cur.Defs, parseClause(rest))
			case "final":
				cur.Finals = append(cur.Finals, parseClause(rest))
			case "assert":
				cur.Hints = append(cur.Hints, parseClause(rest))
			case "returns":
				cur.Returns = parseExpr(rest)
			case "modifies":
				cur.HasMod = true
				if rest == "nothing" {
					break
				}
				if rest == "anything" {
					cur.ModAny = true
					break
				}
				ts, _ := lex(rest)
				p := &parser{ts: ts, src: rest}
				for {
					cur.Modifies = append(cur.Modifies, p.expr(1))
					if !p.accept(",") {
						break
					}
				}
			case "define":
				i := strings.Index(rest, "(")
				j := strings.Index(rest, ")")
				d := &Define{Name: strings.TrimSpace(rest[:i])}
				for _, a := range strings.Split(rest[i+1:j], ",") {
					if a = strings.TrimSpace(a); a != "" {
						d.Params = append(d.Params, strings.Fields(a)[0])
					}
				}
				body := strings.TrimSpace(rest[j+1:])
				if !strings.HasPrefix(body, "=") {
					panic("define needs =")
				}
				d.E = parseExpr(body[1:])
				if _, dup := sf.Defines[d.Name]; dup {
					panic("duplicate definition " + d.Name)
				}
				sf.Defines[d.Name] = d
			case "uf":
				ts, _ := lex(rest)
				p := &parser{ts: ts, src: rest}
				u := &UF{Name: p.next().s}
				p.expect("(")
				if !p.accept(")") {
					for {
						u.Args = append(u.Args, p.typ())
						if !p.accept(",") {
							break
						}
					}
					p.expect(")")
				}
				u.Ret = p.typ()
				if _, dup := sf.UFs[u.Name]; dup {
					panic("duplicate function " + u.Name)
				}
				sf.UFs[u.Name] = u
			case "ghost":
				f := strings.SplitN(rest, " ", 2)
				sf.Ghosts[f[0]] = parseType(f[1])
			case "axiom", "lemma":
				i := strings.Index(rest, ":")
				a := &Axiom{Name: strings.TrimSpace(rest[:i]), Lemma: kw == "lemma"}
				if j := strings.Index(a.Name, " by "); j >= 0 {
					a.Induct = strings.TrimSpace(a.Name[j+4:])
					a.Name = strings.TrimSpace(a.Name[:j])
				}
				a.E = parseExpr(rest[i+1:])
				sf.Axioms = append(sf.Axioms, a)
				sf.LemmaIdx[a.Name] = a
			}
		}()
	}
}

func parseClause(s string) *Clause {
	c := &Clause{Src: s, Flags: map[string]bool{}}
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		for _, t := range strings.Split(s[1:i], ",") {
			c.Tags = append(c.Tags, strings.TrimSpace(t))
		}
		s = strings.TrimSpace(s[i+1:])
	}
	// label:
	if i := strings.Index(s, ":"); i > 0 && !strings.HasPrefix(s[i:], "::") {
		l := s[:i]
		ok := !strings.Contains(l, "$")
		for _, r := range l {
			if !(r == '-' || r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
				ok = false
			}
		}
		if ok {
			c.Label = l
			s = s[i+1:]
		}
	}
	c.E = parseExpr(s)
	return c
}

func parseHeader(kind, s string) *Contract {
	c := &Contract{Kind: kind, Extra: map[string]string{}}
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s, ")") + 1
	}
	j := strings.Index(s[i:], "(")
	if j < 0 {
		c.Name = strings.TrimSpace(s)
		return c
	}
	c.Name = strings.TrimSpace(s[:i+j])
	rest := s[i+j:]
	k := strings.Index(rest, ")")
	for _, a := range strings.Split(rest[1:k], ",") {
		if a = strings.TrimSpace(a); a != "" {
			c.Params = append(c.Params, a)
		}
	}
	rest = strings.TrimSpace(rest[k+1:])
	if strings.HasPrefix(rest, "(") {
		k := strings.Index(rest, ")")
		for _, a := range strings.Split(rest[1:k], ",") {
			if a = strings.TrimSpace(a); a != "" {
				c.Results = append(c.Results, a)
			}
		}
	}
	return c
}
