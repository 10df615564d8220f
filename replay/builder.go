package main

import (
	"encoding/json"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	schema "github.com/lestrrat-go/jsschema"
	"github.com/lestrrat-go/jsval"
	"github.com/lestrrat-go/jsval/builder"
)

func init() {
	suites = append(suites,
		Suite{"build-string", "C12 C16", 2500, func(t *T) { caseBuild(t, "string") }},
		Suite{"build-number", "C12", 2500, func(t *T) { caseBuild(t, "number") }},
		Suite{"build-array", "C12", 2500, func(t *T) { caseBuild(t, "array") }},
		Suite{"build-object", "C12", 3000, func(t *T) { caseBuild(t, "object") }},
		Suite{"build-default", "C12", 1500, caseBuildDefaults},
		Suite{"build-compose", "C13 C16", 4000, func(t *T) { caseBuild(t, "compose") }},
		Suite{"build-untyped", "C13", 4000, func(t *T) { caseBuild(t, "untyped") }},
		Suite{"build-refs", "C14 C16", 3000, func(t *T) { caseBuild(t, "refs") }},
		Suite{"build-dangling", "C14", 1000, caseDangling},
		Suite{"build-any", "C12 C13 C14", 3000, func(t *T) { caseBuild(t, "any") }},
	)
}

type js = map[string]interface{}

// ---- the oracle: draft 4 restricted to what the library documents, with
// types inferred from keywords when "type" is absent.

type oracle struct {
	root js
}

func jeq(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func num(x interface{}) (float64, bool) { f, ok := x.(float64); return f, ok }

func has(s js, ks ...string) bool {
	for _, k := range ks {
		if _, ok := s[k]; ok {
			return true
		}
	}
	return false
}

// typesOf: the types a schema asks for, nil if it does not constrain types.
func typesOf(s js) []string {
	switch x := s["type"].(type) {
	case string:
		return []string{x}
	case []interface{}:
		var l []string
		for _, e := range x {
			l = append(l, e.(string))
		}
		return l
	}
	var l []string
	enumHas := func(kinds ...string) bool {
		e, _ := s["enum"].([]interface{})
		for _, v := range e {
			for _, k := range kinds {
				if jsonKind(v) == k {
					return true
				}
			}
		}
		return false
	}
	nonEmpty := func(k string) bool {
		switch x := s[k].(type) {
		case js:
			return len(x) > 0
		case []interface{}:
			return len(x) > 0
		}
		return false
	}
	if nonEmpty("properties") || nonEmpty("patternProperties") || nonEmpty("required") || has(s, "minProperties", "maxProperties") || isFalseOrSchema(s["additionalProperties"]) || enumHas("object") {
		l = append(l, "object")
	}
	if has(s, "items", "minItems", "maxItems", "uniqueItems") || isFalseOrSchema(s["additionalItems"]) || enumHas("array") {
		l = append(l, "array")
	}
	if has(s, "minLength", "maxLength", "pattern") || enumHas("string") {
		l = append(l, "string")
	} else if f, _ := s["format"].(string); f == "date-time" || f == "email" || f == "hostname" || f == "ipv4" || f == "ipv6" || f == "uri" {
		l = append(l, "string")
	}
	nt := ""
	for _, k := range []string{"multipleOf", "minimum", "maximum"} {
		if f, ok := num(s[k]); ok && nt == "" {
			nt = "number"
			if isIntegral(f) {
				nt = "integer"
			}
		}
	}
	if nt == "" && (has(s, "exclusiveMinimum", "exclusiveMaximum") || enumHas("number")) {
		nt = "number"
	}
	if nt != "" {
		l = append(l, nt)
	}
	if enumHas("boolean") {
		l = append(l, "boolean")
	}
	return l
}

func isFalseOrSchema(x interface{}) bool {
	switch y := x.(type) {
	case bool:
		return !y
	case js:
		return true
	}
	return false
}

func (o *oracle) lookup(ref string) js {
	if ref == "#" {
		return o.root
	}
	var cur interface{} = o.root
	for _, p := range strings.Split(strings.TrimPrefix(ref, "#/"), "/") {
		switch x := cur.(type) {
		case js:
			cur = x[p]
		case []interface{}:
			return nil
		}
	}
	m, _ := cur.(js)
	return m
}

func (o *oracle) ok(s js, v interface{}) bool {
	if r, is := s["$ref"].(string); is && r != "" {
		return o.ok(o.lookup(r), v)
	}
	if n, is := s["not"].(js); is && o.ok(n, v) {
		return false
	}
	count := func(k string) (n, of int) {
		l, _ := s[k].([]interface{})
		for _, e := range l {
			if o.ok(e.(js), v) {
				n++
			}
		}
		return n, len(l)
	}
	if n, of := count("allOf"); n != of {
		return false
	}
	if n, of := count("anyOf"); of > 0 && n == 0 {
		return false
	}
	if n, of := count("oneOf"); of > 0 && n != 1 {
		return false
	}
	ts := typesOf(s)
	if len(ts) == 0 {
		if e, is := s["enum"].([]interface{}); is && len(e) > 0 {
			return inList(e, v)
		}
		return true
	}
	for _, ty := range ts {
		if o.okType(ty, s, v) {
			return true
		}
	}
	return false
}

func inList(l []interface{}, v interface{}) bool {
	for _, e := range l {
		if jeq(e, v) {
			return true
		}
	}
	return false
}

func (o *oracle) okType(ty string, s js, v interface{}) bool {
	switch ty {
	case "null":
		return v == nil
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "string":
		x, ok := v.(string)
		return ok && o.okString(s, x)
	case "number", "integer":
		if n, is := v.(int); is { // Go integers are integers, not numbers
			return ty == "integer" && o.okNumber(s, float64(n))
		}
		x, ok := v.(float64)
		return ok && (ty == "number" || isIntegral(x)) && o.okNumber(s, x)
	case "array":
		x, ok := v.([]interface{})
		return ok && o.okArray(s, x)
	case "object":
		x, ok := v.(map[string]interface{})
		return ok && o.okObject(s, x)
	}
	return false
}

func (o *oracle) okString(s js, x string) bool {
	n := float64(utf8.RuneCountInString(x))
	if m, ok := num(s["minLength"]); ok && n < m {
		return false
	}
	if m, ok := num(s["maxLength"]); ok && n > m {
		return false
	}
	if p, ok := s["pattern"].(string); ok && !regexp.MustCompile(p).MatchString(x) {
		return false
	}
	if f, ok := s["format"].(string); ok {
		if good, known := fmtOK(f, x); known && !good {
			return false
		} else if !known {
			panic("unknown sample for format " + f + ": " + x)
		}
	}
	if e, ok := s["enum"].([]interface{}); ok && len(e) > 0 && !inList(e, x) {
		return false
	}
	return true
}

func (o *oracle) okNumber(s js, x float64) bool {
	if m, ok := num(s["minimum"]); ok {
		ex, _ := s["exclusiveMinimum"].(bool)
		if x < m || ex && x == m {
			return false
		}
	}
	if m, ok := num(s["maximum"]); ok {
		ex, _ := s["exclusiveMaximum"].(bool)
		if x > m || ex && x == m {
			return false
		}
	}
	if m, ok := num(s["multipleOf"]); ok {
		if !new(big.Rat).Quo(new(big.Rat).SetFloat64(x), new(big.Rat).SetFloat64(m)).IsInt() {
			return false
		}
	}
	if e, ok := s["enum"].([]interface{}); ok && len(e) > 0 && !inList(e, x) {
		return false
	}
	return true
}

func (o *oracle) okArray(s js, x []interface{}) bool {
	n := float64(len(x))
	if m, ok := num(s["minItems"]); ok && n < m {
		return false
	}
	if m, ok := num(s["maxItems"]); ok && n > m {
		return false
	}
	if u, _ := s["uniqueItems"].(bool); u {
		for i := range x {
			for j := 0; j < i; j++ {
				if jeq(x[i], x[j]) {
					return false
				}
			}
		}
	}
	switch it := s["items"].(type) {
	case js:
		for _, e := range x {
			if !o.ok(it, e) {
				return false
			}
		}
	case []interface{}:
		for i, e := range x {
			if i < len(it) {
				if !o.ok(it[i].(js), e) {
					return false
				}
				continue
			}
			if len(it) == 0 {
				continue
			}
			switch a := s["additionalItems"].(type) {
			case bool:
				if !a {
					return false
				}
			case js:
				if !o.ok(a, e) {
					return false
				}
			}
		}
	}
	return true
}

func (o *oracle) okObject(s js, x map[string]interface{}) bool {
	n := float64(len(x))
	if m, ok := num(s["minProperties"]); ok && n < m {
		return false
	}
	if m, ok := num(s["maxProperties"]); ok && n > m {
		return false
	}
	if r, ok := s["required"].([]interface{}); ok {
		for _, k := range r {
			if _, in := x[k.(string)]; !in {
				return false
			}
		}
	}
	props, _ := s["properties"].(js)
	pats, _ := s["patternProperties"].(js)
	for k, v := range x {
		if p, ok := props[k].(js); ok {
			if !o.ok(p, v) {
				return false
			}
			continue
		}
		matched := false
		for pat, ps := range pats {
			if regexp.MustCompile(pat).MatchString(k) {
				matched = true
				if !o.ok(ps.(js), v) {
					return false
				}
			}
		}
		if matched {
			continue
		}
		switch a := s["additionalProperties"].(type) {
		case bool:
			if !a {
				return false
			}
		case js:
			if !o.ok(a, v) {
				return false
			}
		}
	}
	deps, _ := s["dependencies"].(js)
	for k := range x {
		switch d := deps[k].(type) {
		case []interface{}:
			for _, q := range d {
				if _, in := x[q.(string)]; !in {
					return false
				}
			}
		case js:
			if !o.ok(d, x) {
				return false
			}
		}
	}
	return true
}

// ---- random schemas

type sgen struct {
	t    *T
	refs []string // references that may be used
	mode string
}

func (g *sgen) strKeys(s js) {
	t := g.t
	if t.chance(0.35) {
		s["minLength"] = float64(t.Intn(4))
	}
	if t.chance(0.35) {
		s["maxLength"] = float64(t.Intn(6))
	}
	if t.chance(0.25) {
		s["pattern"] = t.pick(patterns...)
	}
	if t.chance(0.1) {
		s["format"] = "hostname"
	}
}

func (g *sgen) numKeys(s js) {
	t := g.t
	if t.chance(0.4) {
		s["minimum"] = t.number()
		if t.chance(0.4) {
			s["exclusiveMinimum"] = t.chance(0.6)
		}
	}
	if t.chance(0.4) {
		s["maximum"] = t.number()
		if t.chance(0.4) {
			s["exclusiveMaximum"] = t.chance(0.6)
		}
	}
	if t.chance(0.25) {
		s["multipleOf"] = t.pickF(1, 2, 3, 0.5, 0.25, 1.5)
	}
}

func (g *sgen) arrKeys(s js, d int) {
	t := g.t
	if t.chance(0.3) {
		s["minItems"] = float64(t.Intn(3))
	}
	if t.chance(0.3) {
		s["maxItems"] = float64(t.Intn(4))
	}
	if t.chance(0.2) {
		s["uniqueItems"] = t.chance(0.7)
	}
	switch {
	case t.chance(0.35):
		s["items"] = g.schema(d - 1)
	case t.chance(0.5):
		l := []interface{}{}
		for i := t.Intn(3); i >= 0; i-- {
			l = append(l, g.schema(d-1))
		}
		s["items"] = l
		switch t.Intn(4) {
		case 0:
			s["additionalItems"] = false
		case 1:
			s["additionalItems"] = true
		case 2:
			s["additionalItems"] = g.schema(d - 1)
		}
	}
}

func (g *sgen) objKeys(s js, d int) {
	t := g.t
	if t.chance(0.6) {
		p := js{}
		for i := t.Intn(3); i >= 0; i-- {
			p[t.key()] = g.schema(d - 1)
		}
		s["properties"] = p
	}
	if t.chance(0.3) {
		l := []interface{}{t.key()}
		if t.chance(0.3) {
			if k := t.key(); k != l[0] {
				l = append(l, k)
			}
		}
		s["required"] = l
	}
	if t.chance(0.25) {
		p := js{}
		for i := t.Intn(2); i >= 0; i-- {
			p[t.pick(propPatterns...)] = g.schema(d - 1)
		}
		s["patternProperties"] = p
	}
	switch t.Intn(6) {
	case 0:
		s["additionalProperties"] = false
	case 1:
		s["additionalProperties"] = true
	case 2:
		s["additionalProperties"] = g.schema(d - 1)
	}
	if t.chance(0.15) {
		s["minProperties"] = float64(t.Intn(3))
	}
	if t.chance(0.15) {
		s["maxProperties"] = float64(t.Intn(4))
	}
	if t.chance(0.2) && len(s) > 0 && (s["type"] != nil || len(typesOf(s)) > 0) {
		dep := js{}
		for i := t.Intn(2); i >= 0; i-- {
			if t.chance(0.6) {
				dep[t.key()] = []interface{}{t.key()}
			} else {
				dep[t.key()] = js{"type": "object", "required": []interface{}{t.key()}}
			}
		}
		s["dependencies"] = dep
	}
}

func (g *sgen) schema(d int) js {
	t := g.t
	s := js{}
	if len(g.refs) > 0 && t.chance(0.35) {
		s["$ref"] = g.refs[t.Intn(len(g.refs))]
		return s
	}
	if d <= 0 {
		switch t.Intn(5) {
		case 0:
			s["type"] = "string"
			g.strKeys(s)
		case 1:
			s["type"] = t.pick("number", "integer")
			g.numKeys(s)
		case 2:
			s["type"] = t.pick("boolean", "null", "object", "array", "string")
		case 3:
		case 4:
			s["type"] = []interface{}{"string", "integer"}
		}
		return s
	}
	if t.chance(0.2) {
		switch t.Intn(4) {
		case 0:
			s["not"] = g.schema(d - 1)
		case 1:
			s["allOf"] = g.list(d - 1)
		case 2:
			s["anyOf"] = g.list(d - 1)
		case 3:
			s["oneOf"] = g.list(d - 1)
		}
		if t.chance(0.7) {
			return s
		}
	}
	switch t.Intn(6) {
	case 0:
		s["type"] = "string"
		g.strKeys(s)
		if t.chance(0.3) {
			s["enum"] = []interface{}{t.word(), "foo"}
		}
	case 1:
		s["type"] = t.pick("number", "integer")
		g.numKeys(s)
		if t.chance(0.2) {
			s["enum"] = []interface{}{t.number(), 2.0}
		}
	case 2:
		s["type"] = "array"
		g.arrKeys(s, d)
	case 3, 4:
		s["type"] = "object"
		g.objKeys(s, d)
	case 5:
		ts := []interface{}{"string", "array", "object", "null", "boolean"}
		if t.chance(0.5) {
			ts = append(ts, t.pick("number", "integer"))
			if t.chance(0.3) {
				ts = []interface{}{"number", "integer", t.pick("string", "null")}
			}
		}
		t.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		s["type"] = ts[:1+t.Intn(3)]
		g.strKeys(s)
		g.numKeys(s)
		if t.chance(0.4) {
			g.arrKeys(s, d)
			g.objKeys(s, d)
		}
	}
	return s
}

func (g *sgen) list(d int) []interface{} {
	l := []interface{}{}
	for i := g.t.Intn(3); i >= 0; i-- {
		l = append(l, g.schema(d))
	}
	return l
}

// untyped schemas: keywords only
func (g *sgen) untyped() js {
	t := g.t
	s := js{}
	for i := 0; i < 2; i++ {
		switch t.Intn(8) {
		case 0:
			g.strKeys(s)
		case 1, 2:
			g.numKeys(s)
			if t.chance(0.2) {
				s["exclusiveMinimum"] = true
			}
		case 3:
			g.arrKeys(s, 1)
			if t.chance(0.2) {
				s["additionalItems"] = false
			}
		case 4:
			g.objKeys(s, 1)
		case 5:
			if i == 0 {
				e := []interface{}{}
				k := t.Intn(4)
				for j := t.Intn(3); j >= 0; j-- {
					switch k {
					case 0:
						e = append(e, t.word())
					case 1:
						e = append(e, t.number())
					case 2:
						e = append(e, nil)
					case 3:
						if t.chance(0.5) {
							e = append(e, t.number())
						} else {
							e = append(e, t.word())
						}
					}
				}
				s["enum"] = e
				return s
			}
		case 6:
			s["format"] = t.pick("hostname", "unknown-format")
		}
	}
	return s
}

// value makes a JSON value that has a fair chance of being accepted by s.
func (g *sgen) value(o *oracle, s js, d int) interface{} {
	t := g.t
	if t.chance(0.12) || d < 0 {
		return g.clean(t.jsonValue(1))
	}
	if r, ok := s["$ref"].(string); ok {
		if x := o.lookup(r); x != nil {
			return g.value(o, x, d-1)
		}
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if l, ok := s[k].([]interface{}); ok && len(l) > 0 && t.chance(0.7) {
			return g.value(o, l[t.Intn(len(l))].(js), d-1)
		}
	}
	if n, ok := s["not"].(js); ok && t.chance(0.5) {
		return g.value(o, n, d-1)
	}
	if e, ok := s["enum"].([]interface{}); ok && len(e) > 0 && t.chance(0.6) {
		return clone(e[t.Intn(len(e))])
	}
	ts := typesOf(s)
	if len(ts) == 0 {
		return g.clean(t.jsonValue(1))
	}
	switch ts[t.Intn(len(ts))] {
	case "string":
		if f, ok := s["format"].(string); ok {
			if l := fmtSamples[f]; l != nil {
				return l[t.Intn(len(l))].s
			}
		}
		n := t.Intn(6)
		if m, ok := num(s["minLength"]); ok && t.chance(0.7) {
			n = int(m) + t.Intn(2)
		}
		w := t.pick("abcabcabc", "foofoofoo", "日本日本日本", "000111aaa")
		r := []rune(w)
		if n > len(r) {
			n = len(r)
		}
		if t.chance(0.2) {
			return t.word()
		}
		return string(r[:n])
	case "integer":
		if m, ok := num(s["minimum"]); ok && t.chance(0.6) {
			return float64(int(m)) + float64(t.Intn(3))
		}
		if m, ok := num(s["maximum"]); ok && t.chance(0.6) {
			return float64(int(m)) - float64(t.Intn(3))
		}
		if t.chance(0.8) {
			return float64(t.Intn(20))
		}
		return t.number()
	case "number":
		if m, ok := num(s["minimum"]); ok && t.chance(0.6) {
			return m + t.pickF(0, 0.5, 1, -0.5)
		}
		if m, ok := num(s["maximum"]); ok && t.chance(0.6) {
			return m - t.pickF(0, 0.5, 1, -0.5)
		}
		return t.number()
	case "boolean":
		return t.chance(0.5)
	case "null":
		return nil
	case "array":
		n := t.Intn(4)
		if m, ok := num(s["minItems"]); ok && t.chance(0.7) {
			n = int(m) + t.Intn(2)
		}
		l := make([]interface{}, n)
		for i := range l {
			es := js{}
			switch it := s["items"].(type) {
			case js:
				es = it
			case []interface{}:
				if i < len(it) {
					es = it[i].(js)
				} else if a, ok := s["additionalItems"].(js); ok {
					es = a
				}
			}
			l[i] = g.value(o, es, d-1)
			if u, _ := s["uniqueItems"].(bool); u {
				// uniqueness is documented for simple values only
				switch l[i].(type) {
				case string, float64:
				default:
					l[i] = t.number()
				}
			}
		}
		return l
	case "object":
		m := map[string]interface{}{}
		props, _ := s["properties"].(js)
		keys := []string{}
		for k := range props {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if t.chance(0.6) {
				m[k] = g.value(o, props[k].(js), d-1)
			}
		}
		if r, ok := s["required"].([]interface{}); ok {
			for _, k := range r {
				if t.chance(0.85) {
					ks := k.(string)
					if p, ok := props[ks].(js); ok {
						m[ks] = g.value(o, p, d-1)
					} else if _, in := m[ks]; !in {
						m[ks] = g.clean(t.jsonValue(0))
					}
				}
			}
		}
		if t.chance(0.4) {
			k := t.key()
			es := js{}
			if a, ok := s["additionalProperties"].(js); ok {
				es = a
			}
			pats, _ := s["patternProperties"].(js)
			pk := []string{}
			for p := range pats {
				pk = append(pk, p)
			}
			sort.Strings(pk)
			for _, p := range pk {
				if regexp.MustCompile(p).MatchString(k) {
					es = pats[p].(js)
				}
			}
			if _, in := props[k]; !in {
				m[k] = g.value(o, es, d-1)
			}
		}
		if dp, ok := s["dependencies"].(js); ok && t.chance(0.6) {
			dk := []string{}
			for k := range dp {
				dk = append(dk, k)
			}
			sort.Strings(dk)
			k := dk[t.Intn(len(dk))]
			if _, in := m[k]; !in {
				m[k] = t.number()
			}
		}
		return m
	}
	return nil
}

// clean keeps nested arrays out of uniqueness's documented limits.
func (g *sgen) clean(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		for i := range x {
			switch x[i].(type) {
			case string, float64:
			default:
				x[i] = float64(i)
			}
		}
	}
	return v
}

func compact(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// build goes the way a user goes: JSON text, schema, builder.
func (t *T) build(text string) (*jsval.JSVal, error) {
	s, err := schema.Read(strings.NewReader(text))
	if err != nil {
		t.Fail("schema.Read: %v", err)
	}
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(text), &m); err != nil {
		t.Fail("json: %v", err)
	}
	if t.share != nil {
		t.share(s)
	}
	if t.chance(0.3) {
		return builder.New().Build(s)
	}
	return builder.New().BuildWithCtx(s, m)
}

// withInts turns integral numbers into Go integers.
func withInts(v interface{}) interface{} {
	switch x := v.(type) {
	case float64:
		if isIntegral(x) && x > -1e9 && x < 1e9 {
			return int(x)
		}
	case []interface{}:
		for i := range x {
			x[i] = withInts(x[i])
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = withInts(x[k])
		}
	}
	return v
}

func caseBuild(t *T, mode string) {
	g := &sgen{t: t, mode: mode}
	var s js
	switch mode {
	case "string":
		s = js{"type": "string"}
		g.strKeys(s)
		if t.chance(0.3) {
			s["format"] = t.pick("date-time", "email", "ipv4", "ipv6", "uri", "hostname", "other")
		}
		if t.chance(0.3) {
			s["enum"] = []interface{}{t.word(), t.word(), "foo"}
			delete(s, "format")
		}
	case "number":
		s = js{"type": t.pick("number", "integer")}
		g.numKeys(s)
		if t.chance(0.3) {
			s["enum"] = []interface{}{t.number(), t.number(), 2.0}
		}
	case "array":
		s = js{"type": "array"}
		g.arrKeys(s, 1)
	case "object":
		s = js{"type": "object"}
		g.objKeys(s, 1)
	case "compose":
		s = js{}
		for _, k := range []string{"not", "allOf", "anyOf", "oneOf"} {
			if t.chance(0.4) {
				if k == "not" {
					s[k] = g.schema(1)
				} else {
					s[k] = g.list(1)
				}
			}
		}
		if t.chance(0.4) {
			x := g.schema(1)
			for k, v := range x {
				if !has(s, k) {
					s[k] = v
				}
			}
		}
	case "untyped":
		s = g.untyped()
	case "refs":
		s = js{"type": "object"}
		defs := js{}
		names := []string{"p", "q", "r"}[:1+t.Intn(3)]
		var all []string
		for _, n := range names {
			all = append(all, "#/definitions/"+n)
		}
		// definitions refer to each other only below a property, so that
		// every reference chain consumes part of the value
		for i, n := range names {
			g.refs = nil
			d := g.schema(1)
			if t.chance(0.6) {
				g.refs = append(append([]string{}, all...), "#")
				d = js{"type": "object", "properties": js{t.key(): js{"$ref": g.refs[t.Intn(len(g.refs))]}, "v": js{"type": "integer"}}}
			} else if i > 0 && t.chance(0.4) {
				d = js{"$ref": all[t.Intn(i)]}
			}
			defs[n] = d
		}
		g.refs = append(append([]string{}, all...), "#")
		p := js{}
		for i := t.Intn(3); i >= 0; i-- {
			p[t.key()] = g.schema(1)
		}
		s["properties"] = p
		s["definitions"] = defs
		if t.chance(0.2) {
			s["additionalProperties"] = js{"$ref": all[0]}
		}
	default:
		s = g.schema(3)
	}
	text := compact(s)
	t.Desc("schema %s", text)
	// the oracle reads the text as well
	var root js
	json.Unmarshal([]byte(text), &root)
	if l, ok := root["oneOf"].([]interface{}); ok && len(l) > 0 && t.chance(0.2) {
		t.Desc("oneOf has its first schema (the same object) once more at the end")
		root["oneOf"] = append(l, l[0])
		t.share = func(s *schema.Schema) { s.OneOf = append(s.OneOf, s.OneOf[0]) }
	}
	v, err := t.build(text)
	t.Want(err == nil && v != nil, "Build: %v", err)
	o := &oracle{root: root}
	for i := 0; i < 6; i++ {
		x := g.value(o, root, 4)
		if s, ok := x.(string); ok {
			if _, known := fmtOK("", s); !known {
				continue
			}
		}
		if !strings.Contains(text, "uniqueItems") && t.chance(0.2) {
			x = withInts(clone(x))
		}
		want, skip := t.oracleVerdict(o, root, x)
		if skip {
			continue
		}
		t.Desc("value %s", show(x))
		t.Verdict("built validator", v.Validate(clone(x)), want)
	}
}

// oracleVerdict skips strings whose format verdict is not tabulated.
func (t *T) oracleVerdict(o *oracle, s js, x interface{}) (ok, skip bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(string); is {
				ok, skip = false, true
				return
			}
			panic(r)
		}
	}()
	return o.ok(s, x), false
}

func caseDangling(t *T) {
	ref := t.pick("#/definitions/nosuch", "#/nosuch", "#/definitions/p/nosuch", "#/type", "#/definitions/list", "#/definitions/num")
	inner := js{"$ref": ref}
	switch t.Intn(6) {
	case 0:
		inner = js{"type": "array", "items": inner}
	case 1:
		inner = js{"anyOf": []interface{}{js{"type": "string"}, inner}}
	case 2:
		inner = js{"not": inner}
	case 3:
		inner = js{"type": "object", "additionalProperties": inner}
	}
	s := js{"type": "object", "properties": js{"a": inner}, "definitions": js{"p": js{"type": "string"}, "list": []interface{}{1.0}, "num": 3.0}}
	if t.chance(0.5) { // only reachable through another reference
		s = js{"type": "object", "properties": js{"a": js{"$ref": "#/definitions/q"}}, "definitions": js{"q": inner, "p": js{"type": "string"}, "list": []interface{}{1.0}, "num": 3.0}}
		delete(s["definitions"].(js), "list")
		delete(s["definitions"].(js), "num")
	} else {
		// the schema reader does not accept these as definitions
		delete(s["definitions"].(js), "list")
		delete(s["definitions"].(js), "num")
	}
	text := compact(s)
	t.Desc("schema %s", text)
	_, err := t.build(text)
	t.Want(err != nil, "a reference to nothing was accepted")
}

func caseBuildDefaults(t *T) {
	ty := t.pick("string", "number", "integer", "boolean")
	var d interface{}
	switch ty {
	case "string":
		d = t.word()
	case "boolean":
		d = t.chance(0.5)
	case "integer":
		d = float64(t.Intn(9))
	default:
		d = t.number()
	}
	s := js{"type": "object", "properties": js{"a": js{"type": ty, "default": d}, "b": js{"type": ty}}}
	text := compact(s)
	t.Desc("schema %s", text)
	v, err := t.build(text)
	t.Want(err == nil, "Build: %v", err)
	m := map[string]interface{}{}
	t.Verdict("empty object", v.Validate(m), true)
	t.Want(reflect.DeepEqual(m, map[string]interface{}{"a": d}), "after validation %#v", m)
	m2 := map[string]interface{}{"a": clone(d), "b": clone(d)}
	t.Verdict("full object", v.Validate(m2), true)
	t.Want(reflect.DeepEqual(m2, map[string]interface{}{"a": d, "b": d}), "after validation %#v", m2)
}
