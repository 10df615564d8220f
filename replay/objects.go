package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/lestrrat-go/jsval"
)

func init() {
	suites = append(suites,
		Suite{"object-map", "C06 C16", 8000, func(t *T) { caseObject(t, "map") }},
		Suite{"object-struct", "C06 C11", 5000, func(t *T) { caseObject(t, "struct") }},
		Suite{"dependencies", "C07", 8000, func(t *T) { caseObject(t, "deps") }},
		Suite{"object-full", "C06 C07 C08", 6000, func(t *T) { caseObject(t, "full") }},
		Suite{"object-defaults", "C08", 6000, caseObjectDefaults},
		Suite{"object-setters", "C06 C07", 1500, caseObjectSetters},
		Suite{"object-kinds", "C06 C16", 800, caseObjectKinds},
		Suite{"struct-names", "C11 C16", 3000, caseStructNames},
		Suite{"struct-fixed", "C11 C08 C16", 600, caseStructFixed},
		Suite{"maybe", "C09 C16", 4000, caseMaybe},
		Suite{"maybe-object", "C09 C11", 1500, caseMaybeObject},
	)
}

// ---- objects

var propNames = []string{"a", "b", "foo", "bar", "x1", "x2", "y"}
var propPatterns = []string{"^x", "[0-9]$", "o", "^foo$", "y"}

type objSpec struct {
	Min, Max       int
	HasMin, HasMax bool
	Required       []string
	Props          map[string]int // name -> the child accepts integers < n
	Pats           map[string]int
	Additional     int // -1: not allowed, 99: anything, else < n
	PropDeps       map[string][]string
	SchemaDeps     map[string]string // name -> property the whole object must contain
	Defaults       map[string]int    // declared properties with a default
}

func (s objSpec) String() string {
	b, _ := json.Marshal(s)
	return string(b)
}

func below(n int) func(interface{}) bool {
	return func(v interface{}) bool {
		if p, ok := v.(*int); ok && p != nil {
			v = *p
		}
		rv := reflect.ValueOf(v)
		if rv.IsValid() && rv.CanInt() {
			return rv.Int() < int64(n)
		}
		return false
	}
}

func (t *T) objSpec(deps bool) objSpec {
	sp := objSpec{Props: map[string]int{}, Pats: map[string]int{}, Additional: t.pickI(-1, 99, 99, 5), PropDeps: map[string][]string{}, SchemaDeps: map[string]string{}, Defaults: map[string]int{}}
	if t.chance(0.2) {
		sp.HasMin, sp.Min = true, t.Intn(4)
	}
	if t.chance(0.2) {
		sp.HasMax, sp.Max = true, t.Intn(6)
	}
	for _, p := range propNames {
		if t.chance(0.35) {
			sp.Props[p] = t.pickI(3, 5, 8, 10)
		}
		if t.chance(0.12) {
			sp.Required = append(sp.Required, p)
		}
	}
	for _, p := range propPatterns {
		if t.chance(0.2) {
			sp.Pats[p] = t.pickI(3, 5, 8)
		}
	}
	if deps {
		for _, p := range propNames {
			if t.chance(0.25) {
				for i := t.Intn(3); i >= 0; i-- {
					sp.PropDeps[p] = append(sp.PropDeps[p], t.key())
				}
			} else if t.chance(0.25) {
				sp.SchemaDeps[p] = t.key()
			}
		}
		if t.chance(0.6) {
			sp.Additional = 99
		}
		if t.chance(0.7) {
			sp.HasMin, sp.HasMax, sp.Required = false, false, nil
		}
	}
	return sp
}

// withDefaults gives some declared properties defaults. Whether a dependency
// on the whole object sees filled-in defaults is not specified, so there are
// none of those.
func (t *T) withDefaults(sp objSpec) objSpec {
	sp.SchemaDeps = map[string]string{}
	for _, p := range propNames {
		if _, ok := sp.Props[p]; ok && t.chance(0.5) {
			sp.Defaults[p] = t.Intn(12)
		}
	}
	return sp
}

// objVerdict is the reading of the statement over the present properties.
func objVerdict(sp objSpec, present map[string]int) bool {
	if sp.HasMin && len(present) < sp.Min || sp.HasMax && len(present) > sp.Max {
		return false
	}
	for _, r := range sp.Required {
		if _, ok := present[r]; !ok {
			return false
		}
	}
	for p, v := range present {
		if n, ok := sp.Props[p]; ok {
			if v >= n {
				return false
			}
		} else {
			matched := false
			for pat, n := range sp.Pats {
				if regexp.MustCompile(pat).MatchString(p) {
					matched = true
					if v >= n {
						return false
					}
				}
			}
			if !matched {
				if sp.Additional == -1 || v >= sp.Additional {
					return false
				}
			}
		}
		if d := sp.PropDeps[p]; len(d) > 0 {
			for _, q := range d {
				if _, ok := present[q]; !ok {
					return false
				}
			}
		} else if q, ok := sp.SchemaDeps[p]; ok {
			if _, ok := present[q]; !ok {
				return false
			}
		}
	}
	return true
}

func (t *T) buildObject(sp objSpec, hasProp func(v interface{}, p string) bool) *jsval.ObjectConstraint {
	c := jsval.Object()
	var fs []func()
	add := func(f func()) { fs = append(fs, f) }
	if sp.HasMin {
		add(func() { c.MinProperties(sp.Min) })
	}
	if sp.HasMax {
		add(func() { c.MaxProperties(sp.Max) })
	}
	if len(sp.Required) > 0 {
		if t.chance(0.5) {
			add(func() { c.Required(sp.Required...) })
		} else {
			for _, r := range sp.Required {
				r := r
				add(func() { c.Required(r) })
			}
		}
	}
	for _, p := range sortedKeys(sp.Props) {
		p, n := p, sp.Props[p]
		d, hasd := sp.Defaults[p]
		add(func() { c.AddProp(p, &stub{ok: below(n), hasd: hasd, def: d}) })
	}
	for _, p := range sortedKeys(sp.Pats) {
		p, n := p, sp.Pats[p]
		if t.chance(0.5) {
			add(func() { c.PatternPropertiesString(p, &stub{ok: below(n)}) })
		} else {
			add(func() { c.PatternProperties(regexp.MustCompile(p), &stub{ok: below(n)}) })
		}
	}
	switch sp.Additional {
	case -1:
		if t.chance(0.5) {
			add(func() { c.AdditionalProperties(nil) })
		}
	case 99:
		add(func() { c.AdditionalProperties(jsval.EmptyConstraint) })
	default:
		add(func() { c.AdditionalProperties(&stub{ok: below(sp.Additional)}) })
	}
	var dn []string
	for p := range sp.PropDeps {
		dn = append(dn, p)
	}
	sort.Strings(dn)
	for _, p := range dn {
		p, l := p, sp.PropDeps[p]
		if len(l) > 1 && t.chance(0.4) {
			for _, q := range l {
				q := q
				add(func() { c.PropDependency(p, q) })
			}
		} else {
			add(func() { c.PropDependency(p, l...) })
		}
	}
	dn = nil
	for p := range sp.SchemaDeps {
		dn = append(dn, p)
	}
	sort.Strings(dn)
	for _, p := range dn {
		p, q := p, sp.SchemaDeps[p]
		add(func() { c.SchemaDependency(p, &stub{ok: func(v interface{}) bool { return hasProp(v, q) }}) })
	}
	t.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, f := range fs {
		f()
	}
	return c
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (t *T) present(sp objSpec) map[string]int {
	m := map[string]int{}
	for _, p := range propNames {
		pr := 0.3
		if _, ok := sp.Props[p]; ok {
			pr = 0.6
		}
		for _, r := range sp.Required {
			if r == p {
				pr = 0.85
			}
		}
		if t.chance(pr) {
			m[p] = t.pickI(0, 1, 2, 2, 3, 4, 4, 5, 7, 9)
		}
	}
	if t.chance(0.1) {
		m["zz"] = 1
	}
	if t.chance(0.05) {
		m[""] = 1
	}
	return m
}

func mapHas(v interface{}, p string) bool {
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Interface {
		rv = rv.Elem()
	}
	if rv.Kind() != reflect.Map {
		return false
	}
	return rv.MapIndex(reflect.ValueOf(p).Convert(rv.Type().Key())).IsValid()
}

type keyString string

// goMap makes the Go value for the present properties.
func (t *T) goMap(m map[string]int) interface{} {
	switch t.Intn(5) {
	case 0:
		x := map[string]int{}
		for k, v := range m {
			x[k] = v
		}
		return x
	case 1:
		x := map[keyString]interface{}{}
		for k, v := range m {
			x[keyString(k)] = v
		}
		return x
	case 2:
		x := map[string]interface{}{}
		for k, v := range m {
			x[k] = v
		}
		return &x
	}
	x := map[string]interface{}{}
	for k, v := range m {
		x[k] = v
	}
	return x
}

// goStruct makes a struct whose JSON properties are the given ones. Every
// field of a struct is present.
func (t *T) goStruct(m map[string]int) interface{} {
	var fs []reflect.StructField
	var vals []int
	i := 0
	for _, k := range sortedKeys(m) {
		if k == "" {
			continue
		}
		i++
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(int(0)), Tag: reflect.StructTag(fmt.Sprintf(`json:"%s"`, k))}
		switch t.Intn(6) {
		case 0:
			f.Tag = reflect.StructTag(fmt.Sprintf(`json:"%s,omitempty"`, k))
		case 1:
			f.Tag = reflect.StructTag(fmt.Sprintf(`xml:"q" json:"%s"`, k))
		case 2:
			f.Type = reflect.TypeOf(int64(0))
		}
		fs = append(fs, f)
		vals = append(vals, m[k])
	}
	if t.chance(0.3) {
		fs = append(fs, reflect.StructField{Name: "Ignored", Type: reflect.TypeOf(""), Tag: `json:"-"`})
	}
	rt := reflect.StructOf(fs)
	pv := reflect.New(rt)
	for i, v := range vals {
		pv.Elem().Field(i).SetInt(int64(v))
	}
	if t.chance(0.5) {
		return pv.Interface()
	}
	return pv.Elem().Interface()
}

func caseObject(t *T, mode string) {
	sp := t.objSpec(mode == "deps" || mode == "full")
	if mode == "full" {
		sp = t.withDefaults(sp)
	}
	t.Desc("Object %s", sp)
	for i := 0; i < 4; i++ {
		m := t.present(sp)
		has := mapHas
		var v interface{}
		if mode == "struct" {
			delete(m, "")
			v = t.goStruct(m)
			has = func(_ interface{}, p string) bool { _, ok := m[p]; return ok }
		} else {
			v = t.goMap(m)
		}
		c := t.buildObject(sp, has)
		t.Desc("value %T %v", v, m)
		want := objVerdict(sp, m)
		if mode == "full" {
			t.Verdict("object with defaults", c.Validate(v), want)
			if want {
				after := map[string]int{}
				rv := reflect.ValueOf(deref(v))
				for _, k := range rv.MapKeys() {
					e := rv.MapIndex(k)
					if e.Kind() == reflect.Interface {
						e = e.Elem()
					}
					after[k.String()] = int(e.Int())
				}
				filled := map[string]int{}
				for k, x := range m {
					filled[k] = x
				}
				for k, x := range sp.Defaults {
					if _, ok := m[k]; !ok {
						filled[k] = x
					}
				}
				t.Want(reflect.DeepEqual(after, filled), "after validation %v, want %v", after, filled)
			}
			continue
		}
		before := fmt.Sprintf("%#v", deref(v))
		t.Verdict("object", c.Validate(v), want)
		t.Want(fmt.Sprintf("%#v", deref(v)) == before, "validation without defaults changed the value to %#v", deref(v))
		t.Verdict("object, again", c.Validate(v), want)
		if i == 0 {
			t.Verdict("pointer to interface", c.Validate(&v), want)
			pp := reflect.New(reflect.TypeOf(v))
			pp.Elem().Set(reflect.ValueOf(v))
			t.Verdict("one more pointer", c.Validate(pp.Interface()), want)
		}
	}
}

func deref(v interface{}) interface{} {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() {
		return rv.Elem().Interface()
	}
	return v
}

func caseObjectSetters(t *T) {
	c := jsval.Object()
	t.Desc("setters")
	req := map[string]bool{}
	deps := map[string][]string{}
	sdeps := map[string]jsval.Constraint{}
	for i := t.Intn(6); i > 0; i-- {
		switch t.Intn(3) {
		case 0:
			a, b := t.key(), t.key()
			c.Required(a, b)
			req[a], req[b] = true, true
			t.Desc("Required(%s,%s)", a, b)
		case 1:
			a, b := t.key(), t.key()
			c.PropDependency(a, b)
			deps[a] = append(deps[a], b)
			t.Desc("PropDependency(%s,%s)", a, b)
		case 2:
			a := t.key()
			s := &stub{ok: accept}
			c.SchemaDependency(a, s)
			sdeps[a] = s
			t.Desc("SchemaDependency(%s)", a)
		}
	}
	for _, p := range append(propNames, "nosuch") {
		t.Want(c.IsPropRequired(p) == req[p], "IsPropRequired(%s) = %v", p, c.IsPropRequired(p))
		t.Want(strings.Join(c.GetPropDependencies(p), ",") == strings.Join(deps[p], ","), "GetPropDependencies(%s) = %v, want %v", p, c.GetPropDependencies(p), deps[p])
		t.Want(c.GetSchemaDependency(p) == sdeps[p], "GetSchemaDependency(%s)", p)
	}
	c.AddProp("a", &stub{ok: reject}).AddProp("a", &stub{ok: accept}).AdditionalProperties(jsval.EmptyConstraint)
	m := map[string]interface{}{"a": 1}
	for r := range req {
		m[r] = 1
	}
	for round := 0; round < 3; round++ {
		for _, ds := range deps {
			for _, d := range ds {
				m[d] = 1
			}
		}
	}
	t.Verdict("later AddProp replaces the earlier", c.Validate(m), true)
}

func caseObjectKinds(t *T) {
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	v := t.jsonValue(2)
	t.Desc("value %s", show(v))
	_, isobj := v.(map[string]interface{})
	t.Verdict("object kind", c.Validate(v), isobj)
	for _, x := range []interface{}{1, "a", true, 1.5, []int{1}, nil, (*int)(nil), (*struct{})(nil), map[int]int{1: 1}, [2]int{}} {
		t.Desc("value %T", x)
		t.Verdict("not an object", c.Validate(x), false)
	}
	t.Verdict("empty struct", c.Validate(struct{}{}), true)
	t.Verdict("nil map", c.Validate(map[string]interface{}(nil)), true)
	t.Verdict("nil map, required", jsval.Object().Required("a").Validate(map[string]interface{}(nil)), false)
}

// ---- defaults

func caseObjectDefaults(t *T) {
	c := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	type pd struct {
		has bool
		def interface{}
		req bool
	}
	defs := map[string]pd{}
	for _, p := range propNames {
		if !t.chance(0.5) {
			continue
		}
		d := pd{has: t.chance(0.6), def: t.jsonValue(1), req: t.chance(0.1)}
		if t.chance(0.1) {
			d.def = nil
		}
		defs[p] = d
		c.AddProp(p, &stub{ok: accept, hasd: d.has, def: d.def})
		if d.req {
			c.Required(p)
		}
		t.Desc("%s has=%v def=%s req=%v", p, d.has, show(d.def), d.req)
	}
	if t.chance(0.5) {
		m := map[string]interface{}{}
		for _, p := range propNames {
			if t.chance(0.4) {
				m[p] = t.jsonValue(1)
				if t.chance(0.15) {
					m[p] = nil
				}
			}
		}
		t.Desc("value %#v", m)
		want := map[string]interface{}{}
		ok := true
		for k, v := range m {
			want[k] = v
		}
		for p, d := range defs {
			if _, in := m[p]; !in {
				if d.req {
					ok = false
				} else if d.has {
					want[p] = d.def
				}
			}
		}
		var x interface{} = m
		if t.chance(0.3) {
			x = &m
		}
		t.Verdict("with defaults", c.Validate(x), ok)
		if ok {
			t.Want(reflect.DeepEqual(m, want), "after validation %#v, want %#v", m, want)
			t.Verdict("with defaults, again", c.Validate(x), true)
			t.Want(reflect.DeepEqual(m, want), "validating twice changed the value")
		} else {
			for k := range m {
				t.Want(reflect.DeepEqual(m[k], want[k]) || defs[k].has && reflect.DeepEqual(m[k], defs[k].def), "a rejected value's property %s changed to %#v", k, m[k])
			}
		}
		return
	}
	// defaults that cannot be stored make the validation fail
	type unstorable struct {
		A jsval.MaybeInt `json:"a"`
		P int            `json:"p"`
	}
	for _, x := range []struct {
		name string
		v    interface{}
		def  interface{}
		ok   bool
	}{
		{"map[string]bool", map[string]bool{"z": true}, "x", false},
		{"map[string]string", map[string]string{"z": "1"}, true, false},
		{"map[string]string", map[string]string{"z": "1"}, "x", true},
		{"map[string]int", map[string]int{"z": 1}, []interface{}{1}, false},
		{"map[string][]string", map[string][]string{"z": nil}, "x", false},
		{"map[string]map[string]int", map[string]map[string]int{"z": nil}, 1, false},
		{"map[string]interface{}", map[string]interface{}{"z": nil}, []interface{}{1}, true},
		{"nil map", map[string]interface{}(nil), "x", false},
		{"struct with MaybeInt", &unstorable{}, "x", false},
		{"struct with MaybeInt", &unstorable{}, 5, true},
		{"struct with MaybeInt", &unstorable{}, true, false},
		{"struct by value", unstorable{}, 5, false},
	} {
		if !t.chance(0.3) {
			continue
		}
		t.Desc("%s, default %s for a", x.name, show(x.def))
		t.Verdict("storing a default", jsval.Object().AdditionalProperties(jsval.EmptyConstraint).AddProp("a", &stub{ok: accept, hasd: true, def: x.def}).Validate(x.v), x.ok)
	}
	// typed maps and structs with Maybe fields
	m := map[string]int64{"a": int64(t.Intn(5))}
	cc := jsval.Object().AdditionalProperties(jsval.EmptyConstraint)
	d := t.Intn(9)
	if t.chance(0.5) {
		cc.AddProp("b", jsval.Integer().Default(d))
	} else {
		cc.AddProp("b", jsval.Integer().Default(float64(d)))
	}
	t.Desc("map[string]int64 %v default b=%d", m, d)
	t.Verdict("typed map", cc.Validate(m), true)
	t.Want(m["b"] == int64(d) && len(m) == 2, "typed map after validation: %v", m)
	s := maybeStruct{}
	set := map[string]bool{}
	if t.chance(0.4) {
		s.S.Set("orig")
		set["s"] = true
	}
	if t.chance(0.4) {
		s.I.Set(77)
		set["i"] = true
	}
	if t.chance(0.4) {
		s.F.Set(7.5)
		set["f"] = true
	}
	if t.chance(0.4) {
		s.B.Set(false)
		set["b"] = true
	}
	s.P = "plain"
	sc := jsval.Object().
		AddProp("s", jsval.String().Default("dflt")).
		AddProp("i", jsval.Integer().Default(d)).
		AddProp("f", jsval.Number().Default(0.5)).
		AddProp("b", jsval.Boolean().Default(true)).
		AddProp("p", jsval.String().Default("never"))
	t.Desc("maybeStruct set=%v", set)
	t.Verdict("struct", sc.Validate(&s), true)
	wantS, wantI, wantF, wantB := "dflt", int64(d), 0.5, true
	if set["s"] {
		wantS = "orig"
	}
	if set["i"] {
		wantI = 77
	}
	if set["f"] {
		wantF = 7.5
	}
	if set["b"] {
		wantB = false
	}
	t.Want(s.S.Valid() && s.I.Valid() && s.F.Valid() && s.B.Valid(), "a default was not set: %+v", s)
	t.Want(s.S.String == wantS && s.I.Int == wantI && s.F.Float == wantF && s.B.Bool == wantB && s.P == "plain", "after validation: %+v", s)
}

type maybeStruct struct {
	S jsval.MaybeString `json:"s"`
	I jsval.MaybeInt    `json:"i"`
	F jsval.MaybeFloat  `json:"f"`
	B jsval.MaybeBool   `json:"b"`
	P string            `json:"p"`
}

// ---- struct property names

type fieldSpec struct {
	name  string // JSON name, "" when the field is no property
	maybe bool
}

// recorder accepts every property and remembers names: the additional
// properties constraint sees each undeclared property once.
func caseStructNames(t *T) {
	var fs []reflect.StructField
	want := map[string]bool{}
	var maybes []int
	var names []string
	used := map[string]bool{}
	mkField := func(i int, prefix string) (reflect.StructField, string, bool) {
		f := reflect.StructField{Name: fmt.Sprintf("%s%d", prefix, i)}
		maybe := false
		switch t.Intn(5) {
		case 0:
			f.Type = reflect.TypeOf(jsval.MaybeString{})
			maybe = true
		case 1:
			f.Type = reflect.TypeOf(jsval.MaybeInt{})
			maybe = true
		case 2:
			f.Type = reflect.TypeOf("")
		case 3:
			f.Type = reflect.TypeOf(0)
		case 4:
			f.Type = reflect.TypeOf(&struct{}{})
		}
		jn := t.pick("a", "b", "foo", "n", "long_name", "x-y", "日本", "with space", fmt.Sprint("k", i), "-,", "$ref")
		if t.chance(0.3) {
			const chars = "abzAZ09!#$%&()*+-./:;<=>?@[]^_{|}~ éß日"
			rs := []rune(chars)
			jn = ""
			for k := t.Intn(7); k >= 0; k-- {
				jn += string(rs[t.Intn(len(rs))])
			}
		}
		if jn == "-," {
			jn = "-"
		}
		opt := t.pick("", "", ",omitempty", ",string", ",", ",omitempty,string")
		if jn == "-" && opt == "" {
			opt = ","
		}
		name := jn
		switch t.Intn(6) {
		case 0:
			f.Tag = ""
			name = f.Name
		case 1:
			f.Tag = `json:"-"`
			name = ""
		case 2:
			f.Tag = reflect.StructTag(`json:"` + opt + `"`)
			name = f.Name
		default:
			f.Tag = reflect.StructTag(`json:"` + jn + opt + `"`)
		}
		return f, name, maybe
	}
	n := t.Intn(6)
	for i := 0; i < n; i++ {
		f, name, maybe := mkField(i, "F")
		if used[name] && name != "" {
			continue
		}
		used[name] = true
		if maybe && name != "" {
			maybes = append(maybes, len(fs))
		}
		fs = append(fs, f)
		names = append(names, name)
		if name != "" && !maybe {
			want[name] = true
		}
	}
	rt := reflect.StructOf(fs)
	pv := reflect.New(rt)
	for _, i := range maybes {
		if t.chance(0.5) {
			fv := pv.Elem().Field(i).Addr().Interface().(jsval.Maybe)
			var err error
			if fs[i].Type == reflect.TypeOf(jsval.MaybeInt{}) {
				err = fv.Set(t.Intn(3))
			} else {
				err = fv.Set(t.word())
			}
			t.Want(err == nil, "Set: %v", err)
			want[names[i]] = true
		}
	}
	var v interface{} = pv.Elem().Interface()
	if t.chance(0.5) {
		v = pv.Interface()
	}
	t.Desc("struct %s", rt)
	var present []string
	for k := range want {
		present = append(present, k)
	}
	sort.Strings(present)
	t.Desc("expected properties %q", present)
	k := len(present)
	for _, d := range []int{-1, 0, 1} {
		if k+d < 0 {
			continue
		}
		t.Verdict(fmt.Sprintf("minProperties %d", k+d), jsval.Object().MinProperties(k+d).AdditionalProperties(jsval.EmptyConstraint).Validate(v), d <= 0)
		t.Verdict(fmt.Sprintf("maxProperties %d", k+d), jsval.Object().MaxProperties(k+d).AdditionalProperties(jsval.EmptyConstraint).Validate(v), d >= 0)
	}
	for _, p := range append(append([]string{}, names...), "nosuch", "F0", "F1", "a", "-", "omitempty") {
		t.Verdict(fmt.Sprintf("required %q", p), jsval.Object().Required(p).AdditionalProperties(jsval.EmptyConstraint).Validate(v), want[p])
		t.Verdict(fmt.Sprintf("required and declared %q", p), jsval.Object().Required(p).AddProp(p, jsval.EmptyConstraint).AdditionalProperties(jsval.EmptyConstraint).Validate(v), want[p])
		t.Verdict(fmt.Sprintf("declared and rejected %q", p), jsval.Object().AddProp(p, &stub{ok: reject}).AdditionalProperties(jsval.EmptyConstraint).Validate(v), !want[p])
	}
	all := jsval.Object()
	for _, p := range present {
		all.AddProp(p, jsval.EmptyConstraint)
	}
	t.Verdict("all declared, none additional", all.Validate(v), true)
	if k > 0 {
		part := jsval.Object()
		skip := present[t.Intn(k)]
		for _, p := range present {
			if p != skip {
				part.AddProp(p, jsval.EmptyConstraint)
			}
		}
		t.Verdict(fmt.Sprintf("%q is additional", skip), part.Validate(v), false)
	}
}

type Inner struct {
	In  string `json:"in"`
	Num int
	un  int
}
type Deep struct {
	*Inner
	D string `json:"d,omitempty"`
}
type outer struct {
	Inner
	Deep   `json:"deep_ignored"`
	Own    string `json:"own"`
	hidden string
	Skip   string `json:"-"`
	Dash   string `json:"-,"`
	M      jsval.MaybeString
}
type onlyOuter struct {
	Inner
	Own    string `json:"own"`
	hidden string
	Skip   string            `json:"-"`
	M      jsval.MaybeString `json:"m"`
	T      jsval.MaybeTime   `json:"t"`
}
type ptrEmbed struct {
	*Inner
	X int `json:"x"`
}

type getter struct{ m map[string]interface{} }

func (g getter) GetPropNames() ([]string, error) {
	var l []string
	for k := range g.m {
		l = append(l, k)
	}
	return l, nil
}
func (g getter) GetPropValue(s string) (interface{}, error) {
	if v, ok := g.m[s]; ok {
		return v, nil
	}
	return nil, fmt.Errorf("no %s", s)
}

func (t *T) expectNames(v interface{}, want ...string) {
	t.Desc("value %T expects %q", v, want)
	k := len(want)
	open := func() *jsval.ObjectConstraint { return jsval.Object().AdditionalProperties(jsval.EmptyConstraint) }
	t.Verdict("exact count", open().MinProperties(k).MaxProperties(k).Validate(v), true)
	c := jsval.Object()
	for _, p := range want {
		t.Verdict("required "+p, open().Required(p).Validate(v), true)
		t.Verdict("required, declared "+p, open().Required(p).AddProp(p, jsval.EmptyConstraint).Validate(v), true)
		c.AddProp(p, jsval.EmptyConstraint)
	}
	t.Verdict("closed", c.Validate(v), true)
	for _, p := range []string{"hidden", "Skip", "un", "Inner", "Deep", "deep_ignored", "Own", "In", "nosuch"} {
		in := false
		for _, w := range want {
			in = in || w == p
		}
		if !in {
			t.Verdict("required "+p, open().Required(p).Validate(v), false)
		}
	}
}

func caseStructFixed(t *T) {
	o := onlyOuter{Inner: Inner{In: t.word(), Num: t.Intn(4)}, Own: t.word()}
	want := []string{"in", "Num", "own"}
	if t.chance(0.5) {
		o.M.Set("x")
		want = append(want, "m")
	}
	if t.chance(0.5) {
		t.Want(o.T.Set("2015-12-25T00:00:00Z") == nil, "MaybeTime.Set")
		want = append(want, "t")
	}
	t.expectNames(o, want...)
	t.expectNames(&o, want...)
	c := jsval.Object().AddProp("in", &stub{ok: func(v interface{}) bool { return v == o.In }}).AddProp("Num", &stub{ok: func(v interface{}) bool { return v == o.Num }}).AddProp("own", &stub{ok: func(v interface{}) bool { return v == o.Own }}).AdditionalProperties(jsval.EmptyConstraint)
	t.Verdict("field values", c.Validate(o), true)
	p := ptrEmbed{X: 1}
	if t.chance(0.5) {
		p.Inner = &Inner{In: "z"}
		t.expectNames(p, "in", "Num", "x")
	} else {
		t.expectNames(p, "x")
		t.expectNames(&p, "x")
	}
	g := getter{m: map[string]interface{}{}}
	for i := t.Intn(4); i > 0; i-- {
		g.m[t.key()] = t.Intn(9)
	}
	var l []string
	for k := range g.m {
		l = append(l, k)
	}
	sort.Strings(l)
	t.expectNames(g, l...)
}

// ---- Maybe

func caseMaybe(t *T) {
	rt := func(m jsval.Maybe, fresh jsval.Maybe, marshal interface{}, wantVal interface{}) {
		t.Want(m.Valid(), "%T not valid after Set", m)
		t.Want(reflect.DeepEqual(m.Value(), wantVal), "%T value %s, want %s", m, show(m.Value()), show(wantVal))
		b, err := json.Marshal(marshal)
		t.Want(err == nil, "marshal %T: %v", marshal, err)
		wb, err := json.Marshal(wantVal)
		t.Want(err == nil, "marshal: %v", err)
		t.Want(string(b) == string(wb), "%T marshals to %s, want %s", marshal, b, wb)
		t.Want(!fresh.Valid(), "zero %T is valid", fresh)
		err = json.Unmarshal(b, fresh)
		t.Want(err == nil, "unmarshal %T from %s: %v", fresh, b, err)
		t.Want(fresh.Valid() && reflect.DeepEqual(fresh.Value(), wantVal), "%T after round trip: valid=%v value=%s want %s", fresh, fresh.Valid(), show(fresh.Value()), show(wantVal))
		fresh.Reset()
		t.Want(!fresh.Valid(), "%T valid after Reset", fresh)
	}
	n := t.Intn(200) - 100
	big := int64(t.Uint64()) >> uint(t.Intn(64))
	t.Desc("n=%d big=%d", n, big)
	for _, x := range []interface{}{big, int32(big), int16(big), int8(big), int(big), float64(big >> 11)} {
		var m, f jsval.MaybeInt
		t.Desc("MaybeInt %T", x)
		t.Want(m.Set(x) == nil, "MaybeInt.Set(%s)", show(x))
		want := big
		switch y := x.(type) {
		case int32:
			want = int64(y)
		case int16:
			want = int64(y)
		case int8:
			want = int64(y)
		case float64:
			want = big >> 11
		}
		rt(&m, &f, m, want)
	}
	ubig := t.Uint64() >> uint(t.Intn(64))
	for _, x := range []interface{}{ubig, uint32(ubig), uint16(ubig), uint8(ubig), uint(ubig), float64(ubig >> 12)} {
		var m, f jsval.MaybeUint
		t.Desc("MaybeUint %T %v", x, x)
		t.Want(m.Set(x) == nil, "MaybeUint.Set(%s)", show(x))
		want := ubig
		switch y := x.(type) {
		case uint32:
			want = uint64(y)
		case uint16:
			want = uint64(y)
		case uint8:
			want = uint64(y)
		case float64:
			want = ubig >> 12
		}
		rt(&m, &f, m, want)
	}
	for _, x := range []interface{}{n, int8(n), int16(n), int32(n), int64(n), float64(n)} {
		var m, f jsval.MaybeInt
		t.Desc("MaybeInt %T", x)
		t.Want(m.Set(x) == nil, "MaybeInt.Set(%s)", show(x))
		rt(&m, &f, m, int64(n))
	}
	u := t.Intn(200)
	for _, x := range []interface{}{uint(u), uint8(u), uint16(u), uint32(u), uint64(u), float64(u)} {
		var m, f jsval.MaybeUint
		t.Desc("MaybeUint %T", x)
		t.Want(m.Set(x) == nil, "MaybeUint.Set(%s)", show(x))
		rt(&m, &f, m, uint64(u))
	}
	fl := t.number()
	var mf, ff jsval.MaybeFloat
	t.Want(mf.Set(fl) == nil, "MaybeFloat.Set(%v)", fl)
	rt(&mf, &ff, mf, fl)
	var mf2, ff2 jsval.MaybeFloat
	f32 := float32(t.NormFloat64() * 1e10)
	t.Want(mf2.Set(f32) == nil, "MaybeFloat.Set(%v)", f32)
	rt(&mf2, &ff2, mf2, float64(f32))
	s := t.word()
	var ms, fs jsval.MaybeString
	t.Want(ms.Set(s) == nil, "MaybeString.Set(%q)", s)
	rt(&ms, &fs, ms, s)
	b := t.chance(0.5)
	var mb, fb jsval.MaybeBool
	t.Want(mb.Set(b) == nil, "MaybeBool.Set(%v)", b)
	rt(&mb, &fb, mb, b)
	// times
	ts := time.Unix(int64(t.Intn(2000000000)), 0).UTC()
	t.Desc("time %s", ts.Format(time.RFC3339))
	for _, x := range []interface{}{ts, ts.Format(time.RFC3339)} {
		var m, f jsval.MaybeTime
		t.Want(m.Set(x) == nil, "MaybeTime.Set(%s)", show(x))
		t.Want(m.Valid() && m.Time.Equal(ts), "MaybeTime after Set: %v", m)
		jb, err := json.Marshal(m)
		t.Want(err == nil && string(jb) == `"`+ts.Format(time.RFC3339)+`"`, "MaybeTime marshals to %s, %v", jb, err)
		t.Want(!f.Valid(), "zero MaybeTime is valid")
		t.Want(json.Unmarshal(jb, &f) == nil && f.Valid() && f.Time.Equal(ts), "MaybeTime after round trip %v", f)
		f.Reset()
		t.Want(!f.Valid(), "MaybeTime valid after Reset")
	}
	// wrong types leave the value alone
	bad := []struct {
		m jsval.Maybe
		v []interface{}
	}{
		{&jsval.MaybeInt{}, []interface{}{"1", true, nil, []int{1}, uint(1)}},
		{&jsval.MaybeUint{}, []interface{}{"1", true, nil, -1}},
		{&jsval.MaybeFloat{}, []interface{}{"1", true, nil, 1}},
		{&jsval.MaybeString{}, []interface{}{1, true, nil, 1.5, []byte("x")}},
		{&jsval.MaybeBool{}, []interface{}{1, "true", nil, 1.5}},
		{&jsval.MaybeTime{}, []interface{}{1, "yesterday", nil, true, ""}},
	}
	e := bad[t.Intn(len(bad))]
	x := e.v[t.Intn(len(e.v))]
	t.Desc("%T.Set(%s)", e.m, show(x))
	t.Want(e.m.Set(x) != nil && !e.m.Valid(), "wrong type accepted")
	jbad := []struct {
		m jsval.Maybe
		s []string
	}{
		{&jsval.MaybeInt{Int: 5, ValidFlag: true}, []string{`"1"`, `1.5`, `true`, `{}`, `[1]`, `9223372036854775808`}},
		{&jsval.MaybeUint{Uint: 5, ValidFlag: true}, []string{`"1"`, `1.5`, `-1`, `{}`}},
		{&jsval.MaybeFloat{Float: 5, ValidFlag: true}, []string{`"1"`, `true`, `{}`, `1e999`}},
		{&jsval.MaybeString{String: "o", ValidFlag: true}, []string{`1`, `true`, `{}`}},
		{&jsval.MaybeBool{Bool: true, ValidFlag: true}, []string{`1`, `"true"`, `{}`}},
		{&jsval.MaybeTime{Time: ts, ValidFlag: true}, []string{`1`, `"yesterday"`, `"2015-12-25"`, `{}`}},
	}
	j := jbad[t.Intn(len(jbad))]
	js := j.s[t.Intn(len(j.s))]
	before := fmt.Sprintf("%+v", j.m)
	t.Desc("%T from JSON %s", j.m, js)
	err := json.Unmarshal([]byte(js), j.m)
	t.Want(err != nil, "accepted %s", js)
	t.Want(fmt.Sprintf("%+v", j.m) == before, "a failed decode changed %s to %+v", before, j.m)
}

// a Maybe field counts as a property exactly when it is set
func caseMaybeObject(t *T) {
	var s maybeStruct
	js := []string{}
	set := map[string]bool{"p": true}
	if t.chance(0.5) {
		js = append(js, fmt.Sprintf(`"s":%q`, t.pick("", "x", "longer")))
		set["s"] = true
	}
	if t.chance(0.5) {
		js = append(js, fmt.Sprintf(`"i":%d`, t.Intn(9)-4))
		set["i"] = true
	}
	if t.chance(0.5) {
		js = append(js, fmt.Sprintf(`"f":%g`, t.number()))
		set["f"] = true
	}
	if t.chance(0.5) {
		js = append(js, fmt.Sprintf(`"b":%v`, t.chance(0.5)))
		set["b"] = true
	}
	if t.chance(0.5) {
		js = append(js, `"p":"x"`)
	}
	text := "{" + strings.Join(js, ",") + "}"
	t.Desc("JSON %s", text)
	t.Want(json.Unmarshal([]byte(text), &s) == nil, "decode")
	for _, p := range []string{"s", "i", "f", "b", "p"} {
		t.Verdict("required "+p, jsval.Object().Required(p).AddProp(p, jsval.EmptyConstraint).AdditionalProperties(jsval.EmptyConstraint).Validate(s), set[p])
	}
	typed := jsval.Object().AddProp("s", jsval.String()).AddProp("i", jsval.Integer()).AddProp("f", jsval.Number()).AddProp("b", jsval.Boolean()).AddProp("p", jsval.String())
	t.Verdict("typed", typed.Validate(&s), true)
	wrong := jsval.Object().AddProp("s", jsval.Boolean()).AddProp("i", jsval.String()).AddProp("f", jsval.String()).AddProp("b", jsval.Integer()).AddProp("p", jsval.String())
	t.Verdict("wrong types", wrong.Validate(&s), len(set) == 1)
	// undeclared optional fields stand for the values they hold, too
	var rest interface{} = s
	if t.chance(0.5) {
		rest = &s
	}
	for p, c := range map[string]jsval.Constraint{"s": jsval.String(), "i": jsval.Integer(), "f": jsval.Number(), "b": jsval.Boolean()} {
		others := func() *jsval.ObjectConstraint {
			o := jsval.Object()
			for _, q := range []string{"s", "i", "f", "b", "p"} {
				if q != p {
					o.AddProp(q, jsval.EmptyConstraint)
				}
			}
			return o
		}
		t.Verdict("additional "+p, others().AdditionalProperties(c).Validate(rest), true)
		t.Verdict("not additional "+p, others().AdditionalProperties(jsval.Not(c)).Validate(rest), !set[p])
		t.Verdict("pattern "+p, others().PatternPropertiesString("^"+p+"$", c).Validate(rest), true)
		t.Verdict("not pattern "+p, others().PatternPropertiesString("^"+p+"$", jsval.Not(c)).AdditionalProperties(jsval.EmptyConstraint).Validate(rest), !set[p])
	}
}
