package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"

	"github.com/lestrrat-go/jsval"
)

func init() {
	suites = append(suites,
		Suite{"pure", "C16", 3000, casePure},
		Suite{"concurrent-validate", "C16", 400, caseConcurrentValidate},
		Suite{"concurrent-refs", "C16", 400, caseConcurrentRefs},
		Suite{"concurrent-structs", "C16", 400, caseConcurrentStructs},
		Suite{"mixed-kinds", "C16", 3000, caseMixedKinds},
	)
}

// schemaText: a schema, half of them with references
func (t *T) schemaText() (*sgen, string, js) {
	g := &sgen{t: t}
	var s js
	if t.chance(0.5) {
		defs := js{"p": g.schema(1), "q": js{"type": "object", "properties": js{"next": js{"$ref": "#/definitions/q"}, "v": js{"$ref": "#/definitions/p"}}}}
		g.refs = []string{"#/definitions/p", "#/definitions/q"}
		s = js{"type": "object", "properties": js{"a": g.schema(1), "b": js{"$ref": "#/definitions/q"}, "v": js{"$ref": "#/definitions/p"}}, "definitions": defs}
	} else {
		s = g.schema(3)
	}
	text := compact(s)
	var root js
	json.Unmarshal([]byte(text), &root)
	return g, text, root
}

// casePure: validating changes neither the value (no defaults here) nor what
// the validator says later, whatever was validated in between.
func casePure(t *T) {
	g, text, root := t.schemaText()
	t.Desc("schema %s", text)
	v, err := t.build(text)
	t.Want(err == nil, "Build: %v", err)
	o := &oracle{root: root}
	defaults := strings.Contains(text, `"default"`)
	var vals []interface{}
	var verdicts []bool
	for i := 0; i < 6; i++ {
		var x interface{}
		if t.chance(0.3) {
			x = t.jsonValue(3)
		} else {
			x = g.value(o, root, 4)
		}
		before := clone(x)
		t.Desc("value %s", show(x))
		ok := v.Validate(x) == nil
		if !defaults {
			t.Want(reflect.DeepEqual(before, x), "validating changed the value %s to %s", show(before), show(x))
		}
		vals = append(vals, before)
		verdicts = append(verdicts, ok)
	}
	for i, x := range vals {
		t.Want((v.Validate(clone(x)) == nil) == verdicts[i], "the verdict on %s was %v first and is another one later", show(x), verdicts[i])
	}
}

// caseMixedKinds: any JSON value, and plain Go values, against any schema:
// a verdict, never a panic.
func caseMixedKinds(t *T) {
	_, text, _ := t.schemaText()
	t.Desc("schema %s", text)
	v, err := t.build(text)
	t.Want(err == nil, "Build: %v", err)
	type inner struct {
		A string `json:"a"`
	}
	type plain struct {
		A   interface{}            `json:"a"`
		B   []interface{}          `json:"b,omitempty"`
		X1  map[string]interface{} `json:"x1"`
		Foo *inner                 `json:"foo"`
		Y   inner                  `json:"y"`
		hid int
	}
	for i := 0; i < 8; i++ {
		x := t.jsonValue(3)
		var in interface{} = x
		switch t.Intn(6) {
		case 0:
			in = plain{A: x, hid: 1}
		case 1:
			in = &plain{A: x, B: []interface{}{x}, X1: map[string]interface{}{"a": x}, Foo: &inner{"z"}}
		case 2:
			in = map[string]interface{}{t.key(): x, t.key(): plain{A: x}, t.key(): nil}
		case 3:
			in = []interface{}{x, nil, t.jsonValue(1), plain{}}
		}
		t.Desc("value %s (%T)", show(x), in)
		first := v.Validate(in) == nil
		t.Want(strings.Contains(text, `"default"`) || (v.Validate(in) == nil) == first, "two verdicts on the same value")
	}
}

// together runs the functions at the same time and passes on the first failure
func (t *T) together(fs ...func() string) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	out := make([]string, len(fs))
	for i, f := range fs {
		wg.Add(1)
		go func(i int, f func() string) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					out[i] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			out[i] = f()
		}(i, f)
	}
	close(start)
	wg.Wait()
	for _, s := range out {
		t.Want(s == "", "%s", s)
	}
}

func caseConcurrentValidate(t *T) {
	g, text, root := t.schemaText()
	t.Desc("schema %s", text)
	v, err := t.build(text)
	t.Want(err == nil, "Build: %v", err)
	w, err := t.build(text)
	t.Want(err == nil, "Build: %v", err)
	o := &oracle{root: root}
	var vals []interface{}
	var want []bool
	for i := 0; i < 4; i++ {
		x := g.value(o, root, 4)
		t.Desc("value %s", show(x))
		vals = append(vals, x)
		want = append(want, w.Validate(clone(x)) == nil)
	}
	var fs []func() string
	for i := 0; i < 6; i++ {
		k := i % len(vals)
		x := clone(vals[k])
		fs = append(fs, func() string {
			for r := 0; r < 3; r++ {
				y := clone(x)
				if (v.Validate(y) == nil) != want[k] {
					return fmt.Sprintf("concurrently %s gets another verdict than %v", show(x), want[k])
				}
			}
			return ""
		})
	}
	t.together(fs...)
}

func caseConcurrentRefs(t *T) {
	m := &jsval.ConstraintMap{}
	shared := &still{ok: below(3), hasd: true, def: 1}
	if t.chance(0.5) {
		m.SetReference("#/shared", shared)
	}
	ref := jsval.Reference(m).RefersTo("#/shared")
	pre := ref.Validate(0) == nil
	t.Desc("shared reference resolved before: %v", pre)
	var fs []func() string
	for i := 0; i < 6; i++ {
		own := fmt.Sprintf("#/definitions/own%d", i)
		c := &still{ok: below(i)}
		t.Desc("goroutine %d sets %s", i, own)
		fs = append(fs, func() string {
			for r := 0; r < 3; r++ {
				m.SetReference(own, c)
				got, err := m.GetReference(own)
				if err != nil || got != jsval.Constraint(c) {
					return fmt.Sprintf("%s does not give what was registered: %v", own, err)
				}
				mine := jsval.Reference(m).RefersTo(own)
				if (mine.Validate(i) == nil) != c.ok(i) {
					return "verdict of " + own
				}
				if !pre {
					m.SetReference("#/shared", shared)
				}
				if ref.Validate(0) != nil || ref.Validate(5) == nil || !ref.HasDefault() || ref.DefaultValue() != 1 {
					return "the shared reference gives another answer than its target"
				}
			}
			return ""
		})
	}
	t.together(fs...)
}

func caseConcurrentStructs(t *T) {
	// a struct type nobody has validated yet
	var fields []reflect.StructField
	n := 1 + t.Intn(3)
	names := map[string]bool{}
	uniq := structSeq.next()
	for i := 0; i < n; i++ {
		p := t.key()
		if names[p] {
			continue
		}
		names[p] = true
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0), Tag: reflect.StructTag(fmt.Sprintf(`json:"%s" n:"%d"`, p, uniq))})
	}
	ty := reflect.StructOf(fields)
	c := jsval.Object()
	limit := t.Intn(5)
	for p := range names {
		c.AddProp(p, &still{ok: below(limit)})
	}
	req := t.key()
	c.Required(req)
	t.Desc("struct %v, values < %d, required %s", ty, limit, req)
	var fs []func() string
	for i := 0; i < 6; i++ {
		x := reflect.New(ty)
		for k := 0; k < x.Elem().NumField(); k++ {
			x.Elem().Field(k).SetInt(int64(i))
		}
		in := x.Interface()
		if i%2 == 0 {
			in = x.Elem().Interface()
		}
		want := names[req] && i < limit
		k := i
		fs = append(fs, func() string {
			if (c.Validate(in) == nil) != want {
				return fmt.Sprintf("concurrently the struct with values %d gets another verdict than %v", k, want)
			}
			return ""
		})
	}
	t.together(fs...)
}

type counter struct {
	mu sync.Mutex
	n  int
}

func (c *counter) next() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	return c.n
}

var structSeq counter

// still is a stub that keeps no record of its calls
type still struct {
	ok   func(interface{}) bool
	hasd bool
	def  interface{}
}

func (s *still) Validate(v interface{}) error {
	if !s.ok(v) {
		return fmt.Errorf("rejected")
	}
	return nil
}
func (s *still) HasDefault() bool          { return s.hasd }
func (s *still) DefaultValue() interface{} { return s.def }
