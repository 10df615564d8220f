package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/lestrrat-go/jsval"
)

func init() {
	suites = append(suites, Suite{"generator", "C15", 2, caseGenerator})
}

var oddStrings = []string{`q"uote`, "back`tick", "new\nline", `back\slash`, "日本", "tab\t", "%d %s", "", "null", "'"}

func (g *sgen) odd(s js) {
	t := g.t
	switch t.Intn(10) {
	case 0:
		s["type"] = "string"
		delete(s, "format")
		s["enum"] = []interface{}{t.pick(oddStrings...), t.pick(oddStrings...)}
	case 1:
		s["type"] = "object"
		s["properties"] = js{t.pick(oddStrings...): js{"type": "integer"}, "d": js{"type": "string", "default": t.pick(oddStrings...)}}
		s["required"] = []interface{}{t.pick(oddStrings...)}
	case 2:
		s["type"] = "string"
		delete(s, "format")
		s["pattern"] = t.pick("^`", `^\d+$`, `"`, `\\`, "^日", `a\.b`)
	case 3:
		s["type"] = "object"
		s["patternProperties"] = js{t.pick("^`", `^\d+$`, `"`, `\\`): js{"type": "integer"}}
		s["additionalProperties"] = t.chance(0.5)
	case 4:
		s["type"] = "number"
		s["minimum"] = t.pickF(1e21, -1e21, 1e-9, 0.1, 123456789.125, -0.0000001, 1e6, 16777217, 9007199254740993)
		s["exclusiveMinimum"] = t.chance(0.5)
	case 5:
		s["type"] = "object"
		s["properties"] = js{"a": js{"type": "number", "default": t.number()}, "b": js{"type": "boolean", "default": t.chance(0.5)}, "c": js{"type": "integer", "default": float64(t.Intn(9))}}
	case 6:
		s["type"] = "object"
		s["dependencies"] = js{t.pick(oddStrings...): []interface{}{t.pick(oddStrings...), "a"}, "foo": js{"type": "object", "required": []interface{}{"bar"}}}
	}
}

type genCase struct {
	Pkg    int      `json:"pkg"`
	Name   string   `json:"name"`
	Schema string   `json:"schema"`
	Refs   []string `json:"refs"`
	Def    string   `json:"def"`
	Values []genVal `json:"values"`
}
type genVal struct {
	In    string `json:"in"`
	OK    bool   `json:"ok"`
	After string `json:"after"`
}

// genbatch is the input of one call of Process; its output is one package.
type genbatch struct {
	vs    []*jsval.JSVal
	cases []genCase
}

func (b *genbatch) add(v *jsval.JSVal, c genCase) {
	b.vs = append(b.vs, v)
	b.cases = append(b.cases, c)
}

func (c *genCase) observe(v *jsval.JSVal, in string) {
	var y interface{}
	json.Unmarshal([]byte(in), &y)
	err := v.Validate(y)
	after := ""
	if err == nil {
		after = fmt.Sprintf("%#v", y)
	}
	c.Values = append(c.Values, genVal{in, err == nil, after})
}

// genrow builds a validator from a random schema.
func (t *T) genrow(i int, refs float64) (*jsval.JSVal, genCase, bool) {
	g := &sgen{t: t}
	s := g.schema(2 + t.Intn(2))
	if t.chance(0.35) {
		g.odd(s)
	}
	var names []string
	if t.chance(refs) {
		d1, d2 := fmt.Sprintf("p%d", i), fmt.Sprintf("q%d", i)
		r1, r2 := "#/definitions/"+d1, "#/definitions/"+d2
		names = []string{r1, r2}
		g.refs = []string{r1, r2}
		s = js{"type": "object", "properties": js{"a": g.schema(1), "b": js{"$ref": r1}}, "additionalProperties": js{"$ref": r2}}
		g.refs = nil
		s["definitions"] = js{d1: js{"type": "object", "properties": js{"next": js{"$ref": r1}, "v": g.schema(1)}}, d2: g.schema(1)}
		if t.chance(0.3) {
			s["$ref"] = r1
		}
	}
	text := compact(s)
	v, err := t.build(text)
	if err != nil {
		return nil, genCase{}, false
	}
	var root js
	json.Unmarshal([]byte(text), &root)
	c := genCase{Schema: text}
	for _, n := range names {
		if _, err := v.GetReference(n); err == nil {
			c.Refs = append(c.Refs, n)
		}
	}
	o := &oracle{root: root}
	for k := 0; k < 6; k++ {
		c.observe(v, compact(t.genValue(g, o, root)))
	}
	return v, c, true
}

func (t *T) genValue(g *sgen, o *oracle, root js) interface{} {
	x := g.value(o, root, 3)
	if m, ok := x.(map[string]interface{}); ok && t.chance(0.4) {
		m[t.pick(oddStrings...)] = t.jsonValue(0)
	}
	if _, ok := x.(string); ok && t.chance(0.4) {
		return t.pick(append([]string{"`x", "12", "a.b", "日x"}, oddStrings...)...)
	}
	if _, ok := x.(float64); ok && t.chance(0.2) {
		if m, ok := root["minimum"].(float64); ok {
			return m
		}
	}
	return x
}

// caseGenerator: several calls of Process, one compiled program.
func caseGenerator(t *T) {
	const n = 150
	batches := []*genbatch{{}}
	for i := 0; i < n; i++ {
		v, c, ok := t.genrow(i, 0.25)
		if !ok {
			continue
		}
		if t.chance(0.5) {
			v.SetName(fmt.Sprintf("Named%d", i))
		}
		batches[0].add(v, c)
	}
	// small batches: one validator or two, with and without names and references
	for i := 0; i < 12; i++ {
		b := &genbatch{}
		for k := 0; k <= i%3; k++ {
			v, c, ok := t.genrow(1000+10*i+k, float64(i%2))
			if !ok {
				continue
			}
			if t.chance(0.5) {
				v.SetName(fmt.Sprintf("Small%d", 9-k))
			}
			b.add(v, c)
		}
		if len(b.vs) > 0 {
			batches = append(batches, b)
		}
	}
	// several names for one constraint, a root that is a referenced constraint
	{
		b := &genbatch{}
		cm := &jsval.ConstraintMap{}
		str := jsval.String().MinLength(2)
		obj := jsval.Object().AddProp("x", jsval.Reference(cm).RefersTo("#/str")).AddProp("n", jsval.Reference(cm).RefersTo("#/obj")).AdditionalProperties(jsval.EmptyConstraint)
		cm.SetReference("#/str", str)
		cm.SetReference("#/obj", obj)
		cm.SetReference("#/str2", str)
		cm.SetReference("q\"uote", jsval.Any().Add(jsval.Reference(cm).RefersTo("#/str")).Add(jsval.NullConstraint))
		roots := []jsval.Constraint{str, obj, jsval.Array().Items(jsval.Reference(cm).RefersTo("q\"uote")), jsval.Reference(cm).RefersTo("#/obj"), jsval.Reference(cm).RefersTo("#/str2")}
		for i, r := range roots {
			v := jsval.New().SetName(fmt.Sprintf("Root%d", i)).SetConstraintMap(cm).SetRoot(r)
			c := genCase{Schema: fmt.Sprintf("references, root %d", i), Refs: []string{"#/str", "#/str2", "#/obj", "q\"uote"}}
			for _, p := range []string{`"a"`, `"ab"`, `{}`, `{"x":"a"}`, `{"x":"ab","n":{"x":"ab"}}`, `{"x":"ab","n":{"x":1}}`, `["ab",null]`, `["ab","a"]`} {
				c.observe(v, p)
			}
			b.add(v, c)
		}
		batches = append(batches, b)
	}
	// more than ten references, each of which accepts another value
	{
		b := &genbatch{}
		cm := &jsval.ConstraintMap{}
		var refs []string
		for i := 0; i < 13; i++ {
			r := fmt.Sprintf("#/r%d", (i*5)%13)
			refs = append(refs, r)
			cm.SetReference(r, jsval.Enum(float64(i)))
		}
		for i, r := range refs {
			v := jsval.New().SetConstraintMap(cm).SetRoot(jsval.Reference(cm).RefersTo(r))
			if i%2 == 0 {
				v.SetName(fmt.Sprintf("Many%d", i))
			}
			c := genCase{Schema: "reference " + r, Refs: refs}
			for _, p := range []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13"} {
				c.observe(v, p)
			}
			b.add(v, c)
		}
		batches = append(batches, b)
	}
	// validators with maps of their own, and one with none
	{
		b := &genbatch{}
		for i := 0; i < 4; i++ {
			cm := &jsval.ConstraintMap{}
			a, z := fmt.Sprintf("#/%da", 5-i), fmt.Sprintf("#/%dz", i)
			cm.SetReference(a, jsval.String().MinLength(i))
			cm.SetReference(z, jsval.Array().Items(jsval.Reference(cm).RefersTo(a)).MaxItems(i))
			v := jsval.New().SetName(fmt.Sprintf("Own%d", 7-i))
			c := genCase{Schema: fmt.Sprintf("own map %d", i)}
			if i < 3 {
				v.SetConstraintMap(cm).SetRoot(jsval.Any().Add(jsval.Reference(cm).RefersTo(z)).Add(jsval.Reference(cm).RefersTo(a)))
				c.Refs = []string{a, z}
			} else {
				v.SetRoot(jsval.String().MaxLength(1))
			}
			for _, p := range []string{`""`, `"a"`, `"ab"`, `[]`, `["a"]`, `["ab","c"]`, `["ab","cd","ef"]`} {
				c.observe(v, p)
			}
			b.add(v, c)
		}
		batches = append(batches, b)
	}
	api := &genbatch{}
	batches = append(batches, api)
	// constraints that schemas cannot produce
	apis := []func() jsval.Constraint{
		func() jsval.Constraint { return jsval.Any() },
		func() jsval.Constraint { return jsval.OneOf() },
		func() jsval.Constraint { return jsval.All() },
		func() jsval.Constraint { return jsval.Not(jsval.Not(jsval.String())) },
		func() jsval.Constraint { return jsval.Enum("a", 1.5, true, nil) },
		func() jsval.Constraint { return jsval.EmptyConstraint },
		func() jsval.Constraint { return jsval.NullConstraint },
		func() jsval.Constraint { return jsval.Any().Add(jsval.Integer()) },
		func() jsval.Constraint {
			return jsval.Array().Items(jsval.String()).MinItems(0).MaxItems(2).UniqueItems(true)
		},
		func() jsval.Constraint {
			return jsval.Array().PositionalItems([]jsval.Constraint{jsval.String(), jsval.Number()}).AdditionalItems(nil)
		},
		func() jsval.Constraint { return jsval.Number().MultipleOf(0.25).Enum(0.5, 0.75) },
		func() jsval.Constraint { return jsval.Integer().Enum(1.0, 2.0).Maximum(1.5).ExclusiveMaximum(true) },
		func() jsval.Constraint { return jsval.String().MinLength(0).MaxLength(0) },
		func() jsval.Constraint { return jsval.Boolean() },
		func() jsval.Constraint { return jsval.Object().MinProperties(0).MaxProperties(1) },
		func() jsval.Constraint {
			return jsval.Object().AddProp("a", jsval.Integer().Default(7)).AddProp("b", jsval.String().Default(""))
		},
		func() jsval.Constraint {
			return jsval.Object().AddProp("a", jsval.Integer().Default(uint8(7))).AddProp("b", jsval.Number().Default(float32(1.5)))
		},
		func() jsval.Constraint {
			return jsval.Object().AddProp("a", jsval.Boolean().Default(false)).AddProp("b", jsval.Boolean().Default(true))
		},
		func() jsval.Constraint { return jsval.Number().Default(nil) },
		func() jsval.Constraint { return jsval.Integer().Default(int64(-3)) },
		func() jsval.Constraint { return jsval.String().Default("q\"%d\n") },
		func() jsval.Constraint { return jsval.Boolean().Default(false) },
		func() jsval.Constraint { return jsval.Integer().Minimum(0).Maximum(2) },
		func() jsval.Constraint { return jsval.Integer().Minimum(1).ExclusiveMinimum(true) },
		func() jsval.Constraint {
			return jsval.Number().Minimum(0.5).ExclusiveMinimum(true).Maximum(1.5).ExclusiveMaximum(true)
		},
		func() jsval.Constraint { return jsval.String().Format("email").MaxLength(1) },
		func() jsval.Constraint { return jsval.String().RegexpString("^a").Enum("a", "b") },
		func() jsval.Constraint { return jsval.All().Add(jsval.String()).Add(jsval.Not(jsval.Enum("a"))) },
		func() jsval.Constraint {
			return jsval.OneOf().Add(jsval.Number()).Add(jsval.Integer()).Add(jsval.NullConstraint)
		},
		func() jsval.Constraint {
			return jsval.Array().PositionalItems([]jsval.Constraint{jsval.String()}).AdditionalItems(jsval.Integer()).MinItems(2)
		},
		func() jsval.Constraint {
			return jsval.Object().Required("a", "b").AdditionalProperties(jsval.EmptyConstraint)
		},
		func() jsval.Constraint {
			return jsval.Object().PropDependency("a", "b", "c").SchemaDependency("c", jsval.Object().MinProperties(3).AdditionalProperties(jsval.EmptyConstraint)).AdditionalProperties(jsval.EmptyConstraint)
		},
		func() jsval.Constraint {
			return jsval.Object().PatternPropertiesString("^a", jsval.Integer()).PatternPropertiesString("b$", jsval.Number().Maximum(1)).AddProp("ab", jsval.String())
		},
		func() jsval.Constraint {
			return jsval.Object().PatternPropertiesString("^a", jsval.Number().Minimum(1)).PatternPropertiesString("^a", jsval.Number().Maximum(2))
		},
		func() jsval.Constraint {
			return jsval.Object().AddProp("a", jsval.All().Add(jsval.Number().Default(1.5))).AddProp("b", jsval.Any().Add(jsval.Number().Default(2.5))).AddProp("c", jsval.OneOf().Add(jsval.Number().Default(3.5)))
		},
		func() jsval.Constraint {
			return jsval.Object().AddProp("a", jsval.Not(jsval.String().Default("x"))).AddProp("b", jsval.Array().Items(jsval.Number().Default(2.5))).AddProp("c", jsval.All().Add(jsval.Number()).Add(jsval.Number().Default(2.5)))
		},
		func() jsval.Constraint { return jsval.Enum(int8(1), uint16(2), float32(0.5), 1.5, "a", false) },
	}
	pool := []string{`"a"`, `""`, `1`, `1.5`, `2`, `0.5`, `true`, `null`, `[]`, `["a"]`, `["a","a"]`, `["a",1]`, `["a",1,2]`, `["a","b","c"]`, `{}`, `{"a":1}`, `0`, `3`, `-1`, `"b"`, `"abc"`, `{"a":1,"b":2}`, `{"a":1,"c":1}`, `{"c":1}`, `{"a":1,"b":1,"c":1}`, `{"ab":"x"}`, `{"xb":2}`, `{"ax":"s"}`, `{"b":1,"axb":1}`, `{"a":0}`, `{"a":3}`, `false`}
	for i, f := range apis {
		root := f()
		v := jsval.New().SetName(fmt.Sprintf("API%d", i)).SetRoot(root)
		c := genCase{Schema: fmt.Sprintf("API constraint %d", i), Def: defOf(v)}
		for _, p := range pool {
			c.observe(v, p)
		}
		api.add(v, c)
	}
	dir, err := os.MkdirTemp("", "vrfgen")
	t.Want(err == nil, "tempdir: %v", err)
	defer os.RemoveAll(dir)
	repo := os.Getenv("VRF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	t.Desc("%d calls of Process", len(batches))
	ov := map[string]map[string]string{"Replace": {}}
	texts := map[string]string{}
	put := func(f, text string) {
		texts[f] = text
		real := filepath.Join(dir, strings.ReplaceAll(f, "/", "_"))
		os.WriteFile(real, []byte(text), 0o644)
		ov["Replace"][repo+"/internal/cmd/vrfgen/"+f] = real
	}
	var cases []genCase
	var imports, table strings.Builder
	for k, b := range batches {
		order := append([]*jsval.JSVal{}, b.vs...)
		var src bytes.Buffer
		err := jsval.NewGenerator().Process(&src, b.vs...)
		t.Want(err == nil, "Process (%s ...): %v", b.cases[0].Schema, err)
		var prog strings.Builder
		fmt.Fprintf(&prog, "package b%d\n\nimport \"github.com/lestrrat-go/jsval\"\n%s\nfunc All() map[string]*jsval.JSVal { return map[string]*jsval.JSVal{\n", k, src.String())
		seen := map[string]bool{}
		for i, v := range order {
			b.cases[i].Name, b.cases[i].Pkg = v.Name, k
			t.Want(!seen[v.Name], "two validators are called %s", v.Name)
			seen[v.Name] = true
			fmt.Fprintf(&prog, "%q: %s,\n", v.Name, v.Name)
		}
		prog.WriteString("}}\n")
		put(fmt.Sprintf("b%d/gen.go", k), prog.String())
		fmt.Fprintf(&imports, "\tb%d \"github.com/lestrrat-go/jsval/internal/cmd/vrfgen/b%d\"\n", k, k)
		fmt.Fprintf(&table, "b%d.All(),\n", k)
		cases = append(cases, b.cases...)
	}
	cb, _ := json.Marshal(cases)
	os.WriteFile(filepath.Join(dir, "cases.json"), cb, 0o644)
	put("main.go", strings.NewReplacer("@IMPORTS@", imports.String(), "@TABLE@", table.String()).Replace(`package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/lestrrat-go/jsval"
@IMPORTS@)

func main() {
	var cases []struct {
		Pkg          int
		Name, Schema string
		Refs         []string
		Def          string
		Values       []struct {
			In    string
			OK    bool
			After string
		}
	}
	b, _ := os.ReadFile(os.Args[1])
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	all := []map[string]*jsval.JSVal{
@TABLE@}
	n := 0
	for _, c := range cases {
		v := all[c.Pkg][c.Name]
		bad := func(f string, a ...interface{}) {
			fmt.Printf("MISMATCH validator "+c.Name+" of "+c.Schema+" "+f+"\\n", a...)
			os.Exit(1)
		}
		if v == nil {
			bad("was not generated")
		}
		if v.Name != c.Name {
			bad("is called %q", v.Name)
		}
		for _, r := range c.Refs {
			if _, err := v.GetReference(r); err != nil {
				bad("reference %s: %s", r, err)
			}
			n++
		}
		if c.Def != "" {
			if d := defOf(v); d != c.Def {
				bad("default was %s, is %s", c.Def, d)
			}
		}
		for _, x := range c.Values {
			var y interface{}
			json.Unmarshal([]byte(x.In), &y)
			err := v.Validate(y)
			after := ""
			if err == nil {
				after = fmt.Sprintf("%#v", y)
			}
			if (err == nil) != x.OK || after != x.After {
				bad("value %s: original accepted=%v after=%s, generated error=%v after=%s", x.In, x.OK, x.After, err, after)
			}
			n++
		}
	}
	fmt.Println("OK", n)
}
`+defOfText))
	ob, _ := json.Marshal(ov)
	os.WriteFile(filepath.Join(dir, "overlay.json"), ob, 0o644)
	cmd := exec.Command("go", "build", "-overlay", filepath.Join(dir, "overlay.json"), "-o", filepath.Join(dir, "prog"), "./internal/cmd/vrfgen")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	out, err := cmd.CombinedOutput()
	if err != nil {
		msg := string(out)
		// show the offending line of generated code
		for _, l := range strings.Split(msg, "\n") {
			var ln int
			if i := strings.Index(l, "gen.go:"); i >= 0 {
				lines := strings.Split(texts[l[strings.LastIndex(l[:i-1], "/")+1:i+6]], "\n")
				fmt.Sscanf(l[i+7:], "%d", &ln)
				if ln > 0 && ln <= len(lines) {
					msg += "\n> " + lines[ln-1]
				}
				break
			}
		}
		if !strings.Contains(msg, "gen.go:") {
			panic("harness: " + msg)
		}
		t.Fail("the generated code does not compile: %s", msg)
	}
	out, err = exec.Command(filepath.Join(dir, "prog"), filepath.Join(dir, "cases.json")).CombinedOutput()
	if err != nil {
		t.Fail("generated validators disagree: %s", strings.TrimSpace(string(out)))
	}
	var k int
	fmt.Sscanf(strings.TrimSpace(string(out)), "OK %d", &k)
	t.checks += k
	t.Desc("%d verdicts compared", k)
	for _, c := range cases[:3] {
		t.Desc("%s", c.Schema)
	}
}

// defOf describes the default of the root of a validator.
func defOf(v *jsval.JSVal) string {
	c := v.Root()
	if !c.HasDefault() {
		return "none"
	}
	return fmt.Sprintf("%#v", c.DefaultValue())
}

const defOfText = `
func defOf(v *jsval.JSVal) string {
	c := v.Root()
	if !c.HasDefault() {
		return "none"
	}
	return fmt.Sprintf("%#v", c.DefaultValue())
}
`
