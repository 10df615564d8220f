package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lestrrat-go/jsval"
)

func init() {
	suites = append(suites,
		Suite{"references", "C10 C16", 4000, caseReferences},
		Suite{"jsval", "C10", 1000, caseJSVal},
	)
}

// A random sequence of SetReference / Validate / defaults against a model
// of the map. A reference keeps the target it found first.
func caseReferences(t *T) {
	m := &jsval.ConstraintMap{}
	names := []string{"#", "#/definitions/a", "#/definitions/b", "x"}
	model := map[string]*stub{}
	type refm struct {
		c    *jsval.ReferenceConstraint
		name string
		got  *stub
	}
	var refs []*refm
	fresh := func() *stub {
		k := t.Intn(5)
		return &stub{name: fmt.Sprint("lt", k), ok: below(k), hasd: t.chance(0.5), def: t.Intn(9)}
	}
	for step := 0; step < 14; step++ {
		switch t.Intn(5) {
		case 0:
			n := names[t.Intn(len(names))]
			s := fresh()
			m.SetReference(n, s)
			model[n] = s
			t.Desc("set %s=%s", n, s.name)
		case 1:
			n := names[t.Intn(len(names))]
			c := jsval.Reference(m).RefersTo(n)
			if t.chance(0.2) {
				c = jsval.Reference(m).RefersTo("other").RefersTo(n)
			}
			refs = append(refs, &refm{c: c, name: n})
			t.Desc("ref%d -> %s", len(refs)-1, n)
		case 2:
			n := names[t.Intn(len(names))]
			c, err := m.GetReference(n)
			w, ok := model[n]
			t.Desc("get %s", n)
			t.Want((err == nil) == ok, "GetReference(%s): %v", n, err)
			if ok {
				t.Want(c == jsval.Constraint(w), "GetReference(%s) is another constraint", n)
			}
			t.Want(m.Len() == len(model), "Len() = %d, want %d", m.Len(), len(model))
		default:
			if len(refs) == 0 {
				continue
			}
			i := t.Intn(len(refs))
			r := refs[i]
			target := r.got
			if target == nil {
				target = model[r.name]
			}
			switch t.Intn(3) {
			case 0:
				v := t.Intn(6)
				t.Desc("ref%d.Validate(%d)", i, v)
				t.Verdict("reference", r.c.Validate(v), target != nil && target.ok(v))
			case 1:
				t.Desc("ref%d default", i)
				has := r.c.HasDefault()
				t.Want(has == (target != nil && target.hasd), "HasDefault = %v", has)
				dv := r.c.DefaultValue()
				if target == nil {
					t.Want(dv == nil, "DefaultValue of a dangling reference = %v", dv)
				} else {
					t.Want(dv == target.def, "DefaultValue = %v, want %v", dv, target.def)
				}
			case 2:
				c, err := r.c.Resolved()
				t.Desc("ref%d.Resolved", i)
				t.Want((err == nil) == (target != nil), "Resolved: %v", err)
				if err == nil {
					t.Want(c == jsval.Constraint(target), "Resolved to another constraint")
				}
			}
			r.got = target
		}
	}
	var l []string
	for k := range model {
		l = append(l, k)
	}
	sort.Strings(l)
	t.Desc("final %s", strings.Join(l, ","))
}

func caseJSVal(t *T) {
	k := t.Intn(6)
	v := jsval.New()
	t.Want(v.ConstraintMap != nil && v.Len() == 0 && v.Root() == nil, "a new validator is not empty")
	root := &stub{ok: below(k)}
	v.SetRoot(root)
	name := t.word()
	v.SetName(name)
	t.Desc("root < %d, name %q", k, name)
	t.Want(v.Name == name && v.Root() == jsval.Constraint(root), "SetName/SetRoot")
	for i := 0; i < 6; i++ {
		t.Verdict(fmt.Sprintf("value %d", i), v.Validate(i), i < k)
	}
	// shared constraint maps
	cm := &jsval.ConstraintMap{}
	a := jsval.New().SetConstraintMap(cm)
	b := jsval.New().SetConstraintMap(cm)
	a.SetRoot(jsval.Reference(a).RefersTo("x"))
	b.SetRoot(jsval.Reference(b.ConstraintMap).RefersTo("x"))
	cm.SetReference("x", root)
	for i := 0; i < 6; i++ {
		t.Verdict(fmt.Sprintf("shared a %d", i), a.Validate(i), i < k)
		t.Verdict(fmt.Sprintf("shared b %d", i), b.Validate(i), i < k)
	}
	// references inside objects and arrays, recursive references
	r := jsval.New()
	r.SetReference("#", jsval.Object().AddProp("next", jsval.Reference(r).RefersTo("#")).AddProp("v", jsval.Integer()))
	r.SetRoot(jsval.Reference(r).RefersTo("#"))
	var x interface{} = map[string]interface{}{"v": 1.0}
	d := t.Intn(6)
	good := t.chance(0.5)
	if !good {
		x = map[string]interface{}{"v": "bad"}
	}
	for i := 0; i < d; i++ {
		x = map[string]interface{}{"next": x}
	}
	t.Desc("recursive depth %d good=%v", d, good)
	t.Verdict("recursive reference", r.Validate(x), good)
}
