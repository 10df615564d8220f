package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/lestrrat-go/jsval"
)

// stub is a child constraint with a verdict given by a predicate.
type stub struct {
	name string
	ok   func(interface{}) bool
	def  interface{}
	hasd bool
	seen []interface{}
}

func (s *stub) Validate(v interface{}) error {
	s.seen = append(s.seen, v)
	if s.ok(v) {
		return nil
	}
	return errors.New("stub says no")
}
func (s *stub) HasDefault() bool          { return s.hasd }
func (s *stub) DefaultValue() interface{} { return s.def }

var _ jsval.Constraint = (*stub)(nil)

func jsonKind(v interface{}) string {
	switch v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case []interface{}:
		return "array"
	case map[string]interface{}:
		return "object"
	}
	return fmt.Sprintf("%T", v)
}

var words = []string{"", "a", "b", "foo", "bar", "baz", "x1", "x_2", "日本", "é", "foo bar", "0", "10", "true", "null", "a.b", "A", "ab", "abc", "abcd", "longer string here"}

// jsonValue makes a random decoded JSON value.
func (t *T) jsonValue(depth int) interface{} {
	n := 6
	if depth <= 0 {
		n = 4
	}
	switch t.Intn(n) {
	case 0:
		return nil
	case 1:
		return t.chance(0.5)
	case 2:
		return t.number()
	case 3:
		return t.word()
	case 4:
		l := make([]interface{}, t.Intn(4))
		for i := range l {
			l[i] = t.jsonValue(depth - 1)
		}
		return l
	}
	m := map[string]interface{}{}
	for i := t.Intn(4); i > 0; i-- {
		m[t.key()] = t.jsonValue(depth - 1)
	}
	return m
}

func (t *T) word() string { return words[t.Intn(len(words))] }
func (t *T) key() string  { return t.pick("a", "b", "foo", "bar", "x1", "x2", "y") }
func (t *T) number() float64 {
	switch t.Intn(4) {
	case 0:
		return t.pickF(-2, -1, 0, 1, 2, 3, 5, 10, 20)
	case 1:
		return t.pickF(-1.5, -0.5, 0.5, 1.5, 2.5, 0.25, 9.75, 1e21, -1e21, 1e-9)
	case 2:
		return float64(t.Intn(41) - 20)
	}
	return float64(t.Intn(400)-200) / 8
}

func accept(v interface{}) bool { return true }
func reject(v interface{}) bool { return false }

func clone(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = clone(x[i])
		}
		return l
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = clone(e)
		}
		return m
	}
	return v
}

func show(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if v != nil {
		s = fmt.Sprintf("%T %s", v, strings.TrimPrefix(s, fmt.Sprintf("%T", v)))
	}
	return s
}
