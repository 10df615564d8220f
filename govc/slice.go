package main

// Slicing: a proof that fails with all the facts of a long function is tried
// again with those near the goal (dropping facts is sound). Facts without
// quantifiers stay; a quantified one stays if it speaks of a memory made during
// the execution that the goal, or a fact already chosen, speaks of.

import "strings"

func (e *Exec) localsOf(t *Term, memo map[*Term]map[*Term]bool) map[*Term]bool {
	if m, ok := memo[t]; ok {
		return m
	}
	m := map[*Term]bool{}
	memo[t] = m
	if t.kind == 'c' {
		if (strings.Contains(t.op, "@") || strings.Contains(t.op, "pat!")) && strings.HasPrefix(t.sort, "(Array") {
			m[t] = true
		}
		return m
	}
	for i, a := range t.args {
		if i == 0 && t.op == "ite" && t.sort != "Bool" {
			continue // which path was taken
		}
		for x := range e.localsOf(a, memo) {
			m[x] = true
		}
	}
	return m
}

func hasQuant(t *Term, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	v := t.kind == 'q'
	for _, a := range t.args {
		v = v || hasQuant(a, memo)
	}
	memo[t] = v
	return v
}

// body: a fact or goal without its path condition
func unguarded(t *Term) *Term {
	if t.kind == 'a' && t.op == "=>" && len(t.args) == 2 {
		return t.args[1]
	}
	return t
}

func (e *Exec) sliceFacts(facts []*Term, goal *Term, depth int) []*Term {
	memo, qm := map[*Term]map[*Term]bool{}, map[*Term]bool{}
	in := map[*Term]bool{}
	for x := range e.localsOf(unguarded(goal), memo) {
		in[x] = true
	}
	keep := make([]bool, len(facts))
	for i, f := range facts {
		if !hasQuant(f, qm) {
			keep[i] = true
			// a name for a term of the goal
			if f.kind == 'a' && f.op == "=" {
				for _, a := range f.args {
					if a.kind == 'c' && strings.Contains(a.op, "pat!") && in[a] {
						for x := range e.localsOf(f, memo) {
							in[x] = true
						}
					}
				}
			}
			continue
		}
		keep[i] = len(e.localsOf(unguarded(f), memo)) == 0
	}
	for d := 0; d < depth; d++ {
		add := map[*Term]bool{}
		for i, f := range facts {
			if keep[i] {
				continue
			}
			l := e.localsOf(unguarded(f), memo)
			hit := false
			for x := range l {
				if in[x] {
					hit = true
					break
				}
			}
			if hit {
				keep[i] = true
				for x := range l {
					add[x] = true
				}
			}
		}
		for x := range add {
			in[x] = true
		}
	}
	var out []*Term
	for i, f := range facts {
		if keep[i] {
			out = append(out, f)
		}
	}
	return out
}
