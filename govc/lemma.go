package main

// Lemmas about the uninterpreted functions of the contracts: proved on every
// run from the axioms and lemmas before them, by induction where they say so.

import (
	"fmt"
	"sync"
	"time"
)

func proveLemma(p *Program, a *Axiom) (res *FnResult) {
	t0 := time.Now()
	c := &Contract{Kind: "lemma", Name: "lemma " + a.Name}
	res = &FnResult{Name: c.Name}
	e := NewExec(p, c, nil)
	e.lemmaUnderProof = a.Name
	defer func() {
		res.Secs = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Unsupported = u.msg
				return
			}
			if s, ok := r.(specErr); ok {
				res.Unsupported = "spec: " + s.msg
				return
			}
			res.Unsupported = fmt.Sprintf("internal: %v", r)
		}
	}()
	e.reset()
	tc := e.tc
	st := &State{reach: tc.True(), heap: map[string]*Term{}}
	st.alloc = tc.Const("|alloc@entry|", "Int")
	e.entry = st
	if a.Induct == "" {
		ctx := &EvalCtx{e: e, st: st, old: st, vars: map[string]SpecVal{}, noSide: true}
		e.oblige(st, "lemma", a.Name, nil, ctx.Bool(a.E), a.E.String())
	} else {
		if a.E.Op != "quant" || a.E.S != "forall" {
			panic(unsupported{"induction needs a universally quantified lemma"})
		}
		bind := func(n SpecVal, skolem bool) *EvalCtx {
			ctx := &EvalCtx{e: e, st: st, old: st, vars: map[string]SpecVal{}, noSide: true}
			for _, v := range a.E.Vars {
				if v.Name == a.Induct {
					ctx.vars[v.Name] = n
				} else if skolem {
					srt, t := p.specSort(e.w, v.T, nil)
					ctx.vars[v.Name] = SpecVal{t: e.fresh("sk."+v.Name, srt), typ: t, g: v.T}
				}
			}
			return ctx
		}
		var rest []QVar
		var nv QVar
		for _, v := range a.E.Vars {
			if v.Name == a.Induct {
				nv = v
			} else {
				rest = append(rest, v)
			}
		}
		if nv.Name == "" {
			panic(unsupported{"no induction variable " + a.Induct})
		}
		_, nt := p.specSort(e.w, nv.T, nil)
		num := func(t *Term) SpecVal { return SpecVal{t: t, typ: nt, g: nv.T} }
		base := e.fresh("base", "Int")
		e.oblige(st, "lemma", a.Name+" base", nil, tc.Implies(tc.Cmp("<=", base, tc.Int(0)), bind(num(base), true).Bool(a.E.A[0])), a.E.String())
		n := e.fresh("n", "Int")
		e.assumeGlobal(tc.Cmp("<=", tc.Int(0), n))
		ih := *a.E
		ih.Vars = rest
		e.assumeGlobal(bind(num(n), false).Bool(&ih))
		e.oblige(st, "lemma", a.Name+" step", nil, bind(num(tc.raw("+", "Int", n, tc.Int(1))), true).Bool(a.E.A[0]), a.E.String())
	}
	e.axioms()
	var wg sync.WaitGroup
	for _, o := range e.obls {
		res.Obls = append(res.Obls, o)
		e.prepare(o, nil, true)
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			e.discharge(o, true)
		}(o)
	}
	wg.Wait()
	res.NFacts = len(e.facts)
	return res
}
