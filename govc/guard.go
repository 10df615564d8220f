package main

// Lock discipline of the functions that may run concurrently (contracts
// marked concurrent, and every contract they use when the property is
// checked): shared memory is written only where a guard declaration names its
// lock and that lock is held, and guarded memory is read only with the lock
// held. Memory the call itself allocated is not shared.
//
// A map stored in a guarded field belongs to that field (guardian); a map read
// from any other field belongs to no lock: maps are not aliased between the
// two. Locks are not nested by one function: acquiring a lock requires that no
// other is held.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Guard struct {
	Type, Field, Lock string
}

// guardOf: the lock field guarding field i of struct type t, or -1
func (e *Exec) guardOf(t types.Type, i int) int {
	u := asStruct(t)
	if u == nil {
		return -1
	}
	name := typeKey(t)
	for _, g := range e.P.Specs.Guards {
		if g.Type == name && i >= 0 && i < u.NumFields() && u.Field(i).Name() == g.Field {
			for j := 0; j < u.NumFields(); j++ {
				if u.Field(j).Name() == g.Lock && isLockType(u.Field(j).Type()) {
					return j
				}
			}
			return -2
		}
	}
	return -1
}

func (e *Exec) gFresh(r *Term) *Term {
	return e.tc.Cmp("<=", e.entry.alloc, e.w.RootID(r))
}

func (e *Exec) gHeld(st *State, l *Term, write bool) *Term {
	h := e.tc.Select(e.H(st, "G:held", arr("Ref", "Int")), l)
	if write {
		return e.tc.Eq(h, e.tc.Int(1))
	}
	return e.tc.Cmp("<=", e.tc.Int(1), h)
}

func (e *Exec) guardian(m *Term) *Term { return e.tc.App("guardian", "Ref", m) }

func (e *Exec) guardObl(st *State, name string, goal *Term, pos token.Pos) {
	e.oblige(st, "guard", name, []string{"C16"}, goal, e.posOf(pos))
}

// guardField: an access to field i of the object at ref
func (e *Exec) guardField(st *State, ref *Term, t types.Type, i int, write bool, v *Term, pos token.Pos) {
	if !e.concurrent {
		return
	}
	tc := e.tc
	ft := asStruct(t).Field(i).Type()
	if isLockType(ft) {
		return
	}
	g := e.guardOf(t, i)
	fname := asStruct(t).Field(i).Name()
	_, isMap := ft.Underlying().(*types.Map)
	switch {
	case g == -2:
		e.guardObl(st, "guard-has-no-lock["+fname+"]", tc.False(), pos)
	case g >= 0:
		l := e.w.Sub(ref, t, g)
		n := "read-guarded"
		if write {
			n = "write-guarded"
		}
		e.guardObl(st, n+"["+fname+"]", tc.Or(e.gFresh(ref), e.gHeld(st, l, write)), pos)
		if isMap && v != nil {
			if write {
				e.guardObl(st, "share-guarded["+fname+"]", tc.Or(e.gFresh(ref), e.gFresh(v), tc.Eq(v, e.w.NilRef()), tc.Eq(e.guardian(v), l)), pos)
			}
			e.assume(st, tc.Implies(tc.Not(tc.Eq(v, e.w.NilRef())), tc.Eq(e.guardian(v), l)))
		}
	case write:
		e.guardObl(st, "write-shared["+fname+"]", e.gFresh(ref), pos)
	case isMap && v != nil:
		e.assume(st, tc.Implies(tc.Not(e.gFresh(v)), tc.Eq(e.guardian(v), e.w.NilRef())))
	}
}

// guardMap: an access to the entries of a map
func (e *Exec) guardMap(st *State, m *Term, write bool, pos token.Pos) {
	if !e.concurrent {
		return
	}
	tc := e.tc
	ok := []*Term{tc.Eq(m, e.w.NilRef()), e.gFresh(m), tc.And(tc.Not(tc.Eq(e.guardian(m), e.w.NilRef())), e.gHeld(st, e.guardian(m), write))}
	n := "write-map"
	if !write {
		n = "read-map"
		ok = append(ok, tc.Eq(e.guardian(m), e.w.NilRef()))
	}
	e.guardObl(st, n, tc.Or(ok...), pos)
}

// guardLoad / guardStore: an access through an address
func (e *Exec) guardLoad(st *State, a Value, t types.Type, v Value, pos token.Pos) {
	if !e.concurrent {
		return
	}
	switch p := a.(type) {
	case *PlaceV:
		if p.kind == "field" {
			vt, _ := v.(*Term)
			e.guardField(st, p.ref, p.typ, p.idx, false, vt, pos)
		}
	case *Term:
		e.guardStruct(st, p, t, false, v, pos)
	}
}

func (e *Exec) guardStruct(st *State, ref *Term, t types.Type, write bool, v Value, pos token.Pos) {
	u := asStruct(t)
	if u == nil {
		if write {
			e.guardObl(st, "write-shared", e.gFresh(ref), pos)
		}
		return
	}
	vt, _ := v.(*Term)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isLockType(ft) {
			continue
		}
		var fv *Term
		if vt != nil {
			fv = e.w.Sel(vt, t, i)
		}
		if isSubStruct(ft) {
			e.guardStruct(st, e.w.Sub(ref, t, i), ft, write, fv, pos)
			continue
		}
		e.guardField(st, ref, t, i, write, fv, pos)
	}
}

func (e *Exec) guardStore(st *State, a Value, t types.Type, v *Term, pos token.Pos) {
	if !e.concurrent {
		return
	}
	switch p := a.(type) {
	case *PlaceV:
		switch p.kind {
		case "field":
			e.guardField(st, p.ref, p.typ, p.idx, true, v, pos)
		case "global", "globfield":
			e.guardObl(st, "write-global["+p.glob.Name()+"]", e.tc.False(), pos)
		default:
			if p.ref != nil {
				e.guardObl(st, "write-shared", e.gFresh(p.ref), pos)
			}
		}
	case *Term:
		e.guardStruct(st, p, t, true, v, pos)
	}
}

var _ = ssa.Value(nil)
