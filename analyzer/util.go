package main

import (
	"go/constant"
	"go/types"
	"strconv"
)

func itoa(i int64) string { return strconv.FormatInt(i, 10) }

// peekStruct reads the value an address term points to.
func (e *Engine) peekStruct(st *State, p *Term) *Term {
	if p.Op == OAlloc {
		if pt, ok := p.Typ.Underlying().(*types.Pointer); ok {
			return e.load(st, p, pt.Elem())
		}
	}
	return p
}

// pick reads a field path of a struct value or of the object a pointer term
// points to, in the given state.
func (e *Engine) pick(st *State, t *Term, names ...string) *Term {
	t = strip(t)
	if t == nil || t.Typ == nil {
		return nil
	}
	typ := t.Typ
	addr := t
	isPtr := false
	if pt, ok := typ.Underlying().(*types.Pointer); ok {
		typ, isPtr = pt.Elem(), true
	}
	v := t
	for i, n := range names {
		s, ok := typ.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var ft types.Type
		for k := 0; k < s.NumFields(); k++ {
			if s.Field(k).Name() == n {
				ft = s.Field(k).Type()
			}
		}
		if ft == nil {
			return nil
		}
		if isPtr {
			addr = e.fieldAddr(addr, n, ft)
			typ = ft
			if i == len(names)-1 {
				return e.load(st, addr, ft)
			}
			if pt, ok := ft.Underlying().(*types.Pointer); ok {
				addr = e.load(st, addr, ft)
				typ = pt.Elem()
			}
			continue
		}
		v = e.field(v, n, ft)
		typ = ft
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			addr, typ, isPtr = v, pt.Elem(), true
		}
	}
	return v
}

func constOf(p *types.Package, name string) (int64, bool) {
	if p == nil {
		return 0, false
	}
	c, ok := p.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

// bare strips negations off a branch condition, for rules that look at the
// condition itself (val is then the value of the stripped condition, not the
// branch taken).
func bare(cond *Term, val bool) (*Term, bool) {
	for cond.Op == ONot {
		cond, val = cond.Args[0], !val
	}
	return cond, val
}
