package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I08", ruleI08)
}

func isCidSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeIs(s.Elem(), tCid)
}

func isCidSet(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && typeIs(m.Key(), tCid)
}

// cidElem: the value stems from an element of a list (or set) of CIDs being
// walked through.
func cidElem(fr *Frame, v ssa.Value, depth int) bool {
	if v == nil || depth > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if fr == nil || fr.Up == nil || fr.Site == nil || fr.Site.Common().IsInvoke() {
			return false
		}
		ci := fr.Site
		for i, p := range fr.Fn.Params {
			if p == x && i < len(ci.Common().Args) {
				return cidElem(fr.Up, ci.Common().Args[i], depth+1)
			}
		}
	case *ssa.IndexAddr:
		return isCidSlice(x.X.Type())
	case *ssa.Index:
		return isCidSlice(x.X.Type())
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok {
			r, ok := n.Iter.(*ssa.Range)
			return ok && x.Index == 1 && isCidSet(r.X.Type())
		}
	case *ssa.UnOp:
		return cidElem(fr, x.X, depth+1)
	case *ssa.MakeInterface:
		return cidElem(fr, x.X, depth+1)
	case *ssa.Alloc:
		var st ssa.Value
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				if st != nil {
					return false
				}
				st = s.Val
			}
		}
		return cidElem(fr, st, depth+1)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if cidElem(fr, a, depth+1) {
				return true
			}
		}
	}
	return false
}

// lenArg: the list of CIDs whose length the value is.
func lenArg(v ssa.Value) ssa.Value {
	l, ok := v.(*ssa.Call)
	if !ok || len(l.Call.Args) != 1 || !isCidSlice(l.Call.Args[0].Type()) {
		return nil
	}
	if b, ok := l.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil
	}
	return l.Call.Args[0]
}

func isConstInt(v ssa.Value, n int64) bool {
	k, ok := ssaInt(v)
	return ok && k == n
}

// wholeList: the list walked is all of a variable's current value, not a part
// of it or what it was when a deferred call was set up.
func wholeList(fr *Frame, v ssa.Value) bool {
	for v != nil {
		switch x := v.(type) {
		case *ssa.Slice:
			if x.Low != nil || x.High != nil {
				return false
			}
			v = x.X
		case *ssa.Parameter:
			if fr == nil || fr.Up == nil || fr.Site == nil || fr.Site.Common().IsInvoke() {
				return true
			}
			if _, ok := fr.Site.(*ssa.Defer); ok {
				return isCidSet(x.Type())
			}
			i := -1
			for j, p := range fr.Fn.Params {
				if p == x {
					i = j
				}
			}
			if i < 0 || i >= len(fr.Site.Common().Args) {
				return true
			}
			v, fr = fr.Site.Common().Args[i], fr.Up
		default:
			return true
		}
	}
	return false
}

func ruleI08(c *Ctx) {
	const (
		rDel = "every block fetched as part of an advertisement's entries is removed when its processing ends, however it ends, unless it could not be loaded or decoded"
		rOth = "while an advertisement is ingested no other block than those of its entries is removed"
	)
	var dels, blocks, firsts, lists int
	ind := map[*ssa.Function]bool{}
	for _, f := range indexFns(c.P) {
		if !reachesCall(c.P, f, func(n string) bool { return dsCall(n, "Delete") }) {
			ind[f] = true
		}
	}
	for _, f := range adIngestFns(c) {
		h := skipNamedGo(&Hooks{})
		h.Opaque = func(fn *ssa.Function) bool { return ind[fn] }
		// block in hand: the CID a hook was called with, or the first one
		inHook := func(fr *Frame, t *Term) bool {
			if hookFrame(fr) == nil {
				return false
			}
			t = strip(t)
			return t.Op == OOpaque || t.Op == OParam
		}
		isFirst := func(t *Term) bool {
			t = strip(t)
			return t.Op == OExtract && t.I == 0 && t.Args[0].Op == OCall && legsSub(t.Args[0].S, "Sync")
		}
		isAdEntries := func(t *Term) bool {
			return anySub(t, func(x *Term) bool { return isField(x, "Entries") }) && !anySub(t, func(x *Term) bool { return x.Op == OCall })
		}
		failed := func(st *State) bool {
			return errNonNil(st, func(x *Term) bool {
				return dsCall(x.S, "Get") || strings.HasSuffix(x.S, "multicodec.LookupDecoder") || strings.HasPrefix(x.S, "dynamic:") || strings.HasSuffix(x.S, "schema.UnwrapEntryChunk")
			})
		}
		note := func(st *State, fr *Frame, x *Term) {
			if x.Typ != nil && !typeIs(x.Typ, tCid) {
				return
			}
			if inHook(fr, x) {
				st.Set("hook", "noted")
				st.Set("list", "1")
			} else if isFirst(x) || isAdEntries(x) {
				st.Set("first", "noted")
				st.Set("list", "1")
			}
		}
		h.Append = func(st *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term) {
			if v, ok := site.(ssa.Value); ok && isCidSlice(v.Type()) {
				for _, x := range elems {
					note(st, fr, x)
				}
			}
		}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			if u, ok := site.(*ssa.MapUpdate); ok && isCidSet(u.Map.Type()) {
				note(st, fr, k)
			}
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, v *Term) {
			if a := strip(addr); a.Op == OIndexAddr {
				if s, ok := site.(*ssa.Store); ok && typeIs(s.Val.Type(), tCid) && hookFrame(fr) == nil {
					note(st, fr, v) // an element of a slice literal
				}
			}
		}
		skipped := func(st *State, fr *Frame, site ssa.Instruction) {
			c.Rule("removed", rDel)
			c.Check(!st.Has("open"), st, c.whereIn(fr, site), "every noted block removed", "a block noted for removal is passed over")
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			if failed(st) {
				if hookFrame(fr) != nil {
					st.Set("hundec", "1")
				} else if !st.Has("hundec") {
					st.Set("undec", "1")
				}
			}
			if errNonNil(st, func(x *Term) bool { return legsSub(x.S, "Sync") }) && st.Get("first") == "fetched" {
				st.Set("first", "failed")
			}
			i, ok := site.(*ssa.If)
			if !ok {
				return
			}
			walked, more := false, false
			if idx, bound, _, ok := loopCond(i); ok {
				_, v := bare(cond, val)
				if countsUp(idx) && wholeList(fr, lenArg(bound)) {
					walked, more = true, v
				} else if n, ok := countsDown(idx); ok && isConstInt(bound, 0) && wholeList(fr, lenArg(n)) {
					walked, more = true, !v
				}
			}
			if x, ok := i.Cond.(*ssa.Extract); ok && x.Index == 0 {
				if n, ok := x.Tuple.(*ssa.Next); ok {
					if r, ok := n.Iter.(*ssa.Range); ok && isCidSet(r.X.Type()) && wholeList(fr, r.X) {
						walked, more = true, val
					}
				}
			}
			if !walked {
				return
			}
			skipped(st, fr, site)
			if more {
				st.Set("open", "1")
			} else {
				st.Set("done", "1")
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			switch {
			case legsSub(ev.Name, "Sync"):
				if !st.Has("first") {
					st.Set("first", "fetched")
				} else {
					opts := ev.Args[len(ev.Args)-1]
					hooked := anySub(opts, isScopedHook)
					if es, ok := ev.Fr.E.VarArgs(st, opts); ok {
						for _, x := range es {
							hooked = hooked || anySub(x, isScopedHook)
						}
					}
					c.Rule("removed", rDel)
					c.Check(hooked, st, where, "blocks fetched are noted", "blocks of the entries are fetched without a hook that removes or notes them")
				}
			case dsCall(ev.Name, "Delete"):
				dels++
				var elem bool
				if ci, ok := ev.Site.(ssa.CallInstruction); ok {
					elem = cidElem(ev.Fr, ci.Common().Args[len(ci.Common().Args)-1], 0)
				}
				pre, rest, ok := keyParts(ev.Args[len(ev.Args)-1])
				cd := cidOfString(rest)
				own := ok && pre == "" && cd != nil && (elem || inHook(ev.Fr, cd) || isFirst(cd) || isAdEntries(cd))
				c.Rule("nothing-else", rOth)
				c.Check(own, st, where, "only blocks of the entries removed", "something else than a block of the advertisement's entries is removed while it is ingested")
				if !own {
					return
				}
				switch {
				case elem:
					st.Del("open")
				case inHook(ev.Fr, cd):
					st.Set("hook", "gone")
				default:
					st.Set("first", "gone")
				}
			}
		}
		h.Return = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if !hookSig(fr.Fn) || hookFrame(fr.Up) != nil {
				return
			}
			blocks++
			c.Rule("removed", rDel)
			ok := st.Get("hook") != "" || st.Has("hundec")
			c.Check(ok, st, c.whereIn(fr, site), "blocks removed or noted", "a block fetched as part of the entries is neither removed nor noted for removal")
			st.Del("hook")
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			where := c.whereIn(fr, site)
			c.Rule("removed", rDel)
			if !st.Has("first") || st.Get("first") == "failed" {
				return
			}
			firsts++
			c.Check(st.Get("first") != "fetched" || st.Has("undec"), st, where, "first block removed", "the first block of the entries stays in the datastore")
			if st.Has("list") {
				lists++
				c.Check(st.Has("done"), st, where, "noted blocks removed", "the blocks noted for removal stay in the datastore")
			}
		}
		c.Run(f, h)
	}
	c.Rule("removed", rDel)
	c.AtLeast(2, blocks, "block hooks")
	c.AtLeast(1, firsts, "ends of ingestion after a fetch")
	c.AtLeast(1, lists, "ends with blocks noted for removal")
	c.Rule("nothing-else", rOth)
	c.AtLeast(2, dels, "removals")
}
