package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I06", ruleI06)
}

// tokenMap: a map from providers to channels.
func tokenMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isPeerID(m.Key()) {
		return false
	}
	_, ok = m.Elem().Underlying().(*types.Chan)
	return ok
}

// usesTokens: the function reads or writes a token map.
func usesTokens(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Lookup:
				if tokenMap(x.X.Type()) {
					return true
				}
			case *ssa.MapUpdate:
				if tokenMap(x.Map.Type()) {
					return true
				}
			case ssa.CallInstruction:
				if legsSub(calleeName(x), "Announce") {
					return true
				}
			}
		}
	}
	return false
}

// topsReaching: exported functions and goroutine bodies of a package that
// reach a function satisfying m.
func topsReaching(c *Ctx, rel string, m func(*ssa.Function) bool) []*ssa.Function {
	gos := goTargets(c.P, rel)
	var out []*ssa.Function
	for _, f := range c.P.PkgFuncs(rel) {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if !gos[f] && (f.Object() == nil || !f.Object().Exported()) {
			continue
		}
		seen := map[*ssa.Function]bool{}
		hit := false
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if g == nil || seen[g] || g.Blocks == nil || fnPkgPath(g) != fnPkgPath(f) {
				return
			}
			seen[g] = true
			hit = hit || m(g)
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if gi, ok := in.(*ssa.Go); ok {
						if t := gi.Common().StaticCallee(); t != nil && t.Parent() == nil {
							continue
						}
					}
					for _, op := range in.Operands(nil) {
						switch v := (*op).(type) {
						case *ssa.Function:
							walk(v)
						case *ssa.MakeClosure:
							walk(v.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
		walk(f)
		if hit {
			out = append(out, f)
		}
	}
	sortFns(out)
	return out
}

func ruleI06(c *Ctx) {
	const (
		rTok = "the token of a provider is created once, with room for one holder, and never replaced; the tokens are reached only under their lock"
		rExc = "work staged for a provider is taken and worked through only while holding that provider's token, which is released afterwards on every path"
		rAnn = "an announcement is passed on only while holding the token of its provider; a direct announcement that finds the token taken is kept and reported as accepted, otherwise it is passed on"
		rPen = "before releasing the token, a worker passes on the announcement kept for the provider, taking it out atomically"
	)
	ads := adIngestFns(c)
	w := &worker{c: c, ads: ads}
	var toks, takes, ings, anns, keeps, pends int
	roots := topsReaching(c, "internal/ingest", usesTokens)
	for _, r := range roots {
		h := skipNamedGo(&Hooks{Opaque: inFns(ads)})
		// key of the provider whose token t is
		key := func(st *State, t *Term) *Term {
			t = strip(t)
			l := t
			if l.Op == OExtract && l.I == 0 {
				l = l.Args[0]
			}
			if l.Op == OLookup && l.Args[0].Typ != nil && tokenMap(l.Args[0].Typ) {
				return strip(l.Args[1])
			}
			return nil
		}
		keyID := func(st *State, t *Term) string {
			if k := key(st, t); k != nil {
				return strconv.Itoa(k.ID)
			}
			return st.Get("tok:" + strconv.Itoa(strip(t).ID))
		}
		h.MapRead = func(st *State, fr *Frame, site ssa.Instruction, m *Term) {
			if m.Typ != nil && tokenMap(m.Typ) {
				c.Rule("token", rTok)
				c.Check(anyLock(st, false), st, c.whereIn(fr, site), "tokens reached under their lock", "the provider tokens are read without holding their lock")
			}
		}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			if m.Typ == nil || !tokenMap(m.Typ) {
				return
			}
			toks++
			c.Rule("token", rTok)
			where := c.whereIn(fr, site)
			c.Check(anyLock(st, true), st, where, "tokens created under their lock", "a provider token is stored without holding the lock")
			absent := st.Has("abs:" + strconv.Itoa(strip(k).ID))
			c.Check(absent, st, where, "token never replaced", "the token of a provider is replaced although it may be held")
			mc, ok := strip(v).Site.(*ssa.MakeChan)
			one := false
			if ok {
				n, isC := ssaInt(mc.Size)
				one = isC && n == 1
			}
			c.Check(one, st, where, "room for one holder", "the token of a provider does not admit exactly one holder")
			st.Set("tok:"+strconv.Itoa(strip(v).ID), strconv.Itoa(strip(k).ID))
		}
		h.MapDelete = func(st *State, fr *Frame, site ssa.Instruction, m, k *Term) {
			if m.Typ != nil && tokenMap(m.Typ) {
				c.Rule("token", rTok)
				c.Bad(st, c.whereIn(fr, site), "token never replaced", "the token of a provider is dropped although it may be held")
			}
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			k := keyID(st, ch)
			if k == "" {
				return
			}
			c.Rule("exclusive", rExc)
			c.Check(st.Get("held") == "", st, c.whereIn(fr, site), "token released", "a provider's token is still held when the next one is taken")
			st.Set("held", k)
			st.Del("worked")
			st.Del("ld")
			st.Del("found")
			st.Del("annd")
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			k := keyID(st, ch)
			if k == "" {
				return
			}
			where := c.whereIn(fr, site)
			c.Rule("exclusive", rExc)
			c.Check(st.Get("held") == k, st, where, "only the holder releases", "a provider's token is released by someone who does not hold it")
			st.Del("held")
			if st.Has("worked") {
				pends++
				c.Rule("pending", rPen)
				c.Check(st.Get("ld") == k, st, where, "kept announcement looked up", "the token is released after working on a provider without looking for an announcement kept meanwhile")
				c.Check(!st.Has("found") || st.Has("annd"), st, where, "kept announcement passed on", "an announcement kept for the provider is dropped")
				st.Del("worked")
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cond, val = bare(cond, val)
			var l *Term // a lookup that found nothing
			switch {
			case cond.Op == OExtract && cond.I == 1:
				x := cond.Args[0]
				if x.Op == OCall && x.S == "(*sync.Map).LoadAndDelete" && val {
					st.Set("found", "1")
				}
				if x.Op == OLookup && !val {
					l = x
				}
			case cond.Op == OCall && strings.HasPrefix(cond.S, "typeassert:") && !val:
				st.Del("found") // not an announcement
			case cond.Op == OBin && cond.S == "==" && val:
				for i := 0; i < 2; i++ {
					if cond.Args[i].Op == ONil && cond.Args[1-i].Op == OLookup {
						l = cond.Args[1-i]
					}
				}
			}
			if l != nil && l.Args[0].Typ != nil && tokenMap(l.Args[0].Typ) {
				st.Set("abs:"+strconv.Itoa(strip(l.Args[1]).ID), "1")
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			if op, ok := lockOp(ev.Name); ok && op == "" {
				for _, k := range flagKeys(st, "abs:") {
					st.Del(k)
				}
			}
			switch {
			case strings.HasPrefix(ev.Name, "(*sync/atomic.Value).") && len(ev.Args) > 0:
				l := strip(ev.Args[0])
				if l.Op == OExtract && l.I == 0 {
					l = l.Args[0]
				}
				// the work staged for a provider is taken out by whoever swaps
				// in "nothing staged" and goes on to ingest
				if l.Op == OLookup && peerKeyed(l.Args[0].Typ) {
					st.Set("src", strconv.Itoa(strip(l.Args[1]).ID))
					if st.Get("held") != "" {
						st.Set("worked", "1")
						st.Del("ld")
					}
				}
			case w.isAd(ev.Name):
				ings++
				takes++
				c.Rule("exclusive", rExc)
				c.Check(st.Has("src") && st.Get("held") == st.Get("src"), st, where, "token held while ingesting", "advertisements are ingested without holding the token of the provider whose work this is")
				st.Del("ld") // one kept from here on is yet to be handled
			case legsSub(ev.Name, "Announce"):
				anns++
				c.Rule("announce", rAnn)
				id := st.Get("held")
				p := strip(ev.Args[3])
				ok := id != "" && (id == strconv.Itoa(p.ID) || anySub(p, func(x *Term) bool {
					return x.Op == OCall && x.S == "(*sync.Map).LoadAndDelete" && strconv.Itoa(strip(strip(x.Args[1]).boxed()).ID) == id
				}))
				c.Check(ok, st, where, "token held while announcing", "an announcement is passed on without holding the token of its provider")
				st.Set("annd", "1")
				st.Set("annres", strconv.Itoa(ev.Result.ID))
			case strings.HasPrefix(ev.Name, "(*sync.Map)."):
				m := strings.TrimPrefix(ev.Name, "(*sync.Map).")
				k := strconv.Itoa(strip(strip(ev.Args[1]).boxed()).ID)
				switch m {
				case "LoadAndDelete":
					if st.Get("held") == k {
						st.Set("ld", k)
					}
				case "Store", "Swap":
					keeps++
					st.Set("kept", k)
				default:
					c.Rule("pending", rPen)
					c.Check(m == "Load" || m == "Range", st, where, "taken out atomically", "kept announcements are handled with "+m+", which can lose one kept at the same time")
				}
			}
		}
		announcer := r.Object() != nil && r.Object().Exported() && len(r.Params) > 0 && r.Signature.Results().Len() == 1
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			where := c.whereIn(fr, site)
			c.Rule("exclusive", rExc)
			c.Check(st.Get("held") == "", st, where, "token released", "a provider's token is never released")
			if !announcer || !reachesCall(c.P, r, func(n string) bool { return legsSub(n, "Announce") }) {
				return
			}
			c.Rule("announce", rAnn)
			if fr.E.NonNil(st, res[0]) {
				return
			}
			ok := st.Has("kept") || st.Has("annd") && strconv.Itoa(strip(res[0]).ID) == st.Get("annres") || st.Has("annd") && fr.E.IsNil(st, fr.E.T.byID(st.Get("annres")))
			// an error that is not known to be nil is an error only if it is
			// the context's
			ok = ok || anySub(res[0], func(x *Term) bool { return x.Op == OCall && strings.HasSuffix(x.S, "context.Context).Err") })
			c.Check(ok, st, where, "accepted announcements are passed on or kept", "an announcement is reported as accepted although it was neither passed on nor kept")
		}
		trackLocks(h)
		c.Run(r, h)
	}
	c.Rule("token", rTok)
	c.AtLeast(1, toks, "token creations")
	c.Rule("exclusive", rExc)
	c.AtLeast(1, ings, "ingestions by a worker")
	c.Rule("announce", rAnn)
	c.AtLeast(2, anns, "announcements passed on")
	c.AtLeast(1, keeps, "announcements kept")
	c.Rule("pending", rPen)
	c.AtLeast(1, pends, "tokens released after work")
}

// boxed: the value inside an interface conversion.
func (t *Term) boxed() *Term {
	if t.Op == OIface && len(t.Args) > 0 {
		return t.Args[0]
	}
	return t
}

func peerKeyed(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isPeerID(m.Key())
}
