package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F01", ruleF01)
	register("F02", ruleF02)
}

const (
	nProvInfo = "(*" + pkgRegistry + ".Registry).ProviderInfo"
	nIsReg    = "(*" + pkgRegistry + ".Registry).IsRegistered"
	nInactive = "(*" + pkgRegistry + ".ProviderInfo).Inactive"
	nFind     = "(*" + modPath + "/server/finder/handler.FinderHandler).Find"
)

func elemTypeHas(t types.Type, suffix string) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasSuffix(s.Elem().String(), suffix)
}

// isGet: t is (a result of) a lookup in the index.
func isGet(t *Term) bool { return t != nil && t.Op == OCall && idxCall(t.S, "Get") }

// getValues: the values an index lookup gave.
func getValues(t *Term) *Term {
	t = strip(t)
	if t != nil && t.Op == OExtract && t.I == 0 && isGet(t.Args[0]) {
		return t.Args[0]
	}
	return nil
}

// valueElem: t is one of the values an index lookup gave.
func valueElem(t *Term) *Term {
	t = strip(t)
	for t != nil && t.Op == ODeref {
		t = t.Args[0]
	}
	if t != nil && (t.Op == OIndexAddr || t.Op == OIndex) && getValues(t.Args[0]) != nil {
		return t
	}
	return nil
}

// valueField: t is the named field of one of the values; returns that value.
func valueField(t *Term, f string) *Term {
	t = strip(t)
	if t == nil || t.Op != OField || t.S != f {
		return nil
	}
	return valueElem(t.Args[0])
}

// finderRoots: the functions that answer a lookup from the index.
func finderRoots(c *Ctx) []*ssa.Function {
	return rootsReaching(c.P, "server/finder/handler", func(f *ssa.Function) bool {
		return hasCall(f, func(n string) bool { return idxCall(n, "Get") })
	})
}

// rootsReaching: the entry points of a package that reach a matching function.
func rootsReaching(p *Prog, rel string, m func(*ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range pkgRoots(p, rel) {
		hit := m(f)
		for g := range p.reach(f) {
			hit = hit || fnPkgPath(g) == fnPkgPath(f) && m(g)
		}
		if hit {
			out = append(out, f)
		}
	}
	return out
}

// listType: the type of the list an append makes.
func listType(site ssa.Instruction, base *Term) types.Type {
	if v, ok := site.(ssa.Value); ok {
		return v.Type()
	}
	return base.Typ
}

// provState follows what is known of the providers of the values in hand.
func provState(st *State, cond *Term, val bool) {
	cd, v := bare(cond, val)
	set := func(f string, id *Term, v bool) {
		el := valueField(id, "ProviderID")
		if el == nil {
			return
		}
		if cur := st.Get("cur"); cur != "" && strconv.Itoa(el.Args[1].ID) != cur {
			return // not about the value in hand
		}
		st.Set(f, map[bool]string{true: "1", false: "0"}[v])
	}
	switch {
	case cd.Op == OBin && cd.S == "==":
		for i := 0; i < 2; i++ {
			x := strip(cd.Args[i])
			if strip(cd.Args[1-i]).Op == ONil && x.Op == OCall && x.S == nProvInfo {
				set("absent", x.Args[1], v)
			}
		}
	case cd.Op == OCall && cd.S == nIsReg:
		set("reg", cd.Args[1], v)
	case cd.Op == OCall && cd.S == nInactive && strip(cd.Args[0]).Op == OCall && strip(cd.Args[0]).S == nProvInfo:
		set("inact", strip(cd.Args[0]).Args[1], v)
	case cd.Op == OExtract && cd.I == 1 && cd.Args[0].Op == OLookup:
		set("cached", cd.Args[0].Args[1], v)
	}
}

// valueLoop: a walk over the values of a lookup goes on or ends.
func valueLoop(st *State, site ssa.Instruction, cond *Term, val bool) (more, ok bool) {
	i, isIf := site.(*ssa.If)
	if !isIf {
		return false, false
	}
	if _, _, _, ok := loopCond(i); !ok {
		return false, false
	}
	cd, v := bare(cond, val)
	if cd.Op != OBin || cd.S != "<" || cd.Args[1].Op != OLen || getValues(cd.Args[1].Args[0]) == nil {
		return false, false
	}
	resetProv(st)
	st.Del("cur")
	if v {
		st.Set("cur", strconv.Itoa(cd.Args[0].ID))
	}
	return v, true
}

// inHand: the value is the one of the walk's current element.
func inHand(st *State, el *Term) bool {
	return el != nil && st.Get("cur") == strconv.Itoa(el.Args[1].ID)
}

func resetProv(st *State) {
	for _, f := range []string{"absent", "reg", "inact", "cached"} {
		st.Del(f)
	}
}

func ruleF01(c *Ctx) {
	const (
		rAll = "every multihash asked for is looked up, and every value found for it is in the answer unless its provider is unknown or inactive"
		rFil = "the answer holds no value of a provider that is not registered and active, and no multihash without a provider"
		rAtt = "each result is what the index holds for that multihash: provider, context ID and metadata of one value, with the addresses registered for that provider"
		rErr = "an index error fails the request: no partial answer is given as if it were complete"
	)
	var gets, res, mhres, exits, caches int
	for _, root := range finderRoots(c) {
		pi := -1
		for i, q := range root.Params {
			if elemTypeHas(q.Type(), "go-multihash.Multihash") {
				pi = i
			}
		}
		if pi < 0 {
			continue
		}
		h := &Hooks{}
		isReq := func(t *Term) bool { t = strip(t); return t != nil && t.Op == OParam && t.I == pi }
		wm := &Walk{Flag: "mh", IsSlice: isReq}
		wm.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
			c.Rule("complete", rAll)
			c.Bad(st, c.whereIn(fr, site), "every multihash answered", "a multihash that was asked for is passed over although providers may have been found for it")
		}
		wv := &Walk{Flag: "val", IsSlice: func(t *Term) bool { return getValues(t) != nil }}
		wv.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
			c.Rule("complete", rAll)
			c.Check(st.Get("absent") == "1" || st.Get("inact") == "1", st, c.whereIn(fr, site), "every value answered", "a value found for a multihash is left out although its provider is registered and active")
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			// the walk begins another element
			if more, ok := valueLoop(st, site, cond, val); ok && !more {
				st.Set("vdone", "1")
			}
			provState(st, cond, val)
			cd, v := bare(cond, val)
			if cd.Op == OExtract && cd.I == 1 && isGet(cd.Args[0]) {
				if !v {
					st.Set("nf", "1")
				}
			}
			if errNonNil(st, func(x *Term) bool { return idxCall(x.S, "Get") }) {
				st.Set("geterr", "1")
			}
			if n, ok := emptyTest(cd, v, func(x *Term) bool { return elemTypeHas(x.Typ, "model.ProviderResult") }); ok && n == st.Has("some") {
				st.dead = true // the list is empty exactly if nothing was added
			}
			if v && cd.Op == OBin {
				for i := 0; i < 2; i++ {
					if n, ok := constInt(cd.Args[1-i]); ok && n == 0 && cd.S == "==" && cd.Args[i].Op == OLen && getValues(cd.Args[i].Args[0]) != nil {
						st.Set("vdone", "1")
					}
				}
			}
		}
		mhDone := func(st *State, where string) {
			if !st.Has("got") {
				return
			}
			c.Rule("errors", rErr)
			c.Check(!st.Has("geterr"), st, where, "index errors are not passed over", "the request goes on after an index error, as if nothing was found")
			if st.Has("geterr") {
				return
			}
			c.Rule("complete", rAll)
			c.Check(st.Has("nf") || st.Has("vdone"), st, where, "every value looked at", "not all values found for a multihash are looked at")
			c.Check(!st.Has("some") || st.Has("out"), st, where, "results are answered", "providers were found for a multihash but it is not in the answer")
		}
		h.Call = func(st *State, ev *CallEv) {
			if idxCall(ev.Name, "Get") {
				gets++
				where := c.whereIn(ev.Fr, ev.Site)
				mhDone(st, where)
				c.Rule("complete", rAll)
				c.Check(wm.isElem(ev.Args[1]) && wm.Open(st), st, where, "the multihash in hand is looked up", "what is looked up is not the multihash in hand")
				wm.Handled(st)
				for _, f := range []string{"some", "out", "nf", "geterr", "vdone", "val:open", "val:done", "val:begun", "first"} {
					st.Del(f)
				}
				resetProv(st)
				st.Set("got", "1")
				if el := elemOf(ev.Args[1]); el != nil {
					st.Set("got", strconv.Itoa(el.ID))
				}
			}
		}
		// addresses registered for the provider of a value
		addrsOf := func(t, el *Term) bool {
			t = strip(t)
			if t == nil {
				return false
			}
			if t.Op == OExtract && t.I == 0 && t.Args[0].Op == OLookup {
				t = t.Args[0]
			}
			if t.Op == OLookup {
				x := valueField(t.Args[1], "ProviderID")
				return x != nil && x == el
			}
			if t.Op == OField && t.S == "Addrs" {
				if t = strip(t.Args[0]); t.Op == OField && t.S == "AddrInfo" {
					q := strip(t.Args[0])
					if q.Op == OExtract && q.I == 0 && q.Args[0].Op == OLookup {
						q = q.Args[0]
					}
					if q.Op == OLookup && isInfoPtr(q.Typ) {
						return valueField(q.Args[1], "ProviderID") == el
					}
					return q.Op == OCall && q.S == nProvInfo && valueField(q.Args[1], "ProviderID") == el
				}
			}
			return false
		}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			el := valueField(k, "ProviderID")
			if el == nil {
				return
			}
			caches++
			c.Rule("attribution", rAtt)
			vs := strip(v)
			ok := addrsOf(vs, el) && !(vs.Op == OLookup) || vs.Op == OCall && vs.S == nProvInfo && valueField(vs.Args[1], "ProviderID") == el
			c.Check(ok && st.Get("absent") == "0" && st.Get("inact") != "1", st, c.whereIn(fr, site), "what is remembered of a provider", "what is remembered for a provider is not what is registered for it, or it is not registered and active")
			st.Set("cached", "1")
		}
		h.Append = func(st *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term) {
			where := c.whereIn(fr, site)
			e := fr.E
			for _, x := range elems {
				switch {
				case elemTypeHas(listType(site, base), "model.ProviderResult"):
					res++
					el := valueField(e.pick(st, x, "Provider", "ID"), "ProviderID")
					c.Rule("attribution", rAtt)
					c.Check(inHand(st, el) && valueField(e.pick(st, x, "ContextID"), "ContextID") == el && valueField(e.pick(st, x, "Metadata"), "MetadataBytes") == el, st, where, "fields of one value", "a result mixes provider, context ID and metadata of different values, or drops one")
					c.Check(el != nil && addrsOf(e.pick(st, x, "Provider", "Addrs"), el), st, where, "addresses of that provider", "a result has addresses other than those registered for its provider")
					b := strip(base)
					if !st.Has("first") {
						for b.Op == OSlice && len(b.Args) > 0 && b.Args[0].Op == OAlloc {
							b = b.Args[0]
						}
						c.Check(b.Op == OAlloc || b.Op == ONil || b.Op == OZero, st, where, "results of that multihash only", "results of one multihash are added to those of another")
					}
					st.Set("first", "1")
					c.Rule("filter", rFil)
					c.Check((st.Get("absent") == "0" || st.Get("cached") == "1") && st.Get("inact") != "1", st, where, "registered and active providers only", "a result is given for a provider that is not known to be registered and active")
					st.Set("some", "1")
					wv.Handled(st)
				case elemTypeHas(listType(site, base), "model.MultihashResult"):
					mhres++
					mh := strip(e.pick(st, x, "Multihash"))
					c.Rule("attribution", rAtt)
					c.Check(mh != nil && wm.isElem(mh) && st.Get("got") == strconv.Itoa(elemOf(mh).ID), st, where, "results under their multihash", "results are given under another multihash than the one they were found for")
					c.Check(!st.Has("out"), st, where, "one result per multihash", "results of a multihash are given twice")
					pr := strip(e.pick(st, x, "ProviderResults"))
					c.Check(pr != nil && pr.Op != ONil && pr.Op != OZero && !(pr.Op == OSlice && pr.Args[0].Op != OAlloc), st, where, "all its results", "the results given for a multihash are not those found")
					c.Rule("filter", rFil)
					c.Check(st.Has("some"), st, where, "no multihash without a provider", "a multihash is in the answer although no provider was found for it")
					st.Set("out", "1")
				}
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, r []*Term) {
			where := c.whereIn(fr, site)
			if !fr.E.Assume(st.clone(), fr.E.eq(r[len(r)-1], fr.E.Nil()), true) {
				return
			}
			exits++
			mhDone(st, where)
			c.Rule("complete", rAll)
			c.Check(wm.Done(st), st, where, "every multihash looked up", "the answer is given before all multihashes were looked up")
			mr := strip(fr.E.pick(st, r[0], "MultihashResults"))
			c.Check(mr != nil && mr.Op != ONil && mr.Op != OZero && !(mr.Op == OSlice && mr.Args[0].Op != OAlloc), st, where, "all results answered", "the answer does not hold the results found")
		}
		wv.track(h)
		wm.track(h)
		c.Run(root, h)
	}
	c.Rule("complete", rAll)
	c.AtLeast(1, gets, "index lookups")
	c.AtLeast(1, exits, "answers")
	c.Rule("attribution", rAtt)
	c.AtLeast(1, res, "results")
	c.AtLeast(1, mhres, "results of a multihash")
	findFronts(c)
}

// findFronts: each protocol's front end asks for what was requested and gives
// the answer.
func findFronts(c *Ctx) {
	const (
		rReq = "each protocol looks up exactly the multihashes its request names, and only if the request could be read"
		rFil = "a delegated-routing answer holds exactly the providers found for the key that announce bitswap"
	)
	fronts, appended := 0, 0
	for _, rel := range []string{"server/finder/http", "server/finder/libp2p", "server/reframe"} {
		for _, root := range rootsReaching(c.P, rel, func(f *ssa.Function) bool { return hasCall(f, func(n string) bool { return n == nFind }) }) {
			h := &Hooks{NoJoin: true}
			h.Keep = func(t *Term) bool {
				return t.Op == OExtract && t.Args[0].Op == OCall && (strings.Contains(t.Args[0].S, "go-cid.") || strings.HasSuffix(t.Args[0].S, "FromB58String") || strings.HasSuffix(t.Args[0].S, "UnmarshalFindRequest"))
			}
			meta := func(t *Term) *Term { // metadata of a result; returns the result
				t = strip(t)
				if t == nil || t.Op != OField || t.S != "Metadata" {
					return nil
				}
				return elemOf(t.Args[0])
			}
			wp := &Walk{Flag: "pr", IsSlice: func(t *Term) bool { t = strip(t); return t.Op == OField && t.S == "ProviderResults" }}
			wp.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
				if rel == "server/reframe" {
					c.Rule("bitswap", rFil)
					c.Check(st.Get("bs") == "0", st, c.whereIn(fr, site), "every bitswap provider answered", "a provider that announces bitswap is left out")
				}
			}
			h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
				cd, v := bare(cond, val)
				if i, ok := site.(*ssa.If); ok {
					if _, _, _, ok := loopCond(i); ok && cd.Op == OBin && cd.S == "<" {
						st.Del("bs")
					}
				}
				if cd.Op == OCall && cd.S == "bytes.Equal" && len(cd.Args) == 2 {
					for i := 0; i < 2; i++ {
						if meta(cd.Args[i]) != nil && anySub(cd.Args[1-i], func(x *Term) bool {
							return x.Op == OGlobal && strings.Contains(x.S, "Bitswap") || x.Op == OCall && strings.HasSuffix(x.S, "varint.ToUvarint")
						}) {
							st.Set("bs", map[bool]string{true: "1", false: "0"}[v])
						}
					}
				}
			}
			h.Append = func(st *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term) {
				if !elemTypeHas(listType(site, base), "peer.AddrInfo") || rel != "server/reframe" {
					return
				}
				for _, x := range elems {
					appended++
					xs := strip(x)
					c.Rule("bitswap", rFil)
					c.Check(xs.Op == OField && xs.S == "Provider" && wp.isElem(strip(xs.Args[0])) && st.Get("bs") == "1", st, c.whereIn(fr, site), "bitswap providers only", "a provider is in the answer that was not found, or does not announce bitswap")
					wp.Handled(st)
				}
			}
			h.Call = func(st *State, ev *CallEv) {
				if ev.Name != nFind {
					return
				}
				fronts++
				where := c.whereIn(ev.Fr, ev.Site)
				c.Rule("requests", rReq)
				decoded := func(t *Term) bool {
					t = strip(t)
					if t == nil {
						return false
					}
					if t.Op == OCall && strings.HasSuffix(t.S, "go-cid.Cid).Hash") {
						k := strip(t.Args[0])
						if k.Op == OParam {
							return true
						}
						return k.Op == OExtract && k.I == 0 && k.Args[0].Op == OCall && strings.Contains(k.Args[0].S, "go-cid.") && errNil(st, func(x *Term) bool { return x == k.Args[0] }) && routeVar(k.Args[0].Args[0], "cid")
					}
					return t.Op == OExtract && t.I == 0 && t.Args[0].Op == OCall && strings.HasSuffix(t.Args[0].S, "go-multihash.FromB58String") && errNil(st, func(x *Term) bool { return x == t.Args[0] }) && routeVar(t.Args[0].Args[0], "multihash")
				}
				a := strip(ev.Args[1])
				if a.Op == OField && a.S == "Multihashes" {
					r := strip(a.Args[0])
					ok := r.Op == OExtract && r.I == 0 && r.Args[0].Op == OCall && strings.HasSuffix(r.Args[0].S, "UnmarshalFindRequest") && errNil(st, func(x *Term) bool { return x == r.Args[0] })
					c.Check(ok, st, where, "the multihashes requested", "what is looked up is not what a request that could be read asks for")
					return
				}
				es, ok := ev.E.VarArgs(st, a)
				c.Check(ok && len(es) == 1 && decoded(es[0]), st, where, "the multihash requested", "what is looked up is not the multihash of a request that could be read")
			}
			wp.track(h)
			c.Run(root, h)
		}
	}
	c.Rule("requests", rReq)
	c.AtLeast(4, fronts, "front ends of the lookup")
	c.Rule("bitswap", rFil)
	c.AtLeast(1, appended, "providers answered to delegated routing")
}

// emptyTest: the condition tests whether a matching list is empty; tells
// whether it is.
func emptyTest(cd *Term, v bool, m func(*Term) bool) (empty, ok bool) {
	if cd.Op != OBin || len(cd.Args) != 2 {
		return false, false
	}
	a, b := cd.Args[0], cd.Args[1]
	na, isA := constInt(a)
	nb, isB := constInt(b)
	is := func(t *Term) bool { return t.Op == OLen && m(t.Args[0]) }
	switch {
	case cd.S == "==" && (isA && na == 0 && is(b) || isB && nb == 0 && is(a)):
		return v, true
	case cd.S == "<" && isA && na == 0 && is(b):
		return !v, true
	case cd.S == "<" && isB && nb == 1 && is(a):
		return v, true
	}
	return false, false
}

func elemOf(t *Term) *Term {
	t = strip(t)
	for t != nil && t.Op == ODeref {
		t = t.Args[0]
	}
	if t != nil && (t.Op == OIndexAddr || t.Op == OIndex) {
		return t
	}
	return nil
}

// routeVar: t is the named variable of the route.
func routeVar(t *Term, name string) bool {
	return anySub(t, func(x *Term) bool {
		if x.Op != OLookup {
			return false
		}
		s, ok := constStr(strip(x.Args[1]))
		return ok && s == name
	})
}

func ruleF02(c *Ctx) {
	const (
		rDel = "answering a lookup removes index entries only of a provider that is not registered at all, and only the context of the value found"
		rNo  = "answering a lookup changes the index in no other way"
	)
	n, looked := 0, 0
	for _, rel := range []string{"server/finder/handler", "server/finder/http", "server/finder/libp2p", "server/reframe"} {
		for _, f := range c.P.PkgFuncs(rel) {
			for _, call := range callsIn(f) {
				nm := calleeName(call)
				looked++
				if idxCall(nm, "Put") || idxCall(nm, "Remove") || idxCall(nm, "RemoveProvider") || idxCall(nm, "RemoveProviderContext") && rel != "server/finder/handler" {
					c.Rule("read-only", rNo)
					c.Bad(nil, c.at(call)+" in "+shortFn(f), "no other change", "answering a lookup changes the index by "+callee(nm))
				}
			}
		}
	}
	c.Rule("read-only", rNo)
	c.AtLeast(20, looked, "calls of the lookup packages")
	roots := rootsReaching(c.P, "server/finder/handler", func(f *ssa.Function) bool {
		return hasCall(f, func(n string) bool { return idxCall(n, "RemoveProviderContext") })
	})
	for _, root := range roots {
		h := &Hooks{}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			valueLoop(st, site, cond, val)
			provState(st, cond, val)
		}
		h.Call = func(st *State, ev *CallEv) {
			if !idxCall(ev.Name, "RemoveProviderContext") {
				return
			}
			n++
			where := c.whereIn(ev.Fr, ev.Site)
			c.Rule("unregistered", rDel)
			el := valueField(ev.Args[1], "ProviderID")
			c.Check(inHand(st, el) && valueField(ev.Args[2], "ContextID") == el, st, where, "the context of the value found", "another context, or another provider's, is removed than that of the value found")
			c.Check(st.Get("reg") == "0", st, where, "unregistered providers only", "index entries are removed of a provider that may be registered, if only inactive")
		}
		c.Run(root, h)
	}
	c.Rule("unregistered", rDel)
	if len(roots) == 0 {
		c.OK("server/finder/handler", "no removal from the index in the package")
		return
	}
	c.AtLeast(1, n, "removals by a lookup")
}
