package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("F03", ruleF03) }

const (
	nAllProv  = "(*" + pkgRegistry + ".Registry).AllProviderInfo"
	tModelInf = modPath + "/api/v0/finder/model.ProviderInfo"
)

// provRecord: t is a record the registry gave; ok tells.
func provRecord(t *Term) *Term {
	t = strip(t)
	for t != nil && t.Op == ODeref {
		t = t.Args[0]
	}
	if t == nil {
		return nil
	}
	if t.Op == OCall && t.S == nProvInfo {
		return t
	}
	if el := elemOf(t); el != nil && strip(el.Args[0]).Op == OCall && strip(el.Args[0]).S == nAllProv {
		return el
	}
	return nil
}

// recField: t is the field path of a record; returns the record.
func recField(t *Term, path ...string) *Term {
	t = strip(t)
	for i := len(path) - 1; i >= 0; i-- {
		if t == nil || t.Op != OField || t.S != path[i] {
			return nil
		}
		t = strip(t.Args[0])
		for t != nil && t.Op == ODeref {
			t = t.Args[0]
		}
	}
	return provRecord(t)
}

func ruleF03(c *Ctx) {
	const (
		rMap = "what is reported of a provider is its registered record: ID, addresses, latest advertisement; its publisher with its address exactly if both are known; the time of the advertisement exactly if both are known"
		rAll = "the list of providers holds one entry for each registered active provider, and a request for one provider is answered with that provider's record, or with nothing exactly if there is none"
		rSta = "the statistics are those of the index, or an error"
	)
	var entries, exits, stats int
	roots := rootsReaching(c.P, "server/finder/handler", func(f *ssa.Function) bool {
		return f.Signature.Results().Len() == 2 && hasCall(f, func(n string) bool { return n == nProvInfo || n == nAllProv || idxCall(n, "Size") }) && !hasCall(f, func(n string) bool { return idxCall(n, "Get") })
	})
	for _, root := range roots {
		if root.Signature.Results().Len() != 2 || hasCall(root, func(n string) bool { return idxCall(n, "Get") }) {
			continue
		}
		lists := reachesCall(c.P, root, func(n string) bool { return n == nAllProv })
		one := reachesCall(c.P, root, func(n string) bool { return n == nProvInfo })
		h := &Hooks{NoJoin: true}
		w := &Walk{Flag: "p", IsSlice: func(t *Term) bool { t = strip(t); return t != nil && t.Op == OCall && t.S == nAllProv }}
		w.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
			c.Rule("answer", rAll)
			c.Bad(st, c.whereIn(fr, site), "every provider listed", "a registered active provider is left out of the list")
		}
		reset := func(st *State) {
			for _, f := range []string{"pub", "paddr", "ad", "time"} {
				st.Del(f)
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			set := func(f string, v bool) { st.Set(f, map[bool]string{true: "1", false: "0"}[v]) }
			switch {
			case cd.Op == OBin && cd.S == "==":
				for i := 0; i < 2; i++ {
					x, y := strip(cd.Args[i]), strip(cd.Args[1-i])
					switch {
					case y.Op == ONil && x.Op == OCall && strings.HasSuffix(x.S, "peer.ID).Validate") && recField(x.Args[0], "Publisher") != nil:
						set("pub", v)
					case isStrConst(y, "") && recField(x, "Publisher") != nil:
						set("pub", !v)
					case y.Op == ONil && recField(x, "PublisherAddr") != nil:
						set("paddr", !v)
					case recField(x, "LastAdvertisement") != nil && (y.Op == OZero || anySub(y, func(g *Term) bool { return g.Op == OGlobal && strings.HasSuffix(g.S, "go-cid.Undef") })):
						set("ad", !v)
					case y.Op == ONil && x.Op == OCall && x.S == nProvInfo:
						set("rec", !v)
					case y.Op == ONil && x.Op == OExtract && x.I == 1 && x.Args[0].Op == OCall && idxCall(x.Args[0].S, "Size"):
						set("size", v)
					}
				}
				if e, ok := emptyTest(cd, v, func(x *Term) bool { return recField(x, "Publisher") != nil }); ok {
					set("pub", !e)
				}
			case cd.Op == OCall && strings.HasSuffix(cd.S, "go-cid.Cid).Defined") && recField(cd.Args[0], "LastAdvertisement") != nil:
				set("ad", v)
			case cd.Op == OCall && cd.S == "(time.Time).IsZero" && recField(cd.Args[0], "LastAdvertisementTime") != nil:
				set("time", !v)
			default:
				if e, ok := emptyTest(cd, v, func(x *Term) bool { return recField(x, "Publisher") != nil }); ok {
					set("pub", !e)
				}
			}
		}
		entry := func(st *State, fr *Frame, where string, x *Term) {
			entries++
			e := fr.E
			c.Rule("record", rMap)
			rec := recField(e.pick(st, x, "AddrInfo", "ID"), "AddrInfo", "ID")
			c.Check(rec != nil && recField(e.pick(st, x, "AddrInfo", "Addrs"), "AddrInfo", "Addrs") == rec, st, where, "ID and addresses", "the ID or the addresses reported are not those of the registered record")
			c.Check(recField(e.pick(st, x, "LastAdvertisement"), "LastAdvertisement") == rec, st, where, "latest advertisement", "the advertisement reported is not the latest one of the record")
			// a condition not tested on this path may be either way
			known := func(f1, f2 string) (both, not bool) {
				return st.Get(f1) == "1" && st.Get(f2) == "1", st.Get(f1) == "0" || st.Get(f2) == "0"
			}
			pub := strip(e.pick(st, x, "Publisher"))
			both, not := known("pub", "paddr")
			if pub != nil && (pub.Op == ONil || pub.Op == OZero) {
				c.Check(not, st, where, "no publisher only if unknown", "no publisher is reported although it and its address are known")
			} else {
				es, ok := e.VarArgs(st, e.pick(st, pub, "Addrs"))
				c.Check(both && recField(e.pick(st, pub, "ID"), "Publisher") == rec && ok && len(es) == 1 && recField(es[0], "PublisherAddr") == rec, st, where, "publisher and its address", "the publisher reported is not the registered one with its address")
			}
			tm := strip(e.pick(st, x, "LastAdvertisementTime"))
			both, not = known("ad", "time")
			if tm != nil && (isStrConst(tm, "") || tm.Op == OZero) {
				c.Check(not, st, where, "no time only if unknown", "no time is reported for the latest advertisement although it is known")
			} else {
				ofTime := func(t *Term) bool {
					return t != nil && anySub(t, func(t *Term) bool { return recField(t, "LastAdvertisementTime") == rec })
				}
				ok := ofTime(tm)
				if tm != nil && tm.Op == OCall && !ok { // formatted from parts
					for _, a := range tm.Args {
						if es, isList := e.VarArgs(st, a); isList {
							for _, x := range es {
								ok = ok || ofTime(x)
							}
						}
					}
				}
				c.Check(both && ok, st, where, "time of the advertisement", "the time reported is not that of the latest advertisement")
			}
			reset(st)
			if el := elemOf(rec); el != nil {
				w.Handled(st)
			}
		}
		h.Append = func(st *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term) {
			if elemTypeHas(listType(site, base), "model.ProviderInfo") {
				for _, x := range elems {
					entry(st, fr, c.whereIn(fr, site), x)
				}
			}
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) {
			el := elemOf(addr)
			if el == nil || val == nil || val.Typ == nil || !typeIs(val.Typ, tModelInf) {
				return
			}
			if b := strip(el.Args[0]); b.Typ != nil {
				if _, ok := b.Typ.Underlying().(*types.Slice); !ok {
					return // the array of the elements of an append
				}
			}
			entry(st, fr, c.whereIn(fr, site), val)
			rec := recField(fr.E.pick(st, val, "AddrInfo", "ID"), "AddrInfo", "ID")
			c.Rule("answer", rAll)
			c.Check(rec != nil && elemOf(rec) != nil && elemOf(rec).Args[1] == el.Args[1], st, c.whereIn(fr, site), "one entry for each", "a provider is not entered at its own place of the list")
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			switch {
			case ev.Name == nProvInfo:
				c.Rule("answer", rAll)
				c.Check(strip(ev.Args[1]).Op == OParam && ev.Args[1].Typ != nil && typeIs(ev.Args[1].Typ, tPeerID), st, where, "the provider asked for", "another provider's record is read than the one asked for")
			case ev.Name == "encoding/json.Marshal" && one && !lists:
				entry(st, ev.Fr, where, ev.Args[0])
				st.Set("given", "1")
			case ev.Name == "encoding/json.Marshal" && lists:
				st.Set("given", "1")
			}
			if strings.HasSuffix(ev.Name, "model.MarshalStats") {
				stats++
				c.Rule("stats", rSta)
				ee := ev.E.pick(st, ev.Args[0], "EntriesEstimate")
				c.Check(st.Get("size") == "1" && ee != nil && anySub(ee, func(t *Term) bool { return t.Op == OCall && idxCall(t.S, "Size") }), st, where, "the index's size", "the statistics are not computed from the size of the index")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, r []*Term) {
			if !fr.E.Assume(st.clone(), fr.E.eq(r[len(r)-1], fr.E.Nil()), true) || !one && !lists {
				return
			}
			exits++
			where := c.whereIn(fr, site)
			d := strip(r[0])
			enc := d.Op == OExtract && d.I == 0 && d.Args[0].Op == OCall && d.Args[0].S == "encoding/json.Marshal"
			c.Rule("answer", rAll)
			switch {
			case lists:
				c.Check(w.Done(st) && enc && st.Has("given"), st, where, "all providers listed", "the list is answered before every provider was entered")
			case d.Op == ONil || d.Op == OZero:
				c.Check(st.Get("rec") == "0", st, where, "nothing only if not registered", "nothing is answered although the provider is registered")
			default:
				c.Check(enc && st.Get("rec") == "1", st, where, "the provider's record", "the answer is not the record of the provider asked for")
			}
		}
		h.Opaque = func(f *ssa.Function) bool { // the format of times is not looked into
			sg := f.Signature
			return sg.Params().Len() == 1 && sg.Results().Len() == 1 && typeIs(sg.Params().At(0).Type(), "time.Time") && isStringType(sg.Results().At(0).Type())
		}
		w.track(h)
		c.Run(root, h, "server/finder/handler", "api/v0/finder/model")
	}
	c.Rule("record", rMap)
	c.AtLeast(2, entries, "entries made from provider records")
	c.Rule("answer", rAll)
	c.AtLeast(2, exits, "answers about providers")
	c.Rule("stats", rSta)
	c.AtLeast(1, stats, "statistics")
}
