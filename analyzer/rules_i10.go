package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I10", ruleI10)
}

// limitOf: what a recursion limit term means on this path: "none", or the
// depth it limits to; v is the term the limit was computed from.
func limitOf(t *Term) (kind string, v *Term) {
	t = strip(t)
	if t == nil || t.Op != OCall {
		return "", nil
	}
	switch {
	case strings.HasSuffix(t.S, "selector.RecursionLimitNone"):
		return "none", nil
	case strings.HasSuffix(t.S, "selector.RecursionLimitDepth"):
		return "depth", strip(t.Args[0])
	}
	return "", nil
}

// below1 reports whether v < 1 (val) is known.
func below1(st *State, v func(*Term) bool, val bool) bool {
	return holds(st, val, func(t *Term) bool {
		if t.Op != OBin || t.S != "<" {
			return false
		}
		n, ok := constInt(t.Args[1])
		return ok && n == 1 && v(strip(t.Args[0]))
	}) || holds(st, !val, func(t *Term) bool {
		if t.Op != OBin || t.S != "<" {
			return false
		}
		n, ok := constInt(t.Args[0])
		return ok && n == 0 && v(strip(t.Args[1]))
	})
}

func ruleI10(c *Ctx) {
	const (
		rCov = "an explicit sync fetches from the peer and address asked for, from its current head: to the explicit depth if one is given, and down to the latest processed advertisement unless a resync is asked for"
		rRe  = "a resync, and nothing else, marks each advertisement it fetches as unprocessed"
		rCfg = "without an explicit depth the configured depth limit applies to advertisements, and the configured entries limit to entries"
		rAut = "a provider due for polling is synced with its last known publisher at its last known address"
		rAdm = "the admin API starts exactly the sync that was asked for and reports success only if it was started"
	)
	p := c.P
	syncs, marks, scoped := 0, 0, 0
	var syncRoots []*ssa.Function
	for _, r := range exportedRoots(p, "internal/ingest") {
		rs := r.Signature.Results()
		if rs.Len() == 0 {
			continue
		}
		ct, ok := rs.At(0).Type().Underlying().(*types.Chan)
		if !ok || !typeIs(ct.Elem(), tCid) {
			continue
		}
		syncRoots = append(syncRoots, r)
		kind := func(t *Term) string {
			t = strip(t)
			if t == nil || t.Op != OParam || t.I >= len(r.Params) {
				return ""
			}
			ty := r.Params[t.I].Type()
			switch {
			case isPeerID(ty):
				return "peer"
			case strings.HasSuffix(ty.String(), "go-multiaddr.Multiaddr"):
				return "addr"
			}
			if b, ok := ty.Underlying().(*types.Basic); ok {
				switch {
				case b.Kind() == types.Bool:
					return "resync"
				case b.Info()&types.IsInteger != 0:
					return "depth"
				}
			}
			return ""
		}
		is := func(k string) func(*Term) bool { return func(t *Term) bool { return kind(t) == k } }
		h := skipNamedGo(&Hooks{})
		h.Keep = func(t *Term) bool {
			return kind(t) != "" || t.Op == OBin && (kind(t.Args[0]) != "" || kind(t.Args[1]) != "") || anySub(t, func(x *Term) bool { return x.Op == OCall && dsCall(x.S, "Get") })
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			e := ev.E
			if cd, v, ok := markOf(st, ev); ok && v == 0 {
				marks++
				c.Rule("resync", rRe)
				hf := hookFrame(ev.Fr)
				own := hf != nil && cd != nil && strip(cd).Op == OOpaque || hf != nil && cd != nil && strip(cd).Op == OParam
				c.Check(own, st, where, "marks the advertisement fetched", "something other than the advertisement just fetched is marked unprocessed")
				c.Check(holds(st, true, is("resync")), st, where, "only a resync marks unprocessed", "advertisements are marked unprocessed although no resync was asked for")
				st.Set("unmark", "1")
			}
			if !legsSub(ev.Name, "Sync") {
				return
			}
			syncs++
			c.Rule("coverage", rCov)
			c.Check(kind(ev.Args[2]) == "peer", st, where, "the peer asked for", "a sync fetches from another peer than the one asked for")
			c.Check(kind(ev.Args[5]) == "addr", st, where, "the address asked for", "a sync ignores the address it was given")
			c.Check(isUndef(ev.Args[3]), st, where, "from the current head", "a sync does not start from the publisher's current head")
			sel := strip(ev.Args[4])
			resync := holds(st, true, is("resync"))
			noResync := holds(st, false, is("resync"))
			c.Check(resync || noResync, st, where, "resync considered", "a sync does not depend on whether a resync was asked for")
			switch {
			case sel.Op == ONil || e.IsNil(st, sel):
				zero := eqFact(st, true, is("depth"), func(b *Term) bool { n, ok := constInt(b); return ok && n == 0 })
				c.Check(zero && noResync, st, where, "default only if nothing else was asked for", "a sync uses the default depth and stop although a depth or a resync was asked for")
			case sel.Op == OCall && strings.Contains(sel.S, "go-legs.ExploreRecursiveWithStop"):
				k, v := limitOf(sel.Args[0])
				ok := k == "depth" && v != nil && kind(v) == "depth" && below1(st, is("depth"), false) ||
					k == "none" && below1(st, is("depth"), true) ||
					k == "depth" && v != nil && isField(v, "AdvertisementDepthLimit") && below1(st, is("depth"), true)
				c.Check(ok, st, where, "depth limit as asked for", "the depth limit of a sync is not the one asked for: "+sel.Args[0].String())
				c.Check(anySub(sel.Args[1], func(x *Term) bool { return x.Op == OGlobal && strings.HasSuffix(x.S, ".Selectors") }) && anyField(sel.Args[1], "AdSequence"), st, where, "follows advertisements", "a sync does not follow the chain of advertisements")
				stop := strip(sel.Args[2])
				if resync {
					c.Check(stop.Op == ONil || stop.Op == OZero, st, where, "a resync does not stop at the latest", "a resync stops at the latest advertisement")
				} else {
					// the stored pointer of this peer, or nothing if there is none
					get := func(t *Term) bool {
						return anySub(t, func(x *Term) bool { return x.Op == OCall && dsCall(x.S, "Get") && peerKey(x, is("peer")) })
					}
					none := stop.Op == ONil || stop.Op == OZero
					switch {
					case none:
						absent := eqFact(st, true, func(a *Term) bool { return get(a) || isUndef(a) }, func(b *Term) bool {
							return isUndef(b) || anySub(b, func(x *Term) bool { return x.Op == OGlobal && strings.HasSuffix(x.S, "ErrNotFound") })
						})
						c.Check(absent, st, where, "stops at the latest", "a sync does not stop at the latest processed advertisement although there is one")
					default:
						c.Check(get(stop), st, where, "stops at the latest", "a sync stops somewhere else than at the latest processed advertisement: "+stop.String())
					}
				}
			default:
				c.Bad(st, where, "known selector", "a sync uses an unknown selector: "+sel.String())
			}
			c.Rule("resync", rRe)
			opts := ev.Args[len(ev.Args)-1]
			hooked := anySub(opts, isScopedHook)
			if es, ok := e.VarArgs(st, opts); ok {
				for _, x := range es {
					hooked = hooked || anySub(x, isScopedHook)
				}
			}
			if resync {
				c.Check(hooked, st, where, "a resync marks unprocessed", "a resync does not mark the advertisements it fetches as unprocessed, so they are not ingested again")
			} else {
				c.Check(!st.Has("unmark"), st, where, "only a resync marks unprocessed", "advertisements are marked unprocessed although no resync was asked for")
			}
		}
		h.Return = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if hookSig(fr.Fn) && hookFrame(fr.Up) == nil {
				scoped++
				c.Rule("resync", rRe)
				c.Check(st.Has("unmark"), st, c.whereIn(fr, site), "a resync marks unprocessed", "a resync passes over an advertisement without marking it unprocessed")
			}
		}
		c.Run(r, h)
	}
	c.Rule("coverage", rCov)
	c.AtLeast(1, syncs, "explicit syncs")
	c.Rule("resync", rRe)
	c.AtLeast(1, scoped, "block hooks of resyncs")
	c.AtLeast(1, marks, "advertisements marked unprocessed")

	// configured limits
	c.Rule("configured", rCfg)
	adL, entL := 0, 0
	for _, f := range deepest(p, "internal/ingest", func(n string) bool { return n == "github.com/filecoin-project/go-legs.NewSubscriber" }) {
		h := skipNamedGo(&Hooks{})
		h.Keep = func(t *Term) bool {
			return t.Op == OBin && anySub(t, func(x *Term) bool { return isField(x, "AdvertisementDepthLimit") || isField(x, "EntriesDepthLimit") })
		}
		h.Call = func(st *State, ev *CallEv) {
			var fld string
			var lim *Term
			switch {
			case strings.HasSuffix(ev.Name, "go-legs.SyncRecursionLimit"):
				fld, lim = "AdvertisementDepthLimit", ev.Args[0]
				adL++
			case strings.HasPrefix(ev.Name, "dynamic:") && len(ev.Args) == 1 && ev.Args[0].Typ != nil && strings.HasSuffix(ev.Args[0].Typ.String(), "selector.RecursionLimit"):
				fld, lim = "EntriesDepthLimit", ev.Args[0]
				entL++
			default:
				return
			}
			isF := func(t *Term) bool { return isField(t, fld) }
			k, v := limitOf(lim)
			ok := k == "depth" && v != nil && isF(v) && below1(st, isF, false) || k == "none" && below1(st, isF, true)
			c.Check(ok, st, c.whereIn(ev.Fr, ev.Site), "limit from "+fld, "the depth limit is not the configured "+fld+": "+lim.String())
		}
		c.Run(f, h)
	}
	c.AtLeast(1, adL, "advertisement depth limits")
	c.AtLeast(1, entL, "entries depth limits")

	// polling
	c.Rule("polling", rAut)
	auto := 0
	for _, r := range entryRoots(c, "internal/ingest", func(n string) bool { return n == nSyncChan }) {
		h := skipNamedGo(&Hooks{})
		item := func(t *Term) *Term { // the provider info received
			var it *Term
			anySub(t, func(x *Term) bool {
				if x.Op == ORecv && anySub(x, func(y *Term) bool { return y.Op == OCall && y.S == nSyncChan }) {
					it = x
				}
				return false
			})
			return it
		}
		end := func(st *State, where string) {
			if st.Has("item") {
				c.Rule("polling", rAut)
				c.Bad(st, where, "polled providers are synced", "a provider due for polling is not synced")
			}
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			if anySub(ch, func(y *Term) bool { return y.Op == OCall && y.S == nSyncChan }) {
				end(st, c.whereIn(fr, site))
				st.Del("item")
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cond, val = bare(cond, val)
			if cond.Op == OExtract && cond.I == 1 && cond.Args[0].Op == ORecv && item(cond) != nil && val {
				st.Set("item", strconv.Itoa(cond.Args[0].ID))
			}
			if cond.Op == OCall && cond.S == nDeleted && val {
				st.Del("item")
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			if !legsSub(ev.Name, "Sync") {
				return
			}
			auto++
			c.Rule("polling", rAut)
			where := c.whereIn(ev.Fr, ev.Site)
			f := func(t *Term, name string) bool {
				t = strip(t)
				return isField(t, name) && item(t) != nil && strconv.Itoa(item(t).ID) == st.Get("item")
			}
			c.Check(f(ev.Args[2], "Publisher"), st, where, "synced with its publisher", "a polled provider is synced with another peer than its last known publisher")
			c.Check(f(ev.Args[5], "PublisherAddr"), st, where, "at its address", "a polled provider is synced at another address than its last known one")
			c.Check(isUndef(ev.Args[3]) && strip(ev.Args[4]).Op == ONil, st, where, "an ordinary sync", "a polled provider is not synced from its head down to the latest processed advertisement")
			st.Del("item")
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) { end(st, c.whereIn(fr, site)) }
		c.Run(r, h)
	}
	c.AtLeast(1, auto, "syncs by polling")

	// admin API
	c.Rule("admin", rAdm)
	adm := 0
	names := map[string]bool{}
	for _, r := range syncRoots {
		names[fullName(r)] = true
	}
	for _, f := range routeHandlers(p, "server/admin/http", "/sync/") {
		h := skipNamedGo(&Hooks{})
		qry := func(t *Term, name string) bool {
			return anySub(t, func(x *Term) bool {
				return x.Op == OCall && strings.HasSuffix(x.S, "url.Values).Get") && isStrConst(x.Args[1], name)
			})
		}
		h.Keep = func(t *Term) bool {
			return anySub(t, func(x *Term) bool { return x.Op == OCall && strings.HasSuffix(x.S, "go-multiaddr.NewMultiaddr") }) || qry(t, "depth") || qry(t, "resync") || anySub(t, func(x *Term) bool { return x.Op == OCall && names[x.S] }) || anySub(t, func(x *Term) bool { return x.Op == OCall && strings.HasSuffix(x.S, "ReadAll") })
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			c.Rule("admin", rAdm)
			if strings.HasSuffix(ev.Name, "http.ResponseWriter).WriteHeader") {
				n, ok := constInt(ev.Args[1])
				if ok && n < 300 {
					c.Check(errNil(st, func(x *Term) bool { return names[x.S] }), st, where, "success only if started", "success is reported for a sync that was not started")
				}
			}
			if !names[ev.Name] {
				return
			}
			adm++
			dec := callOf(strip(ev.Args[2]))
			c.Check(dec != nil && dec.S == nPeerDecode && anySub(dec.Args[0], func(x *Term) bool { s, ok := constStr(x); return ok && s == "peer" }), st, where, "the peer in the request", "a sync is started with another peer than the one in the request")
			empty := func(name string) bool {
				return eqFact(st, true, func(a *Term) bool { return qry(a, name) }, func(b *Term) bool { return isStrConst(b, "") })
			}
			d := strip(ev.Args[4])
			n, isC := constInt(d)
			okD := isC && n == 0 && empty("depth") || qry(d, "depth") && errNil(st, func(x *Term) bool { return x == callOf(d) })
			c.Check(okD, st, where, "the depth in the request", "a sync is started with another depth than the one in the request: "+d.String())
			rs := strip(ev.Args[5])
			b, isB := constBool(rs)
			if !isB && qry(rs, "resync") && errNil(st, func(x *Term) bool { return x == callOf(rs) }) {
				isB = true
			} else if isB {
				parsed := func(t *Term) bool { return qry(t, "resync") && strings.HasSuffix(calleeOf(t), "strconv.ParseBool") }
				isB = !b && (empty("resync") || holds(st, false, parsed)) || b && holds(st, true, parsed)
			}
			c.Check(isB, st, where, "the resync flag in the request", "a sync is started with another resync flag than the one in the request: "+rs.String())
			ad := strip(ev.Args[3])
			okA := strings.HasSuffix(calleeOf(ad), "go-multiaddr.NewMultiaddr") && errNil(st, func(x *Term) bool { return x == callOf(ad) })
			if ad.Op == ONil {
				okA = eqFact(st, true, func(a *Term) bool {
					return a.Op == OLen && anySub(a, func(x *Term) bool { return x.Op == OCall && strings.HasSuffix(x.S, "ReadAll") })
				}, func(b *Term) bool { n, ok := constInt(b); return ok && n == 0 })
			}
			c.Check(okA, st, where, "the address in the request", "a sync is started with another address than the one in the request: "+ad.String())
		}
		c.Run(f, h)
	}
	c.AtLeast(1, adm, "syncs started by the admin API")
}

func calleeOf(t *Term) string {
	if cl := callOf(t); cl != nil {
		return cl.S
	}
	return ""
}

func isScopedHook(x *Term) bool {
	return x.Op == OCall && strings.HasSuffix(x.S, "go-legs.ScopedBlockHook")
}

// peerKey: the datastore read is of a key made of a matching peer's name.
func peerKey(get *Term, m func(*Term) bool) bool {
	_, rest, ok := keyParts(get.Args[len(get.Args)-1])
	if !ok {
		return false
	}
	pr := peerOfString(rest)
	return pr != nil && m(pr)
}
