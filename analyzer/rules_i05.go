package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I05", ruleI05)
	register("I09", ruleI09)
}

// idxWrite: a call that adds to or removes from the index; value is the first
// argument of Put and Remove.
func idxWrite(n string) string {
	for _, m := range []string{"Put", "Remove", "RemoveProvider", "RemoveProviderContext"} {
		if idxCall(n, m) {
			return m
		}
	}
	return ""
}

// adParam: the parameter of an ingestion function that is the advertisement.
func adParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if typeIs(derefType(p.Type()), pkgSchema+".Advertisement") {
			return i
		}
	}
	return -1
}

func ruleI05(c *Ctx) {
	p := c.P
	fns := adIngestFns(c)
	c.AtLeast(1, len(fns), "functions ingesting one advertisement")
	var writes, rms, metas, fetches, regs int
	for _, f := range fns {
		ai := adParam(f)
		if ai < 0 {
			// reads it through its arguments: not expected
			c.Rule("attribute", "index entries carry the provider, context ID and metadata of the advertisement")
			c.Bad(nil, shortFn(f), "advertisement parameter", "the ingestion of an advertisement has no advertisement parameter")
			continue
		}
		adF := func(t *Term, name string) bool {
			t = strip(t)
			if !isField(t, name) {
				return false
			}
			r := t.Args[0]
			for r != nil && (r.Op == ODeref || r.Op == OField) {
				r = r.Args[0]
			}
			return r != nil && r.Op == OParam && r.I == ai
		}
		prov := func(st *State, t *Term) bool {
			d := callOf(strip(t))
			return d != nil && d.S == nPeerDecode && strip(t).Op == OExtract && strip(t).I == 0 && adF(d.Args[0], "Provider") && (st.Has("dec:"+strconv.Itoa(d.ID)) || errNil(st, func(x *Term) bool { return x == d }))
		}
		h := skipNamedGo(&Hooks{})
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cond, val = bare(cond, val)
			if adF(cond, "IsRm") {
				st.Set("rm", map[bool]string{true: "1", false: "0"}[val])
			}
			if cond.Op == OBin && cond.S == "==" && val {
				for i := 0; i < 2; i++ {
					if adF(cond.Args[i], "Entries") && anySub(cond.Args[1-i], func(x *Term) bool { return x.Op == OGlobal && strings.HasSuffix(x.S, "schema.NoEntries") }) {
						st.Set("noent", "1")
					}
				}
			}
			for t, k := range st.facts {
				if k.K == FNil {
					if d := callOf(t); d != nil && d.S == nPeerDecode && isErrRes(t) {
						st.Set("dec:"+strconv.Itoa(d.ID), "1")
					}
				}
			}
		}
		// publishers: the peer parameter
		pubOK := func(t *Term) bool {
			t = strip(t)
			return t != nil && t.Op == OParam && isPeerID(t.Typ)
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			switch m := idxWrite(ev.Name); m {
			case "Put", "Remove":
				writes++
				c.Rule("attribute", "what an advertisement adds to the index carries its provider, its context ID and its metadata")
				v := ev.Args[1]
				e := ev.E
				c.Check(prov(st, e.pick(st, v, "ProviderID")), st, where, "provider of the advertisement", "index entries are written for another provider than the one the advertisement names")
				c.Check(adF(e.pick(st, v, "ContextID"), "ContextID"), st, where, "context ID of the advertisement", "index entries are written under another context ID than the advertisement's")
				c.Check(adF(e.pick(st, v, "MetadataBytes"), "Metadata"), st, where, "metadata of the advertisement", "index entries are written with other metadata than the advertisement's")
				c.Rule("removal", "an advertisement that is a removal removes exactly its provider's context and adds nothing; one that is not removes nothing")
				c.Check(st.Get("rm") == "0", st, where, "only non-removals add", "content is added to the index although the advertisement is (or may be) a removal")
				c.Check(m == "Put", st, where, "non-removals remove nothing", "an advertisement that is not a removal removes content")
				none := ev.Args[2].Op == ONil
				c.Rule("metadata", "an advertisement without entries updates the metadata of its context; only such a one writes no multihashes")
				if st.Has("noent") {
					metas++
					st.Set("meta", "1")
					c.Check(none, st, where, "no multihashes without entries", "multihashes are indexed although the advertisement has no entries")
				} else {
					c.Check(!none, st, where, "metadata updated only without entries", "an advertisement with entries is treated as a metadata update")
				}
			case "RemoveProviderContext":
				rms++
				c.Rule("removal", "an advertisement that is a removal removes exactly its provider's context and adds nothing; one that is not removes nothing")
				c.Check(st.Get("rm") == "1", st, where, "only removals remove", "a context is removed although the advertisement is not a removal")
				c.Check(prov(st, ev.Args[1]) && adF(ev.Args[2], "ContextID"), st, where, "removes its own context", "another context than the advertisement's (provider and context ID) is removed")
				st.Set("removed", "1")
			case "RemoveProvider":
				c.Rule("removal", "an advertisement that is a removal removes exactly its provider's context and adds nothing; one that is not removes nothing")
				c.Bad(st, where, "removes only a context", "ingesting an advertisement removes a whole provider")
			}
			switch {
			case legsSub(ev.Name, "Sync"):
				fetches++
				c.Rule("source", "the entries fetched are the advertisement's, from the publisher the advertisement came from, and that publisher and the advertisement's addresses and CID are what the provider is registered with")
				c.Check(pubOK(ev.Args[2]), st, where, "fetched from the publisher", "entries are fetched from another peer than the publisher")
				cd := ev.Args[3]
				// later fetches follow links of blocks already fetched
				own := anySub(cd, func(x *Term) bool { return adF(x, "Entries") }) || anySub(cd, func(x *Term) bool { return x.Op == OCall }) && !anySub(cd, func(x *Term) bool { return x.Op == OParam && x.I == ai })
				if !st.Has("fetched") {
					own = anySub(cd, func(x *Term) bool { return adF(x, "Entries") }) && !anySub(cd, func(x *Term) bool { return x.Op == OCall })
				}
				c.Check(own, st, where, "the advertisement's entries are fetched", "what is fetched is not the advertisement's entries: "+cd.String())
				c.Check(st.Get("rm") == "0" && !st.Has("noent"), st, where, "entries fetched only if there are any", "entries are fetched for a removal or an advertisement without entries")
				st.Set("fetched", "1")
			case ev.Name == nRegOrUpd:
				regs++
				c.Rule("source", "the entries fetched are the advertisement's, from the publisher the advertisement came from, and that publisher and the advertisement's addresses and CID are what the provider is registered with")
				// RegisterOrUpdate(ctx, provider, addrs, adID, publisher)
				c.Check(prov(st, ev.Args[2]), st, where, "registers the advertisement's provider", "another provider than the advertisement's is registered")
				c.Check(adF(ev.Args[3], "Addresses"), st, where, "registers the advertisement's addresses", "the provider is registered with other addresses than the advertisement's")
				cd := strip(ev.Args[4])
				c.Check(cd.Op == OParam && typeIs(cd.Typ, tCid), st, where, "registers the advertisement's CID", "the provider is registered with another advertisement CID")
				pi := strip(ev.Args[5])
				okP := pi.Op == OZero || anySub(pi, func(x *Term) bool {
					return x.Op == OCall && strings.HasSuffix(x.S, ".PeerInfo") && pubOK(x.Args[len(x.Args)-1])
				})
				c.Check(okP, st, where, "registers the publisher", "the provider is registered with another publisher than the one the advertisement came from: "+pi.String())
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if fr.E.NonNil(st, res[len(res)-1]) {
				return
			}
			where := c.whereIn(fr, site)
			c.Rule("removal", "an advertisement that is a removal removes exactly its provider's context and adds nothing; one that is not removes nothing")
			c.Check(st.Get("rm") != "" && (st.Get("rm") == "0" || st.Has("removed")), st, where, "a removal removes", "success is reported for a removal that removed nothing")
			c.Rule("metadata", "an advertisement without entries updates the metadata of its context; only such a one writes no multihashes")
			if st.Get("rm") == "0" {
				c.Check(!st.Has("noent") || st.Has("meta"), st, where, "metadata written", "success is reported for an advertisement without entries although its metadata was not written")
				c.Check(st.Has("noent") || st.Has("fetched"), st, where, "entries fetched", "success is reported for an advertisement with entries although none were fetched")
			}
		}
		c.Run(f, h)
	}
	c.Rule("attribute", "what an advertisement adds to the index carries its provider, its context ID and its metadata")
	c.AtLeast(1, writes, "index writes")
	c.Rule("removal", "an advertisement that is a removal removes exactly its provider's context and adds nothing; one that is not removes nothing")
	c.AtLeast(1, rms, "context removals")
	c.Rule("metadata", "an advertisement without entries updates the metadata of its context; only such a one writes no multihashes")
	c.AtLeast(1, metas, "metadata updates")
	c.Rule("source", "the entries fetched are the advertisement's, from the publisher the advertisement came from, and that publisher and the advertisement's addresses and CID are what the provider is registered with")
	c.AtLeast(1, fetches, "fetches")
	c.AtLeast(1, regs, "registrations")

	c.Rule("direct", "a direct index request adds exactly its multihash under its own provider, context ID and metadata")
	n := 0
	for _, f := range exportedRoots(p, "server/ingest/handler") {
		if !reachesCall(p, f, func(n string) bool { return idxWrite(n) != "" }) {
			continue
		}
		h := &Hooks{}
		h.Call = func(st *State, ev *CallEv) {
			m := idxWrite(ev.Name)
			if m == "" {
				return
			}
			n++
			where := c.whereIn(ev.Fr, ev.Site)
			c.Check(m == "Put", st, where, "adds only", "a direct index request removes content")
			if m != "Put" {
				return
			}
			v := ev.Args[1]
			var req *Term
			from := func(t *Term, field string) bool {
				t = strip(t)
				if !isField(t, field) || t.Args[0] == nil {
					return false
				}
				if req == nil {
					req = t.Args[0]
				}
				return t.Args[0] == req && anySub(t, func(x *Term) bool { return x.Op == OCall && strings.HasPrefix(x.S, pkgModel+".Read") })
			}
			ok := from(ev.E.pick(st, v, "ProviderID"), "ProviderID") && from(ev.E.pick(st, v, "ContextID"), "ContextID") && from(ev.E.pick(st, v, "MetadataBytes"), "Metadata")
			c.Check(ok, st, where, "value of the request", "the value stored is not the provider, context ID and metadata of the request")
			ms, isV := ev.E.VarArgs(st, ev.Args[2])
			okM := isV && len(ms) == 1 && from(ms[0], "Multihash")
			c.Check(okM, st, where, "multihash of the request", "the multihash indexed is not the one of the request")
		}
		c.Run(f, h)
	}
	c.AtLeast(1, n, "direct index writes")

	c.Rule("import", "an import adds what it reads under the provider, context ID and metadata of the import request")
	k := 0
	for _, f := range routeHandlers(p, "server/admin/http", "/import/") {
		if !reachesCall(p, f, func(n string) bool { return idxWrite(n) != "" }) {
			continue
		}
		h := skipNamedGo(&Hooks{})
		h.Call = func(st *State, ev *CallEv) {
			m := idxWrite(ev.Name)
			if m == "" {
				return
			}
			k++
			where := c.whereIn(ev.Fr, ev.Site)
			e := ev.E
			v := ev.Args[1]
			dec := callOf(strip(e.pick(st, v, "ProviderID")))
			ok := m == "Put" && dec != nil && dec.S == nPeerDecode && anySub(dec.Args[0], func(x *Term) bool { s, isC := constStr(x); return isC && s == "provider" })
			c.Check(ok, st, where, "provider of the import", "content is imported for another provider than the one named in the request")
			key := func(t *Term, name string) bool {
				return anySub(t, func(x *Term) bool { return x.Op == OLookup && isStrConst(x.Args[1], name) })
			}
			c.Check(key(e.pick(st, v, "ContextID"), "context_id") && key(e.pick(st, v, "MetadataBytes"), "metadata"), st, where, "context ID and metadata of the import", "content is imported under another context ID or metadata than the request's")
		}
		c.Run(f, h)
	}
	c.AtLeast(1, k, "index writes of imports")
}

func ruleI09(c *Ctx) {
	p := c.P
	c.Rule("limits", "content is put into the index, by an advertisement or a direct request, only under a context ID and with metadata within the documented sizes")
	lim := map[string]int64{"ContextID": 64, "Metadata": 1024} // as documented
	roots := append([]*ssa.Function{}, adIngestFns(c)...)
	for _, f := range exportedRoots(p, "server/ingest/handler") {
		if reachesCall(p, f, func(n string) bool { return idxCall(n, "Put") }) {
			roots = append(roots, f)
		}
	}
	n := 0
	for _, f := range roots {
		h := skipNamedGo(&Hooks{Opaque: func(g *ssa.Function) bool {
			return fnPkgPath(g) == pkgSchema && !(g.Signature.Recv() != nil && g.Name() == "Validate")
		}})
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cond, val = bare(cond, val)
			if cond.Op != OBin {
				return
			}
			a, b := cond.Args[0], cond.Args[1]
			up := func(l *Term, max int64) { // len(l) <= max
				l = strip(l)
				for fld, m := range lim {
					if isField(l, fld) && max <= m {
						st.Set("lim:"+strconv.Itoa(l.ID), fld)
					}
				}
			}
			switch cond.S {
			case "<":
				if k, ok := constInt(a); ok && b.Op == OLen && !val { // !(k < len)
					up(b.Args[0], k)
				}
				if k, ok := constInt(b); ok && a.Op == OLen && val { // len < k
					up(a.Args[0], k-1)
				}
			case "==":
				for i := 0; i < 2; i++ {
					if k, ok := constInt(cond.Args[i]); ok && cond.Args[1-i].Op == OLen && val {
						up(cond.Args[1-i].Args[0], k)
					}
				}
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			if !idxCall(ev.Name, "Put") {
				return
			}
			n++
			where := c.whereIn(ev.Fr, ev.Site)
			for fld, vf := range map[string]string{"ContextID": "ContextID", "Metadata": "MetadataBytes"} {
				t := strip(ev.E.pick(st, ev.Args[1], vf))
				c.Check(t != nil && st.Get("lim:"+strconv.Itoa(t.ID)) == fld, st, where, fld+" limited", "content is indexed although the size of its "+fld+" was not checked against the documented limit")
			}
		}
		c.Run(f, h, relPkg(f), "api/v0/ingest/schema")
	}
	c.AtLeast(2, n, "index writes")
}

func relPkg(f *ssa.Function) string {
	return strings.TrimPrefix(fnPkgPath(f), modPath+"/")
}
