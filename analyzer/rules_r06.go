package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R06", ruleR06)
}

func ruleR06(c *Ctx) {
	const (
		rel  = "internal/registry"
		rID  = "an update is entered under the provider's ID as an active record contacted now"
		rAd  = "the latest advertisement and its time change exactly when another advertisement is reported"
		rPub = "the publisher changes exactly when a valid one is reported, and its address is the reported one, or the known one if the publisher stays the same"
		rAdr = "the provider's addresses become those reported, all of them in order, and stay if none are reported"
		rKep = "what is not reported stays as it is"
		rQry = "asking for a provider gives its record exactly if it is registered and active; asking for all gives each active one; being registered means being in the registry"
	)
	p := c.P
	inField, delField := boolGetter(p, "Inactive"), boolGetter(p, "Deleted")
	contact := ""
	if pk := p.Types[pkgRegistry]; pk != nil {
		if o := pk.Scope().Lookup("ProviderInfo"); o != nil {
			s := o.Type().Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if !s.Field(i).Exported() && typeIs(s.Field(i).Type(), "time.Time") {
					contact = s.Field(i).Name()
				}
			}
		}
	}
	root := p.Method(rel, "Registry", "RegisterOrUpdate")
	c.Rule("entry", rID)
	if contact == "" || inField == "" || delField == "" || root == nil {
		c.Bad(nil, pkgRegistry, "provider record", "time of last contact, flags or RegisterOrUpdate not found")
		return
	}
	pi := map[string]int{}
	for i, q := range root.Params {
		switch {
		case isPeerID(q.Type()):
			pi["id"] = i
		case q.Type().String() == "[]string":
			pi["addrs"] = i
		case strings.HasSuffix(q.Type().String(), "go-cid.Cid"):
			pi["ad"] = i
		case strings.HasSuffix(q.Type().String(), "peer.AddrInfo"):
			pi["pub"] = i
		}
	}
	if len(pi) != 4 {
		c.Bad(nil, c.P.Loc(root.Pos()), "update parameters", "RegisterOrUpdate does not take a provider, addresses, an advertisement and a publisher")
		return
	}
	par := func(t *Term, n string) bool { t = strip(t); return t != nil && t.Op == OParam && t.I == pi[n] }
	pubF := func(t *Term, f string) bool {
		t = strip(t)
		return t != nil && t.Op == OField && t.S == f && par(t.Args[0], "pub")
	}
	old := func(t *Term, fs ...string) bool {
		t = strip(t)
		for i := len(fs) - 1; i >= 0; i-- {
			if t == nil || t.Op != OField || t.S != fs[i] {
				return false
			}
			t = strip(t.Args[0])
		}
		return t != nil && t.Op == OLookup && isProviders(t.Args[0].Typ) && par(t.Args[1], "id")
	}
	first := func(t *Term, of func(*Term) bool) bool {
		t = strip(t)
		for t != nil && t.Op == ODeref {
			t = t.Args[0]
		}
		if t == nil || t.Op != OIndexAddr && t.Op != OIndex {
			return false
		}
		n, ok := constInt(t.Args[1])
		return ok && n == 0 && of(t.Args[0])
	}
	isUndef := func(t *Term) bool {
		t = strip(t)
		return t != nil && (t.Op == OZero || anySub(t, func(x *Term) bool { return x.Op == OGlobal && strings.HasSuffix(x.S, "go-cid.Undef") }))
	}
	isNow := func(t *Term) bool { t = strip(t); return t != nil && t.Op == OCall && t.S == "time.Now" }
	blank := func(t *Term) bool {
		t = strip(t)
		if s, ok := constStr(t); ok && s == "" {
			return true
		}
		return t != nil && (t.Op == OZero || t.Op == ONil)
	}
	b := map[bool]string{true: "1", false: "0"}
	ups := 0
	h := &Hooks{NoJoin: true}
	wk := &Walk{Flag: "ad", IsSlice: func(t *Term) bool { return par(t, "addrs") }}
	wk.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
		c.Rule("addresses", rAdr)
		c.Bad(st, c.whereIn(fr, site), "all addresses taken", "an address that was reported is passed over")
	}
	h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
		cd, v := bare(cond, val)
		if cd.Op == OExtract && cd.I == 1 && cd.Args[0].Op == OLookup && old(cd.Args[0]) {
			st.Set("found", b[v])
		}
		if old(cd, inField) {
			st.Set("inact", b[v])
		}
		if cd.Op == OCall && strings.HasSuffix(cd.S, "go-cid.Cid).Defined") && par(cd.Args[0], "ad") {
			st.Set("undef", b[!v])
		}
		if cd.Op == OCall && strings.HasSuffix(cd.S, "go-cid.Cid).Equals") {
			for i := 0; i < 2; i++ {
				if x, y := cd.Args[i], cd.Args[1-i]; par(x, "ad") && old(y, "LastAdvertisement") {
					st.Set("sameAd", b[v])
				} else if par(x, "ad") && isUndef(y) {
					st.Set("undef", b[v])
				}
			}
		}
		if cd.Op != OBin || len(cd.Args) != 2 {
			return
		}
		if cd.S == "<" {
			if n, ok := constInt(cd.Args[0]); ok && n == 0 && cd.Args[1].Op == OLen {
				if pubF(cd.Args[1].Args[0], "Addrs") {
					st.Set("noPubAddr", b[!v])
				}
				if par(cd.Args[1].Args[0], "addrs") {
					st.Set("noAddrs", b[!v])
				}
			}
			if n, ok := constInt(cd.Args[1]); ok && n == 1 && cd.Args[0].Op == OLen {
				if pubF(cd.Args[0].Args[0], "Addrs") {
					st.Set("noPubAddr", b[v])
				}
				if par(cd.Args[0].Args[0], "addrs") {
					st.Set("noAddrs", b[v])
				}
			}
			return
		}
		for i := 0; i < 2; i++ {
			x, y := strip(cd.Args[i]), strip(cd.Args[1-i])
			if x == nil || y == nil {
				continue
			}
			if y.Op == ONil && old(x) && v {
				st.Set("found", "0")
			}
			if y.Op == ONil && x.Op == OCall && x.S == nValidate && pubF(x.Args[0], "ID") {
				st.Set("validPub", b[v])
			}
			if y.Op == ONil && v && first(x, func(z *Term) bool { return pubF(z, "Addrs") }) {
				st.Set("nilPubAddr", "1")
			}
			if pubF(x, "ID") && old(y, "Publisher") {
				st.Set("samePub", b[v])
			}
			if (pubF(x, "ID") || old(x, "Publisher")) && (par(y, "id") || old(y, "AddrInfo", "ID")) && v {
				st.Set("ownPub", "1")
			}
			if pubF(x, "ID") && blank(y) && v {
				st.Set("validPub", "0")
			}
			if par(x, "ad") && isUndef(y) {
				st.Set("undef", b[v])
			}
			if par(x, "ad") && old(y, "LastAdvertisement") {
				st.Set("sameAd", b[v])
			}
			if n, ok := constInt(y); ok && n == 0 && x.Op == OLen {
				if pubF(x.Args[0], "Addrs") {
					st.Set("noPubAddr", b[v])
				}
				if par(x.Args[0], "addrs") {
					st.Set("noAddrs", b[v])
				}
			}
		}
	}
	h.Call = func(st *State, ev *CallEv) {
		if strings.HasSuffix(ev.Name, "go-multiaddr.NewMultiaddr") && len(ev.Args) > 0 {
			if a := strip(ev.Args[0]); wk.isElem(a) {
				wk.Handled(st)
			}
		}
	}
	h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
		if !isProviders(m.Typ) {
			return
		}
		ups++
		e := fr.E
		where := c.whereIn(fr, site)
		get := func(fs ...string) *Term { return strip(e.pick(st, v, fs...)) }
		id, addrs := get("AddrInfo", "ID"), get("AddrInfo", "Addrs")
		c.Rule("entry", rID)
		idOK := func(t *Term) bool { return par(t, "id") || old(t, "AddrInfo", "ID") }
		c.Check(idOK(k) && idOK(id), st, where, "entered under its ID", "an update is entered under another ID than the provider's")
		in, ok1 := constBool(get(inField))
		de, ok2 := constBool(get(delField))
		ok1 = ok1 && !in || old(get(inField), inField) && st.Get("inact") == "0"
		ok2 = ok2 && !de || old(get(delField), delField)
		c.Check(ok1 && ok2, st, where, "active after contact", "a provider that was just heard of is not entered as active")
		c.Check(isNow(get(contact)), st, where, "contacted now", "an update does not set the time of contact")
		active := st.Get("found") == "1" && st.Get("inact") == "0"
		la, lt := get("LastAdvertisement"), get("LastAdvertisementTime")
		c.Rule("advertisement", rAd)
		switch {
		case par(la, "ad"):
			c.Check(st.Get("undef") == "0", st, where, "only a reported advertisement counts", "the latest advertisement is overwritten although none was reported")
			c.Check(isNow(lt) && (st.Get("sameAd") == "0" || !active && st.Get("sameAd") == "") || st.Get("sameAd") == "1" && old(lt, "LastAdvertisementTime"), st, where, "time of the advertisement", "the time of the latest advertisement is not the time it was first reported")
		case active:
			c.Check(old(la, "LastAdvertisement") && (st.Get("undef") == "1" || st.Get("sameAd") == "1"), st, where, "a reported advertisement counts", "a reported advertisement is not noted as the latest")
			c.Check(old(lt, "LastAdvertisementTime"), st, where, "time of the advertisement", "the time of the latest advertisement changes although the advertisement does not")
		default:
			c.Check(st.Get("undef") == "1" || st.Get("sameAd") == "1" || st.Get("undef") == "" && blank(la) && eqFact(st, true, func(x *Term) bool { return par(x, "ad") }, isUndef), st, where, "a reported advertisement counts", "a reported advertisement is not noted as the latest")
		}
		c.Rule("addresses", rAdr)
		switch {
		case st.Get("noAddrs") == "0":
			c.Check(wk.Done(st) && addrs != nil && !old(addrs, "AddrInfo", "Addrs") && !blank(addrs), st, where, "reported addresses taken", "the addresses reported are not entered")
		case active:
			c.Check(st.Get("noAddrs") == "1" && old(addrs, "AddrInfo", "Addrs"), st, where, "addresses kept", "the addresses of a provider are lost although none were reported")
		}
		pub, pa := get("Publisher"), get("PublisherAddr")
		c.Rule("publisher", rPub)
		valid := st.Get("validPub")
		samePub := st.Get("samePub") == "1"
		// a publisher that is the provider, with no address known, is where the provider is
		own := func() bool {
			return first(pa, func(x *Term) bool { return old(x, "AddrInfo", "Addrs") || x == addrs }) && st.Has("ownPub") || first(pa, func(x *Term) bool { return old(x, "AddrInfo", "Addrs") || x == addrs }) && eqFact(st, true, func(x *Term) bool { return pubF(x, "ID") || old(x, "Publisher") || idOK(x) }, func(x *Term) bool { return idOK(x) || pubF(x, "ID") || old(x, "Publisher") })
		}
		switch {
		case active:
			c.Check(valid == "1" && (pubF(pub, "ID") || samePub && old(pub, "Publisher")) || valid == "0" && old(pub, "Publisher"), st, where, "publisher taken or kept", "the publisher is not the one reported or, if none was, the one known")
			switch {
			case valid == "1" && st.Get("noPubAddr") == "0":
				c.Check(first(pa, func(x *Term) bool { return pubF(x, "Addrs") }) || st.Has("nilPubAddr") && (blank(pa) || own()), st, where, "publisher's address taken", "the address reported for the publisher is not entered")
			case valid == "1" && !samePub:
				c.Check(blank(pa) || own(), st, where, "no address of another publisher", "the new publisher is entered with an address that is not its own")
			default:
				c.Check(old(pa, "PublisherAddr") || own(), st, where, "publisher's address kept", "the address of the publisher is lost although none was reported")
			}
			c.Rule("kept", rKep)
			c.Check(old(get("DiscoveryAddr"), "DiscoveryAddr"), st, where, "discovery address kept", "the discovery address of a provider is lost by an update")
		case st.Get("found") == "0":
			c.Check(valid == "1" && pubF(pub, "ID") || valid == "0" && blank(pub), st, where, "publisher taken", "the publisher entered is not the one reported")
			if valid == "1" && st.Get("noPubAddr") == "0" {
				c.Check(first(pa, func(x *Term) bool { return pubF(x, "Addrs") }) || st.Has("nilPubAddr") && (blank(pa) || own()), st, where, "publisher's address taken", "the address reported for the publisher is not entered")
			}
		}
	}
	wk.track(h)
	c.Run(root, h)
	c.Rule("entry", rID)
	c.AtLeast(1, ups, "updates")

	// queries
	c.Rule("queries", rQry)
	lookupOf := func(t *Term) bool {
		t = strip(t)
		return t != nil && t.Op == OLookup && isProviders(t.Args[0].Typ) && strip(t.Args[1]).Op == OParam
	}
	if f := c.Need(p.Method(rel, "Registry", "ProviderInfo"), "ProviderInfo"); f != nil {
		h := &Hooks{NoJoin: true}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			switch {
			case cd.Op == OExtract && cd.I == 1 && lookupOf(cd.Args[0]):
				st.Set("found", b[v])
			case cd.Op == OField && cd.S == inField && lookupOf(cd.Args[0]):
				st.Set("inact", b[v])
			case cd.Op == OBin && cd.S == "==" && v:
				for i := 0; i < 2; i++ {
					if strip(cd.Args[i]).Op == ONil && lookupOf(cd.Args[1-i]) {
						st.Set("found", "0")
					}
				}
			case cd.Op == OBin && cd.S == "==" && !v:
				for i := 0; i < 2; i++ {
					if strip(cd.Args[i]).Op == ONil && lookupOf(cd.Args[1-i]) {
						st.Set("found", "1")
					}
				}
			}
		}
		n := 0
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			n++
			r := strip(res[0])
			where := c.whereIn(fr, site)
			if lookupOf(r) {
				c.Check(st.Get("inact") == "0", st, where, "active records only", "the record of an inactive provider is given out")
				return
			}
			c.Check(blank(r) && (st.Get("found") == "0" || st.Get("inact") == "1"), st, where, "every active record", "an active provider's record is not given out, or another one's is")
		}
		c.Run(f, h)
		c.AtLeast(1, n, "answers about one provider")
	}
	if f := c.Need(p.Method(rel, "Registry", "IsRegistered"), "IsRegistered"); f != nil {
		h := &Hooks{NoJoin: true}
		n := 0
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if cd.Op == OExtract && cd.I == 1 && lookupOf(cd.Args[0]) {
				st.Set("found", b[v])
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			n++
			r := strip(res[0])
			ok := r.Op == OExtract && r.I == 1 && lookupOf(r.Args[0])
			if v, isC := constBool(r); isC && st.Get("found") == b[v] {
				ok = true
			}
			if r.Op == ONot {
				x := strip(r.Args[0])
				ok = x.Op == OBin && x.S == "==" && (lookupOf(x.Args[0]) && blank(x.Args[1]) || lookupOf(x.Args[1]) && blank(x.Args[0]))
			}
			c.Check(ok, st, c.whereIn(fr, site), "registered means in the registry", "the answer whether a provider is registered is not whether it is in the registry")
		}
		c.Run(f, h)
		c.AtLeast(1, n, "answers whether a provider is registered")
	}
	if f := c.Need(p.Method(rel, "Registry", "AllProviderInfo"), "AllProviderInfo"); f != nil {
		h := &Hooks{NoJoin: true}
		n := 0
		isRec := func(t *Term) bool {
			t = strip(t)
			return t != nil && t.Op == OExtract && t.I == 2 && t.Args[0].Op == ONext && isProviders(t.Args[0].Args[0].Args[0].Typ) ||
				t != nil && t.Op == OLookup && isProviders(t.Args[0].Typ) && strip(t.Args[1]).Op == OExtract && strip(t.Args[1]).Args[0].Op == ONext
		}
		taken := func(st *State, fr *Frame, site ssa.Instruction, v *Term) {
			c.Check(st.Get("inact") == "0" && !st.Has("taken"), st, c.whereIn(fr, site), "each active record once", "an inactive provider's record is listed, or one twice")
			st.Set("taken", "1")
		}
		h.Append = func(st *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term) {
			for _, x := range elems {
				if isRec(x) {
					taken(st, fr, site, x)
				}
			}
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) {
			if addr.Op == OIndexAddr && isRec(val) {
				if a := strip(addr.Args[0]); a.Op == OAlloc && strings.Contains(a.Typ.String(), "[1]") {
					return // argument of an append
				}
				taken(st, fr, site, val)
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			switch {
			case cd.Op == OField && cd.S == inField && isRec(cd.Args[0]):
				st.Set("inact", b[v])
			case cd.Op == OExtract && cd.I == 0 && cd.Args[0].Op == ONext && isProviders(cd.Args[0].Args[0].Args[0].Typ):
				if v {
					st.Set("it", "1")
				} else {
					st.Set("all", "1")
				}
			}
		}
		h.Next = func(st *State, fr *Frame, site ssa.Instruction, next *Term, inIter bool) {
			if st.Has("it") {
				n++
				c.Check(st.Has("taken") || st.Get("inact") == "1", st, c.whereIn(fr, site), "every active record", "an active provider's record is passed over")
			}
			for _, f := range []string{"it", "taken", "inact"} {
				st.Del(f)
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			c.Check(st.Has("all"), st, c.whereIn(fr, site), "every active record", "not all providers are looked at")
			c.Check(!blank(res[0]), st, c.whereIn(fr, site), "the list is returned", "nothing is returned")
		}
		c.Run(f, h)
		c.AtLeast(1, n, "records listed")
	}
}
