package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A06", ruleA06)
	register("A07", ruleA07)
}

const tAddrInfo = "github.com/libp2p/go-libp2p-core/peer.AddrInfo"
const tCid = "github.com/ipfs/go-cid.Cid"

// fieldByType is the name of the only field of a struct with that type.
func fieldByType(t types.Type, full string) string {
	if t == nil {
		return ""
	}
	s, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	n := ""
	for i := 0; i < s.NumFields(); i++ {
		if typeIs(s.Field(i).Type(), full) {
			if n != "" {
				return ""
			}
			n = s.Field(i).Name()
		}
	}
	return n
}

// paramOf: t is the root's parameter of that type.
func paramOf(e *Engine, full string) func(*Term) bool {
	return func(t *Term) bool {
		t = strip(t)
		return t != nil && t.Op == OParam && typeIs(t.Typ, full)
	}
}

// optsOf: the options handed over in a list, written out or built with append.
func optsOf(e *Engine, st *State, t *Term) []*Term {
	opts, ok := e.VarArgs(st, t)
	if ok {
		return opts
	}
	anySub(strip(t), func(x *Term) bool {
		if x.Op == OAppend || x.Op == OSlice {
			for _, a := range x.Args {
				if a != nil {
					opts = append(opts, a)
				}
			}
			if vs, ok := e.VarArgs(st, x); ok {
				opts = append(opts, vs...)
			}
		}
		return false
	})
	return opts
}

func ruleA06(c *Ctx) {
	c.Rule("pubsub-filter", "the subscriber is constructed with an announce filter that answers exactly what the registry's policy answers for the announcing peer")
	n := 0
	newSub := "github.com/filecoin-project/go-legs.NewSubscriber"
	isFilter := func(st *State, e *Engine, fr *Frame, site ssa.Instruction, t *Term) bool {
		t = strip(t)
		if t.Op != OFn || t.Fn.Blocks == nil {
			return false
		}
		// run the filter on an arbitrary peer
		arg := e.T.mk(Term{Op: OParam, S: "announcer", I: 99, Typ: t.Fn.Signature.Params().At(0).Type()})
		var res []*Term
		ok, rets := true, 0
		h2 := &Hooks{Opaque: func(f *ssa.Function) bool {
			return fullName(f) == nRegAllowed || fullName(f) == nPolAllowed || !strings.HasPrefix(fnPkgPath(f), modPath)
		}}
		h2.Exit = func(st *State, fr *Frame, site ssa.Instruction, r []*Term) {
			rets++
			res = r
			want := func(x *Term) bool {
				return x.Op == OCall && (x.S == nRegAllowed || x.S == nPolAllowed) && same(x.Args[1], arg)
			}
			good := want(strip(r[0]))
			if v, known := constBool(r[0]); known {
				good = holds(st, v, want)
			}
			ok = ok && good
		}
		h2.Keep = func(x *Term) bool { return x.Op == OCall && (x.S == nRegAllowed || x.S == nPolAllowed) }
		e2 := NewEngine(c.P, h2)
		e2.T = e.T
		sub := newState()
		for k, v := range st.mem {
			sub.mem[k] = v
		}
		rf := &Frame{E: e2, Fn: t.Fn}
		e2.root = rf
		for _, x := range e2.exec(rf, []*Term{arg}, t.Args, sub) {
			if h2.Exit != nil && rets == 0 {
				h2.Exit(x.st, rf, nil, x.results)
			}
		}
		_ = res
		return ok && rets > 0 && e2.Err == nil
	}
	for _, f := range deepest(c.P, "internal/ingest", func(n string) bool { return n == newSub }) {
		h := skipNamedGo(&Hooks{})
		h.Call = func(st *State, ev *CallEv) {
			if ev.Name != newSub {
				return
			}
			n++
			opts := optsOf(ev.E, st, ev.Args[len(ev.Args)-1])
			good, found := true, 0
			for _, o := range opts {
				o = strip(o)
				if o.Op == OCall && o.S == "github.com/filecoin-project/go-legs.AllowPeer" {
					found++
					good = good && isFilter(st, ev.E, ev.Fr, ev.Site, o.Args[0])
				}
			}
			where := c.whereIn(ev.Fr, ev.Site)
			c.Check(found > 0, st, where, "announce filter installed", "the subscriber is constructed without an announce filter: pubsub announcements of any peer start a sync")
			c.Check(good, st, where, "announce filter is the policy", "the announce filter does not answer what the policy answers for the announcing peer")
		}
		c.Run(f, h)
	}
	c.AtLeast(1, n, "subscriber constructions")

	c.Rule("direct-announce", "a direct announcement reaches the ingester only for the one peer all its addresses name, after the policy allowed that peer, and with the CID and addresses of the message")
	n = 0
	nAnnounce := "(*" + pkgIngest + ".Ingester).Announce"
	for _, f := range deepest(c.P, "server/ingest/handler", func(n string) bool { return n == nAnnounce }) {
		h := &Hooks{Keep: func(t *Term) bool {
			return anySub(t, func(x *Term) bool {
				return x.Op == OCall && (x.S == nRegAllowed || strings.HasSuffix(x.S, "peer.AddrInfosFromP2pAddrs") || strings.HasSuffix(x.S, ").GetAddrs") || strings.HasSuffix(x.S, ").UnmarshalCBOR"))
			})
		}}
		h.Call = func(st *State, ev *CallEv) {
			if ev.Name != nAnnounce {
				return
			}
			n++
			where := c.whereIn(ev.Fr, ev.Site)
			e := ev.E
			ai := ev.Args[3]
			id := e.pick(st, ai, "ID")
			c.Check(id != nil && holds(st, true, func(t *Term) bool { return t.Op == OCall && t.S == nRegAllowed && same(t.Args[1], id) }), st, where, "announcing peer allowed", "a direct announcement is passed on although the policy was not (or not positively) consulted for the announced peer")
			// the peer is the only one the addresses name
			var call *Term
			if id != nil {
				anySub(id, func(x *Term) bool {
					if x.Op == OCall && strings.HasSuffix(x.S, "peer.AddrInfosFromP2pAddrs") {
						call = x
					}
					return call != nil
				})
			}
			one := call != nil && (holds(st, false, func(t *Term) bool {
				return t.Op == OBin && t.S == "<" && isConstN(t.Args[0], 1) && lenOfCall(t.Args[1], call)
			}) || eqFact(st, true, func(t *Term) bool { return lenOfCall(t, call) }, func(t *Term) bool { return isConstN(t, 1) }) ||
				holds(st, true, func(t *Term) bool {
					return t.Op == OBin && t.S == "<" && isConstN(t.Args[1], 2) && lenOfCall(t.Args[0], call)
				}))
			c.Check(one, st, where, "all addresses name one peer", "an announcement whose addresses name several peers is not rejected: only one of them was checked against the policy")
			okCid := anySub(ev.Args[2], func(x *Term) bool {
				ci, ok := x.Site.(ssa.CallInstruction)
				return x.Op == OOpaque && ok && strings.Contains(calleeName(ci), "dtsync.Message).")
			}) && strip(ev.Args[2]).Op == OField && strip(ev.Args[2]).S == "Cid"
			c.Check(okCid, st, where, "announced CID", "the CID passed on is not the one in the announcement: "+ev.Args[2].String())
		}
		c.Run(f, h)
	}
	c.AtLeast(1, n, "direct announcements")

	c.Rule("announce-args", "every announcement handed to the subscriber, at once or after having been deferred, names the CID, peer and addresses of one and the same announcement, and a deferred announcement is kept under its own peer")
	n = 0
	m := 0
	ad := inFns(adIngestFns(c))
	for _, f := range entryRoots(c, "internal/ingest", func(n string) bool { return legsSub(n, "Announce") }) {
		h := skipNamedGo(&Hooks{Opaque: ad})
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			e := ev.E
			switch {
			case legsSub(ev.Name, "Announce"):
				n++
				cd, id, addrs := strip(ev.Args[2]), strip(ev.Args[3]), strip(ev.Args[4])
				base := func(t *Term, field string) *Term {
					if t != nil && t.Op == OField && t.S == field {
						return strip(t.Args[0])
					}
					return nil
				}
				bi, ba := base(id, "ID"), base(addrs, "Addrs")
				ok := bi != nil && bi == ba
				if ok {
					direct := paramOf(e, tAddrInfo)(bi) && paramOf(e, tCid)(cd)
					pending := bi.Op == OField && typeIs(bi.Typ, tAddrInfo) && cd.Op == OField && strip(cd.Args[0]) == strip(bi.Args[0])
					ok = direct || pending
				}
				c.Check(ok, st, where, "announcement is consistent", "the subscriber is told of an announcement that mixes the CID, peer or addresses of different announcements: "+cd.String()+", "+id.String()+", "+addrs.String())
			case ev.Name == "(*sync.Map).Store" || ev.Name == "(*sync.Map).Swap" || ev.Name == "(*sync.Map).LoadOrStore":
				v := strip(ev.Args[2])
				fa, fc := fieldByType(v.Typ, tAddrInfo), fieldByType(v.Typ, tCid)
				if fa == "" || fc == "" {
					return
				}
				m++
				ai, cd := e.pick(st, v, fa), e.pick(st, v, fc)
				ok := paramOf(e, tAddrInfo)(ai) && paramOf(e, tCid)(cd) && same(ev.Args[1], e.pick(st, v, fa, "ID"))
				c.Check(ok, st, where, "deferred announcement is complete", "a deferred announcement does not carry the CID and addresses of the announcement it stands for, or is kept under another peer")
			}
		}
		c.Run(f, h)
	}
	c.AtLeast(2, n, "announcements to the subscriber")
	c.AtLeast(1, m, "deferred announcements")
}

func isConstN(t *Term, n int64) bool { v, ok := constInt(t); return ok && v == n }

func lenOfCall(t, call *Term) bool {
	return t.Op == OLen && callOf(strip(t.Args[0])) == call
}

// ---------------------------------------------------------------------------

const (
	nPUEval = "(*" + pkgPeerutil + ".Policy).Eval"
	nPUSet  = "(*" + pkgPeerutil + ".Policy).SetPeer"
	nPUNewS = pkgPeerutil + ".NewPolicyStrings"
	nPUNew  = pkgPeerutil + ".NewPolicy"
	tPolicy = pkgPolicy + ".Policy"
)

func ruleA07(c *Ctx) {
	p := c.P
	// --- peerutil.Policy: a default value and a set of exceptions
	put := "peerutil"
	var vf, xf string
	if o := p.Pkg(put); o != nil && o.Type("Policy") != nil {
		if s, ok := o.Type("Policy").Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				switch u := s.Field(i).Type().Underlying().(type) {
				case *types.Basic:
					if u.Kind() == types.Bool {
						vf = s.Field(i).Name()
					}
				case *types.Map:
					if isPeerID(u.Key()) {
						xf = s.Field(i).Name()
					}
				}
			}
		}
	}
	c.Rule("eval", "evaluating a policy for a peer yields the default value, or its opposite if the peer is an exception")
	if vf == "" || xf == "" {
		c.Need(nil, "default value and exception set of peerutil.Policy")
		return
	}
	isVal := func(t *Term) bool {
		return t.Op == OField && t.S == vf && typeIs(derefType(t.Args[0].Typ), pkgPeerutil+".Policy")
	}
	isSet := func(t *Term) bool {
		t = strip(t)
		return t.Op == OField && t.S == xf && typeIs(derefType(t.Args[0].Typ), pkgPeerutil+".Policy")
	}
	// atoms of a policy object in its initial state, queried for parameter k
	atoms := func(v, m bool, k int) func(*Term) (bool, bool) {
		return func(t *Term) (bool, bool) {
			if isVal(t) {
				return v, true
			}
			look := func(l *Term) bool {
				return l.Op == OLookup && isSet(l.Args[0]) && l.Args[1].Op == OParam && l.Args[1].I == k
			}
			if t.Op == OExtract && t.I == 1 && look(t.Args[0]) {
				return m, true
			}
			if look(t) && t.Typ != nil && types.Identical(t.Typ.Underlying(), types.Typ[types.Bool]) {
				return m, true
			}
			if t.Op == OParam && t.Typ != nil && types.Identical(t.Typ.Underlying(), types.Typ[types.Bool]) {
				return false, false
			}
			if m && t.Op == OBin && t.S == "==" && (t.Args[0].Op == OLen && isSet(t.Args[0].Args[0]) && isConstN(t.Args[1], 0) || t.Args[1].Op == OLen && isSet(t.Args[1].Args[0]) && isConstN(t.Args[0], 0)) {
				return false, true
			}
			if m && t.Op == OBin && t.S == "<" && isConstN(t.Args[0], 0) && t.Args[1].Op == OLen && isSet(t.Args[1].Args[0]) {
				return true, true
			}
			return false, false
		}
	}
	keepB := func(t *Term) bool { return true }
	ev := c.Need(p.Method(put, "Policy", "Eval"), "peerutil.Policy.Eval")
	n := 0
	h := &Hooks{Keep: keepB}
	h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
		n++
		for _, v := range []bool{false, true} {
			for _, m := range []bool{false, true} {
				at := atoms(v, m, 1)
				if !feasible(st, at) || m && nilSet(st, isSet) {
					continue
				}
				r, known := evalBool(res[0], at)
				c.Check(known && r == (v != m), st, c.whereIn(fr, site), "Eval yields the default, flipped for exceptions", "Eval does not yield the default value flipped for exceptions: "+res[0].String())
			}
		}
	}
	c.Run(ev, h)
	c.AtLeast(1, n, "returns of Eval")

	c.Rule("new", "a new policy has the given default and every listed peer as an exception; an undecodable ID is an error")
	for _, name := range []string{"NewPolicy", "NewPolicyStrings"} {
		fn := c.Need(p.Func(put, name), "peerutil."+name)
		if fn == nil {
			continue
		}
		n = 0
		h := &Hooks{Keep: func(t *Term) bool {
			return anySub(t, func(x *Term) bool { return x.Op == OCall && x.S == nPeerDecode || x.Op == OLen })
		}}
		w := &Walk{Flag: "ex", IsSlice: func(t *Term) bool { t = strip(t); return t.Op == OParam && t.I == 1 }}
		w.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
			c.Bad(st, c.whereIn(fr, site), name+": every exception added", "an element of the exception list can be skipped")
		}
		w.track(h)
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			if !mapOf(m.Typ, tPeerID, "") {
				return
			}
			kk := strip(k)
			if cl := callOf(kk); cl != nil && cl.S == nPeerDecode {
				c.Check(errNil(st, func(x *Term) bool { return x == cl }), st, c.whereIn(fr, site), name+": decode error checked", "an exception is added although decoding its ID may have failed")
				kk = strip(cl.Args[0])
			}
			ok := w.isElem(kk)
			c.Check(ok, st, c.whereIn(fr, site), name+": exceptions come from the list", "a peer that is not in the exception list is made an exception: "+k.String())
			if ok {
				w.Handled(st)
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if len(res) == 2 && fr.E.NonNil(st, res[1]) {
				return
			}
			n++
			where := c.whereIn(fr, site)
			v := fr.E.pick(st, res[0], vf)
			c.Check(v != nil && rootParam(fr.E, v, 0), st, where, name+": default value", "the policy's default is not the given value")
			empty := eqFact(st, true, func(t *Term) bool { return t.Op == OLen && w.IsSlice(t.Args[0]) }, func(t *Term) bool { return isConstN(t, 0) }) || nilFact(st, true, w.IsSlice) ||
				holds(st, false, func(t *Term) bool {
					return t.Op == OBin && t.S == "<" && isConstN(t.Args[0], 0) && t.Args[1].Op == OLen && w.IsSlice(t.Args[1].Args[0])
				})
			c.Check((w.Done(st) || empty) && !w.Open(st), st, where, name+": whole list", "the policy can be returned before the whole exception list was added")
			x := fr.E.pick(st, res[0], xf)
			c.Check(empty || x != nil && x.Op == OAlloc, st, where, name+": exception set kept", "the policy does not carry the exception set: "+x.String())
		}
		c.Run(fn, h)
		c.AtLeast(1, n, "returns of "+name)
	}

	c.Rule("set", "setting a peer makes the policy evaluate to that value for that peer and changes nothing for any other")
	if fn := c.Need(p.Method(put, "Policy", "SetPeer"), "peerutil.Policy.SetPeer"); fn != nil {
		n = 0
		h := &Hooks{Keep: keepB}
		mark := func(st *State, fr *Frame, site ssa.Instruction, k *Term, what string) {
			c.Check(rootParam(fr.E, k, 1), st, c.whereIn(fr, site), "only the given peer changes", "the exceptions of another peer are changed")
			st.Set("eff", what)
		}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			if mapOf(m.Typ, tPeerID, "") {
				mark(st, fr, site, k, "add")
			}
		}
		h.MapDelete = func(st *State, fr *Frame, site ssa.Instruction, m, k *Term) {
			if mapOf(m.Typ, tPeerID, "") {
				mark(st, fr, site, k, "del")
			}
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, a, v *Term) {
			if a.Op == OFieldAddr && a.S == vf {
				c.Bad(st, c.whereIn(fr, site), "default unchanged", "setting a peer changes the default for every other peer")
			}
			if a.Op == OFieldAddr && a.S == xf {
				none := nilFact(st, true, isSet) || eqFact(st, true, func(t *Term) bool { return t.Op == OLen && isSet(t.Args[0]) }, func(t *Term) bool { return isConstN(t, 0) })
				c.Check(none, st, c.whereIn(fr, site), "exception set replaced only when empty", "the exception set is replaced although it may have members")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			n++
			for i := 0; i < 8; i++ {
				pv, m, want := i&1 != 0, i&2 != 0, i&4 != 0
				base := atoms(pv, m, 1)
				at := func(t *Term) (bool, bool) {
					if rootParam(fr.E, t, 2) {
						return want, true
					}
					return base(t)
				}
				if !feasible(st, at) || m && nilSet(st, isSet) {
					continue
				}
				after := m
				switch st.Get("eff") {
				case "add":
					after = true
				case "del":
					after = false
				}
				c.Check((pv != after) == want, st, c.whereIn(fr, site), "SetPeer takes effect", "after setting a peer the policy can still evaluate to the opposite value for it")
			}
		}
		c.Run(fn, h)
		c.AtLeast(1, n, "returns of SetPeer")
	}

	// --- policy.Policy: allow and publish
	c.Rule("config", "the allow and the publish policy are built from their own configuration values")
	pol := "internal/registry/policy"
	fields := map[string]string{}
	if fn := c.Need(p.Func(pol, "New"), "policy.New"); fn != nil {
		n = 0
		h := &Hooks{Keep: func(t *Term) bool { return callOf(t) != nil }}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if len(res) != 2 || fr.E.NonNil(st, res[1]) {
				return
			}
			n++
			seen := map[string]bool{}
			s, _ := derefType(res[0].Typ).Underlying().(*types.Struct)
			if s == nil {
				s, _ = p.Pkg(pol).Type("Policy").Type().Underlying().(*types.Struct)
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if !typeIs(f.Type(), pkgPeerutil+".Policy") {
					continue
				}
				v := fr.E.pick(st, res[0], f.Name())
				cl := callOf(v)
				okC := cl != nil && cl.S == nPUNewS && errNil(st, func(x *Term) bool { return x == cl })
				c.Check(okC, st, c.whereIn(fr, site), "policy."+f.Name()+" built from configuration", "a policy is not (successfully) built from the configuration")
				if !okC {
					continue
				}
				a, b := strip(cl.Args[0]), strip(cl.Args[1])
				role := ""
				if isField(a, "Allow") && isField(b, "Except") {
					role = "allow"
				} else if isField(a, "Publish") && isField(b, "PublishExcept") {
					role = "publish"
				}
				c.Check(role != "" && !seen[role], st, c.whereIn(fr, site), "policy."+f.Name()+" uses matching settings", "a policy mixes settings of the allow and the publish policy")
				seen[role] = true
				fields[role] = f.Name()
			}
		}
		c.Run(fn, h)
		c.AtLeast(1, n, "successful returns of policy.New")
	}
	fa, fp := fields["allow"], fields["publish"]

	c.Rule("decide", "Allowed answers the allow policy for the peer; PublishAllowed is true for a peer publishing for itself and otherwise answers the publish policy for the publisher")
	evalOf := func(field string, par int) func(*Term) bool {
		return func(t *Term) bool {
			t = strip(t)
			return t.Op == OCall && t.S == nPUEval && t.Args[0].Op == OFieldAddr && t.Args[0].S == field && t.Args[1].Op == OParam && t.Args[1].I == par
		}
	}
	for _, nm := range []string{"Allowed", "PublishAllowed"} {
		fn := c.Need(p.Method(pol, "Policy", nm), "policy.Policy."+nm)
		if fn == nil {
			continue
		}
		n = 0
		h := &Hooks{Keep: keepB}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			n++
			for i := 0; i < 4; i++ {
				self, v := i&1 != 0, i&2 != 0
				field, want := fa, v
				if nm == "PublishAllowed" {
					field, want = fp, self || v
				}
				at := func(t *Term) (bool, bool) {
					if t.Op == OBin && t.S == "==" && t.Args[0].Op == OParam && t.Args[1].Op == OParam && t.Args[0].I+t.Args[1].I == 3 {
						return self, true
					}
					if evalOf(field, 1)(t) {
						return v, true
					}
					return false, false
				}
				if !feasible(st, at) {
					continue
				}
				r, known := evalBool(strip(res[0]), at)
				c.Check(known && r == want, st, c.whereIn(fr, site), nm+" answers its policy", nm+" does not answer what its policy says: "+res[0].String())
			}
		}
		c.Run(fn, h)
		c.AtLeast(1, n, "returns of "+nm)
	}

	c.Rule("alter", "Allow, Block and Copy change the policy as their names say")
	for _, w := range []struct {
		name string
		val  bool
	}{{"Allow", true}, {"Block", false}} {
		fn := c.Need(p.Method(pol, "Policy", w.name), "policy.Policy."+w.name)
		if fn == nil {
			continue
		}
		n = 0
		h := &Hooks{}
		h.Call = func(st *State, ev *CallEv) {
			if ev.Name != nPUSet {
				return
			}
			n++
			v, ok := constBool(ev.Args[2])
			good := ok && v == w.val && ev.Args[0].Op == OFieldAddr && ev.Args[0].S == fa && rootParam(ev.E, ev.Args[1], 1)
			c.Check(good, st, c.whereIn(ev.Fr, ev.Site), w.name+" sets the peer", w.name+" does not set the allow policy of the given peer accordingly")
			st.Set("set", "1")
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			c.Check(st.Has("set"), st, c.whereIn(fr, site), w.name+" takes effect", w.name+" can return without altering the policy")
		}
		c.Run(fn, h)
		c.AtLeast(1, n, "policy changes in "+w.name)
	}
	if fn := c.Need(p.Method(pol, "Policy", "Copy"), "policy.Policy.Copy"); fn != nil {
		h := &Hooks{KeepMem: true}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			e := fr.E
			recv := e.T.mk(Term{Op: OParam, S: fn.Params[0].Name(), I: 0, Typ: fn.Params[0].Type()}, fn)
			oth := e.T.mk(Term{Op: OParam, S: fn.Params[1].Name(), I: 1, Typ: fn.Params[1].Type()}, fn)
			for _, f := range []string{fa, fp} {
				for _, sub := range []string{vf, xf} {
					a, b := e.pick(st, recv, f, sub), e.pick(newState(), oth, f, sub)
					c.Check(a != nil && a == b, st, c.whereIn(fr, site), "Copy takes over "+f+"."+sub, "copying a policy does not take over all of the other policy: "+a.String()+" vs "+b.String())
				}
			}
		}
		c.Run(fn, h)
	}

	c.Rule("lock", "the policies are read and altered only while the policy's lock is held (exclusively for alterations)")
	n = 0
	for _, f := range exportedRoots(p, pol) {
		if f.Signature.Recv() == nil {
			continue
		}
		fresh := onlyFresh(p, f, pkgPolicy+".New")
		h := &Hooks{}
		check := func(st *State, fr *Frame, site ssa.Instruction, addr *Term, write bool) {
			var obj *Term
			for x := addr; x != nil && x.Op == OFieldAddr; x = x.Args[0] {
				if (x.S == fa || x.S == fp) && typeIs(derefType(x.Args[0].Typ), tPolicy) {
					obj = x.Args[0]
				}
			}
			if obj == nil || strip(obj).Op == OAlloc {
				return
			}
			n++
			c.Check(fresh || lockedObj(fr.E, st, obj, write), st, c.whereIn(fr, site), f.Name()+" holds the lock", "the policy is accessed without holding its lock (or altered under a read lock)")
		}
		h.Load = func(st *State, fr *Frame, site ssa.Instruction, a, v *Term) { check(st, fr, site, a, false) }
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, a, v *Term) { check(st, fr, site, a, true) }
		h.Call = func(st *State, ev *CallEv) {
			if ev.Inline {
				return
			}
			for _, a := range ev.Args {
				check(st, ev.Fr, ev.Site, strip(a), ev.Name == nPUSet)
			}
		}
		trackLocks(h)
		c.Run(f, h)
	}
	c.AtLeast(6, n, "policy accesses")

	c.Rule("wiring", "the registry and the admin API answer and alter the one policy with the peer they are given")
	reg := "internal/registry"
	for _, w := range []struct{ m, target string }{
		{"Allowed", nPolAllowed}, {"PublishAllowed", nPolPubAllow}, {"AllowPeer", "(*" + tPolicy + ").Allow"}, {"BlockPeer", "(*" + tPolicy + ").Block"},
	} {
		fn := c.Need(p.Method(reg, "Registry", w.m), "registry.Registry."+w.m)
		if fn == nil {
			continue
		}
		h := &Hooks{Keep: keepB}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			want := func(t *Term) bool {
				t = strip(t)
				if t.Op != OCall || t.S != w.target || !typeIs(derefType(t.Args[0].Typ), tPolicy) {
					return false
				}
				for i := 1; i < len(fn.Params); i++ {
					if !rootParam(fr.E, t.Args[i], i) {
						return false
					}
				}
				return true
			}
			ok := want(res[0])
			if v, known := constBool(res[0]); known {
				ok = holds(st, v, want)
			}
			c.Check(ok, st, c.whereIn(fr, site), "Registry."+w.m+" asks the policy", "the registry does not answer what the policy answers for the given peers: "+res[0].String())
		}
		c.Run(fn, h)
	}
	if fn := c.Need(p.Method(reg, "Registry", "SetPolicy"), "registry.Registry.SetPolicy"); fn != nil {
		h := &Hooks{Keep: func(t *Term) bool { return callOf(t) != nil }}
		h.Call = func(st *State, ev *CallEv) {
			if ev.Name == "(*"+tPolicy+").Copy" {
				cl := callOf(strip(ev.Args[1]))
				ok := cl != nil && cl.S == pkgPolicy+".New" && rootParam(ev.E, cl.Args[0], 0+1) && errNil(st, func(x *Term) bool { return x == cl })
				c.Check(ok, st, c.whereIn(ev.Fr, ev.Site), "new policy adopted", "the policy adopted is not the one (successfully) built from the given configuration")
				st.Set("copied", "1")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			c.Check(fr.E.NonNil(st, res[0]) || st.Has("copied"), st, c.whereIn(fr, site), "SetPolicy takes effect", "SetPolicy can report success without adopting the new policy")
		}
		c.Run(fn, h)
	}
	// admin API
	n = 0
	for _, w := range []struct{ route, target, other string }{
		{"/allow/", "(*" + pkgRegistry + ".Registry).AllowPeer", "(*" + pkgRegistry + ".Registry).BlockPeer"},
		{"/block/", "(*" + pkgRegistry + ".Registry).BlockPeer", "(*" + pkgRegistry + ".Registry).AllowPeer"},
	} {
		for _, f := range routeHandlers(p, "server/admin/http", w.route) {
			n++
			h := &Hooks{Keep: func(t *Term) bool { return callOf(t) != nil && callOf(t).S == nPeerDecode }}
			h.Call = func(st *State, ev *CallEv) {
				if ev.Name == w.other {
					c.Bad(st, c.whereIn(ev.Fr, ev.Site), "admin route "+w.route, "the admin request does the opposite of what its route says")
				}
				if ev.Name == w.target {
					cl := callOf(strip(ev.Args[1]))
					ok := cl != nil && cl.S == nPeerDecode && errNil(st, func(x *Term) bool { return x == cl }) && strip(cl.Args[0]).Op == OLookup && isStrConst(strip(cl.Args[0]).Args[1], "peer")
					c.Check(ok, st, c.whereIn(ev.Fr, ev.Site), "admin route "+w.route+" peer", "the policy is changed for another peer than the one named in the request, or although its ID did not decode")
					st.Set("did", "1")
				}
			}
			h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
				bad := errNonNil(st, func(x *Term) bool { return x.S == nPeerDecode })
				c.Check(bad || st.Has("did"), st, c.whereIn(fr, site), "admin route "+w.route+" acts", "the admin request can be answered without changing the policy")
			}
			c.Run(f, h)
		}
	}
	c.AtLeast(2, n, "admin policy handlers")
}

func isStrConst(t *Term, s string) bool { v, ok := constStr(t); return ok && v == s }

func nilSet(st *State, isSet func(*Term) bool) bool {
	return nilFact(st, true, isSet) || eqFact(st, true, func(t *Term) bool { return t.Op == OLen && isSet(t.Args[0]) }, func(t *Term) bool { return isConstN(t, 0) })
}

// onlyFresh: every call of the method in the repository is on an object that
// was just returned by the constructor in the calling function.
func onlyFresh(p *Prog, m *ssa.Function, ctor string) bool {
	n := 0
	for _, f := range p.Funcs {
		for _, call := range callsIn(f) {
			if call.Common().StaticCallee() != m {
				continue
			}
			n++
			v := call.Common().Args[0]
			if x, ok := v.(*ssa.Extract); ok {
				v = x.Tuple
			}
			cl, ok := v.(*ssa.Call)
			if !ok || calleeName(cl) != ctor {
				return false
			}
		}
	}
	return n > 0
}

// routeHandlers: the functions registered for routes containing s.
func routeHandlers(p *Prog, rel, s string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.PkgFuncs(rel) {
		for _, call := range callsIn(f) {
			nm := calleeName(call)
			if !strings.HasSuffix(nm, ").HandleFunc") && !strings.HasSuffix(nm, ").Handle") && !strings.HasSuffix(nm, "http.HandleFunc") {
				continue
			}
			args := call.Common().Args
			if len(args) < 2 {
				continue
			}
			k, ok := args[len(args)-2].(*ssa.Const)
			if !ok || k.Value == nil || !strings.Contains(k.Value.ExactString(), s) {
				continue
			}
			h := asFn(args[len(args)-1])
			if h == nil {
				continue
			}
			// bound method wrapper → the method
			if h.Synthetic != "" {
				for _, c := range callsIn(h) {
					if g := c.Common().StaticCallee(); g != nil {
						h = g
					}
				}
			}
			out = append(out, h)
		}
	}
	return out
}
