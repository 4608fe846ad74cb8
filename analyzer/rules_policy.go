package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A05", ruleA05)
}

const nDiscoverer = "(" + pkgRegistry + "/discovery.Discoverer).Discover"
const nValidate = "(github.com/libp2p/go-libp2p-core/peer.ID).Validate"

// registryRoots: exported functions of the registry whose code can change the
// map of registered providers.
func registryRoots(c *Ctx) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range exportedRoots(c.P, "internal/registry") {
		hit := false
		for g := range c.P.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.MapUpdate:
						hit = hit || isProviders(x.Map.Type())
					case *ssa.Call:
						if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" && isProviders(x.Common().Args[0].Type()) {
							hit = true
						}
					case *ssa.Store:
						hit = hit || isProviders(x.Val.Type())
					}
				}
			}
		}
		if hit {
			out = append(out, f)
		}
	}
	return out
}

func ruleA05(c *Ctx) {
	c.Rule("register-allowed", "every entry added to the registry is for a provider the policy allows, or updates an entry that is already there; an entry's publisher that differs from the provider is allowed and may publish for it, or was already the entry's publisher")
	isLook := func(t, k *Term) bool {
		t = strip(t)
		if t != nil && t.Op == OExtract && t.I == 0 {
			t = t.Args[0]
		}
		return t != nil && t.Op == OLookup && isProviders(t.Args[0].Typ) && same(t.Args[1], k)
	}
	// present: k is known to be in the map of registered providers
	present := func(st *State, k *Term) bool {
		ks := strip(k)
		if ks.Op == OExtract && ks.I == 1 && ks.Args[0].Op == ONext && len(ks.Args[0].Args) > 0 {
			it := ks.Args[0].Args[0]
			if it.Op == ORange && isProviders(it.Args[0].Typ) {
				return true
			}
		}
		return holds(st, true, func(t *Term) bool {
			return t.Op == OExtract && t.I == 1 && t.Args[0].Op == OLookup && isProviders(t.Args[0].Args[0].Typ) && same(t.Args[0].Args[1], k)
		}) || nilFact(st, false, func(t *Term) bool { return isLook(t, k) })
	}
	allowed := func(st *State, id *Term) bool {
		return holds(st, true, func(t *Term) bool { return t.Op == OCall && t.S == nPolAllowed && same(t.Args[1], id) })
	}
	keep := func(t *Term) bool {
		return anySub(t, func(x *Term) bool {
			return x.Op == OCall && (x.S == nPolAllowed || x.S == nPolPubAllow || x.S == nValidate || x.S == nDiscoverer) || x.Op == OLookup
		}) || t.Op == OBin && t.S == "==" && isPeerID(t.Args[0].Typ)
	}
	n := 0
	roots := registryRoots(c)
	for _, root := range roots {
		h := &Hooks{Keep: keep}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			if !isProviders(m.Typ) {
				return
			}
			n++
			e := fr.E
			where := c.whereIn(fr, site)
			via := root.Name()
			discovered := func() bool {
				// the ID comes from the discoverer, asked for an allowed peer
				f := strip(k)
				var call *Term
				anySub(f, func(x *Term) bool {
					if x.Op == OCall && x.S == nDiscoverer {
						call = x
					}
					return call != nil
				})
				return call != nil && f.Op == OField && f.S == "ID" && errNil(st, func(x *Term) bool { return x == call }) && allowed(st, call.Args[2])
			}
			inMap := present(st, k)
			c.Check(inMap || allowed(st, k) || discovered(), st, where, via+": only allowed providers are added", "a provider can be added to the registry although the policy was not (or not positively) consulted for it")
			id := e.pick(st, v, "AddrInfo", "ID")
			pub := e.pick(st, v, "Publisher")
			if pub == nil || id == nil {
				c.Bad(st, where, via+": registered info resolvable", "the registered provider info cannot be resolved: "+v.String())
				return
			}
			// read back from the datastore, where only registered infos are written
			loaded := anySub(pub, func(x *Term) bool {
				ci, ok := x.Site.(ssa.CallInstruction)
				return x.Op == OOpaque && ok && strings.HasPrefix(calleeName(ci), "encoding/json.")
			})
			pubOK := func() bool {
				ps := strip(pub)
				if s, ok := constStr(ps); ok && s == "" {
					return true
				}
				if ps.Op == OZero || same(pub, k) || same(pub, id) {
					return true
				}
				if inMap && ps.Op == OField && ps.S == "Publisher" && (isLook(ps.Args[0], k) || fromIter(ps.Args[0], k)) {
					return true
				}
				if errNonNil(st, func(x *Term) bool { return x.S == nValidate && same(x.Args[0], pub) }) {
					return true
				}
				if eqFact(st, true, is(pub), func(x *Term) bool { return same(x, id) || same(x, k) }) {
					return true
				}
				return allowed(st, pub) && holds(st, true, func(t *Term) bool {
					return t.Op == OCall && t.S == nPolPubAllow && same(t.Args[1], pub) && (same(t.Args[2], id) || same(t.Args[2], k))
				})
			}
			c.Check(loaded || pubOK(), st, where, via+": only allowed publishers are registered", "a publisher other than the provider can be registered although it is not known to be allowed and to be allowed to publish for the provider: "+pub.String())
			c.Check(loaded || same(id, k) || inMap, st, where, via+": registered under its own ID", "the info is registered under an ID that is not its own: "+k.String()+" vs "+id.String())
		}
		c.Run(root, h)
	}
	c.AtLeast(4, len(roots), "registry functions that change registrations")
	c.AtLeast(4, n, "additions to the registry")

	c.Rule("index-after-register", "index entries are added only for a provider whose registration succeeded, in the ingestion of advertisements and of direct index requests")
	m := 0
	for _, rel := range []string{"internal/ingest", "server/ingest/handler"} {
		for _, root := range deepest(c.P, rel, func(n string) bool { return idxCall(n, "Put") }, func(n string) bool { return n == nRegOrUpd || n == nRegister }) {
			h := &Hooks{Keep: func(t *Term) bool {
				return anySub(t, func(x *Term) bool { return x.Op == OCall && (x.S == nRegOrUpd || x.S == nPeerDecode) })
			}}
			h.Call = func(st *State, ev *CallEv) {
				if !idxCall(ev.Name, "Put") && !idxCall(ev.Name, "Remove") && !idxCall(ev.Name, "RemoveProviderContext") {
					return
				}
				m++
				id := ev.Args[1]
				if !idxCall(ev.Name, "RemoveProviderContext") {
					id = ev.E.pick(st, ev.Args[1], "ProviderID")
				}
				ok := id != nil && errNil(st, func(x *Term) bool { return x.S == nRegOrUpd && same(x.Args[2], id) })
				c.Check(ok, st, c.whereIn(ev.Fr, ev.Site), rel+": "+callee(ev.Name)+" after registration", "the index is changed for a provider that was not successfully registered (or checked against the policy) before")
			}
			c.Run(root, h)
		}
	}
	c.AtLeast(3, m, "index changes")

	c.Rule("who-writes-index", "the index is written only by the ingestion of advertisements, direct index requests, and the operator's import command")
	for _, f := range c.P.Funcs {
		for _, call := range callsIn(f) {
			nm := calleeName(call)
			if !idxCall(nm, "Put") {
				continue
			}
			pk := strings.TrimPrefix(fnPkgPath(f), modPath+"/")
			ok := pk == "internal/ingest" || pk == "server/ingest/handler" || pk == "server/admin/http" || strings.HasPrefix(pk, "command") || strings.Contains(pk, "test")
			c.Check(ok, nil, c.at(call)+" in "+shortFn(f), "index write in "+pk, "the index is written from a package where no registration is enforced")
		}
	}

	c.Rule("discoverer-id", "a discoverer returns only the identity it was asked for")
	d := 0
	for _, f := range c.P.Funcs {
		if f.Name() != "Discover" || f.Signature.Recv() == nil || !strings.HasSuffix(f.Signature.Results().String(), "discovery.Discovered, error)") || strings.Contains(fnPkgPath(f), "test") || f.Parent() != nil {
			continue
		}
		d++
		h := &Hooks{Keep: func(t *Term) bool { return t.Op == OBin && t.S == "==" && isPeerID(t.Args[0].Typ) }}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if fr.E.NonNil(st, res[1]) {
				return
			}
			id := fr.E.pick(st, res[0], "AddrInfo", "ID")
			want := func(t *Term) bool { return rootParam(fr.E, t, 2) }
			ok := id != nil && (want(id) || eqFact(st, true, is(id), want))
			c.Check(ok, st, c.whereIn(fr, site), "discovered identity is the requested one", "the discoverer can return another peer's identity than the one it was asked to verify")
		}
		c.Run(f, h)
	}
	c.AtLeast(1, d, "discoverers")
}

// fromIter: t is the value of the iteration whose key is k.
func fromIter(t, k *Term) bool {
	t, k = strip(t), strip(k)
	return t != nil && k != nil && t.Op == OExtract && t.I == 2 && k.Op == OExtract && k.I == 1 && t.Args[0] == k.Args[0]
}
