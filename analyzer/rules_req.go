package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A03", ruleA03)
	register("A04", ruleA04)
}

const nMatchesPub = "(github.com/libp2p/go-libp2p-core/peer.ID).MatchesPublicKey"

// requestReaders: exported functions of the model package that open a signed
// envelope and return a typed record.
func requestReaders(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.PkgFuncs("api/v0/ingest/model") {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() != 2 {
			continue
		}
		opens := false
		for f := range p.reach(fn) {
			for _, call := range callsIn(f) {
				if n := calleeName(call); n == nConsumeEnv || n == nConsumeTyped || strings.Contains(n, "/record.UnmarshalEnvelope") {
					opens = true
				}
			}
		}
		if opens || strings.HasPrefix(fn.Name(), "Read") {
			out = append(out, fn)
		}
	}
	return out
}

// constResult: the constant a one-block accessor returns (strings and []byte
// variables initialised once).
func (p *Prog) constMethod(t types.Type, name string) (string, bool) {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() != name {
			continue
		}
		fn := p.SSA.MethodValue(ms.At(i))
		if fn == nil {
			return "", false
		}
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				return p.constOf(r.Results[0])
			}
		}
	}
	return "", false
}

func (p *Prog) constOf(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return x.Value.ExactString(), true
		}
	case *ssa.Convert:
		return p.constOf(x.X)
	case *ssa.ChangeType:
		return p.constOf(x.X)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			var val ssa.Value
			n := 0
			for _, fn := range append(p.Funcs, g.Pkg.Func("init")) {
				if fn == nil {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							n++
							val = s.Val
						}
					}
				}
			}
			if n >= 1 {
				return p.constOf(val)
			}
		}
	}
	return "", false
}

func ruleA03(c *Ctx) {
	c.Rule("bound-signer", "a request reader returns a record without error only if the envelope it was given opened under the request type's own domain, the record has that type, and the record's provider ID matches the key that signed the envelope")
	readers := requestReaders(c.P)
	domains := map[string]string{}
	recTypes := map[string]bool{}
	readerOf := map[string]*ssa.Function{}
	for _, fn := range readers {
		readerOf[fullName(fn)] = fn
		okRet := 0
		h := &Hooks{Keep: func(t *Term) bool {
			return anySub(t, func(x *Term) bool {
				return x.Op == OCall && (x.S == nConsumeEnv || x.S == nConsumeTyped || x.S == nMatchesPub || x.S == nIDFromPub || strings.HasPrefix(x.S, "typeassert:"))
			})
		}}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			e := fr.E
			if len(res) != 2 || e.NonNil(st, res[1]) {
				return
			}
			okRet++
			where := c.whereIn(fr, site)
			rec := strip(res[0])
			env := callOf(rec)
			isEnv := env != nil && (env.S == nConsumeEnv || env.S == nConsumeTyped)
			c.Check(isEnv && errNil(st, func(x *Term) bool { return x == env }), st, where, fn.Name()+": record from a verified envelope", "the returned request does not come from an envelope whose signature was checked: "+res[0].String())
			if !isEnv {
				return
			}
			c.Check(env.Args[0].Op == OParam, st, where, fn.Name()+": envelope is the given data", "the verified envelope is not the one given by the caller")
			dom := ""
			if env.S == nConsumeEnv {
				dom, _ = constStr(env.Args[1])
			}
			rt := res[0].Typ
			if rt == nil {
				rt = fn.Signature.Results().At(0).Type()
			}
			want, okW := c.P.constMethod(rt, "Domain")
			if types.TypeString(rt, nil) == "*github.com/libp2p/go-libp2p-core/peer.PeerRecord" {
				// the library's record type (its methods' bodies are not loaded)
				want, okW = `"libp2p-peer-record"`, true
			}
			c.Check(dom != "" && okW && want == `"`+dom+`"`, st, where, fn.Name()+": domain of the request type", "the envelope is opened under domain "+dom+" but the request type's domain is "+want)
			if prev, dup := domains[dom]; dup && prev != fn.Name() {
				c.Bad(st, where, fn.Name()+": domain not shared", "two request types share the signing domain "+dom+": a signature for one is valid for the other")
			}
			domains[dom] = fn.Name()
			recTypes[types.TypeString(rt, nil)] = true
			pub := func(x *Term) bool {
				x = strip(x)
				return x.Op == OField && x.S == "PublicKey" && callOf(x.Args[0]) == env
			}
			id := func(x *Term) bool {
				x = strip(x)
				return x.Op == OField && isPeerID(x.Typ) && strip(x.Args[0]) == rec
			}
			ok := holds(st, true, func(t *Term) bool {
				return t.Op == OCall && t.S == nMatchesPub && id(t.Args[0]) && pub(t.Args[1])
			}) || eqFact(st, true, id, func(x *Term) bool {
				cl := callOf(x)
				return cl != nil && cl.S == nIDFromPub && pub(cl.Args[0]) && errNil(st, func(y *Term) bool { return y == cl })
			})
			c.Check(ok, st, where, fn.Name()+": provider ID matches the signing key", "a request can be accepted although the key that signed it does not belong to the provider it names")
		}
		c.Run(fn, h)
		c.AtLeast(1, okRet, "accepting returns of "+fn.Name())
	}
	c.AtLeast(3, len(readers), "request readers")

	c.Rule("distinct-domain", "request types have pairwise distinct signing domains and payload types")
	seenD, seenC := map[string]string{}, map[string]string{}
	for _, m := range c.P.Pkg("api/v0/ingest/model").Members {
		tn, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		pt := types.NewPointer(tn.Type())
		d, ok1 := c.P.constMethod(pt, "Domain")
		k, ok2 := c.P.constMethod(pt, "Codec")
		if c.P.SSA.MethodSets.MethodSet(pt).Lookup(nil, "MarshalRecord") == nil && !ok1 && !ok2 {
			continue
		}
		c.Check(ok1 && ok2, nil, c.P.Loc(tn.Pos()), "constant domain of "+tn.Name(), "the signing domain or payload type of "+tn.Name()+" is not a constant")
		if o, dup := seenD[d]; dup {
			c.Bad(nil, c.P.Loc(tn.Pos()), "domain of "+tn.Name(), tn.Name()+" and "+o+" share the signing domain "+d)
		}
		if o, dup := seenC[k]; dup {
			c.Bad(nil, c.P.Loc(tn.Pos()), "codec of "+tn.Name(), tn.Name()+" and "+o+" share the payload type "+k)
		}
		seenD[d], seenC[k] = tn.Name(), tn.Name()
	}
	c.AtLeast(2, len(seenD), "record types")

	c.Rule("handler-uses-verified-id", "every provider-changing effect of an ingest request handler is applied to the provider ID of a record returned without error by a request reader")
	n := handlerEffects(c, readerOf, func(st *State, ev *CallEv, where, what string, id *Term, rec *Term) {
		if rec == nil {
			c.Bad(st, where, what+" for the verified provider", "the effect is applied to a provider ID that does not come from a verified request: "+id.String())
			return
		}
		c.Check(errNil(st, func(x *Term) bool { return x == callOf(rec) }), st, where, what+" for the verified provider", "the effect happens although the request was not successfully verified")
	})
	c.AtLeast(4, n, "effects of the request handlers")
}

// handlerEffects runs the exported []byte-taking methods of the ingest
// handlers and calls f at each effect with the provider ID it is applied to
// and the request record that ID belongs to (nil if none).
func handlerEffects(c *Ctx, readers map[string]*ssa.Function, f func(st *State, ev *CallEv, where, what string, id, rec *Term)) int {
	n := 0
	for _, fn := range c.P.PkgFuncs("server/ingest/handler") {
		if fn.Parent() != nil || fn.Signature.Recv() == nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		takesData := false
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if typeIs(fn.Signature.Params().At(i).Type(), "[]byte") {
				takesData = true
			}
		}
		if !takesData {
			continue
		}
		h := &Hooks{Keep: func(t *Term) bool {
			return anySub(t, func(x *Term) bool {
				return x.Op == OCall && (readers[x.S] != nil || x.S == nCheckSeq || x.S == nRegOrUpd)
			})
		}}
		h.Call = func(st *State, ev *CallEv) {
			var id *Term
			what := ""
			switch {
			case ev.Name == nRegister:
				id = ev.E.pick(st, ev.Args[2], "AddrInfo", "ID")
				what = "Register"
			case ev.Name == nRegOrUpd:
				id, what = ev.Args[2], "RegisterOrUpdate"
			case ev.Name == nDiscover:
				id, what = ev.Args[1], "Discover"
			case idxCall(ev.Name, "Put"):
				id, what = ev.E.pick(st, ev.Args[1], "ProviderID"), "index Put"
			case idxCall(ev.Name, "Remove"):
				id, what = ev.E.pick(st, ev.Args[1], "ProviderID"), "index Remove"
			case idxCall(ev.Name, "RemoveProvider"):
				id, what = ev.Args[2], "index RemoveProvider"
			case idxCall(ev.Name, "RemoveProviderContext"):
				id, what = ev.Args[1], "index RemoveProviderContext"
			default:
				return
			}
			n++
			if id == nil {
				id = ev.E.Nil()
			}
			var rec *Term
			s := strip(id)
			if s.Op == OField && s.Args[0] != nil {
				if cl := callOf(s.Args[0]); cl != nil && readers[cl.S] != nil {
					rec = s.Args[0]
				}
			}
			f(st, ev, c.whereIn(ev.Fr, ev.Site), fn.Name()+": "+what, id, rec)
		}
		c.Run(fn, h)
	}
	return n
}

func ruleA04(c *Ctx) {
	readerOf := map[string]*ssa.Function{}
	for _, fn := range requestReaders(c.P) {
		readerOf[fullName(fn)] = fn
	}
	c.Rule("gated", "a register, index or discover request takes effect only after the registry accepted the sequence number of that same request for that same provider")
	n := handlerEffects(c, readerOf, func(st *State, ev *CallEv, where, what string, id, rec *Term) {
		ok := rec != nil && errNil(st, func(x *Term) bool {
			return x.S == nCheckSeq && same(x.Args[1], id) && isField(x.Args[2], "Seq") && same(strip(x.Args[2]).Args[0], rec)
		})
		c.Check(ok, st, where, what+" only after its sequence number was accepted", "the request takes effect without its own sequence number having been accepted for its own provider")
	})
	c.AtLeast(4, n, "effects of the request handlers")

	c.Rule("monotone", "a sequence number is accepted only if, in one critical section, it is not older than the age limit and greater than the remembered number of that provider, and it becomes the remembered number")
	chk := c.Need(c.P.Method("internal/registry", "Registry", "CheckSequence"), "Registry.CheckSequence")
	if chk == nil {
		return
	}
	seqMap := func(t *Term) bool {
		m, ok := t.Typ, t.Typ != nil
		if !ok {
			return false
		}
		mt, ok := m.Underlying().(*types.Map)
		return ok && isPeerID(mt.Key()) && typeIs(mt.Elem(), "uint64")
	}
	// older: the age-limit comparison seq < limit
	isAge := func(t *Term) bool {
		return anySub(t, func(x *Term) bool {
			return x.Op == OCall && (x.S == "time.Now" || x.S == "time.Since" || strings.HasPrefix(x.S, "(time.Time)."))
		})
	}
	// the quantities an age limit is computed from
	ingredients := func(t *Term) string {
		m := map[string]bool{}
		anySub(t, func(x *Term) bool {
			if x.Op == OField && x.Typ != nil {
				if _, basic := x.Typ.Underlying().(*types.Basic); basic {
					m["."+x.S] = true
				}
			}
			if k, ok := constInt(x); ok && k != 0 && k != -1 {
				m[itoa(k)] = true
			}
			return false
		})
		return strings.Join(sortedKeys(m), " ")
	}
	limCheck, limRetire := map[string]bool{}, map[string]bool{}
	limits := func(st *State, into map[string]bool) {
		for t := range st.facts {
			if t.Op == OBin && t.S == "<" {
				for _, a := range t.Args {
					if isAge(a) {
						into[ingredients(a)] = true
					}
				}
			}
		}
	}
	accepts, stores := 0, 0
	h := &Hooks{Keep: func(t *Term) bool {
		return t.Op == OBin || t.Op == OExtract || anySub(t, func(x *Term) bool { return x.Op == OLookup })
	}}
	h.Call = func(st *State, ev *CallEv) {
		if ev.Name == "time.Now" {
			c.Check(anyLock(st, true), st, c.whereIn(ev.Fr, ev.Site), "age limit computed inside the critical section", "the age limit is computed before entering the critical section: a number could be forgotten by the clean-up and then accepted again")
		}
	}
	h.MapRead = func(st *State, fr *Frame, site ssa.Instruction, m *Term) {
		c.Check(anyLock(st, true), st, c.whereIn(fr, site), "remembered number read under the lock", "the remembered sequence number is read without holding the lock")
	}
	h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
		if !seqMap(m) {
			return
		}
		stores++
		e := fr.E
		where := c.whereIn(fr, site)
		id, seq := rootParam(e, k, 1), rootParam(e, v, 2)
		c.Check(anyLock(st, true), st, where, "number remembered under the lock", "the sequence number is remembered without holding the lock")
		c.Check(id && seq, st, where, "the accepted number is what is remembered", "what is remembered is not the given number for the given provider: "+k.String()+" → "+v.String())
		isPrev := func(t *Term) bool {
			t = strip(t)
			if t.Op == OExtract && t.I == 0 {
				t = t.Args[0]
			}
			return t.Op == OLookup && same(t.Args[1], k)
		}
		// no previous number, or previous < seq
		fresh := holds(st, false, func(t *Term) bool {
			return t.Op == OExtract && t.I == 1 && t.Args[0].Op == OLookup && same(t.Args[0].Args[1], k)
		}) || holds(st, true, func(t *Term) bool {
			return t.Op == OBin && t.S == "<" && isPrev(t.Args[0]) && same(t.Args[1], v)
		})
		c.Check(fresh, st, where, "accepted only if greater than the remembered number", "a sequence number can be accepted although a greater or equal one was already accepted for the provider")
		notOld := holds(st, false, func(t *Term) bool {
			return t.Op == OBin && t.S == "<" && same(t.Args[0], v) && isAge(t.Args[1])
		}) || holds(st, true, func(t *Term) bool {
			return t.Op == OBin && t.S == "<" && isAge(t.Args[0]) && same(t.Args[1], v)
		})
		c.Check(notOld, st, where, "accepted only if within the age limit", "a sequence number older than the age limit can be accepted: once forgotten, an old request could be replayed")
		limits(st, limCheck)
		st.Set("stored", "1")
	}
	h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
		if fr.E.NonNil(st, res[0]) {
			return
		}
		accepts++
		c.Check(st.Has("stored"), st, c.whereIn(fr, site), "acceptance implies remembered", "a sequence number can be accepted without being remembered: it can be replayed")
		c.Check(!anyLock(st, false), st, c.whereIn(fr, site), "lock released", "the lock is still held on return")
	}
	c.Run(chk, trackLocks(h))
	c.AtLeast(1, accepts, "accepting exits")
	c.AtLeast(1, stores, "stores of the accepted number")

	c.Rule("retire", "a remembered number is forgotten only if it is older than the age limit, decided under the lock")
	reach := c.P.reach(chk)
	m := 0
	for _, fn := range c.P.PkgFuncs("internal/registry") {
		if reach[fn] || fn.Parent() != nil {
			continue
		}
		touches := false
		for f := range withClosures(fn) {
			touches = touches || storesMapField(f, seqMap)
		}
		if !touches {
			continue
		}
		if isConstructorOf(fn) {
			continue
		}
		m++
		rebuilds := false
		for f := range withClosures(fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.Store); ok {
						if _, ok := x.Addr.(*ssa.FieldAddr); ok && seqMap(&Term{Typ: x.Val.Type()}) {
							rebuilds = true
						}
					}
				}
			}
		}
		h := &Hooks{}
		h.Call = func(st *State, ev *CallEv) {
			if ev.Name == "time.Now" {
				c.Check(anyLock(st, true), st, c.whereIn(ev.Fr, ev.Site), "age limit computed inside the critical section", "the clean-up's age limit is not computed inside the critical section")
			}
		}
		iter := func(t *Term) bool {
			return anySub(t, func(x *Term) bool { return x.Op == ONext })
		}
		h.Keep = func(t *Term) bool {
			return t.Op == OBin && t.S == "<" || t.Op == OExtract && t.Args[0].Op == ONext
		}
		old := func(st *State) bool {
			return holds(st, true, func(t *Term) bool { return t.Op == OBin && t.S == "<" && iter(t.Args[0]) && isAge(t.Args[1]) })
		}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, mm, k, v *Term) {
			if !seqMap(mm) {
				return
			}
			c.Check(iter(k) && iter(v), st, c.whereIn(fr, site), "kept entries are copied unchanged", "the clean-up changes a remembered number: "+k.String()+" → "+v.String())
			st.Set("kept", "1")
		}
		h.MapDelete = func(st *State, fr *Frame, site ssa.Instruction, mm, k *Term) {
			if !seqMap(mm) {
				return
			}
			c.Check(anyLock(st, true), st, c.whereIn(fr, site), "forgetting under the lock", "entries are forgotten without holding the lock")
			c.Check(old(st), st, c.whereIn(fr, site), "only numbers older than the age limit are forgotten", "a sequence number that would still be accepted can be forgotten: the request can be replayed")
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) {
			if addr.Op == OFieldAddr && val.Typ != nil && seqMap(val) {
				c.Check(anyLock(st, true), st, c.whereIn(fr, site), "map replaced under the lock", "the remembered numbers are replaced without holding the lock")
				full := holds(st, false, func(t *Term) bool { return t.Op == OExtract && t.I == 0 && t.Args[0].Op == ONext })
				c.Check(full, st, c.whereIn(fr, site), "map replaced only after all entries were examined", "the remembered numbers are replaced although not all of them were examined: forgotten ones can be replayed")
			}
		}
		h.Next = func(st *State, fr *Frame, site ssa.Instruction, next *Term, inIter bool) {
			if inIter && rebuilds && next.Args[0].Typ != nil {
				c.Check(st.Has("kept") || old(st), st, c.whereIn(fr, site), "only numbers older than the age limit are forgotten", "a sequence number that would still be accepted can be forgotten: the request can be replayed")
			}
			if inIter {
				limits(st, limRetire)
			}
			st.Del("kept")
		}
		c.Run(fn, trackLocks(h))
	}
	c.AtLeast(1, m, "clean-up functions of the remembered numbers")
	a, b := strings.Join(sortedKeys(limCheck), " / "), strings.Join(sortedKeys(limRetire), " / ")
	c.Check(a == b, nil, "internal/registry", "accepting and forgetting use the same age limit", "the age limit for forgetting is computed from ("+b+") but the one for accepting from ("+a+"): a forgotten number could still be accepted")
}

// rootParam: t is the i-th parameter of the root (0 = receiver).
func rootParam(e *Engine, t *Term, i int) bool {
	t = strip(t)
	return t != nil && t.Op == OParam && t.I == i
}

func withClosures(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{fn: true}
	for _, a := range fn.AnonFuncs {
		for f := range withClosures(a) {
			out[f] = true
		}
	}
	return out
}

func storesMapField(fn *ssa.Function, seqMap func(*Term) bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && seqMap(&Term{Typ: x.Val.Type()}) {
					_ = fa
					return true
				}
			case *ssa.MapUpdate:
				if seqMap(&Term{Typ: x.Map.Type()}) {
					return true
				}
			case *ssa.Call:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" && seqMap(&Term{Typ: x.Common().Args[0].Type()}) {
					return true
				}
			}
		}
	}
	return false
}

// isConstructorOf: the function builds its object (no receiver) rather than
// changing an existing one.
func isConstructorOf(fn *ssa.Function) bool {
	if fn.Signature.Recv() != nil {
		return false
	}
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			return false
		}
	}
	return true
}
