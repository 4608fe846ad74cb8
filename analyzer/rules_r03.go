package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R03", ruleR03)
}

// changesProviders: the function changes the map of registered providers.
func changesProviders(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if isProviders(x.Map.Type()) {
					return true
				}
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" && isProviders(x.Common().Args[0].Type()) {
					return true
				}
			}
		}
	}
	return false
}

// boolGetter: the field a one-field getter method of ProviderInfo returns.
func boolGetter(p *Prog, name string) string {
	f := p.Method("internal/registry", "ProviderInfo", name)
	if f == nil {
		return ""
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				return fieldNameOf(fa)
			}
		}
	}
	return ""
}

// persistedFields: the fields of a provider record that are written to the
// datastore.
func persistedFields(p *Prog) []string {
	pk := p.Types[pkgRegistry]
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup("ProviderInfo")
	if o == nil {
		return nil
	}
	s := o.Type().Underlying().(*types.Struct)
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

// recordOf: the term is the record (or a part of the record) registered under
// the key.
func recordOf(t, k *Term) bool {
	ks := strip(k)
	return anySub(t, func(x *Term) bool {
		if x.Op == OLookup && isProviders(x.Args[0].Typ) && same(x.Args[1], k) {
			return true
		}
		return x.Op == OExtract && x.I == 2 && x.Args[0].Op == ONext && ks.Op == OExtract && ks.I == 1 && ks.Args[0] == x.Args[0]
	})
}

func ruleR03(c *Ctx) {
	const (
		rPer = "a registration is acknowledged only after the record, as registered, was written to the datastore under the provider's key and synced without error"
		rReg = "registering reports success only if the record was entered in the registry, under its own ID"
		rDel = "whenever a provider is removed from the registry its stored record is removed too, and its removal is acknowledged only if that was synced without error"
		rTel = "whenever a registered provider is removed from the registry a record marked as deleted is sent to the ingester"
		rLd  = "at start-up every stored record is entered in the registry under the ID it is stored for, unless the policy forbids it; a record that cannot be read fails the start"
		rFld = "what is stored of a record is what is read back: every exported field, from and to the same place"
	)
	p := c.P
	var pers, dels, told, loads, exits int
	delField := boolGetter(p, "Deleted")
	pf := persistedFields(p)
	prefixes := map[string]bool{}
	queries := map[string]bool{}
	norm := func(s string) string { return strings.Trim(s, "/") }
	isDs := func(t *Term) bool {
		t = strip(t)
		return t != nil && t.Typ != nil && strings.HasPrefix(t.Typ.String(), "github.com/ipfs/go-datastore.")
	}
	id := func(t *Term) string { return strconv.Itoa(strip(t).ID) }
	for _, root := range topsReaching(c, "internal/registry", changesProviders) {
		h := skipNamedGo(&Hooks{})
		// outcomes of the datastore calls
		outcome := func(st *State) {
			for _, m := range []string{"Put", "Sync", "Delete"} {
				if errNil(st, func(x *Term) bool { return dsCall(x.S, m) && st.Get("call"+m) == strconv.Itoa(x.ID) }) {
					st.Set("ok"+m, "1")
				}
			}
			if nilFact(st, true, isDs) {
				st.Set("nods", "1")
			}
			if nilFact(st, true, func(t *Term) bool { return t.Op == OLookup && isProviders(t.Args[0].Typ) }) {
				st.Set("absent", "1")
			}
			if holds(st, false, func(t *Term) bool {
				return t.Op == OExtract && t.I == 1 && t.Args[0].Op == OLookup && isProviders(t.Args[0].Args[0].Typ)
			}) {
				st.Set("absent", "1")
			}
		}
		stored := func(st *State) bool {
			return st.Has("nods") || st.Has("okPut") && st.Has("okSync") && st.Get("order") == "ps" && st.Get("putrec") == st.Get("rec")
		}
		unstored := func(st *State) bool {
			return st.Has("nods") || st.Has("okDelete") && st.Has("okSync") && st.Get("order") == "ds"
		}
		// answer: an error, nil or not, is reported
		answer := func(st *State, fr *Frame, where string, v *Term) {
			n := st.clone()
			if !fr.E.Assume(n, fr.E.eq(v, fr.E.Nil()), true) {
				st.Set("failed", "1")
				return
			}
			outcome(n)
			if st.Has("reg") {
				pers++
				c.Rule("persisted", rPer)
				c.Check(stored(n), st, where, "acknowledged only if stored", "a registration is acknowledged although the record was not (successfully) written and synced")
			}
			if st.Has("del") {
				dels++
				c.Rule("removed", rDel)
				c.Check(unstored(n), st, where, "removal acknowledged only if stored", "a removal is acknowledged although the stored record was not (successfully) removed and synced")
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			outcome(st)
			cd, v := bare(cond, val)
			if !v && cd.Op == OCall && cd.S == nPolAllowed {
				st.Del("pend")
			}
			if !v && cd.Op == OExtract && cd.I == 1 && cd.Args[0].Op == ORecv {
				st.Del("pend")
				st.Set("all", "1")
			}
		}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			if !isProviders(m.Typ) {
				return
			}
			where := c.whereIn(fr, site)
			e := fr.E
			if !fr.InActor() {
				loads++
				st.Del("pend")
				c.Rule("load", rLd)
				c.Check(anySub(k, func(x *Term) bool { return x.Op == OCall && x.S == nPeerDecode }) && anySub(k, func(x *Term) bool { return isField(x, "Key") }), st, where, "entered under the stored ID", "a stored record is entered under another ID than the one it is stored for")
				c.Check(st.Get("decoded") == id(v) && st.Has("decodedok"), st, where, "stored record entered", "what is entered in the registry is not the decoded stored record")
				return
			}
			keep := len(pf) > 0
			for _, f := range pf {
				nv := e.pick(st, v, f)
				keep = keep && nv != nil && recordOf(nv, k) && nv.Op == OField && nv.S == f
			}
			if keep {
				return // nothing that is stored has changed
			}
			st.Set("reg", id(k))
			st.Set("rec", id(v))
			st.Del("failed")
			if st.Get("putrec") != id(v) {
				for _, x := range []string{"okPut", "okSync", "order", "callPut", "callSync"} {
					st.Del(x)
				}
			}
			c.Rule("registered", rReg)
			c.Check(same(e.pick(st, v, "AddrInfo", "ID"), k), st, where, "registered under its ID", "a record is entered in the registry under another ID than its own")
		}
		h.MapDelete = func(st *State, fr *Frame, site ssa.Instruction, m, k *Term) {
			if !isProviders(m.Typ) {
				return
			}
			st.Set("del", id(k))
			if st.Get("told") != id(k) {
				st.Set("tell", id(k))
			}
			for _, x := range []string{"okDelete", "okSync", "order", "callDelete", "callSync", "failed"} {
				st.Del(x)
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			e := ev.E
			switch {
			case dsCall(ev.Name, "Put"), dsCall(ev.Name, "Delete"):
				m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
				pre, rest, ok := keyParts(ev.Args[2])
				pr := peerOfString(rest)
				if !ok || pr == nil {
					c.Rule("persisted", rPer)
					c.Bad(st, where, "provider key", "a record is written or removed under a key that is not made of a prefix and a provider's ID")
					return
				}
				prefixes[norm(pre)] = true
				if m == "Put" {
					val := strip(ev.Args[3])
					var rec *Term
					if val.Op == OExtract && val.I == 0 && val.Args[0].Op == OCall && val.Args[0].S == "encoding/json.Marshal" {
						rec = strip(val.Args[0].Args[0])
					}
					if rec != nil && isInfoPtr0(rec) && same(e.pick(st, rec, "AddrInfo", "ID"), pr) {
						st.Set("callPut", strconv.Itoa(ev.Result.ID))
						st.Set("putrec", id(rec))
						st.Set("putkey", id(pr))
						st.Del("okPut")
						st.Del("okSync")
						st.Set("order", "p")
					} else {
						c.Rule("persisted", rPer)
						c.Bad(st, where, "the registered record is stored", "what is written is not the record that was registered, or not under its provider's key")
					}
				} else if id(pr) == st.Get("del") {
					st.Set("callDelete", strconv.Itoa(ev.Result.ID))
					st.Set("order", "d")
				} else {
					c.Rule("removed", rDel)
					c.Bad(st, where, "the removed provider's record is removed", "a stored record other than that of the removed provider is removed")
				}
			case dsCall(ev.Name, "Sync"):
				if o := st.Get("order"); o == "p" || o == "d" {
					pre, rest, ok := keyParts(ev.Args[2])
					pr := peerOfString(rest)
					want := st.Get("putkey")
					if o == "d" {
						want = st.Get("del")
					}
					if ok && (pr == nil && rest == nil || pr != nil && id(pr) == want) {
						_ = pre
						st.Set("order", o+"s")
						st.Set("callSync", strconv.Itoa(ev.Result.ID))
						st.Del("okSync")
					}
				}
			case dsCall(ev.Name, "Query"):
				if q := e.pick(st, ev.Args[2], "Prefix"); q != nil {
					if s, ok := constStr(q); ok {
						queries[norm(s)] = true
					}
				}
			case ev.Name == "encoding/json.Unmarshal":
				if isInfoPtr0(strip(ev.Args[1])) {
					if anySub(ev.Args[0], func(x *Term) bool { return isField(x, "Value") }) {
						st.Set("decoded", id(ev.Args[1]))
					}
				}
			}
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			raw := v
			v = strip(v)
			if v == nil {
				return
			}
			if isInfoPtr0(v) {
				e := fr.E
				if dv := e.pick(st, v, delField); dv != nil {
					if b, ok := constBool(dv); ok && b {
						// whose record is it?
						idt := e.pick(st, v, "AddrInfo", "ID")
						if idt != nil {
							anySub(idt, func(x *Term) bool {
								if x.Op == OLookup && isProviders(x.Args[0].Typ) {
									st.Set("told", id(x.Args[1]))
								}
								if x.Op == OExtract && x.I == 2 && x.Args[0].Op == ONext {
									st.Set("told", id(e.extract(x.Args[0], 1)))
								}
								return false
							})
						}
						if st.Get("told") == st.Get("tell") {
							st.Del("tell")
						}
					}
				}
				return
			}
			if fr.InActor() {
				if ct, ok := ch.Typ.Underlying().(*types.Chan); ok && isErrorType(ct.Elem()) {
					answer(st, fr, c.whereIn(fr, site), raw)
				}
			}
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			ct, ok := ch.Typ.Underlying().(*types.Chan)
			if !ok {
				return
			}
			if typeIs(ct.Elem(), "github.com/ipfs/go-datastore/query.Result") {
				c.Rule("load", rLd)
				c.Check(!st.Has("pend"), st, c.whereIn(fr, site), "no stored record is passed over", "a stored record is neither entered in the registry nor forbidden by the policy")
				st.Set("pend", "1")
				st.Set("query", "1")
			}
			if s, ok := ct.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 && ch.Op != OAlloc {
				if _, sel := site.(*ssa.Select); sel {
					st.Set("closing", "1")
				}
			}
		}
		tellCheck := func(st *State, fr *Frame, where string) {
			if !st.Has("del") {
				return
			}
			told++
			c.Rule("told", rTel)
			c.Check(!st.Has("tell") || st.Has("absent") || st.Has("closing") || st.Has("failed"), st, where, "the ingester is told", "a provider is removed from the registry without the ingester being told to remove its data")
		}
		h.Next = func(st *State, fr *Frame, site ssa.Instruction, next *Term, inIter bool) {
			if !fr.InActor() {
				return
			}
			if st.Has("del") {
				where := c.whereIn(fr, site)
				c.Rule("removed", rDel)
				c.Check(st.Has("nods") || st.Has("callDelete"), st, where, "stored record removed", "a provider is removed from the registry but its stored record is not")
				tellCheck(st, fr, where)
			}
			for _, x := range []string{"del", "tell", "told", "absent", "okDelete", "okSync", "callDelete", "callSync", "order"} {
				st.Del(x)
			}
		}
		h.Return = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if !fr.Actor || fr.Up == nil {
				return
			}
			if st.Has("reg") {
				c.Rule("persisted", rPer)
				n := st.clone()
				outcome(n)
				c.Check(st.Has("failed") || stored(n), st, c.whereIn(fr, site), "stored or reported", "a registration ends neither stored nor reported as failed")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			where := c.whereIn(fr, site)
			e := fr.E
			if len(res) == 0 || !isErrorType(fr.Fn.Signature.Results().At(len(res)-1).Type()) {
				return
			}
			n := st.clone()
			if !e.Assume(n, e.eq(res[len(res)-1], e.Nil()), true) {
				return
			}
			outcome(n)
			exits++
			if st.Has("query") {
				c.Rule("load", rLd)
				c.Check(!st.Has("pend") && st.Has("all"), st, where, "all stored records are read", "the start succeeds although not every stored record was dealt with")
			}
			if fr.Fn.Name() == "Register" || fr.Fn.Name() == "RegisterOrUpdate" {
				c.Rule("registered", rReg)
				c.Check(st.Has("reg"), st, where, "success only if registered", "registering reports success although nothing was registered")
				c.Rule("persisted", rPer)
				c.Check(stored(n), st, where, "acknowledged only if stored", "a registration is acknowledged although the record was not (successfully) written and synced")
			}
			if fr.Fn.Name() == "RemoveProvider" {
				c.Rule("removed", rDel)
				c.Check(st.Has("del") && unstored(n), st, where, "removal acknowledged only if done", "a removal is acknowledged although it was not carried out")
				tellCheck(n, fr, where)
			}
		}
		// decoding of a stored record succeeded
		asm := h.Assume
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			asm(st, fr, site, cond, val)
			if errNil(st, func(x *Term) bool { return x.S == "encoding/json.Unmarshal" }) {
				st.Set("decodedok", "1")
			}
		}
		c.Run(root, h)
	}
	c.Rule("persisted", rPer)
	c.AtLeast(2, pers, "acknowledged registrations")
	c.AtLeast(1, len(prefixes), "stored records")
	c.Rule("removed", rDel)
	c.AtLeast(1, dels, "acknowledged removals")
	c.Rule("told", rTel)
	c.AtLeast(2, told, "removals")
	c.Rule("load", rLd)
	c.AtLeast(1, loads, "records loaded")
	c.AtLeast(1, len(queries), "queries for stored records")
	for q := range queries {
		for pre := range prefixes {
			c.Check(q == pre, nil, pkgRegistry, "records are looked for where they are stored", "records are stored under "+pre+" but looked for under "+q)
		}
	}
	c.Rule("fields", rFld)
	roundTrip(c, rFld)
}

// roundTrip: MarshalJSON and UnmarshalJSON of the provider record treat the
// same fields, and no exported field is left out.
func roundTrip(c *Ctx, rule string) {
	p := c.P
	o := p.Types[pkgRegistry].Scope().Lookup("ProviderInfo")
	if o == nil {
		c.Bad(nil, pkgRegistry, "provider record", "type not found")
		return
	}
	s := o.Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		name := strings.Split(tag, ",")[0]
		c.Check(name != "-", nil, pkgRegistry, "field "+s.Field(i).Name()+" stored", "an exported field of the provider record is not stored")
	}
	m := p.Method("internal/registry", "ProviderInfo", "MarshalJSON")
	u := p.Method("internal/registry", "ProviderInfo", "UnmarshalJSON")
	if m == nil && u == nil {
		return
	}
	if m == nil || u == nil {
		c.Bad(nil, pkgRegistry, "both directions", "the provider record has a custom encoder or decoder but not both")
		return
	}
	// auxFields: fields of the auxiliary struct and whether it embeds the record
	aux := func(t types.Type) (names []string, embeds bool) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				embeds = true
			} else {
				names = append(names, st.Field(i).Name())
			}
		}
		return
	}
	var mf, uf []string
	hm := &Hooks{}
	hm.Call = func(st *State, ev *CallEv) {
		if ev.Name != "encoding/json.Marshal" {
			return
		}
		arg := strip(ev.Args[0])
		names, emb := aux(arg.Typ)
		mf = names
		where := c.whereIn(ev.Fr, ev.Site)
		c.Rule("fields", rule)
		c.Check(emb, st, where, "whole record encoded", "the encoder does not encode the whole record")
		for _, n := range names {
			v := ev.E.pick(st, arg, n)
			ok := v != nil && anySub(v, func(x *Term) bool { return isField(x, n) })
			if !ok && v != nil {
				if cs, isC := constStr(v); isC && cs == "" {
					ok = nilFact(st, true, func(x *Term) bool { return isField(x, n) })
				}
			}
			c.Check(ok, st, where, "field "+n+" encoded from itself", "the encoder fills "+n+" from something else than the record's "+n)
		}
	}
	c.Run(m, hm)
	hu := &Hooks{}
	hu.Call = func(st *State, ev *CallEv) {
		if ev.Name != "encoding/json.Unmarshal" {
			return
		}
		arg := strip(ev.Args[1])
		names, emb := aux(arg.Typ)
		uf = names
		c.Rule("fields", rule)
		c.Check(emb, st, c.whereIn(ev.Fr, ev.Site), "whole record decoded", "the decoder does not decode the whole record")
	}
	hu.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, v *Term) {
		if addr.Op == OFieldAddr && anySub(v, func(x *Term) bool { return isField(x, addr.S) || x.Op == OOpaque }) {
			st.Set("set:"+addr.S, "1")
		}
	}
	hu.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
		cd, v := bare(cond, val)
		if v && cd.Op == OBin && cd.S == "==" && (isStrConst(cd.Args[0], "") || isStrConst(cd.Args[1], "")) {
			for _, n := range uf {
				if anySub(cd, func(x *Term) bool { return isField(x, n) || x.Op == OOpaque && strings.Contains(x.String(), n) }) {
					st.Set("empty:"+n, "1")
				}
			}
		}
	}
	hu.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
		if len(res) != 1 {
			return
		}
		n := st.clone()
		if !fr.E.Assume(n, fr.E.eq(res[0], fr.E.Nil()), true) {
			return
		}
		for _, f := range uf {
			c.Rule("fields", rule)
			c.Check(st.Has("set:"+f) || st.Has("empty:"+f), st, c.whereIn(fr, site), "field "+f+" decoded", "the decoder does not restore "+f)
		}
	}
	c.Run(u, hu)
	c.Rule("fields", rule)
	c.Check(strings.Join(mf, ",") == strings.Join(uf, ","), nil, pkgRegistry, "encoder and decoder agree", "the encoder treats "+strings.Join(mf, ",")+" specially, the decoder "+strings.Join(uf, ","))
}
