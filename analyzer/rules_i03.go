package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I03", ruleI03)
}

// peerOfString: the peer ID whose String() is t.
func peerOfString(t *Term) *Term {
	t = strip(t)
	if t != nil && t.Op == OCall && strings.HasSuffix(t.S, "peer.ID).String") {
		return t.Args[0]
	}
	return nil
}

// stageRoots: functions that stage the advertisements of a finished sync.
func stageRoots(p *Prog) []*ssa.Function {
	var roots []*ssa.Function
	for _, f := range p.PkgFuncs("internal/ingest") {
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					hit = hit || fieldNameOf(x) == "SyncedCids"
				case *ssa.Field:
					hit = hit || x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name() == "SyncedCids"
				}
			}
		}
		if hit && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	return roots
}

// assignmentFields: the fields of a worker assignment holding the publisher
// and the provider.
func assignmentFields(c *Ctx) (pubs, provs map[string]bool) {
	pubs, provs = map[string]bool{}, map[string]bool{}
	for _, root := range stageRoots(c.P) {
		h := skipNamedGo(&Hooks{})
		h.Call = func(st *State, ev *CallEv) {
			if !strings.HasPrefix(ev.Name, "(*sync/atomic.Value).") || len(ev.Args) < 2 {
				return
			}
			v := strip(ev.Args[len(ev.Args)-1])
			s, ok := derefTypeStruct(v.Typ)
			if !ok {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				if !isPeerID(s.Field(i).Type()) {
					continue
				}
				x := strip(ev.E.pick(st, v, s.Field(i).Name()))
				switch {
				case x.Op == OField && x.S == "PeerID":
					pubs[s.Field(i).Name()] = true
				case x.Op == OExtract && x.Args[0].Op == ONext:
					provs[s.Field(i).Name()] = true
				}
			}
		}
		c.Run(root, h)
	}
	return
}

// prefixSites: datastore calls with method m on a key with the given constant
// prefix, in the whole repository.
func prefixSites(p *Prog, m, pre string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, f := range p.Funcs {
		if p.unused(f) {
			continue
		}
		for _, call := range callsIn(f) {
			if !dsCall(calleeName(call), m) {
				continue
			}
			a := call.Common().Args
			k := 1
			if k < len(a) && constPrefixOf(a[k], 0) == pre {
				out = append(out, call)
			}
		}
	}
	return out
}

func ruleI03(c *Ctx) {
	p := c.P
	w := newWorker(c)
	pubs, _ := assignmentFields(c)
	c.Rule("advance", "the sync pointer of the publisher is moved to an advertisement only after that advertisement's processed marker was stored, and then always; the advertisement's own block is removed only after the marker was stored")
	c.Check(len(pubs) > 0, nil, "internal/ingest", "publisher known", "the worker's assignment does not carry the publisher that was synced with")
	n := 0
	seen := map[ssa.Instruction]bool{}
	note := func(st *State, e *Engine) {
		id := st.Get("mk")
		if id == "" {
			return
		}
		r := e.T.byID(id)
		switch {
		case e.IsNil(st, r):
			st.Set("mkst", "ok")
		case e.NonNil(st, r):
			st.Set("mkst", "bad")
		}
	}
	end := func(st *State, where string) {
		if st.Get("mk") == "" {
			return
		}
		switch st.Get("mkst") {
		case "bad":
			c.Check(!st.Has("ptr"), st, where, "pointer not moved past an unmarked advertisement", "the sync pointer is moved although the marker was not stored")
		default:
			c.Check(st.Has("ptr"), st, where, "pointer moved", "an advertisement is marked processed without the sync pointer being moved to it")
		}
		for _, k := range []string{"mk", "mkst", "mkcid", "ptr"} {
			st.Del(k)
		}
	}
	for _, r := range w.roots {
		h := w.hooks(nil, func(st *State, ev *CallEv, cd *Term, v int64) {
			if v != 1 || cd == nil {
				return
			}
			n++
			st.Set("mk", strconv.Itoa(ev.Result.ID))
			st.Set("mkcid", strconv.Itoa(strip(cd).ID))
			st.Del("mkst")
			st.Del("ptr")
		}, func(st *State, fr *Frame) {
			end(st, shortFn(fr.Fn))
		})
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) { note(st, fr.E) }
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			note(st, fr.E)
			end(st, c.whereIn(fr, site))
		}
		base := h.Call
		h.Call = func(st *State, ev *CallEv) {
			base(st, ev)
			del := dsCall(ev.Name, "Delete")
			if !del && !dsCall(ev.Name, "Put") {
				return
			}
			pre, rest, ok := keyParts(ev.Args[2])
			if !ok || rest == nil {
				return
			}
			where := c.whereIn(ev.Fr, ev.Site)
			note(st, ev.E)
			if del && pre == "" && cidOfString(rest) != nil {
				good := st.Get("mkst") == "ok" && st.Get("mkcid") == strconv.Itoa(strip(cidOfString(rest)).ID)
				c.Check(good, st, where, "advertisement removed only once marked", "an advertisement's block is removed although its processed marker was not (successfully) stored before")
			}
			if pre != preSync {
				return
			}
			seen[ev.Site] = true
			c.Check(!del, st, where, "pointer kept", "the worker removes a sync pointer")
			if del {
				return
			}
			c.Check(st.Get("mkst") == "ok", st, where, "pointer moved only once marked", "the sync pointer is moved although the advertisement's processed marker was not (successfully) stored before")
			pub := strip(peerOfString(rest))
			okP := pub != nil && pub.Op == OField && pubs[pub.S]
			c.Check(okP, st, where, "pointer of the publisher", "the sync pointer that is moved is not the one of the publisher the advertisement came from")
			b := strip(ev.Args[3])
			okV := b != nil && b.Op == OCall && strings.HasSuffix(b.S, "go-cid.Cid).Bytes") && st.Get("mkcid") == strconv.Itoa(strip(b.Args[0]).ID)
			c.Check(okV, st, where, "pointer moved to the marked advertisement", "the sync pointer is moved to another advertisement than the one marked processed")
			st.Set("ptr", "1")
		}
		c.Run(r, h)
	}
	c.AtLeast(1, n, "processed marks")
	for _, s := range prefixSites(p, "Put", preSync) {
		c.Check(seen[s], nil, p.instrLoc(s)+" in "+shortFn(s.Parent()), "no other writer", "a sync pointer is written elsewhere than after marking an advertisement processed")
	}

	c.Rule("reader", "an advertisement is taken as processed exactly if its marker can be read and has the processed value")
	m := 0
	for _, f := range p.PkgFuncs("internal/ingest") {
		if f.Parent() != nil || f.Synthetic != "" || !readsMarker(p, f) || !hasCall(f, func(n string) bool { return dsCall(n, "Get") }) {
			continue
		}
		m++
		var get *Term
		h := &Hooks{Keep: func(t *Term) bool { return true }}
		h.Call = func(st *State, ev *CallEv) {
			if dsCall(ev.Name, "Get") {
				get = ev.Result
				st.Set("get", "1")
				pre, rest, ok := keyParts(ev.Args[2])
				cd := cidOfString(rest)
				good := ok && pre == preProcessed && cd != nil && strip(cd).Op == OParam
				c.Check(good, st, c.whereIn(ev.Fr, ev.Site), "reads the marker of the advertisement asked for", "another key is read than the marker of the advertisement asked for")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			e := fr.E
			where := c.whereIn(fr, site)
			if !st.Has("get") {
				c.Bad(st, where, "marker read", "an answer is given without reading the marker")
				return
			}
			val, err := e.extract(get, 0), e.extract(get, 1)
			isVal := func(t *Term) bool { return contains(t, val) }
			for _, rd := range []bool{true, false} {
				if rd && e.NonNil(st, err) || !rd && e.IsNil(st, err) {
					continue
				}
				for _, one := range []bool{true, false} {
					atom := func(t *Term) (bool, bool) {
						if t.Op == OBin && t.S == "==" {
							for i := 0; i < 2; i++ {
								if k, ok := constInt(t.Args[1-i]); ok && isVal(t.Args[i]) {
									switch {
									case t.Args[i].Op == OLen:
										if k == 0 && one {
											return false, true
										}
										if k == 1 {
											return true, true
										}
										return false, false
									case k == 1:
										return one, true
									case k == 0:
										return !one, true
									}
								}
								if t.Args[1-i].Op == ONil && same(t.Args[i], err) {
									return rd, true
								}
							}
						}
						if t.Op == OBin && t.S == "<" && t.Args[1].Op == OLen && isVal(t.Args[1]) && isConstN(t.Args[0], 0) && one {
							return true, true
						}
						if t.Op == OCall && t.S == "bytes.Equal" && (isVal(t.Args[0]) || isVal(t.Args[1])) {
							return one, true
						}
						return false, false
					}
					if !feasible(st, atom) {
						continue
					}
					v, known := evalBool(res[0], atom)
					c.Check(known && v == (rd && one), st, where, "true exactly if marked", "the answer does not follow the stored marker: "+res[0].String())
				}
			}
		}
		c.Run(f, h)
	}
	c.AtLeast(1, m, "readers of the processed marker")

	c.Rule("latest", "the last synced advertisement of a publisher is the one stored under that publisher; none if nothing is stored; a failed read is an error")
	if f := c.Need(p.Method("internal/ingest", "Ingester", "GetLatestSync"), "Ingester.GetLatestSync"); f != nil {
		var get *Term
		h := &Hooks{Keep: func(t *Term) bool { return true }}
		cfb := func(t *Term) *Term {
			t = callOf(strip(t))
			if t != nil && strings.HasSuffix(t.S, "go-cid.CidFromBytes") || t != nil && strings.HasSuffix(t.S, "go-cid.Cast") {
				return t
			}
			return nil
		}
		h.Call = func(st *State, ev *CallEv) {
			if dsCall(ev.Name, "Get") {
				get = ev.Result
				st.Set("get", "1")
				pre, rest, ok := keyParts(ev.Args[2])
				pr := strip(peerOfString(rest))
				c.Check(ok && pre == preSync && pr != nil && rootParam(ev.E, pr, 1), st, c.whereIn(ev.Fr, ev.Site), "reads the pointer of the publisher asked for", "another key is read than the sync pointer of the publisher asked for")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			e := fr.E
			where := c.whereIn(fr, site)
			if !st.Has("get") {
				c.Bad(st, where, "pointer read", "an answer is given without reading the stored pointer")
				return
			}
			err := e.extract(get, 1)
			nf := func(v bool) bool {
				g := func(t *Term) bool { return t.Op == OGlobal && strings.HasSuffix(t.S, "go-datastore.ErrNotFound") }
				return eqFact(st, v, is(err), func(t *Term) bool { return anySub(t, g) }) || holds(st, v, func(t *Term) bool {
					return t.Op == OCall && t.S == "errors.Is" && contains(t.Args[0], err) && anySub(t.Args[1], g)
				})
			}
			switch {
			case e.IsNil(st, err):
				c1, c2 := cfb(res[0]), cfb(res[1])
				if e.NonNil(st, res[1]) {
					c.Check(errNonNil(st, func(x *Term) bool { return cfb(x) != nil || x == c2 }), st, where, "stored pointer returned", "a stored pointer is reported as an error")
					return
				}
				good := c1 != nil && contains(c1, e.extract(get, 0)) && (c1 == c2 || errNil(st, func(x *Term) bool { return x == c1 }))
				c.Check(good, st, where, "stored pointer returned", "the answer is not the stored advertisement: "+res[0].String())
			case nf(true):
				c.Check(e.IsNil(st, res[1]) && isUndef(res[0]), st, where, "nothing stored is no error", "an unknown publisher is not answered with 'none'")
			case e.NonNil(st, err):
				if e.NonNil(st, res[1]) {
					c.OK(where, "failed read is an error")
					return
				}
				c.Check(false, st, where, "failed read is an error", "a failed read of the pointer is not reported: the chain would be taken as never synced")
			default:
				c.Bad(st, where, "failed read is an error", "the result of reading the pointer is not examined")
			}
		}
		c.Run(f, h)
	}

	c.Rule("handler", "the subscriber learns the last synced advertisement from the stored pointer only and cannot move it itself")
	k := 0
	for _, f := range p.Funcs {
		for _, call := range callsIn(f) {
			if calleeName(call) != "github.com/filecoin-project/go-legs.UseLatestSyncHandler" {
				continue
			}
			mi, ok := call.Common().Args[0].(*ssa.MakeInterface)
			if !ok {
				c.Bad(nil, p.instrLoc(call), "handler type", "the handler of sync pointers is not a known type")
				continue
			}
			k++
			ms := p.SSA.MethodSets.MethodSet(mi.X.Type())
			for i := 0; i < ms.Len(); i++ {
				fn := p.SSA.MethodValue(ms.At(i))
				switch ms.At(i).Obj().Name() {
				case "SetLatestSync":
					for g := range p.reach(fn) {
						for _, cl := range callsIn(g) {
							nm := calleeName(cl)
							c.Check(!dsCall(nm, "Put") && !dsCall(nm, "Delete"), nil, p.instrLoc(cl), "subscriber does not move the pointer", "the subscriber's own notion of the last sync is stored: advertisements not yet processed would be taken as done")
						}
					}
					c.OK(shortFn(fn), "SetLatestSync changes nothing stored")
				case "GetLatestSync":
					nG := "(*" + pkgIngest + ".Ingester).GetLatestSync"
					h := &Hooks{Opaque: func(f *ssa.Function) bool { return fullName(f) == nG }, Keep: func(t *Term) bool { return true }}
					h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
						e := fr.E
						where := c.whereIn(fr, site)
						if e.IsFalse(st, res[1]) {
							c.Check(!errNil(st, func(x *Term) bool { return x.S == nG }), st, where, "stored pointer used", "a stored pointer is withheld from the subscriber")
							return
						}
						cl := callOf(strip(res[0]))
						good := cl != nil && cl.S == nG && rootParam(e, cl.Args[1], 1) && (errNil(st, func(x *Term) bool { return x == cl }) || isNilCmp(res[1], e.extract(cl, 1)))
						c.Check(good, st, where, "pointer of the publisher asked for", "the subscriber is given something else than the stored pointer of that publisher")
					}
					c.Run(fn, h)
				}
			}
		}
	}
	c.AtLeast(1, k, "handlers of sync pointers")

	c.Rule("remove", "when the registry reports a provider as deleted, the sync pointer of its publisher is removed; no pointer is removed otherwise")
	dels := map[ssa.Instruction]bool{}
	roots := entryRoots(c, "internal/ingest", func(n string) bool { return n == nSyncChan })
	c.AtLeast(1, len(roots), "readers of the registry's sync channel")
	for _, r := range deepestOf(roots, nSyncChan) {
		h := skipNamedGo(&Hooks{})
		fin := func(st *State, where string) {
			if st.Has("del") && !st.Has("inv") {
				c.Check(st.Has("gone"), st, where, "pointer of a deleted provider removed", "a provider is deleted but the sync pointer of its publisher stays: if it comes back its old advertisements are not ingested again")
			}
			for _, k := range []string{"del", "inv", "gone"} {
				st.Del(k)
			}
		}
		fromChan := func(t *Term) bool {
			return anySub(t, func(x *Term) bool { return x.Op == OCall && x.S == nSyncChan }) || anySub(t, func(x *Term) bool { return x.Typ != nil && strings.HasSuffix(x.Typ.String(), "registry.ProviderInfo") })
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cond, val = bare(cond, val)
			if cond.Op == OCall && cond.S == nDeleted && val {
				st.Set("del", "1")
			}
			if errNonNil(st, func(x *Term) bool { return strings.HasSuffix(x.S, "peer.ID).Validate") && anyField(x, "Publisher") }) {
				st.Set("inv", "1")
			}
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nb bool) { fin(st, c.whereIn(fr, site)) }
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) { fin(st, c.whereIn(fr, site)) }
		h.Call = func(st *State, ev *CallEv) {
			if !dsCall(ev.Name, "Delete") {
				return
			}
			pre, rest, ok := keyParts(ev.Args[2])
			if !ok || pre != preSync {
				return
			}
			dels[ev.Site] = true
			where := c.whereIn(ev.Fr, ev.Site)
			c.Check(st.Has("del"), st, where, "removed only if deleted", "the sync pointer of a provider that was not deleted is removed")
			pr := strip(peerOfString(rest))
			good := isField(pr, "Publisher") && fromChan(pr)
			c.Check(good, st, where, "pointer of the deleted provider's publisher", "the sync pointer removed is not the one of the deleted provider's publisher")
			if good {
				st.Set("gone", "1")
			}
		}
		c.Run(r, h)
	}
	for _, s := range prefixSites(p, "Delete", preSync) {
		c.Check(dels[s], nil, p.instrLoc(s)+" in "+shortFn(s.Parent()), "no other removal", "a sync pointer is removed elsewhere")
	}
}

func anyField(t *Term, name string) bool {
	return anySub(t, func(x *Term) bool { return isField(x, name) })
}

// isNilCmp: t is the comparison err == nil.
func isNilCmp(t, err *Term) bool {
	return t != nil && t.Op == OBin && t.S == "==" && (same(t.Args[0], err) && t.Args[1].Op == ONil || same(t.Args[1], err) && t.Args[0].Op == ONil)
}

func isUndef(t *Term) bool {
	t = strip(t)
	return t != nil && (t.Op == OZero || anySub(t, func(x *Term) bool { return x.Op == OGlobal && strings.HasSuffix(x.S, "go-cid.Undef") }))
}

// deepestOf keeps the functions that contain the call themselves if there are
// such, to avoid analysing their callers.
func deepestOf(fs []*ssa.Function, name string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range fs {
		if hasCall(f, func(n string) bool { return n == name }) {
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		return fs
	}
	return out
}

// unused: an unexported function (or a closure of one) nothing refers to.
func (p *Prog) unused(f *ssa.Function) bool {
	if p.usedFn == nil {
		p.usedFn = map[*ssa.Function]bool{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok && h != g {
							p.usedFn[h] = true
						}
					}
				}
			}
		}
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Object() == nil || f.Object().Exported() || f.Synthetic != "" || f.Name() == "main" || f.Name() == "init" {
		return false
	}
	if f.Signature.Recv() != nil {
		// may be called through an interface
		for _, g := range p.Funcs {
			for _, call := range callsIn(g) {
				if call.Common().IsInvoke() && call.Common().Method.Name() == f.Name() {
					return false
				}
			}
		}
	}
	return !p.usedFn[f]
}
