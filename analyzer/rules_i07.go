package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I07", ruleI07)
}

// eventStruct: a struct reporting on an advertisement: a peer, at least two
// CIDs and an error.
func eventStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	var peers, cids, errs int
	for i := 0; i < s.NumFields(); i++ {
		switch ft := s.Field(i).Type(); {
		case isPeerID(ft):
			peers++
		case typeIs(ft, tCid):
			cids++
		case types.Identical(ft, types.Universe.Lookup("error").Type()):
			errs++
		}
	}
	return peers == 1 && cids >= 2 && errs == 1
}

// waiterMap: a map from peers to lists of event channels.
func waiterMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isPeerID(m.Key()) {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	ch, ok := s.Elem().Underlying().(*types.Chan)
	return ok && eventStruct(ch.Elem())
}

// closedIn: names of the struct fields whose channel is closed in the named
// methods of a package.
func closedFields(p *Prog, rel string) map[string]bool {
	out := map[string]bool{}
	for _, f := range p.PkgFuncs(rel) {
		for _, call := range callsIn(f) {
			b, ok := call.Common().Value.(*ssa.Builtin)
			if !ok || b.Name() != "close" {
				continue
			}
			if u, ok := call.Common().Args[0].(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					out[fieldNameOf(fa)] = true
				}
			}
		}
	}
	return out
}

func ruleI07(c *Ctx) {
	const (
		rEv   = "each advertisement worked through is reported once, as the one it is, with its publisher and the head of its chain: after it was marked, or with an error if its ingestion failed"
		rDist = "each report is delivered to every waiter registered for its publisher"
		rWait = "a sync registers for its publisher's reports before fetching; its channel yields the fetched head, at most once, only when that head was reported, a failure of that head's chain was reported, or that head was found to be the latest one processed after registering and no resync was asked for; the channel is closed in the end"
		rStop = "waiting ends on cancellation and on close; whoever stops waiting is removed, alone; a waiter that is still fetching or stops waiting never blocks the delivery of reports"
	)
	w := newWorker(c)
	pubs, _ := assignmentFields(c)
	var adField, headField, pubField string
	events := 0
	for _, r := range w.roots {
		var h *Hooks
		end := func(st *State, e *Engine, where string) {
			if !st.Has("iter") {
				return
			}
			c.Rule("report", rEv)
			switch o := w.outcome(e, st); {
			case st.Has("marked"):
				c.Check(st.Get("ev") == "ok", st, where, "marked advertisements reported", "an advertisement is marked processed without telling those waiting for it")
			case o == "failed":
				c.Check(st.Get("ev") == "err", st, where, "failures reported", "the ingestion of an advertisement failed without telling those waiting for it")
			}
			st.Del("ev")
			st.Del("mkc")
			st.Del("iter")
		}
		h = w.hooks(func(st *State, ev *CallEv) { st.Set("iter", "1") }, func(st *State, ev *CallEv, cd *Term, v int64) {
			st.Set("iter", "1")
			if v == 1 && cd != nil {
				st.Set("mkc", strconv.Itoa(strip(cd).ID))
			}
		}, nil)
		le := h.LoopEntry
		h.LoopEntry = func(st *State, fr *Frame, b *ssa.BasicBlock) {
			if w.header(b) {
				end(st, fr.E, c.P.instrLoc(b.Instrs[0]))
			}
			le(st, fr, b)
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			end(st, fr.E, c.whereIn(fr, site))
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			if v.Typ == nil || !eventStruct(v.Typ) {
				return
			}
			events++
			c.Rule("report", rEv)
			where := c.whereIn(fr, site)
			c.Check(!nonblock, st, where, "reports are not dropped", "a report is dropped when nobody is ready for it")
			e := fr.E
			own := st.Get("mkc")
			if own == "" {
				own = st.Get("lastcid")
			}
			var errT *Term
			okAd, okHead, okPub := false, false, false
			s := v.Typ.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				x := strip(e.pick(st, v, f.Name()))
				switch {
				case isPeerID(f.Type()):
					pubField = f.Name()
					okPub = x.Op == OField && pubs[x.S]
				case typeIs(f.Type(), tCid):
					head := x.Op == OField && isElem0(x.Args[0])
					if (adField == "" || adField == f.Name()) && own != "" && strconv.Itoa(x.ID) == own {
						okAd = true
						if !head {
							adField = f.Name()
						}
					}
					if head && (headField == "" || headField == f.Name()) && f.Name() != adField {
						okHead = true
						headField = f.Name()
					}
				default:
					if types.Identical(f.Type(), types.Universe.Lookup("error").Type()) {
						errT = e.pick(st, v, f.Name())
					}
				}
			}
			c.Check(okPub, st, where, "report names the publisher", "the report does not name the publisher the advertisement came from")
			c.Check(okAd, st, where, "report names the advertisement", "the report names another advertisement than the one worked on")
			c.Check(okHead, st, where, "report names the head", "the report does not name the head of the chain worked on")
			c.Check(st.Get("ev") == "", st, where, "reported once", "an advertisement is reported more than once")
			switch {
			case errT != nil && e.IsNil(st, errT):
				c.Check(st.Has("marked"), st, where, "reported after marking", "an advertisement is reported as processed before it is marked")
				st.Set("ev", "ok")
			default:
				c.Check(errT != nil && e.NonNil(st, errT) && !st.Has("marked"), st, where, "failures reported as failures", "a failure is reported for an advertisement that did not fail")
				st.Set("ev", "err")
			}
		}
		keep := h.Keep
		h.Keep = func(t *Term) bool { return keep(t) }
		c.Run(r, h)
	}
	c.Rule("report", rEv)
	c.AtLeast(1, events, "reports sent")
	c.Check(adField != "" && headField != "" && pubField != "", nil, "internal/ingest", "report fields known", "the fields of a report cannot be told apart")

	// distribution
	c.Rule("distribute", rDist)
	dists := 0
	for _, r := range topsReaching(c, "internal/ingest", func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok && eventStruct(s.X.Type()) {
					// to a channel found in a list
					if u, ok := s.Chan.(*ssa.UnOp); ok {
						if _, ok := u.X.(*ssa.IndexAddr); ok {
							return true
						}
					}
					if _, ok := s.Chan.(*ssa.Parameter); ok {
						return true
					}
				}
				if s, ok := in.(*ssa.Select); ok {
					for _, x := range s.States {
						if x.Dir == types.SendOnly && eventStruct(x.Send.Type()) {
							return true
						}
					}
				}
			}
		}
		return false
	}) {
		if inFns(w.roots)(r) || !touchesWaiters(c.P, r) || reachesCall(c.P, r, func(n string) bool { return legsSub(n, "Sync") }) {
			continue
		}
		list := func(t *Term) *Term {
			t = strip(t)
			if t.Op == OExtract && t.I == 0 {
				t = t.Args[0]
			}
			if t.Op == OLookup && waiterMap(t.Args[0].Typ) {
				return t
			}
			return nil
		}
		wk := &Walk{Flag: "w", IsSlice: func(t *Term) bool { return list(t) != nil }}
		wk.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
			c.Rule("distribute", rDist)
			c.Bad(st, c.whereIn(fr, site), "every waiter told", "a waiter is passed over when a report is delivered")
		}
		h := skipNamedGo(&Hooks{Opaque: inFns(w.ads)})
		end := func(st *State, where string) {
			if !st.Has("ev") {
				return
			}
			c.Rule("distribute", rDist)
			c.Check(st.Has("none") || wk.Done(st), st, where, "report delivered", "a report is not delivered to all those waiting for it")
			for _, k := range []string{"ev", "none", "w:open", "w:done", "w:begun"} {
				st.Del(k)
			}
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			ct, ok := ch.Typ.Underlying().(*types.Chan)
			if !ok || !eventStruct(ct.Elem()) {
				return
			}
			end(st, c.whereIn(fr, site))
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cond, val = bare(cond, val)
			if cond.Op == OExtract && cond.I == 1 {
				switch x := cond.Args[0]; {
				case x.Op == ORecv && eventStruct(x.Typ) && val:
					st.Set("ev", strconv.Itoa(x.ID))
				case x.Op == OLookup && waiterMap(x.Args[0].Typ) && !val:
					st.Set("none", "1")
				}
			}
		}
		wk.track(h)
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			if v.Typ == nil || !eventStruct(v.Typ) || !wk.isElem(ch) {
				return
			}
			dists++
			c.Rule("distribute", rDist)
			where := c.whereIn(fr, site)
			l := strip(ch)
			for l.Op == ODeref {
				l = l.Args[0]
			}
			l = list(l.Args[0])
			v = strip(v)
			k := strip(l.Args[1])
			c.Check(k.Op == OField && k.S == pubField && k.Args[0] == v, st, where, "waiters of the publisher", "a report is delivered to the waiters of another publisher")
			c.Check(v.Op == ORecv && st.Get("ev") == strconv.Itoa(v.ID), st, where, "the report itself", "what is delivered is not the report received")
			c.Check(!nonblock, st, where, "reports are not dropped", "a report is dropped when its reader is not ready")
			wk.Handled(st)
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) { end(st, c.whereIn(fr, site)) }
		trackLocks(h)
		c.Run(r, h)
	}
	c.AtLeast(1, dists, "deliveries")

	// waiting
	closed := closedFields(c.P, "internal/ingest")
	yields, regs, waits, cancels := 0, 0, 0, 0
	for _, r := range exportedRoots(c.P, "internal/ingest") {
		rs := r.Signature.Results()
		if rs.Len() == 0 {
			continue
		}
		ct, ok := rs.At(0).Type().Underlying().(*types.Chan)
		if !ok || !typeIs(ct.Elem(), tCid) {
			continue
		}
		var peerP, resyncP *ssa.Parameter
		for _, p := range r.Params {
			if isPeerID(p.Type()) {
				peerP = p
			}
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				resyncP = p
			}
		}
		param := func(t *Term, p *ssa.Parameter) bool {
			t = strip(t)
			return t != nil && t.Op == OParam && p != nil && t.I < len(r.Params) && r.Params[t.I] == p
		}
		h := skipNamedGo(&Hooks{Opaque: inFns(w.ads)})
		skipGo := h.Go
		h.Go = func(st *State, ev *CallEv) GoMode {
			for _, a := range ev.Args {
				if a != nil && a.Typ != nil {
					if ct, ok := a.Typ.Underlying().(*types.Chan); ok && eventStruct(ct.Elem()) {
						return GoInline
					}
				}
			}
			return skipGo(st, ev)
		}
		isSync := func(t *Term) bool { return t.Op == OCall && legsSub(t.S, "Sync") }
		// a report received, directly or having been kept in a list
		isEv := func(t *Term) bool {
			return eventStruct(t.Typ) && (t.Op == ORecv || t.Op == OExtract && t.Args[0].Op == ORecv || isElem0(t))
		}
		type wait struct {
			reg, ch, where string
		}
		fwd, waited := map[string]string{}, map[wait]*State{}
		h.Keep = func(t *Term) bool {
			return anySub(t, isSync) || anySub(t, isEv) || t.Op == OParam || anySub(t, func(x *Term) bool { return x.Op == OLen })
		}
		outChan := func(ch *Term) bool {
			ct, ok := ch.Typ.Underlying().(*types.Chan)
			return ok && typeIs(ct.Elem(), tCid) && strip(ch).Op == OAlloc
		}
		evChan := func(ch *Term) bool {
			ct, ok := ch.Typ.Underlying().(*types.Chan)
			return ok && eventStruct(ct.Elem())
		}
		list := func(t *Term) *Term {
			t = strip(t)
			if t.Typ != nil {
				if sl, ok := t.Typ.Underlying().(*types.Slice); ok {
					if ch, ok := sl.Elem().Underlying().(*types.Chan); ok && eventStruct(ch.Elem()) {
						return t
					}
				}
			}
			return nil
		}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			if !waiterMap(m.Typ) {
				return
			}
			where := c.whereIn(fr, site)
			c.Rule("stop", rStop)
			c.Check(anyLock(st, true), st, where, "waiters changed under their lock", "the waiters are changed without holding their lock")
			v = strip(v)
			if !st.Has("reg") {
				c.Rule("wait", rWait)
				regs++
				c.Check(param(k, peerP), st, where, "registers for its publisher", "a sync registers for the reports of another publisher")
				var ch *Term
				anySub(v, func(x *Term) bool {
					if x.Op == OAlloc && x.S == "chan" && evChan(x) {
						ch = x
					}
					return false
				})
				if ch == nil {
					if es, ok := fr.E.VarArgs(st, v); ok && len(es) == 1 {
						ch = strip(es[0])
					}
				}
				if ch == nil {
					c.Bad(st, where, "registers itself", "a sync does not register its own channel: "+v.String())
					return
				}
				st.Set("reg", strconv.Itoa(ch.ID))
				return
			}
			st.Set("rm", "1")
			if v.Op == OSlice && v.Args[2] != nil && list(v.Args[0]) != nil {
				// shortened by one: the waiter's own place must have been filled
				// with the last one
				c.Check(st.Has("moved"), st, where, "only the leaving waiter removed", "another waiter than the leaving one is removed")
			}
		}
		one := func(st *State, f func(*Term) bool) bool { // len(x) == 1 for a matching x
			return eqFact(st, true, func(a *Term) bool { return a.Op == OLen && f(a.Args[0]) }, func(b *Term) bool { n, ok := constInt(b); return ok && n == 1 })
		}
		oneList := func(st *State) bool { return one(st, func(x *Term) bool { return list(x) != nil }) }
		oneMap := func(st *State) bool { return one(st, func(x *Term) bool { return waiterMap(x.Typ) }) }
		h.MapDelete = func(st *State, fr *Frame, site ssa.Instruction, m, k *Term) {
			if !waiterMap(m.Typ) {
				return
			}
			c.Rule("stop", rStop)
			where := c.whereIn(fr, site)
			c.Check(anyLock(st, true), st, where, "waiters changed under their lock", "the waiters are changed without holding their lock")
			c.Check(oneList(st) && param(k, peerP), st, where, "only the leaving waiter removed", "other waiters are removed along with the leaving one")
			st.Set("rm", "1")
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, v *Term) {
			if v.Typ == nil && v.Op != ONil {
				return
			}
			if s, ok := site.(*ssa.Store); ok && waiterMap(s.Val.Type()) && st.Has("reg") && v.Op == ONil {
				c.Rule("stop", rStop)
				where := c.whereIn(fr, site)
				c.Check(oneList(st) && oneMap(st), st, where, "only the leaving waiter removed", "other waiters are removed along with the leaving one")
				st.Set("rm", "1")
			}
			a := strip(addr)
			if a.Op == OIndexAddr && list(a.Args[0]) != nil && st.Has("match") {
				x := strip(v)
				for x.Op == ODeref {
					x = x.Args[0]
				}
				if (x.Op == OIndex || x.Op == OIndexAddr) && list(x.Args[0]) != nil {
					st.Set("moved", "1")
				}
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cond, val = bare(cond, val)
			if pump(fr) && cond.Op == OExtract && cond.I == 1 && cond.Args[0].Op == ORecv && eventStruct(cond.Args[0].Typ) {
				st.Set(map[bool]string{true: "p:got", false: "p:closed"}[val], "1")
			}
			if cond.Op == OBin && cond.S == "==" && val && st.Has("reg") {
				for i := 0; i < 2; i++ {
					if strconv.Itoa(strip(cond.Args[i]).ID) == st.Get("reg") && evChan(cond.Args[1-i]) {
						st.Set("match", "1")
					}
				}
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			if op, ok := lockOp(ev.Name); ok && op == "W" && st.Has("reg") {
				c.Rule("stop", rStop)
				cancels++
				st.Set("left", "1")
				c.Check(st.Has("drain:"+st.Get("reg")), st, where, "drained before the lock", "a waiter that stops waiting takes the lock that delivery holds while its own channel may be full: delivery and the waiter block each other")
			}
			if legsSub(ev.Name, "Sync") {
				c.Rule("wait", rWait)
				c.Check(st.Has("reg"), st, where, "registered before fetching", "a sync fetches before it is registered for reports, so it can miss the one it waits for")
				c.Rule("stop", rStop)
				c.Check(!st.Has("reg") || st.Has("drain:"+st.Get("reg")), st, where, "drained while fetching", "a sync that is fetching does not read its reports, so that delivery to all waiters, which fetching may depend on, waits for it")
				c.Rule("wait", rWait)
				st.Set("fetch", "1")
				c.Check(param(ev.Args[2], peerP), st, where, "syncs with the peer asked for", "a sync fetches from another peer than the one asked for")
			}
			if dsCall(ev.Name, "Get") && !st.Has("reg") {
				st.Set("early:"+strconv.Itoa(ev.Result.ID), "1")
			}
		}
		h.Select = func(st *State, fr *Frame, site *ssa.Select) {
			wait := false
			for _, s := range site.States {
				wait = wait || s.Dir == types.RecvOnly && evChan(fr.E.get(fr, st, s.Chan))
			}
			if pump(fr) {
				if !wait && site.Blocking {
					st.Set("p:bad", "1")
				}
				return
			}
			if !wait || !site.Blocking {
				return
			}
			waits++
			c.Rule("stop", rStop)
			ctxD, clo := false, false
			for _, s := range site.States {
				t := strip(fr.E.get(fr, st, s.Chan))
				ctxD = ctxD || t.Op == OCall && strings.HasSuffix(t.S, "context.Context).Done")
				clo = clo || t.Op == OField && closed[t.S]
			}
			where := c.whereIn(fr, site)
			c.Check(ctxD, st, where, "cancellation ends waiting", "a sync keeps waiting after it was cancelled")
			c.Check(clo, st, where, "close ends waiting", "a sync keeps waiting after the ingester was closed")
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			if !evChan(ch) {
				if _, sel := site.(*ssa.Select); !sel && pump(fr) && !nonblock {
					st.Set("p:bad", "1")
				}
				return
			}
			id := strconv.Itoa(strip(ch).ID)
			if pump(fr) {
				if !st.Has("p:src") {
					st.Set("p:src", id)
				}
				if st.Get("p:src") != id {
					st.Set("p:bad", "1")
				}
				return
			}
			if wt := (wait{st.Get("reg"), id, c.whereIn(fr, site)}); waited[wt] == nil {
				waited[wt] = st.clone()
			}
			if _, sel := site.(*ssa.Select); !sel && goDepth(fr) <= 1 {
				c.Rule("stop", rStop)
				c.Bad(st, c.whereIn(fr, site), "cancellation ends waiting", "a sync waits for reports without regard to cancellation")
			}
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			if pump(fr) {
				if _, sel := site.(*ssa.Select); !sel {
					st.Set("p:bad", "1")
				}
				if x := strip(ch); x.Op == OAlloc && evChan(x) {
					c.Rule("distribute", rDist)
					y := strip(v)
					st.Set("p:out", strconv.Itoa(x.ID))
					if y.Op == ORecv || y.Op == OExtract && y.Args[0].Op == ORecv {
						st.Del("p:got")
						return
					}
					for y.Op == ODeref {
						y = y.Args[0]
					}
					c.Check(isElem0(y), st, c.whereIn(fr, site), "forwarded in order", "what is forwarded to a waiter is not the oldest report kept for it")
					st.Set("p:sent", "1")
				}
				return
			}
			if !outChan(ch) {
				return
			}
			yields++
			c.Rule("wait", rWait)
			where := c.whereIn(fr, site)
			c.Check(!st.Has("sent"), st, where, "yields once", "a sync yields more than one CID")
			st.Set("sent", "1")
			mc, ok := strip(ch).Site.(*ssa.MakeChan)
			n, isC := int64(0), false
			if ok {
				n, isC = ssaInt(mc.Size)
			}
			c.Check(isC && n >= 1, st, where, "yielding does not block", "a sync blocks until its caller reads the channel")
			x := strip(v)
			head := x.Op == OExtract && x.I == 0 && isSync(x.Args[0])
			c.Check(head, st, where, "yields the fetched head", "a sync yields another CID than the head it fetched: "+x.String())
			if !head {
				return
			}
			c.Check(errNil(st, func(y *Term) bool { return y == x.Args[0] }), st, where, "yields only after fetching", "a sync that failed to fetch yields a CID")
			isHead := func(t *Term) bool { return strip(t) == x }
			fld := func(name string) func(*Term) bool {
				return func(t *Term) bool { t = strip(t); return t.Op == OField && t.S == name && isEv(t.Args[0]) }
			}
			done := eqFact(st, true, isHead, fld(adField)) || eqFact(st, true, isHead, func(t *Term) bool { return t.Op == OZero }) // no head
			failed := eqFact(st, true, isHead, fld(headField)) && nilFact(st, false, func(t *Term) bool { return t.Op == OField && isEv(t.Args[0]) && t.S != adField && t.S != headField })
			latest := eqFact(st, true, isHead, func(t *Term) bool {
				return isUndef(t) || anySub(t, func(y *Term) bool {
					return y.Op == OCall && dsCall(y.S, "Get") && !st.Has("early:"+strconv.Itoa(y.ID))
				})
			}) && (resyncP == nil || holds(st, false, func(t *Term) bool { return param(t, resyncP) }))
			c.Check(done || failed || latest, st, where, "yields only when reported", "a sync reports completion although its head was not reported processed or failed")
		}
		h.Close = func(st *State, fr *Frame, site ssa.Instruction, ch *Term) {
			if outChan(ch) {
				st.Set("closed", "1")
			}
			if evChan(ch) && st.Has("reg") {
				c.Rule("stop", rStop)
				where := c.whereIn(fr, site)
				c.Check(anyLock(st, true), st, where, "closed under the lock", "a waiter's channel is closed without holding the lock delivery holds")
				c.Check(st.Has("rm") && st.Has("match") && strconv.Itoa(strip(ch).ID) == st.Get("reg"), st, where, "closed when removed", "a waiter's channel is closed although it is still registered")
				st.Set("evclosed", "1")
			}
		}
		h.Append = func(st *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term) {
			if !pump(fr) {
				return
			}
			for _, x := range elems {
				x = strip(x)
				if x.Op == OExtract {
					x = x.Args[0]
				}
				if x.Op == ORecv && eventStruct(x.Typ) {
					st.Del("p:got")
				}
			}
		}
		h.Slice = func(st *State, fr *Frame, site *ssa.Slice, base, lo, hi *Term) {
			sl, ok := site.X.Type().Underlying().(*types.Slice)
			if !pump(fr) || !ok || !eventStruct(sl.Elem()) {
				return
			}
			n, k := int64(0), true
			if lo != nil {
				n, k = constInt(lo)
			}
			if k && n == 0 && hi == nil {
				return
			}
			c.Rule("distribute", rDist)
			c.Check(k && n == 1 && hi == nil && st.Has("p:sent"), st, c.whereIn(fr, site), "forwarded once", "a report kept for a waiter is dropped without having been forwarded")
			st.Del("p:sent")
		}
		h.LoopEntry = func(st *State, fr *Frame, b *ssa.BasicBlock) {
			if !pump(fr) {
				return
			}
			where := c.P.instrLoc(b.Instrs[0])
			c.Rule("distribute", rDist)
			c.Check(!st.Has("p:got") || st.Has("fetch"), st, where, "every report forwarded", "a report received for a waiter is dropped")
			c.Check(!st.Has("p:sent"), st, where, "forwarded once", "a report that was forwarded to a waiter is kept, and forwarded again")
			st.Del("p:got")
		}
		h.GoBack = func(st *State, ev *CallEv) {
			if goDepth(ev.Fr) > 0 {
				if src := st.Get("p:src"); src != "" && !st.Has("p:bad") && st.Has("p:closed") {
					st.Set("drain:"+src, "1")
					if o := st.Get("p:out"); o != "" {
						fwd[o] = src
					}
				}
				for _, k := range []string{"p:src", "p:bad", "p:closed", "p:got", "p:sent"} {
					st.Del(k)
				}
				return
			}
			where := c.whereIn(ev.Fr, ev.Site)
			c.Rule("wait", rWait)
			c.Check(st.Has("closed"), st, where, "channel closed in the end", "the channel of a sync stays open after it ended")
			c.Rule("stop", rStop)
			c.Check(!st.Has("reg") || st.Has("left"), st, where, "stops waiting", "a sync that ended stays registered for reports, which blocks their delivery")
			c.Check(!st.Has("match") || st.Has("rm") && st.Has("evclosed"), st, where, "removed when leaving", "a waiter that stops waiting is not removed or its channel not closed")
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if fr.E.NonNil(st, res[len(res)-1]) {
				return
			}
			c.Rule("wait", rWait)
			c.Check(st.Has("closed"), st, c.whereIn(fr, site), "channel closed in the end", "the channel of a sync stays open after it ended")
			c.Check(strip(res[0]).Op == OAlloc, st, c.whereIn(fr, site), "returns its channel", "a sync returns another channel than the one it yields on")
		}
		trackLocks(h)
		c.Run(r, h)
		c.Rule("wait", rWait)
		for wt, st := range waited {
			c.Check(wt.reg != "" && (wt.ch == wt.reg || fwd[wt.ch] == wt.reg), st, wt.where, "waits for its reports", "a sync waits on another channel than the one its reports arrive on")
		}
	}
	c.Rule("wait", rWait)
	c.AtLeast(1, regs, "registrations")
	c.AtLeast(2, yields, "yields")
	c.Rule("stop", rStop)
	c.AtLeast(1, waits, "waiting selects")
	c.AtLeast(1, cancels, "cancellations")
}

// pump: in a goroutine started by a goroutine, which passes on reports.
func pump(fr *Frame) bool { return goDepth(fr) > 1 }

// touchesWaiters: the function, or one it reaches, looks at the waiters.
func touchesWaiters(p *Prog, f *ssa.Function) bool {
	return touches(p, f, waiterMap)
}

// goDepth: the number of goroutine bodies on the stack.
func goDepth(fr *Frame) int {
	n := 0
	for ; fr != nil; fr = fr.Up {
		if fr.Go {
			n++
		}
	}
	return n
}

// isElem0: the first element of a slice (or a field of it).
func isElem0(t *Term) bool {
	for t != nil && (t.Op == ODeref || t.Op == OField) {
		t = t.Args[0]
	}
	if t == nil || t.Op != OIndex && t.Op != OIndexAddr {
		return false
	}
	n, ok := constInt(t.Args[1])
	return ok && n == 0
}
