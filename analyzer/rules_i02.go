package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I02", ruleI02)
}

const nUnwrapChunk = pkgSchema + ".UnwrapEntryChunk"

// processedCall: v is the (un-negated) result of asking whether an
// advertisement is already processed.
func readsMarker(p *Prog, f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type().Underlying(), types.Typ[types.Bool]) {
		return false
	}
	for g := range p.reach(f) {
		if fnPkgPath(g) != fnPkgPath(f) {
			continue
		}
		for _, call := range callsIn(g) {
			if dsCall(calleeName(call), "Get") && constPrefixOf(call.Common().Args[len(call.Common().Args)-1], 0) == preProcessed {
				return true
			}
		}
	}
	return false
}

// processedHere: block b is reached only where an advertisement was found to
// be processed already.
func processedHere(p *Prog, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		f, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, val := f.Cond, pr.Succs[0] == d
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, val = u.X, !val
		}
		if cl, ok := cond.(*ssa.Call); ok && val && readsMarker(p, cl.Common().StaticCallee()) {
			return true
		}
	}
	return false
}

func ruleI02(c *Ctx) {
	p := c.P
	w := newWorker(c)
	c.Rule("stop", "while working through a provider's advertisements, each is ingested or, if superseded, passed over; it is then marked, and after a failure nothing later is ingested or marked")
	n := 0
	// note records what is known about the outcome of the ingestion of this
	// pass while it is known.
	note := func(e *Engine, st *State) {
		switch o := w.outcome(e, st); o {
		case "none", "unknown":
		default:
			st.Set("oc", strings.SplitN(o, ":", 2)[0])
		}
	}
	endIter := func(st *State, e *Engine, where string) {
		if !st.Has("begun") {
			return
		}
		if st.Has("last") {
			o := st.Get("oc")
			if o == "" {
				o = "not looked at"
			}
			c.Check(o == "ok" || o == "permanent", st, where, "stops after a failure", "after an advertisement failed, the work goes on to later advertisements (outcome: "+o+")")
			if o != "ok" && o != "permanent" {
				return
			}
		}
		c.Check(st.Has("marked"), st, where, "every advertisement worked through is marked", "an advertisement is passed over without being marked processed")
	}
	for _, r := range w.roots {
		h := w.hooks(func(st *State, ev *CallEv) {
			n++
			c.Check(!st.Has("last"), st, c.whereIn(ev.Fr, ev.Site), "ingested once per pass", "an advertisement is ingested twice in one pass")
			st.Del("oc")
		}, func(st *State, ev *CallEv, cd *Term, v int64) {
			note(ev.E, st)
		}, func(st *State, fr *Frame) {
			endIter(st, fr.E, shortFn(fr.Fn))
			st.Del("begun")
			st.Del("oc")
		})
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			note(fr.E, st)
			for _, l := range w.loops {
				if l.Header == site.Block() {
					succ := site.Block().Succs[1]
					if val {
						succ = site.Block().Succs[0]
					}
					if l.Blocks[succ] {
						st.Set("begun", "1")
					}
				}
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if !st.Has("begun") {
				return
			}
			o := st.Get("oc")
			if o == "failed" {
				c.Check(!st.Has("marked"), st, c.whereIn(fr, site), "failed advertisement not marked", "an advertisement whose ingestion failed is marked processed")
			}
			if o == "failed" || o == "permanent" {
				return
			}
			endIter(st, fr.E, c.whereIn(fr, site))
		}
		c.Run(r, h)
	}
	c.AtLeast(1, n, "ingestions")

	c.Rule("order", "a provider's advertisements are worked through from the oldest unprocessed one to the newest: from the position before the newest one already processed (or the end of the list) down to the head")
	for _, l := range w.loops {
		where := p.instrLoc(l.Header.Instrs[len(l.Header.Instrs)-1]) + " in " + shortFn(l.Fn)
		// as functions of the iteration number k: the test that ends the
		// loop must be k < n, the position used n-1-k
		var bound ssa.Value
		for b := range l.Blocks {
			f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || l.Blocks[b.Succs[0]] && l.Blocks[b.Succs[1]] {
				continue
			}
			left, ok := stepsLeft(l, f)
			if n, isN := left.minusK(0); ok && isN {
				bound = n
			}
		}
		okIdx := bound != nil
		used := 0
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok && fieldByType(derefType(ia.Type()), tCid) != "" {
					if _, isK := ssaInt(ia.Index); isK {
						continue
					}
					used++
					at, ok := affineIn(l, ia.Index, 0)
					n, isN := at.minusK(-1)
					okIdx = okIdx && ok && isN && n == bound
				}
			}
		}
		c.Check(okIdx && used > 0, nil, where, "oldest to newest", "the advertisements are not worked through from the oldest (end of the list) down to the newest (position 0)")
		if !okIdx {
			continue
		}
		c.Check(boundOK(p, bound, map[ssa.Value]bool{}), nil, where, "starts before the newest processed", "the work does not start right before the newest advertisement that is already processed")
	}

	c.Rule("stage", "the advertisements of a finished sync are staged for their own provider in the order they were fetched; one is left out only if it cannot be loaded or names no valid provider, and the list ends only at one already processed")
	stage(c)

	c.Rule("chain", "a sync follows each advertisement's link to the previous one, ends where there is none, and fails when an advertisement cannot be loaded")
	chain(c)
}

// boundOK: the number of advertisements to work through is the length of the
// list, or the position where one was found processed (leaving the search).
func boundOK(p *Prog, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return listOK(p, x.Common().Args[0], seen)
		}
		if f := x.Common().StaticCallee(); f != nil && f.Blocks != nil {
			return resultsAt(f, 0, func(r ssa.Value, b *ssa.BasicBlock) bool {
				return posAt(p, r, b) || boundOK(p, r, seen)
			})
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			if f := cl.Common().StaticCallee(); f != nil && f.Blocks != nil {
				return resultsAt(f, x.Index, func(r ssa.Value, b *ssa.BasicBlock) bool {
					return posAt(p, r, b) || boundOK(p, r, seen)
				})
			}
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if e == v {
				continue
			}
			pred := x.Block().Preds[i]
			if posAt(p, e, pred) && leaves(e, x.Block()) {
				continue
			}
			if !boundOK(p, e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func resultsAt(f *ssa.Function, i int, ok func(ssa.Value, *ssa.BasicBlock) bool) bool {
	n := 0
	for _, b := range f.Blocks {
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && i < len(r.Results) {
			n++
			if !ok(r.Results[i], b) {
				return false
			}
		}
	}
	return n > 0
}

// posAt: v is an ascending position and block b is reached only if the
// advertisement was found processed.
func posAt(p *Prog, v ssa.Value, b *ssa.BasicBlock) bool {
	return countsUp(v) && processedHere(p, b)
}

// leaves: block b is outside the loop that counts v.
func leaves(v ssa.Value, b *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, l := range naturalLoops(b.Parent()) {
		if l.Blocks[in.Block()] && l.Blocks[b] {
			// in a loop together: only acceptable if an outer one
			inner := false
			for _, k := range naturalLoops(b.Parent()) {
				if k.Blocks[in.Block()] && !k.Blocks[b] && len(k.Blocks) < len(l.Blocks) {
					inner = true
				}
			}
			if !inner {
				return false
			}
		}
	}
	return true
}

func listOK(p *Prog, v ssa.Value, seen map[ssa.Value]bool) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		if x.Low != nil {
			return false
		}
		return listOK(p, x.X, seen) && (x.High == nil || posAt(p, x.High, x.Block()) || boundOK(p, x.High, seen))
	case *ssa.Phi:
		if seen[v] {
			return true
		}
		seen[v] = true
		for i, e := range x.Edges {
			if s, ok := e.(*ssa.Slice); ok && s.High != nil {
				if !(posAt(p, s.High, s.Block()) && leaves(s.High, x.Block()) && s.Low == nil && listOK(p, s.X, seen)) {
					return false
				}
				continue
			}
			_ = i
			if !listOK(p, e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp, *ssa.Field, *ssa.Parameter, *ssa.Extract:
		return true
	}
	return false
}

func stage(c *Ctx) {
	p := c.P
	isSynced := func(t *Term) bool { return t != nil && t.Op == OField && t.S == "SyncedCids" }
	// functions that range over SyncedCids
	var roots []*ssa.Function
	for _, f := range p.PkgFuncs("internal/ingest") {
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					hit = hit || fieldNameOf(x) == "SyncedCids"
				case *ssa.Field:
					hit = hit || x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name() == "SyncedCids"
				}
			}
		}
		if hit && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	c.AtLeast(1, len(roots), "functions staging synced advertisements")
	for _, root := range roots {
		h := skipNamedGo(&Hooks{Keep: func(t *Term) bool {
			return anySub(t, func(x *Term) bool {
				return x.Op == OCall && (x.S == nUnwrapAd || x.S == nPeerDecode || dsCall(x.S, "Get")) || x.Op == OIndex
			})
		}})
		wk := &Walk{Flag: "cid", IsSlice: func(t *Term) bool { return isSynced(strip(t)) }}
		var apps, swaps, sends int
		wk.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
			if st.Has("unusable") {
				return
			}
			c.Bad(st, c.whereIn(fr, site), "left out only if unusable", "a synced advertisement is left out although it was loaded and names a valid provider")
		}
		wk.track(h)
		track := h.Assume
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			if wk.Open(st) {
				if errNonNil(st, func(x *Term) bool {
					return x.S == nUnwrapAd || x.S == nPeerDecode || dsCall(x.S, "Get") && !markerKey(x) || strings.HasSuffix(x.S, "multicodec.LookupDecoder") || strings.HasPrefix(x.S, "dynamic:")
				}) {
					st.Set("unusable", "1")
				}
				if processedFact(st) {
					st.Set("proc", "1")
				}
			}
			if bc, bv := bare(cond, val); bv && bc.Op == OExtract && bc.Args[0].Op == ONext {
				st.Set("iter", "1")
			}
			if !oldNone(fr.E, st) {
				st.Set("old", "1")
			}
			track(st, fr, site, cond, val)
			cond, val = bare(cond, val)
			if cond.Op == OBin && cond.S == "<" && cond.Args[1].Op == OLen && isSynced(strip(cond.Args[1].Args[0])) {
				st.Del("unusable")
				st.Del("proc")
			}
		}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			mt, ok := m.Typ.Underlying().(*types.Map)
			if !ok || !isPeerID(mt.Key()) {
				return
			}
			sl, ok := mt.Elem().Underlying().(*types.Slice)
			if !ok || fieldByType(sl.Elem(), tCid) == "" {
				return
			}
			apps++
			e := fr.E
			where := c.whereIn(fr, site)
			v = strip(v)
			good := v.Op == OAppend && v.S == "" && len(v.Args) == 2
			if good {
				base := strip(v.Args[0])
				prev := base.Op == OLookup && same(base.Args[1], k) || base.Op == ONil || base.Op == OAppend || base.Op == OZero || base.Op == OLoop
				c.Check(prev, st, where, "appended to its provider's list", "a staged advertisement is not appended to the list of its own provider")
				info := v.Args[1]
				cd := e.pick(st, info, fieldByType(info.Typ, tCid))
				adT := e.pick(st, info, fieldByType(info.Typ, pkgSchema+".Advertisement"))
				okCid := cd != nil && wk.isElem(cd)
				c.Check(okCid, st, where, "staged CID", "the staged advertisement does not carry the CID being looked at")
				okAd := adT != nil && anySub(adT, func(x *Term) bool {
					return x.Op == OCall && x.S == nUnwrapAd && errNil(st, func(y *Term) bool { return y == x })
				}) && loadedFrom(adT, cd)
				c.Check(okAd, st, where, "staged advertisement", "the staged advertisement is not the (successfully) loaded one with that CID")
				dec := callOf(strip(k))
				okK := dec != nil && dec.S == nPeerDecode && errNil(st, func(x *Term) bool { return x == dec }) && isField(strip(dec.Args[0]), "Provider") && anySub(dec.Args[0], func(x *Term) bool { return x.Op == OCall && x.S == nUnwrapAd })
				c.Check(okK, st, where, "staged under its provider", "an advertisement is staged for another provider than the one it names")
				if okCid {
					wk.Handled(st)
				}
			}
			c.Check(good, st, where, "appended at the end", "the order of the advertisements is not kept when they are staged: "+v.String())
		}
		h.Next = func(st *State, fr *Frame, site ssa.Instruction, next *Term, inIter bool) {
			if wk.Begun(st) || wk.Done(st) {
				c.Check(wk.Done(st) || st.Has("proc"), st, c.whereIn(fr, site), "list ends at a processed advertisement", "staging of synced advertisements stops before the end of the list although none was found processed")
			}
			if st.Has("iter") {
				c.Check(st.Has("swapped"), st, c.whereIn(fr, site), "every provider's list handed over", "the staged list of a provider is not handed over to a worker")
				c.Check(!st.Has("swapped") || st.Has("sent") || st.Has("old"), st, c.whereIn(fr, site), "a worker is scheduled", "a list is staged but no worker is scheduled although none was before")
			}
			st.Del("swapped")
			st.Del("sent")
			st.Del("old")
			st.Del("iter")
		}
		h.Call = func(st *State, ev *CallEv) {
			if !strings.HasPrefix(ev.Name, "(*sync/atomic.Value).") || len(ev.Args) < 2 {
				return
			}
			v := strip(ev.Args[len(ev.Args)-1])
			s, ok := derefTypeStruct(v.Typ)
			if !ok {
				return
			}
			swaps++
			e := ev.E
			where := c.whereIn(ev.Fr, ev.Site)
			var key, list *Term
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				x := e.pick(st, v, f.Name())
				if _, isS := f.Type().Underlying().(*types.Slice); isS {
					list = x
				}
				if isPeerID(f.Type()) && strip(x).Op == OExtract {
					key = x
				}
			}
			ok = list != nil && key != nil && fromIter(list, key)
			c.Check(ok, st, where, "handed over unchanged", "the list handed to the worker is not the provider's staged list")
			pub := false
			for i := 0; i < s.NumFields(); i++ {
				if isPeerID(s.Field(i).Type()) {
					x := strip(e.pick(st, v, s.Field(i).Name()))
					pub = pub || x.Op == OField && x.S == "PeerID"
				}
			}
			c.Check(pub, st, where, "publisher recorded", "the assignment does not record the publisher that was synced with")
			if !strings.HasSuffix(ev.Name, ".Swap") {
				c.Bad(st, where, "assignment swapped", "the assignment is not exchanged atomically: whether a worker is already scheduled is not known")
			}
			st.Set("swapped", strconv.Itoa(ev.Result.ID))
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nb bool) {
			if t := strip(v); t != nil && t.Op == OExtract && t.Args[0].Op == ONext {
				sends++
				c.Check(!nb, st, c.whereIn(fr, site), "worker scheduled for certain", "the scheduling of a worker can be dropped")
				st.Set("sent", "1")
			}
		}
		c.Run(root, h)
		c.AtLeast(1, apps, "staged advertisements")
		c.AtLeast(1, swaps, "assignments")
		c.AtLeast(1, sends, "workers scheduled")
	}
}

func derefTypeStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := derefType(t).Underlying().(*types.Struct)
	return s, ok
}

// oldNone: it is not known that a previous assignment was waiting.
func oldNone(e *Engine, st *State) bool {
	// an assignment was already waiting if its boolean "none" is known false
	return !holds(st, false, func(t *Term) bool {
		return t.Op == OField && t.Typ != nil && types.Identical(t.Typ.Underlying(), types.Typ[types.Bool]) && anySub(t, func(x *Term) bool { return x.Op == OCall && strings.HasPrefix(x.S, "(*sync/atomic.Value).") })
	})
}

func markerKey(get *Term) bool {
	pre, _, ok := keyParts(get.Args[len(get.Args)-1])
	return ok && pre == preProcessed
}

// processedFact: an advertisement is known to be marked processed.
func processedFact(st *State) bool {
	return holds(st, true, func(t *Term) bool {
		if t.Op != OBin || t.S != "==" {
			return false
		}
		for i := 0; i < 2; i++ {
			a, b := t.Args[i], t.Args[1-i]
			if isConstN(b, 1) && anySub(a, func(x *Term) bool { return x.Op == OCall && dsCall(x.S, "Get") && markerKey(x) }) {
				return true
			}
		}
		return false
	})
}

// loadedFrom: the node the term was decoded from was read from the datastore
// under the given CID.
func loadedFrom(t, cd *Term) bool {
	return anySub(t, func(x *Term) bool {
		if x.Op != OCall || !dsCall(x.S, "Get") {
			return false
		}
		pre, rest, ok := keyParts(x.Args[len(x.Args)-1])
		return ok && pre == "" && same(cidOfString(rest), cd)
	}) || !anySub(t, func(x *Term) bool { return x.Op == OCall && dsCall(x.S, "Get") })
}

func chain(c *Ctx) {
	p := c.P
	acts := "(github.com/filecoin-project/go-legs.SegmentSyncActions)."
	n := 0
	for _, f := range p.PkgFuncs("internal/ingest") {
		sig := f.Signature
		if sig.Params().Len() != 3 || !strings.HasSuffix(sig.Params().At(2).Type().String(), "go-legs.SegmentSyncActions") || sig.Results().Len() != 0 {
			continue
		}
		// hooks of advertisement syncs: they load advertisements
		if !reachesCall(p, f, func(n string) bool { return n == nUnwrapAd }) || f.Synthetic != "" {
			continue
		}
		n++
		off := len(f.Params) - 3
		h := &Hooks{Keep: func(t *Term) bool {
			return anySub(t, func(x *Term) bool { return x.Op == OCall && x.S == nUnwrapAd }) || isField(t, "PreviousID")
		}}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			switch ev.Name {
			case acts + "SetNextSyncCid":
				st.Set("acted", "1")
				un := func(t *Term) bool {
					return anySub(t, func(x *Term) bool {
						return x.Op == OCall && x.S == nUnwrapAd && errNil(st, func(y *Term) bool { return y == x })
					})
				}
				a := strip(ev.Args[1])
				prev := func(t *Term) bool { return anySub(t, func(x *Term) bool { return isField(x, "PreviousID") }) }
				if prev(a) {
					c.Check(un(a), st, where, "follows the link of the loaded advertisement", "the next advertisement is taken from one that failed to load")
					return
				}
				undef := anySub(a, func(x *Term) bool { return x.Op == OGlobal && strings.HasSuffix(x.S, "go-cid.Undef") }) || a.Op == OZero
				none := nilFact(st, true, func(t *Term) bool { return prev(t) }) || holds(st, true, func(t *Term) bool { return t.Op == OBin && t.S == "==" && (prev(t.Args[0]) || prev(t.Args[1])) })
				c.Check(undef && none, st, where, "ends only where there is no previous advertisement", "the traversal ends or continues elsewhere although the advertisement links to a previous one: "+a.String())
			case acts + "FailSync":
				st.Set("acted", "1")
				st.Set("failed", "1")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			bad := errNonNil(st, func(x *Term) bool { return x.S == nUnwrapAd || dsCall(x.S, "Get") })
			c.Check(st.Has("acted"), st, c.whereIn(fr, site), "says how to go on", "the block hook neither names the next advertisement nor fails the sync")
			c.Check(!bad || st.Has("failed"), st, c.whereIn(fr, site), "fails if not loadable", "the sync goes on although an advertisement could not be loaded")
		}
		_ = off
		c.Run(f, h)
	}
	c.AtLeast(1, n, "advertisement block hooks")
}
