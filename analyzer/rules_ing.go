package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I01", ruleI01)
}

const (
	preProcessed = "/adProcessed/"
	preSync      = "/sync/"
)

// markOf: a datastore write that marks an advertisement; returns its CID term
// and the marker byte.
func markOf(st *State, ev *CallEv) (cd *Term, val int64, ok bool) {
	if !dsCall(ev.Name, "Put") {
		return nil, 0, false
	}
	pre, rest, isK := keyParts(ev.Args[2])
	if !isK || pre != preProcessed || rest == nil {
		return nil, 0, false
	}
	val = -1
	if vs, isV := ev.E.VarArgs(st, ev.Args[3]); isV && len(vs) == 1 {
		if k, isC := constInt(vs[0]); isC {
			val = k
		}
	}
	return cidOfString(rest), val, true
}

// cidOfString: the CID whose String() is t.
func cidOfString(t *Term) *Term {
	t = strip(t)
	if t != nil && t.Op == OCall && strings.HasSuffix(t.S, "go-cid.Cid).String") {
		return t.Args[0]
	}
	return nil
}

// worker is the shared view of the code that works through the advertisements
// of one assignment.
type worker struct {
	c     *Ctx
	ads   []*ssa.Function
	loops []*natLoop
	roots []*ssa.Function
}

func newWorker(c *Ctx) *worker {
	w := &worker{c: c, ads: adIngestFns(c)}
	w.loops = loopsReaching(c.P, "internal/ingest", func(ci ssa.CallInstruction) bool { return inFns(w.ads)(ci.Common().StaticCallee()) })
	seen := map[*ssa.Function]bool{}
	for _, l := range w.loops {
		f := l.Fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if !seen[f] {
			seen[f] = true
			w.roots = append(w.roots, f)
		}
	}
	return w
}

func (w *worker) isAd(n string) bool {
	for _, f := range w.ads {
		if fullName(f) == n {
			return true
		}
	}
	return false
}

func (w *worker) header(b *ssa.BasicBlock) bool {
	for _, l := range w.loops {
		if l.Header == b {
			return true
		}
	}
	return false
}

// cidArg: the argument of the ingest call that is the advertisement's CID.
func cidArg(args []*Term) *Term {
	for _, a := range args {
		if a.Typ != nil && typeIs(a.Typ, tCid) {
			return a
		}
	}
	return nil
}

// outcome classifies the last ingestion of the current iteration: "ok",
// "permanent:<state>", "failed", "unknown".
func (w *worker) outcome(e *Engine, st *State) string {
	id := st.Get("last")
	if id == "" {
		return "none"
	}
	r := e.T.byID(id)
	if e.IsNil(st, r) {
		return "ok"
	}
	if st.Get("as") == id {
		for t, f := range st.facts {
			if f.K != FTrue || t.Op != OBin || t.S != "==" {
				continue
			}
			for i := 0; i < 2; i++ {
				a, b := t.Args[i], t.Args[1-i]
				s, isC := constStr(b)
				if isC && a.Op == OField && a.Args[0].Op == OOpaque {
					return "permanent:" + s
				}
			}
		}
	}
	if e.NonNil(st, r) {
		return "failed"
	}
	return "unknown"
}

func (w *worker) keep(t *Term) bool {
	return anySub(t, func(x *Term) bool { return x.Op == OCall && w.isAd(x.S) }) || t.Op == OBin && t.S == "==" && (isStateField(t.Args[0]) || isStateField(t.Args[1]))
}

func isStateField(t *Term) bool {
	if t.Op != OField || t.Args[0].Op != OOpaque {
		return false
	}
	ci, ok := t.Args[0].Site.(ssa.CallInstruction)
	return ok && calleeName(ci) == "errors.As"
}

// hooks returns hooks that maintain: last (result of the ingestion of this
// iteration), lastcid, as, and calls the given observers.
func (w *worker) hooks(onIngest func(st *State, ev *CallEv), onMark func(st *State, ev *CallEv, cd *Term, val int64), onIter func(st *State, fr *Frame)) *Hooks {
	h := skipNamedGo(&Hooks{Opaque: inFns(w.ads), Keep: w.keep})
	h.Call = func(st *State, ev *CallEv) {
		if w.isAd(ev.Name) {
			if onIngest != nil {
				onIngest(st, ev)
			}
			st.Set("last", strconv.Itoa(ev.Result.ID))
			if cd := cidArg(ev.Args); cd != nil {
				st.Set("lastcid", strconv.Itoa(strip(cd).ID))
			}
			st.Del("as")
			st.Del("marked")
		}
		if ev.Name == "errors.As" {
			st.Set("as", strconv.Itoa(strip(ev.Args[0]).ID))
		}
		if cd, v, ok := markOf(st, ev); ok {
			if onMark != nil {
				onMark(st, ev, cd, v)
			}
			if v == 1 {
				st.Set("marked", "1")
			}
		}
	}
	h.LoopEntry = func(st *State, fr *Frame, b *ssa.BasicBlock) {
		if !w.header(b) {
			return
		}
		if onIter != nil {
			onIter(st, fr)
		}
		for _, k := range []string{"last", "lastcid", "as", "marked"} {
			st.Del(k)
		}
		for k := range st.flags {
			if strings.HasPrefix(k, "br:") {
				st.Del(k)
			}
		}
	}
	return h
}

func ruleI01(c *Ctx) {
	p := c.P
	w := newWorker(c)
	c.Rule("mark", "an advertisement is marked processed only after its own ingestion in this pass succeeded or failed with an error accepted as permanent, or because a later removal of the same context ID supersedes it")
	c.AtLeast(1, len(w.roots), "functions working through advertisements")
	accepted := map[string]bool{}
	n := 0
	sites := map[*ssa.If]int{}
	for _, r := range w.roots {
		var ifs []*ssa.If
		h := w.hooks(nil, func(st *State, ev *CallEv, cd *Term, val int64) {
			if val == 0 {
				return
			}
			n++
			where := c.whereIn(ev.Fr, ev.Site)
			c.Check(val == 1, st, where, "marker value", "the value written is neither the processed nor the unprocessed marker")
			if st.Has("last") {
				c.Check(cd != nil && st.Get("lastcid") == strconv.Itoa(strip(cd).ID), st, where, "marks the advertisement that was ingested", "an advertisement other than the one just ingested is marked processed")
				o := w.outcome(ev.E, st)
				if strings.HasPrefix(o, "permanent:") {
					accepted[o[10:]] = true
				}
				c.Check(o == "ok" || strings.HasPrefix(o, "permanent:"), st, where, "marked after success", "an advertisement is marked processed although its ingestion "+map[string]string{"failed": "failed", "unknown": "is not known to have succeeded"}[o])
				return
			}
			ok := false
			for i, f := range ifs {
				if v, has := st.flags["br:"+strconv.Itoa(i)]; has && skipGuard(p, f.Cond, v == "1") {
					ok = true
				}
			}
			c.Check(ok, st, where, "skipped only if superseded", "an advertisement is marked processed without being ingested, and not because a later removal of the same context ID was seen")
		}, nil)
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			f, ok := site.(*ssa.If)
			if !ok {
				return
			}
			in := false
			for _, l := range w.loops {
				in = in || l.Blocks[f.Block()] && l.Fn == fr.Fn && f.Block() != l.Header
			}
			if !in || st.Has("last") {
				return
			}
			if _, ok := sites[f]; !ok {
				sites[f] = len(ifs)
				ifs = append(ifs, f)
			}
			v := "0"
			if val {
				v = "1"
			}
			st.Set("br:"+strconv.Itoa(sites[f]), v)
		}
		c.Run(r, h)
	}
	c.AtLeast(1, n, "processed marks")
	c.Check(len(accepted) > 0, nil, "-", "permanent errors", "no kind of error is accepted as permanent: a malformed advertisement would block its chain for ever")

	c.Rule("complete", "the ingestion of an advertisement reports success, or an error accepted as permanent, only if no registration, index write or entry fetch failed on the way")
	var acc []string
	for s := range accepted {
		acc = append(acc, s)
	}
	m, ex := 0, 0
	kind := func(cl *Term) string {
		switch {
		case idxCall(cl.S, "Put") || idxCall(cl.S, "Remove") || idxCall(cl.S, "RemoveProviderContext") || idxCall(cl.S, "RemoveProvider"):
			return "index write"
		case cl.S == nRegOrUpd || cl.S == nRegister:
			return "registration"
		case legsSub(cl.S, "Sync"):
			return "entry fetch"
		}
		return ""
	}
	for _, f := range w.ads {
		h := skipNamedGo(&Hooks{})
		h.Call = func(st *State, ev *CallEv) {
			if ev.Result == nil || ev.Result.Op != OCall {
				return
			}
			if k := kind(ev.Result); k != "" {
				m++
				st.Set("pend:"+strconv.Itoa(ev.Result.ID), k)
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			for k, v := range st.flags {
				if !strings.HasPrefix(k, "pend:") {
					continue
				}
				cl := fr.E.T.byID(k[5:])
				r := cl
				if cl.Typ != nil {
					if tu, ok := cl.Typ.(*types.Tuple); ok {
						r = fr.E.extract(cl, tu.Len()-1)
					}
				}
				switch {
				case fr.E.IsNil(st, r):
					st.Del(k)
				case fr.E.NonNil(st, r):
					st.Del(k)
					st.Set("bad:"+v, "1")
				}
			}
			cond, val = bare(cond, val)
			if val && cond.Op == OCall && cond.S == "strings.Contains" && isStrSub(cond.Args[1], "content not found") && st.Has("bad:entry fetch") {
				st.Del("bad:entry fetch")
				st.Set("gone", "1")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			ex++
			e := fr.E
			r := res[len(res)-1]
			where := c.whereIn(fr, site)
			state := errState(e, st, r)
			perm := state != "" && accepted[state]
			if e.NonNil(st, r) && !perm {
				c.OK(where, "failure returned: "+state)
				return
			}
			what := "success"
			if perm {
				what = "a permanent error (" + state + ")"
			}
			var bad []string
			for k, v := range st.flags {
				if strings.HasPrefix(k, "pend:") {
					cl := e.T.byID(k[5:])
					if r == cl || callOf(r) == cl {
						continue
					}
					bad = append(bad, v)
				}
				if strings.HasPrefix(k, "bad:") {
					bad = append(bad, k[4:])
				}
			}
			c.Check(len(bad) == 0, st, where, what+" implies every step succeeded", fmt.Sprintf("the ingestion can report %s although a step failed or was not checked: %s", what, strings.Join(uniq(bad), ", ")))
			if !perm {
				c.Check(!st.Has("gone"), st, where, "missing content is an error", "the ingestion can report success although content was not found")
			}
		}
		c.Run(f, h)
	}
	c.AtLeast(3, m, "registrations, index writes and fetches")
	c.AtLeast(2, ex, "ends of the ingestion")
	_ = acc
}

func uniq(in []string) []string {
	m := map[string]bool{}
	for _, s := range in {
		m[s] = true
	}
	return sortedKeys(m)
}

func isStrSub(t *Term, s string) bool { v, ok := constStr(t); return ok && strings.Contains(v, s) }

// errState: the constant classification of a structured ingestion error.
func errState(e *Engine, st *State, r *Term) string {
	r = strip(r)
	if r == nil || r.Typ == nil {
		return ""
	}
	s, ok := derefType(r.Typ).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			if v, ok := constStr(e.pick(st, r, s.Field(i).Name())); ok {
				return v
			}
		}
	}
	return ""
}

// skipGuard: taking the branch cond==val means that the advertisement at hand
// was found to be superseded: the condition compares the position with, or
// looks the position up in, a collection into which positions are put only
// where a lookup in the set of removed context IDs succeeded.
func skipGuard(p *Prog, cond ssa.Value, val bool) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return skipGuard(p, u.X, !val)
	}
	var start ssa.Value
	switch x := cond.(type) {
	case *ssa.BinOp:
		if x.Op == token.NEQ {
			val = !val
		} else if x.Op != token.EQL {
			return false
		}
		if !val {
			return false
		}
		// position == collected position
		if isPosition(x.X) {
			start = x.Y
		} else if isPosition(x.Y) {
			start = x.X
		} else {
			return false
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Lookup); !ok || !val {
			return false
		}
		start = x.Tuple.(*ssa.Lookup).X
	case *ssa.Lookup:
		if !val {
			return false
		}
		start = x.X
	case *ssa.UnOp:
		if x.Op != token.MUL || !val {
			return false
		}
		ia, ok := x.X.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		start = ia.X
	default:
		return false
	}
	seen := map[ssa.Value]bool{}
	found := 0
	var src func(v ssa.Value) bool
	// put: value v enters the collection in block b
	put := func(v ssa.Value, b *ssa.BasicBlock) bool {
		if _, ok := v.(*ssa.Const); ok {
			if k, isK := ssaInt(v); !isK || k < 0 {
				return true
			}
		}
		if isCollected(v) {
			return src(v)
		}
		if removedHere(b) {
			found++
			return true
		}
		return false
	}
	src = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			k, isK := ssaInt(x)
			return !isK || k < 0
		case *ssa.Phi:
			for i, e := range x.Edges {
				if !put(e, x.Block().Preds[i]) {
					return false
				}
			}
			return true
		case *ssa.Slice:
			return src(x.X)
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				return src(ia.X)
			}
			if a, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a && !put(s.Val, s.Block()) {
						return false
					}
				}
				return true
			}
		case *ssa.Alloc:
			// backing array of a variadic append
			for _, r := range *x.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == ia && !put(s.Val, s.Block()) {
							return false
						}
					}
				}
			}
			return true
		case *ssa.MakeSlice:
			for _, r := range *x.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
							if !removedHere(s.Block()) {
								return false
							}
							found++
						}
					}
				}
			}
			return true
		case *ssa.MakeMap:
			for _, r := range *x.Referrers() {
				if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == x {
					if !removedHere(mu.Block()) {
						return false
					}
					found++
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range x.Common().Args {
					if !src(a) {
						return false
					}
				}
				return true
			}
			if f := x.Common().StaticCallee(); f != nil && f.Blocks != nil {
				return srcResults(f, 0, src)
			}
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				if f := cl.Common().StaticCallee(); f != nil && f.Blocks != nil {
					return srcResults(f, x.Index, src)
				}
			}
		}
		return false
	}
	return src(start) && found > 0
}

func srcResults(f *ssa.Function, i int, src func(ssa.Value) bool) bool {
	n := 0
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			n++
			if !src(r.Results[i]) {
				return false
			}
		}
	}
	return n > 0
}

// isCollected: v is itself (part of) the collection rather than a position.
func isCollected(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		// a counting index is a position
		if countsUp(x) {
			return false
		}
		if _, ok := countsDown(x); ok {
			return false
		}
		return true
	case *ssa.Slice, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.IndexAddr)
		return ok
	case *ssa.Call:
		b, ok := x.Common().Value.(*ssa.Builtin)
		return ok && b.Name() == "append"
	}
	return false
}

// removedHere: block b is reached only where a lookup in the set of removed
// context IDs, by the context ID of the advertisement at hand, succeeded; that
// set only receives context IDs of removals.
func removedHere(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		f, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, val := f.Cond, pr.Succs[0] == d
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, val = u.X, !val
		}
		if !val {
			continue
		}
		var lk *ssa.Lookup
		if x, ok := cond.(*ssa.Extract); ok && x.Index == 1 {
			lk, _ = x.Tuple.(*ssa.Lookup)
		} else if x, ok := cond.(*ssa.Lookup); ok {
			lk = x
		}
		if lk != nil && contextIDOf(lk.Index) != nil && removedSet(lk.X, contextIDOf(lk.Index)) {
			return true
		}
	}
	return false
}

// contextIDOf: v is the ContextID of an advertisement (as a string); returns
// the location it is read from without the field.
func contextIDOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldNameOf(fa) == "ContextID" {
				return locOf(fa.X)
			}
		case *ssa.Field:
			if x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name() == "ContextID" {
				return locOf(x.X)
			}
		}
		return nil
	}
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}

// locOf strips field selections: the object an advertisement is part of.
func locOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// removedSet: every insertion into the map is of the context ID of an
// advertisement at a point where that advertisement is known to be a removal.
func removedSet(m ssa.Value, _ ssa.Value) bool {
	refs := m.Referrers()
	if refs == nil {
		return false
	}
	n := 0
	for _, r := range *refs {
		mu, ok := r.(*ssa.MapUpdate)
		if !ok || mu.Map != m {
			continue
		}
		n++
		o := contextIDOf(mu.Key)
		if o == nil || !isRmHere(mu.Block(), o) {
			return false
		}
	}
	return n > 0
}

func isRmHere(b *ssa.BasicBlock, o ssa.Value) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		f, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, val := f.Cond, pr.Succs[0] == d
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, val = u.X, !val
		}
		var name string
		var obj ssa.Value
		switch x := cond.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				name, obj = fieldNameOf(fa), locOf(fa.X)
			}
		case *ssa.Field:
			name, obj = x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name(), locOf(x.X)
		}
		if val && name == "IsRm" && obj == o {
			return true
		}
	}
	return false
}

// isPosition: v counts down by one per iteration of a loop it belongs to.
func isPosition(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, ok := countsDown(v); ok {
		return true
	}
	for _, l := range naturalLoops(in.Parent()) {
		if l.Blocks[in.Block()] {
			if a, ok := affineIn(l, v, 0); ok && a.K == -1 {
				return true
			}
		}
	}
	return false
}
