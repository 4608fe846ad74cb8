package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I04", ruleI04)
}

// indexFns: functions of the ingester that are given a list of multihashes
// and put them into the index.
func indexFns(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.PkgFuncs("internal/ingest") {
		if f.Parent() != nil || f.Synthetic != "" || mhParam(f) < 0 || p.unused(f) {
			continue
		}
		if reachesCall(p, f, func(n string) bool { return idxCall(n, "Put") }) {
			out = append(out, f)
		}
	}
	return out
}

func mhParam(f *ssa.Function) int {
	for i, pr := range f.Params {
		if isMhSlice(pr.Type()) {
			return i
		}
	}
	return -1
}

func ruleI04(c *Ctx) {
	p := c.P
	c.Rule("batch", "every multihash added to a batch is handed on before the function ends without an error, and the memory of a batch handed to another goroutine is not written until that goroutine is done with it")
	app := 0
	for _, f := range p.Funcs {
		if strings.HasPrefix(fnPkgPath(f), modPath+"/test") || strings.HasPrefix(fnPkgPath(f), modPath+"/command") || strings.HasSuffix(fnPkgPath(f), "/test") || strings.HasPrefix(fnPkgPath(f), modPath+"/api") {
			continue
		}
		_, a := accumulators(f, func(at ssa.Instruction, kind string) {
			where := p.instrLoc(at) + " in " + shortFn(f)
			if kind == "lost" {
				c.Bad(nil, where, "batch handed on in "+shortFn(f), "multihashes collected in a batch can be dropped: the function can end without an error while they have not been handed on")
			} else {
				c.Bad(nil, where, "batch not overwritten in "+shortFn(f), "the memory of a batch is written again while the goroutine it was handed to may still read it")
			}
		})
		if a > 0 {
			app += a
			c.OK(shortFn(f), "batches of multihashes are handed on")
		}
	}
	c.AtLeast(1, app, "batches")

	c.Rule("entries", "of a list of multihashes to index, each one is added to a batch or put into the index; only an invalid multihash is left out")
	fns := indexFns(p)
	walked := 0
	for _, f := range fns {
		loops := false
		for _, l := range naturalLoops(f) {
			for b := range l.Blocks {
				for _, in := range b.Instrs {
					if ia, ok := in.(*ssa.IndexAddr); ok && ia.X == f.Params[mhParam(f)] {
						loops = true
					}
				}
			}
		}
		if !loops {
			// passes the whole list on
			passes := false
			var check func(v ssa.Value) bool
			seen := map[ssa.Value]bool{}
			check = func(v ssa.Value) bool {
				if seen[v] {
					return false
				}
				seen[v] = true
				for _, r := range *v.Referrers() {
					switch x := r.(type) {
					case ssa.CallInstruction:
						if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
							return true
						}
					case *ssa.Phi:
						if check(x) {
							return true
						}
					case *ssa.Store, *ssa.Send, *ssa.Select, *ssa.MakeClosure:
						return true
					}
				}
				return false
			}
			passes = check(f.Params[mhParam(f)])
			c.Check(passes, nil, shortFn(f), "list used", "a list of multihashes to index is not used")
			continue
		}
		walked++
		pi := mhParam(f)
		h := &Hooks{Go: func(st *State, ev *CallEv) GoMode { return GoSkip }}
		wk := &Walk{Flag: "mh", IsSlice: func(t *Term) bool { t = strip(t); return t != nil && t.Op == OParam && t.I == pi }}
		wk.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
			if st.Has("invalid") {
				return
			}
			c.Bad(st, c.whereIn(fr, site), "only invalid multihashes left out", "a valid multihash of the list is not indexed")
		}
		wk.track(h)
		track := h.Assume
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			if errNonNil(st, func(x *Term) bool {
				return strings.HasPrefix(x.S, "github.com/multiformats/go-multihash.") && len(x.Args) > 0 && wk.isElem(x.Args[0])
			}) {
				st.Set("invalid", "1")
			}
			track(st, fr, site, cond, val)
			cond, val = bare(cond, val)
			if cond.Op == OBin && cond.S == "<" && cond.Args[1].Op == OLen && wk.IsSlice(cond.Args[1].Args[0]) {
				st.Del("invalid")
			}
		}
		h.Append = func(st *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term) {
			for _, x := range elems {
				if wk.isElem(x) {
					wk.Handled(st)
				}
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			if idxCall(ev.Name, "Put") || idxCall(ev.Name, "Remove") {
				if vs, ok := ev.E.VarArgs(st, ev.Args[2]); ok {
					for _, v := range vs {
						if wk.isElem(v) {
							wk.Handled(st)
						}
					}
				}
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if len(res) > 0 && fr.E.NonNil(st, res[len(res)-1]) {
				return
			}
			if len(res) > 0 && fromErrChan(res[len(res)-1]) {
				return
			}
			c.Check(wk.Done(st), st, c.whereIn(fr, site), "the whole list is worked through", "success is reported although the end of the list was not reached")
		}
		c.Run(f, h)
	}
	c.AtLeast(1, walked, "functions working through a list of multihashes")

	c.Rule("chunks", "each entry chunk that was fetched and could be read is indexed in full, and the chunk it links to is fetched next")
	chunks := 0
	hooksSeen := 0
	c.Rule("hamt", "for entries kept in a HAMT every child node is fetched and every key is added to the batches")
	keys, links := 0, 0
	acts := "(github.com/filecoin-project/go-legs.SegmentSyncActions)."
	opaque := inFns(fns)
	for _, f := range adIngestFns(c) {
		h := skipNamedGo(&Hooks{Opaque: opaque})
		chunkOf := func(t *Term) *Term { // the chunk an Entries/Next value comes from
			var out *Term
			anySub(t, func(x *Term) bool {
				if x.Op == OCall && x.S == nUnwrapChunk {
					out = x
					return true
				}
				return false
			})
			return out
		}
		wk := &Walk{Flag: "hn", IsSlice: func(t *Term) bool { t = strip(t); return isField(t, "Data") }}
		wk.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
			c.rule = "hamt"
			if st.Has("nolink") {
				return
			}
			c.Bad(st, c.whereIn(fr, site), "every child node is fetched", "a child node of the HAMT is not fetched")
		}
		wk.track(h)
		track := h.Assume
		isDone := func(t *Term) bool {
			return t.Op == OCall && strings.HasSuffix(t.S, "MapIterator).Done")
		}
		nextOf := func(t *Term) *Term {
			var out *Term
			anySub(t, func(x *Term) bool {
				if x.Op == OCall && strings.HasSuffix(x.S, "MapIterator).Next") {
					out = x
					return true
				}
				return false
			})
			return out
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			e := fr.E
			if nilFact(st, true, func(t *Term) bool { return anyField(t, "HashMapNode") }) {
				st.Set("nolink", "1")
			}
			track(st, fr, site, cond, val)
			cond, val = bare(cond, val)
			if cond.Op == OBin && cond.S == "<" && cond.Args[1].Op == OLen && wk.IsSlice(cond.Args[1].Args[0]) {
				st.Del("nolink")
			}
			if isDone(cond) {
				if val {
					st.Set("keys:done", "1")
				} else {
					st.Set("keys:begun", "1")
				}
			}
			// outcome of reading a chunk
			for k, v := range st.flags {
				if strings.HasPrefix(k, "chunk:") && v == "?" {
					cl := e.T.byID(k[6:])
					err := e.extract(cl, 1)
					switch {
					case e.IsNil(st, err):
						st.Set(k, "read")
					case e.NonNil(st, err):
						st.Set(k, "bad")
					}
				}
				if strings.HasPrefix(k, "chunk:") {
					cl := e.T.byID(k[6:])
					isNext := func(t *Term) bool { return isField(strip(t), "Next") && chunkOf(t) == cl }
					switch {
					case e.IsNil(st, e.extract(cl, 0)):
						// there is a chunk if it could be read
						st.Set("next:"+k[6:], "none")
					case nilFact(st, true, isNext):
						st.Set("next:"+k[6:], "none")
					case nilFact(st, false, isNext) && st.Get("next:"+k[6:]) == "":
						st.Set("next:"+k[6:], "some")
					}
				}
			}
		}
		endOf := func(st *State, e *Engine, where string, hook bool) {
			c.rule = "chunks"
			for _, k := range flagKeys(st, "chunk:") {
				v := st.Get(k)
				id := k[6:]
				own := st.Get("hook:"+id) == "1"
				if own != hook {
					continue
				}
				if v == "read" || v == "?" {
					c.Check(false, st, where, "chunk indexed", "an entry chunk that was read is not indexed in full")
				}
				if v == "indexed" {
					n := st.Get("next:" + id)
					c.Check(n == "none" || n == "followed", st, where, "link to the next chunk followed", "the next entry chunk is not fetched although there may be one")
				}
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			e := ev.E
			where := c.whereIn(ev.Fr, ev.Site)
			switch {
			case ev.Name == nUnwrapChunk:
				chunks++
				id := strconv.Itoa(ev.Result.ID)
				st.Set("chunk:"+id, "?")
				st.Del("next:" + id)
				if hookFrame(ev.Fr) != nil {
					st.Set("hook:"+id, "1")
					hooksSeen++
				}
			case ev.Fn != nil && opaque(ev.Fn) && !ev.Inline:
				a := strip(ev.Args[mhParam(ev.Fn)])
				if isField(a, "Entries") && chunkOf(a) != nil {
					st.Set("chunk:"+strconv.Itoa(chunkOf(a).ID), "indexed")
				}
			case legsSub(ev.Name, "Sync"):
				cd := ev.Args[3]
				if ch := chunkOf(cd); ch != nil && anyField(cd, "Next") {
					st.Set("next:"+strconv.Itoa(ch.ID), "followed")
				}
				if anyField(cd, "HashMapNode") {
					links++
					wk.Handled(st)
				}
			case ev.Name == acts+"SetNextSyncCid":
				c.rule = "chunks"
				a := strip(ev.Args[1])
				if ch := chunkOf(a); ch != nil && anyField(a, "Next") {
					st.Set("next:"+strconv.Itoa(ch.ID), "followed")
				} else if hf := hookFrame(ev.Fr); hf != nil && len(flagKeys(st, "hook:")) > 0 {
					none := false
					for _, k := range flagKeys(st, "hook:") {
						none = none || st.Get("next:"+k[5:]) == "none"
					}
					c.Check(isUndef(a) && none, st, where, "ends only at the last chunk", "the fetching of entry chunks ends although the chunk links to another one")
				}
			case ev.Name == acts+"FailSync":
				for _, k := range flagKeys(st, "hook:") {
					st.Del("chunk:" + k[5:])
				}
			case strings.HasSuffix(ev.Name, "MapIterator).Next"):
				keys++
				c.rule = "hamt"
				c.Check(st.Get("key") != "open", st, where, "every key is taken", "a key of the HAMT is not added to a batch")
				st.Set("key", "open")
			case strings.HasSuffix(ev.Name, "MapIterator).Done"):
				c.rule = "hamt"
				c.Check(st.Get("key") != "open", st, where, "every key is taken", "a key of the HAMT is not added to a batch")
			case strings.HasSuffix(ev.Name, ".MapIterator"):
				c.rule = "hamt"
				c.Check(wk.Done(st), st, where, "fetched before it is read", "the HAMT is read before all its child nodes were fetched")
			}
			_ = e
		}
		h.Append = func(st *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term) {
			for _, x := range elems {
				if v, ok := site.(ssa.Value); ok && isMhSlice(v.Type()) && nextOf(x) != nil {
					st.Del("key")
				}
			}
		}
		h.Return = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if hookSig(fr.Fn) && hookFrame(fr.Up) == nil {
				endOf(st, fr.E, c.whereIn(fr, site), true)
				for _, k := range flagKeys(st, "hook:") {
					st.Del("chunk:" + k[5:])
					st.Del("next:" + k[5:])
					st.Del(k)
				}
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			e := fr.E
			if e.NonNil(st, res[len(res)-1]) && errState(e, st, res[len(res)-1]) != "ingestEntryChunkErr" {
				return
			}
			where := c.whereIn(fr, site)
			endOf(st, e, where, false)
			if e.NonNil(st, res[len(res)-1]) {
				return
			}
			c.rule = "hamt"
			if st.Has("keys:begun") {
				c.Check(st.Has("keys:done") && st.Get("key") != "open", st, where, "all keys are read", "success is reported although not every key of the HAMT was read")
			}
		}
		c.Run(f, h)
	}
	c.rule = "chunks"
	c.AtLeast(2, chunks, "entry chunks read")
	c.AtLeast(1, hooksSeen, "entry chunks read in a block hook")
	c.rule = "hamt"
	c.AtLeast(1, keys, "HAMT keys read")
	c.AtLeast(1, links, "HAMT nodes fetched")
}

func flagKeys(st *State, pre string) []string {
	m := map[string]bool{}
	for k := range st.flags {
		if strings.HasPrefix(k, pre) {
			m[k] = true
		}
	}
	return sortedKeys(m)
}

// hookSig: a block hook of the subscriber.
func hookSig(f *ssa.Function) bool {
	s := f.Signature
	return s.Params().Len() == 3 && strings.HasSuffix(s.Params().At(2).Type().String(), "go-legs.SegmentSyncActions")
}

// hookFrame: the innermost block hook on the stack.
func hookFrame(fr *Frame) *Frame {
	for ; fr != nil; fr = fr.Up {
		if hookSig(fr.Fn) {
			return fr
		}
	}
	return nil
}

// fromErrChan: the value was received from a channel (of errors).
func fromErrChan(t *Term) bool {
	t = strip(t)
	return t != nil && t.Op != OCall && t.Typ != nil && isErrorType(t.Typ) && anySub(t, func(x *Term) bool {
		if x.Typ == nil {
			return false
		}
		_, ok := x.Typ.Underlying().(*types.Chan)
		return ok
	})
}
