package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D03", ruleD03)
}

const (
	nWgAdd   = "(*sync.WaitGroup).Add"
	nWgDone  = "(*sync.WaitGroup).Done"
	nWgWait  = "(*sync.WaitGroup).Wait"
	nOnceDo  = "(*sync.Once).Do"
	nCtxDone = "(context.Context).Done"
)

// fieldKey names the struct field that a value was read from (or that an
// address belongs to): "Struct.field".
func fieldKey(t *Term) string {
	t = strip(t)
	for t != nil && t.Op == ODeref {
		t = strip(t.Args[0])
	}
	if t == nil || t.Op != OFieldAddr && t.Op != OField {
		return ""
	}
	b := strip(t.Args[0])
	bt := b.Typ
	if bt == nil {
		return ""
	}
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	}
	n, ok := bt.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return ""
	}
	return n.Obj().Name() + "." + t.S
}

// chanFields: the struct fields of channel type that a package closes, and
// those of wait groups.
func closedChanFields(p *Prog, rel string) map[string]bool {
	out := map[string]bool{}
	for _, f := range p.PkgFuncs(rel) {
		for _, call := range callsIn(f) {
			b, ok := call.Common().Value.(*ssa.Builtin)
			if !ok || b.Name() != "close" {
				continue
			}
			if u, ok := call.Common().Args[0].(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					if n, ok := derefType(fa.X.Type()).(*types.Named); ok {
						out[n.Obj().Name()+"."+fieldNameOf(fa)] = true
					}
				}
			}
		}
	}
	return out
}

func splitSet(s string) map[string]bool {
	out := map[string]bool{}
	for _, x := range strings.Split(s, ",") {
		if x != "" {
			out[x] = true
		}
	}
	return out
}

func joinSet(m map[string]bool) string { return strings.Join(sortedKeys(m), ",") }

// onPath: the names x of the flags "pre:x" that are set.
func onPath(st *State, pre string) map[string]bool {
	out := map[string]bool{}
	for k := range st.flags {
		if strings.HasPrefix(k, pre+":") {
			out[k[len(pre)+1:]] = true
		}
	}
	return out
}

// d03Ev: something that a goroutine does, with what is known to have happened
// before it.
type d03Ev struct {
	root    *ssa.Function
	where   string
	what    string
	st      *State
	depth   int
	counted map[string]bool // by these wait groups (closure goroutines)
	done    map[string]bool // wait groups left already
	waited  map[string]bool
	recvd   map[string]bool
	ended   map[string]bool
	closed  map[string]bool
	stops   map[string]bool
	actor   bool
	barrier bool
	subEnd  bool
	once    bool
	block   bool
}

func ruleD03(c *Ctx) {
	const (
		rWtr  = "the channel of a waiting call is closed only together with dropping it from the list of waiters"
		rSend = "a channel that shutdown closes is closed only after every background goroutine that sends on it has ended: each such goroutine is counted (before it starts) by a wait group, leaves the group after its last send, and the group is waited for before the channel is closed; actions that send on it are known to be finished"
		rOnce = "a channel is closed at most once: by a sync.Once of its object, or by a goroutine that is started once; and nothing is sent on it afterwards on that path"
		rStop = "every goroutine that is waited for at shutdown can be stopped: where it waits for a choice of channels one of them is closed before it is waited for, and it does not wait again after that"
		rWork = "goroutines that fetch or index are counted by a wait group"
		rWait = "Close returns only after all counted goroutines have ended, and closes the store only after the last action was handled"
		rDrn  = "the receiver of a channel that counted goroutines send on keeps receiving until the channel is closed"
		rSub  = "closing ends the subscriber (whose error is returned) and the subscription to its events before waiting for pending fetches"
		rDmn  = "the daemon stops its servers, then closes the ingester, then the value store; every one that exists is stopped whatever happened before, and a failure is returned"
	)
	nclose := 0
	for _, rel := range []string{"internal/ingest", "internal/registry"} {
		nclose += d03Pkg(c, rel, rSend, rOnce, rStop, rWork, rWait, rDrn, rSub, rWtr)
	}
	c.Rule("once", rOnce)
	c.AtLeast(6, nclose, "channels closed at shutdown")
	d03Daemon(c, rDmn)
}

func d03Pkg(c *Ctx, rel string, rSend, rOnce, rStop, rWork, rWait, rDrn, rSub, rWtr string) int {
	p := c.P
	closedKeys := closedChanFields(p, rel)
	heavyIn := func(f *ssa.Function) bool { return reachesCall(p, f, d03Heavy) }
	touches := reaching(c, rel, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Send:
			return !localChan(x.Chan, 0)
		case *ssa.Select:
			if softSend(x) != "" {
				return false
			}
			for _, s := range x.States {
				if !localChan(s.Chan, 0) {
					return true
				}
			}
		case *ssa.Go:
			if t := goFn(x); t != nil {
				return heavyIn(t) && !joinedGo(x, t)
			}
			return true
		case *ssa.UnOp:
			return x.Op == token.ARROW && !localChan(x.X, 0)
		case ssa.CallInstruction:
			if b, ok := x.Common().Value.(*ssa.Builtin); ok {
				return b.Name() == "close" && !localChan(x.Common().Args[0], 0)
			}
			n := calleeName(x)
			return strings.HasPrefix(n, "(*sync.WaitGroup)") || n == nOnceDo || legsSub(n, "Close") || isDsClose(x)
		}
		return false
	})
	heavy := d03Heavy
	gos := goTargets(p, rel)
	goBody := map[*ssa.Function]bool{} // closures that fetch or index on their own
	for _, f := range p.PkgFuncs(rel) {
		for _, call := range callsIn(f) {
			if g, ok := call.(*ssa.Go); ok {
				if t := goFn(g); t != nil && heavyIn(t) && !joinedGo(g, t) {
					goBody[t] = true
				}
			}
		}
	}
	roots := pkgRoots(p, rel)
	for f := range gos {
		have := false
		for _, r := range roots {
			have = have || r == f
		}
		if !have {
			roots = append(roots, f)
		}
	}
	sortFns(roots)

	var sends, selects, works, exits, dsCloses []*d03Ev
	closes := map[string][]*d03Ev{}
	waits := map[string][]*d03Ev{}
	startCounted := map[*ssa.Function][]*d03Ev{} // named goroutine bodies: how they are started
	parKey := map[*ssa.Function]map[int]string{}
	recvBy := map[string]map[*ssa.Function]bool{}
	goEnds := map[*ssa.Function][]*d03Ev{}
	sendWhat := map[*d03Ev]string{}
	subSync := map[*d03Ev]bool{}

	// goroutine bodies that get the channels as arguments are run after
	// their start was seen
	order := append([]*ssa.Function{}, roots...)
	sort.SliceStable(order, func(i, j int) bool { return !gos[order[i]] && gos[order[j]] })

	for _, root := range order {
		root := root
		if !touches(root) {
			continue
		}
		h := &Hooks{SkipNamed: true}
		allocKey := map[*Term]string{}
		h.Opaque = func(f *ssa.Function) bool { return !touches(f) && !goBody[f] }
		key := func(fr *Frame, t *Term) string {
			t = strip(t)
			if k := fieldKey(t); k != "" {
				return k
			}
			if k := allocKey[t]; k != "" {
				return k
			}
			if gos[root] && parKey[root] != nil {
				for i := range root.Params {
					if rootParam(fr.E, t, i) {
						return parKey[root][i]
					}
				}
			}
			return ""
		}
		mk := func(st *State, fr *Frame, site ssa.Instruction) *d03Ev {
			ev := &d03Ev{root: root, where: c.whereIn(fr, site), st: st.clone(), depth: goDepth(fr)}
			ev.counted = splitSet(st.Get(fmt.Sprintf("counted:%d", ev.depth)))
			ev.done = onPath(st, "left")
			ev.waited, ev.recvd = onPath(st, "waited"), onPath(st, "recvd")
			ev.ended, ev.closed = onPath(st, "ended"), onPath(st, "closed")
			ev.actor, ev.barrier, ev.subEnd = fr.InActor(), st.Has("barrier"), st.Has("subend")
			for f := fr; f != nil; f = f.Up {
				if f.Site != nil && calleeName(f.Site) == nOnceDo {
					ev.once = true
				}
			}
			return ev
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) {
			if a := strip(addr); a.Op == OFieldAddr && a.Typ != nil && waiterMap(a.Typ) {
				st.Set("drop", "")
			}
			if v := strip(val); v.Op == OAlloc && v.S == "chan" {
				if k := fieldKey(addr); k != "" {
					allocKey[v] = k
				}
			}
		}
		drop := func(st *State) { st.Set("drop", "") }
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			if m.Typ != nil && waiterMap(m.Typ) {
				drop(st)
			}
		}
		h.MapDelete = func(st *State, fr *Frame, site ssa.Instruction, m, k *Term) {
			if m.Typ != nil && waiterMap(m.Typ) {
				drop(st)
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			if op, ok := lockOp(ev.Name); ok {
				if op == "" {
					if st.Has("elem") {
						c.Rule("waiters", rWtr)
						c.Check(st.Has("drop"), st, st.Get("elem"), "closing the channel of a waiter", "it stays in the list of waiters, where it is closed or sent to again")
					}
				}
				st.Del("elem")
				st.Del("drop")
			}
			if len(ev.Args) > 0 {
				k := fieldKey(ev.Args[0])
				if k == "" {
					k = "local"
				}
				switch ev.Name {
				case nWgAdd:
					if n, ok := constInt(ev.Args[1]); ok && n < 0 {
						break
					}
					st.Set("add:"+k, "")
				case nWgDone:
					d := goDepth(ev.Fr)
					fk := fmt.Sprintf("counted:%d", d)
					s := splitSet(st.Get(fk))
					if s[k] {
						delete(s, k)
						st.Set(fk, joinSet(s))
					} else if d == 0 && gos[root] && !st.Has("add:"+k) {
						st.Set("left:"+k, "")
					}
					st.Del("add:" + k)
				case nWgWait:
					waits[k] = append(waits[k], mk(st, ev.Fr, ev.Site))
					st.Set("waited:"+k, "")
				}
			}
			if !ev.Go && !ev.Inline && ev.Fr.Go && ev.Fn != nil && gos[ev.Fn] && p.wrappedGo(ev.Fn) {
				e := mk(st, ev.Fr, ev.Site)
				startCounted[ev.Fn] = append(startCounted[ev.Fn], e)
				return
			}
			// a function that is not followed: its sends that do not block
			if !ev.Inline && !ev.Go && ev.Fn != nil && fnPkgPath(ev.Fn) == fnPkgPath(root) {
				for k := range softSends(p, ev.Fn) {
					if !closedKeys[k] {
						continue
					}
					c.Rule("once", rOnce)
					c.Check(!st.Has("closed:"+k), st, c.whereIn(ev.Fr, ev.Site), "send on "+k, "it was closed before")
					e := mk(st, ev.Fr, ev.Site)
					sendWhat[e] = k
					sends = append(sends, e)
				}
			}
			if legsSub(ev.Name, "Close") {
				st.Set("subend", "")
			}
			if isDsClose(ev.Site) {
				dsCloses = append(dsCloses, mk(st, ev.Fr, ev.Site))
			}
			if !ev.Go && (heavy(ev.Name) || !ev.Inline && ev.Fn != nil && fnPkgPath(ev.Fn) == fnPkgPath(root) && reachesCall(p, ev.Fn, heavy)) {
				if gos[root] || goDepth(ev.Fr) > 0 {
					e := mk(st, ev.Fr, ev.Site)
					subSync[e] = legsSub(ev.Name, "Sync")
					e.what = ev.Name
					works = append(works, e)
				}
			}
		}
		h.Go = func(st *State, ev *CallEv) GoMode {
			adds := onPath(st, "add")
			for k := range adds {
				st.Del("add:" + k)
			}
			if ev.Fn != nil && ev.Fn.Parent() == nil && ev.Fn.Object() != nil && gos[ev.Fn] {
				e := mk(st, ev.Fr, ev.Site)
				e.counted = adds
				startCounted[ev.Fn] = append(startCounted[ev.Fn], e)
				for i, a := range ev.Args {
					if k := key(ev.Fr, a); k != "" {
						if parKey[ev.Fn] == nil {
							parKey[ev.Fn] = map[int]string{}
						}
						parKey[ev.Fn][i] = k
					}
				}
				return GoSkip
			}
			st.Set(fmt.Sprintf("counted:%d", goDepth(ev.Fr)+1), joinSet(adds))
			return GoInline
		}
		h.GoBack = func(st *State, ev *CallEv) {
			d := goDepth(ev.Fr) + 1
			st.Del(fmt.Sprintf("counted:%d", d))
			st.Del(fmt.Sprintf("stopped:%d", d))
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			k := key(fr, ch)
			if isFuncChan(ch.Typ) {
				st.Del("barrier")
			}
			if fr.InActor() && strip(ch).Op == OAlloc {
				st.Set(fmt.Sprintf("sig:%d", strip(ch).ID), "")
			}
			if k == "" || !closedKeys[k] {
				return
			}
			c.Rule("once", rOnce)
			c.Check(!st.Has("closed:"+k), st, c.whereIn(fr, site), "send on "+k, "it was closed before")
			e := mk(st, fr, site)
			e.block = !nonblock
			if s, ok := site.(*ssa.Select); ok && e.block {
				for i := range s.States {
					if s.States[i].Dir == types.RecvOnly {
						e.block = false
					}
				}
			}
			sendWhat[e] = k
			sends = append(sends, e)
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			if st.Has(fmt.Sprintf("sig:%d", strip(ch).ID)) && !fr.InActor() {
				st.Set("barrier", "")
			}
			k := key(fr, ch)
			if k == "" {
				return
			}
			if recvBy[k] == nil {
				recvBy[k] = map[*ssa.Function]bool{}
			}
			if goDepth(fr) == 0 {
				recvBy[k][root] = true
			}
			if !closedKeys[k] {
				return
			}
			if selectOf(site) {
				if et := ch.Typ; et != nil {
					if ct, ok := et.Underlying().(*types.Chan); ok {
						if s, ok := ct.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
							st.Set(fmt.Sprintf("stopped:%d", goDepth(fr)), k)
						}
					}
				}
				return
			}
			st.Set("recvd:"+k, "")
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if bt, ok := cd.Typ.(*types.Basic); ok && bt.Kind() == types.Bool && !v && fieldKey(cd) != "" {
				st.Set("guard", "")
			}
			if cl := callOf(cd); cl != nil && v && strings.Contains(cl.S, "CompareAndSwap") {
				st.Set("guard", "")
			}
			if cd.Op == OExtract && cd.I == 1 && cd.Args[0].Op == ORecv {
				if k := key(fr, cd.Args[0].Args[0]); k != "" {
					if v {
						st.Del("stopped:" + fmt.Sprint(goDepth(fr)))
					} else {
						st.Set("ended:"+k, "")
					}
				}
			}
		}
		h.Select = func(st *State, fr *Frame, site *ssa.Select) {
			if !site.Blocking {
				return
			}
			d := goDepth(fr)
			e := mk(st, fr, site)
			e.stops = map[string]bool{}
			for _, s := range site.States {
				ch := fr.E.get(fr, st, s.Chan)
				k := key(fr, ch)
				switch {
				case k != "" && closedKeys[k] && s.Dir == types.RecvOnly:
					e.stops[k] = true
				case s.Dir == types.RecvOnly && isTimeChan(s.Chan.Type()):
					e.stops["~timer"] = true
				}
			}
			if k := st.Get(fmt.Sprintf("stopped:%d", d)); k != "" && e.stops[k] && (d > 0 || gos[root]) {
				c.Rule("stopped", rStop)
				c.Bad(st, c.whereIn(fr, site), "wait after "+k+" was closed", "the goroutine goes on after it was told to stop")
			}
			if d > 0 || gos[root] {
				selects = append(selects, e)
			}
		}
		h.Close = func(st *State, fr *Frame, site ssa.Instruction, ch *Term) {
			if fr.InActor() && strip(ch).Op == OAlloc {
				st.Set(fmt.Sprintf("sig:%d", strip(ch).ID), "")
			}
			if ch.Typ != nil {
				if ct, ok := ch.Typ.Underlying().(*types.Chan); ok && eventStruct(ct.Elem()) && anySub(ch, func(x *Term) bool {
					return x.Typ != nil && waiterMap(x.Typ)
				}) {
					st.Set("elem", c.whereIn(fr, site))
				}
			}
			k := key(fr, ch)
			if k == "" || !closedKeys[k] {
				return
			}
			c.Rule("once", rOnce)
			c.Check(!st.Has("closed:"+k), st, c.whereIn(fr, site), "close of "+k, "it is closed twice")
			closes[k] = append(closes[k], mk(st, fr, site))
			st.Set("closed:"+k, "")
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			e := mk(st, fr, site)
			if gos[root] {
				goEnds[root] = append(goEnds[root], e)
			}
			if root.Object() != nil && root.Object().Exported() && len(e.closed) > 0 {
				exits = append(exits, e)
				if reachesCall(p, root, func(n string) bool { return legsSub(n, "Close") }) {
					c.Rule("subscriber", rSub)
					ok := false
					for _, r := range res {
						s := strip(r)
						if cl := callOf(s); cl != nil && legsSub(cl.S, "Close") {
							ok = true
						}
					}
					c.Check(ok, st, c.whereIn(fr, site), "error of closing the subscriber", "it is not returned")
				}
			}
		}
		c.Run(root, h, rel)
	}

	// by which wait groups an event's goroutine is counted
	counted := func(e *d03Ev) map[string]bool {
		out := map[string]bool{}
		if e.depth > 0 {
			for k := range e.counted {
				out[k] = true
			}
			return out
		}
		for i, s := range startCounted[e.root] {
			if i == 0 {
				for k := range s.counted {
					out[k] = true
				}
				continue
			}
			for k := range out {
				if !s.counted[k] {
					delete(out, k)
				}
			}
		}
		for k := range e.done {
			delete(out, k)
		}
		return out
	}
	// what is known when a channel is seen closed
	var knows func(k string, busy map[string]bool) map[string]bool
	expand := func(e *d03Ev, busy map[string]bool) map[string]bool {
		out := map[string]bool{}
		for w := range e.waited {
			out["wait "+w] = true
		}
		for _, m := range []map[string]bool{e.recvd, e.ended} {
			for k := range m {
				out["end "+k] = true
				for x := range knows(k, busy) {
					out[x] = true
				}
			}
		}
		return out
	}
	knows = func(k string, busy map[string]bool) map[string]bool {
		if busy[k] || len(closes[k]) == 0 {
			return nil
		}
		busy[k] = true
		defer delete(busy, k)
		var out map[string]bool
		for _, e := range closes[k] {
			m := expand(e, busy)
			if out == nil {
				out = m
				continue
			}
			for x := range out {
				if !m[x] {
					delete(out, x)
				}
			}
		}
		return out
	}
	n := 0
	for _, k := range sortedKeys(closedKeys) {
		n++
		for _, cl := range closes[k] {
			kn := expand(cl, map[string]bool{})
			closer := cl.root
			c.Rule("once", rOnce)
			switch {
			case cl.once || cl.actor:
				c.OK(cl.where, "close of "+k+" in a sync.Once")
			case gos[closer] && cl.depth == 0:
				// started once, by the constructor
				bad := ""
				for _, s := range startCounted[closer] {
					if s.root.Signature.Recv() != nil || len(startCounted[closer]) > 1 && s.root != startCounted[closer][0].root {
						bad = s.where
					}
				}
				c.Check(bad == "", cl.st, cl.where, "close of "+k, "the goroutine that closes it is started at "+bad+", which can happen several times")
			default:
				c.Check(guardedClose(cl.st), cl.st, cl.where, "close of "+k, "it may be closed again: nothing ensures that this is done once")
			}
			c.Rule("senders", rSend)
			for _, s := range sends {
				if sendWhat[s] != k {
					continue
				}
				switch {
				case s.actor:
					if s.root != closer && s.root.Object() != nil && s.root.Object().Exported() && !gos[s.root] {
						continue // used by a caller
					}
					drained := false
					for x := range kn {
						if strings.HasPrefix(x, "end ") && isActionKey(p, rel, x[4:]) {
							drained = true
						}
					}
					c.Check(cl.barrier || cl.actor || drained, cl.st, cl.where, "close of "+k, "the action that sends on it at "+s.where+" may still be running")
				case s.depth == 0 && s.root == closer:
				case s.depth == 0 && !gos[s.root]:
					// in a call of the API
				default:
					ok := false
					for w := range counted(s) {
						ok = ok || kn["wait "+w]
					}
					c.Check(ok, cl.st, cl.where, "close of "+k, "the goroutine that sends on it at "+s.where+" is not known to have ended")
				}
			}
			c.OK(cl.where, fmt.Sprintf("close of %s: known %s", k, joinSet(kn)))
		}
	}
	// what is waited for can be stopped
	c.Rule("stopped", rStop)
	used := map[string]bool{}
	for _, s := range selects {
		cnt := counted(s)
		if len(cnt) == 0 {
			continue
		}
		if s.stops["~timer"] {
			continue
		}
		c.Check(len(s.stops) > 0, s.st, s.where, "wait of a counted goroutine", "nothing that is closed at shutdown ends this wait")
		for w := range cnt {
			for _, e := range waits[w] {
				if e.depth > 0 {
					continue
				}
				ok := false
				for k := range s.stops {
					ok = ok || e.closed[k]
					// in another goroutine: it was told by that channel
					for x := range expand(e, map[string]bool{}) {
						ok = ok || x == "end "+k
					}
					ok = ok || e.st.Get("stopped:0") == k
				}
				if len(s.stops) > 0 {
					c.Check(ok, e.st, e.where, "wait for "+w, "the goroutine waiting at "+s.where+" was not told to stop before")
				}
			}
		}
	}
	for _, f := range order {
		if gos[f] {
			for w := range counted(&d03Ev{root: f}) {
				used[w] = true
			}
		}
	}
	for _, l := range [][]*d03Ev{sends, selects, works} {
		for _, s := range l {
			for w := range counted(s) {
				used[w] = true
			}
		}
	}
	// work is counted
	c.Rule("work", rWork)
	for _, s := range works {
		cnt := counted(s)
		c.Check(len(cnt) > 0, s.st, s.where, "goroutine that calls "+s.what, "it is not counted, so nothing waits for its end")
		for w := range cnt {
			c.Check(len(waits[w]) > 0, s.st, s.where, "goroutine counted by "+w, "nobody waits for it")
			if subSync[s] {
				c.Rule("subscriber", rSub)
				for _, e := range waits[w] {
					c.Check(e.subEnd, e.st, e.where, "wait for "+w, "the subscriber whose fetches are waited for was not closed before")
				}
				c.Rule("work", rWork)
			}
		}
	}
	// Close waits for everything
	c.Rule("waits", rWait)
	for _, e := range exits {
		kn := expand(e, map[string]bool{})
		for w := range used {
			c.Check(kn["wait "+w], e.st, e.where, "return of "+shortFn(e.root), "goroutines counted by "+w+" may still be running")
		}
	}
	for _, e := range dsCloses {
		kn := expand(e, map[string]bool{})
		ok := false
		for x := range kn {
			ok = ok || strings.HasPrefix(x, "end ") && isActionKey(p, rel, x[4:])
		}
		c.Check(ok, e.st, e.where, "closing the datastore", "the goroutine that uses it has not ended")
	}
	// receivers go on
	c.Rule("drained", rDrn)
	for _, s := range sends {
		if !s.block || s.actor || s.depth == 0 && !gos[s.root] || len(counted(s)) == 0 {
			continue
		}
		k := sendWhat[s]
		nrecv := 0
		for r := range recvBy[k] {
			if !gos[r] {
				continue
			}
			nrecv++
			for _, e := range goEnds[r] {
				c.Check(e.ended[k], e.st, e.where, "end of the receiver of "+k, "it stops receiving before the channel is closed, so that the send at "+s.where+" and the shutdown block")
			}
		}
		c.Check(nrecv > 0, s.st, s.where, "send on "+k, "no goroutine receives")
	}
	return n
}

// isDsClose: closing a datastore.
func isDsClose(ci ssa.CallInstruction) bool {
	n := calleeName(ci)
	if dsCall(n, "Close") {
		return true
	}
	cc := ci.Common()
	return n == "(io.Closer).Close" && cc.IsInvoke() && strings.Contains(cc.Value.Type().String(), "ipfs/go-datastore")
}

// isActionKey: a channel of functions.
func isActionKey(p *Prog, rel, k string) bool {
	a := actorStruct(p, rel)
	i := strings.Index(k, ".")
	if a == nil || i < 0 || a.Obj().Name() != k[:i] {
		return false
	}
	t := fieldType(a, k[i+1:])
	return t != nil && isFuncChan(t)
}

func isTimeChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	return ok && ch.Elem().String() == "time.Time"
}

// guardedClose: on this path a flag of the object was found not to be set.
func guardedClose(st *State) bool { return st.Has("guard") }

// daemonFns: the functions of the command package that end the daemon: they
// close the ingester and the value store.
func daemonFns(c *Ctx) []*ssa.Function {
	return deepest(c.P, "command", func(n string) bool { return n == modPath+"/internal/ingest.NewIngester" }, func(n string) bool { return n == nIngClose }, func(n string) bool { return idxCall(n, "Close") })
}

const nIngClose = "(*" + modPath + "/internal/ingest.Ingester).Close"

// daemonPart: the part of the daemon that a call starts ("New") or ends.
func daemonPart(n string) (part string, up bool) {
	if !strings.Contains(n, modPath) {
		return "", false
	}
	switch {
	case n == nIngClose:
		return "ingester", false
	case n == modPath+"/internal/ingest.NewIngester":
		return "ingester", true
	case strings.HasPrefix(n, "(*"+modPath+"/server/") && strings.HasSuffix(n, ".Server).Shutdown"):
		return strings.TrimSuffix(strings.TrimPrefix(n, "(*"+modPath+"/"), ".Server).Shutdown"), false
	case strings.HasPrefix(n, modPath+"/server/") && strings.HasSuffix(n, "/http.New"):
		return strings.TrimSuffix(strings.TrimPrefix(n, modPath+"/"), ".New"), true
	}
	return "", false
}

func partOfType(t types.Type) string {
	s := strings.TrimPrefix(t.String(), "*")
	switch {
	case s == modPath+"/internal/ingest.Ingester":
		return "ingester"
	case strings.HasPrefix(s, modPath+"/server/") && strings.HasSuffix(s, "/http.Server"):
		return strings.TrimSuffix(strings.TrimPrefix(s, modPath+"/"), ".Server")
	}
	return ""
}

func d03Daemon(c *Ctx, rDmn string) {
	c.Rule("daemon", rDmn)
	fns := daemonFns(c)
	c.AtLeast(1, len(fns), "functions that end the daemon")
	touch := reaching(c, "command", func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		part, _ := daemonPart(calleeName(ci))
		return part != "" || idxCall(calleeName(ci), "Close")
	})
	nend := 0
	for _, root := range fns {
		h := &Hooks{}
		h.Opaque = func(f *ssa.Function) bool { return !touch(f) }
		end := func(n string) bool {
			part, up := daemonPart(n)
			return part != "" && !up || idxCall(n, "Close")
		}
		h.Call = func(st *State, ev *CallEv) {
			part, up := daemonPart(ev.Name)
			switch {
			case part != "" && up:
				st.Set("up:"+part, "")
				st.Set("made:"+part, "")
			case part != "":
				c.Rule("daemon", rDmn)
				if part == "ingester" {
					left := onPath(st, "up")
					delete(left, "ingester")
					c.Check(len(left) == 0, st, c.whereIn(ev.Fr, ev.Site), "closing the ingester", "still serving: "+joinSet(left))
				}
				st.Del("up:" + part)
			case idxCall(ev.Name, "Close"):
				nend++
				c.Rule("daemon", rDmn)
				left := onPath(st, "up")
				c.Check(len(left) == 0, st, c.whereIn(ev.Fr, ev.Site), "closing the value store", "still using it: "+joinSet(left))
				st.Set("vsclosed", "")
			}
		}
		h.Select = func(st *State, fr *Frame, site *ssa.Select) {
			if site.Blocking && goDepth(fr) == 0 {
				st.Set("ran", "")
			}
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			if goDepth(fr) > 0 || ch.Typ == nil {
				return
			}
			if ct, ok := ch.Typ.Underlying().(*types.Chan); ok && ct.Elem().String() == "error" {
				st.Set("failed", "")
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if cd.Op != OBin || cd.S != "==" {
				return
			}
			// there is one of each: it is nil exactly if it was not made
			for i := 0; i < 2; i++ {
				if t := strip(cd.Args[1-i]); cd.Args[i].Op == ONil && t.Typ != nil {
					if part := partOfType(t.Typ); part != "" && st.Has("made:"+part) == v {
						st.dead = true
						return
					}
				}
			}
			if v {
				return
			}
			for i := 0; i < 2; i++ {
				if cd.Args[i].Op == ONil {
					if cl := callOf(cd.Args[1-i]); cl != nil && end(cl.S) {
						st.Set("failed", "")
					}
				}
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if !st.Has("ran") {
				return
			}
			c.Rule("daemon", rDmn)
			c.Check(st.Has("vsclosed"), st, c.whereIn(fr, site), "end of the daemon", "the value store is not closed")
			left := onPath(st, "up")
			c.Check(len(left) == 0, st, c.whereIn(fr, site), "end of the daemon", "not stopped: "+joinSet(left))
			if st.Has("failed") && len(res) == 1 {
				c.Check(strip(res[0]).Op != ONil, st, c.whereIn(fr, site), "result of the daemon", "success is reported after a failure")
			}
		}
		c.Run(root, h, "command")
	}
	c.AtLeast(1, nend, "closings of the value store")
}

// d03Heavy: fetching from a publisher or changing the index.
func d03Heavy(n string) bool {
	if legsSub(n, "Sync") {
		return true
	}
	for _, m := range []string{"Put", "Remove", "RemoveProvider", "RemoveProviderContext"} {
		if idxCall(n, m) {
			return true
		}
	}
	return false
}

// goFn: the function that a go statement starts.
func goFn(g *ssa.Go) *ssa.Function {
	if m, ok := g.Common().Value.(*ssa.MakeClosure); ok {
		return m.Fn.(*ssa.Function)
	}
	return g.Common().StaticCallee()
}

// localChan: a channel made in this function (or in the one around it).
func localChan(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeChan:
		return true
	case *ssa.ChangeType:
		return localChan(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !localChan(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		return localCell(x.X, depth+1)
	case *ssa.Call:
		n := calleeName(x)
		return n == nCtxDone || n == "time.After"
	case *ssa.FreeVar:
		return freeVarIs(x, func(b ssa.Value) bool { return localChan(b, depth+1) })
	}
	return false
}

func localCell(v ssa.Value, depth int) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		any := false
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				if !localChan(s.Val, depth+1) {
					return false
				}
				any = true
			}
		}
		return any
	case *ssa.FreeVar:
		return freeVarIs(x, func(b ssa.Value) bool { return localCell(b, depth+1) })
	}
	return false
}

func freeVarIs(x *ssa.FreeVar, m func(ssa.Value) bool) bool {
	f := x.Parent()
	if f.Parent() == nil {
		return false
	}
	idx := -1
	for i, v := range f.FreeVars {
		if v == x {
			idx = i
		}
	}
	ok := false
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, is := in.(*ssa.MakeClosure); is && mc.Fn == f {
				if !m(mc.Bindings[idx]) {
					return false
				}
				ok = true
			}
		}
	}
	return ok
}

// joinedGo: the starter waits for the goroutine with a channel of its own.
func joinedGo(g *ssa.Go, t *ssa.Function) bool {
	if t.Parent() == nil {
		return false
	}
	signals := false
	for f := range withClosures(t) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					signals = signals || localChan(x.Chan, 0)
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && localChan(x.Common().Args[0], 0) {
						signals = true
					}
				}
			}
		}
	}
	waits := false
	for _, b := range g.Parent().Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && localChan(u.X, 0) {
				waits = true
			}
		}
	}
	return signals && waits
}

// softSend: a select that sends on the channel of a struct field if that is
// possible at once, and nothing else. It returns the name of the field.
func softSend(x *ssa.Select) string {
	if x.Blocking || len(x.States) != 1 || x.States[0].Dir != types.SendOnly {
		return ""
	}
	u, ok := x.States[0].Chan.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	n, ok := derefType(fa.X.Type()).(*types.Named)
	if !ok {
		return ""
	}
	return n.Obj().Name() + "." + fieldNameOf(fa)
}

func softSends(p *Prog, f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for g := range p.reach(f) {
		if fnPkgPath(g) != fnPkgPath(f) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Select); ok {
					if k := softSend(s); k != "" {
						out[k] = true
					}
				}
			}
		}
	}
	return out
}
