package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R05", ruleR05)
}

// isTimes: a map from an address to the time its discovery ended.
func isTimes(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isStringType(m.Key()) && typeIs(m.Elem(), "time.Time")
}

func isTimesAddr(t types.Type) bool {
	return t != nil && derefType(t) != nil && isTimes(derefType(t))
}

func ruleR05(c *Ctx) {
	const (
		rel  = "internal/registry"
		rOne = "a discovery is started only if none is in progress for the same address, and the last one ended at least the rediscovery time ago or there is no such time"
		rEnd = "a discovery that was marked as in progress is marked as ended, whatever its outcome, and only once it has ended"
		rWg  = "closing the registry waits for every discovery: each is counted before it starts and until its result was handed over, and counted off once"
		rRes = "a discovery that does not report an error registers what the discoverer found under the address asked for; a refused one reports an error"
		rFor = "the time of a discovery is forgotten only if it is not in progress and the rediscovery time has passed"
	)
	p := c.P
	nm := actorStruct(p, rel)
	c.Rule("one", rOne)
	if nm == nil {
		c.Bad(nil, "", "registry goroutine", "no struct with a channel of actions found")
		return
	}
	// the field that holds the configured rediscovery time
	waitField := map[string]bool{}
	for _, root := range topsReaching(c, rel, func(f *ssa.Function) bool { return f.Name() == "NewRegistry" }) {
		for _, f := range append([]*ssa.Function{root}, root.AnonFuncs...) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || derefType(fa.X.Type()) == nil || !types.Identical(derefType(fa.X.Type()), nm) {
						continue
					}
					if readsField(s.Val, "RediscoverWait", 6) {
						waitField[nm.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
					}
				}
			}
		}
	}
	c.AtLeast(1, len(waitField), "configured rediscovery time")
	isWait := func(t *Term) bool {
		t = strip(t)
		return t != nil && t.Op == OField && waitField[t.S]
	}
	// the time noted for an address, and that address
	noted := func(t *Term) (*Term, bool) {
		t = strip(t)
		switch {
		case t == nil:
		case t.Op == OLookup && isTimes(t.Args[0].Typ):
			return t.Args[1], true
		case t.Op == OExtract && t.I == 0 && t.Args[0].Op == OLookup && isTimes(t.Args[0].Args[0].Typ):
			return t.Args[0].Args[1], true
		case t.Op == OExtract && t.I == 2 && t.Args[0].Op == ONext && isTimes(t.Args[0].Args[0].Args[0].Typ):
			return t.Args[0], true
		}
		return nil, false
	}
	elapsed := func(t *Term) (*Term, bool) {
		t = strip(t)
		if t == nil || t.Op != OCall {
			return nil, false
		}
		switch t.S {
		case "(time.Time).Sub":
			if n := strip(t.Args[0]); n.Op == OCall && n.S == "time.Now" {
				return noted(t.Args[1])
			}
		case "time.Since":
			return noted(t.Args[0])
		}
		return nil, false
	}
	id := func(t *Term) string { return strconv.Itoa(strip(t).ID) }
	free := func(st *State, k string) bool {
		if st.Get("known:"+k) == "0" {
			return true
		}
		return st.Get("busy:"+k) == "0" && (st.Get("nowait") == "1" || st.Get("soon:"+k) == "0")
	}
	refused := func(st *State, k string) bool {
		return st.Get("known:"+k) == "1" && (st.Get("busy:"+k) == "1" || st.Get("nowait") == "0" && st.Get("soon:"+k) == "1")
	}
	var calls, ends, dels, exits, adds int
	for _, root := range actorRoots(p, rel) {
		disc := reachesCall(p, root, func(n string) bool { return n == nDiscoverer })
		h := &Hooks{}
		h.Keep = func(t *Term) bool { return t.Op == OCall && t.S == nDiscoverer }
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			b := map[bool]string{true: "1", false: "0"}
			switch {
			case cd.Op == OExtract && cd.I == 1 && cd.Args[0].Op == OLookup && isTimes(cd.Args[0].Args[0].Typ):
				st.Set("known:"+id(cd.Args[0].Args[1]), b[v])
			case cd.Op == OCall && cd.S == "(time.Time).IsZero":
				if k, ok := noted(cd.Args[0]); ok {
					st.Set("busy:"+id(k), b[v])
				}
			case cd.Op == OBin && cd.S == "==":
				for i := 0; i < 2; i++ {
					n, ok := constInt(cd.Args[1-i])
					x := strip(cd.Args[i])
					if !ok || n != 0 || x == nil {
						continue
					}
					if isWait(x) {
						st.Set("nowait", b[v])
					}
					if x.Op == OLen && isTimes(x.Args[0].Typ) {
						st.Set("empty", b[v])
					}
				}
				for i := 0; i < 2; i++ {
					if a := strip(cd.Args[1-i]); a.Op == ONil && isTimes(cd.Args[i].Typ) && v {
						st.Set("empty", "1")
					}
				}
			case cd.Op == OBin && cd.S == "<":
				a, bb := strip(cd.Args[0]), strip(cd.Args[1])
				if n, ok := constInt(a); ok && n == 0 && isWait(bb) {
					st.Set("nowait", b[!v])
					return
				}
				if n, ok := constInt(bb); ok && n == 0 && a.Op == OLen {
					return
				}
				l := map[*Term]int64{}
				if !lin(a, 1, l) || !lin(bb, -1, l) {
					return
				}
				var key *Term
				var e, w int64
				rest := false
				for x, n := range l {
					if x == nil {
						rest = true
						continue
					}
					if k, ok := elapsed(x); ok {
						key, e = k, e+n
					} else if isWait(x) {
						w += n
					} else {
						rest = true
					}
				}
				if key == nil {
					return
				}
				if rest || e+w != 0 || e != 1 && e != -1 {
					c.Rule("one", rOne)
					c.Bad(st, c.whereIn(fr, site), "known thresholds", "the time since a discovery is compared with something else than the configured rediscovery time")
					return
				}
				if e == 1 {
					st.Set("soon:"+id(key), b[v])
				} else {
					st.Set("soon:"+id(key), b[!v]) // wait < elapsed: not too soon
				}
			}
		}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			where := c.whereIn(fr, site)
			if isProviders(m.Typ) && st.Has("called") {
				e := fr.E
				found := e.pick(st, v, "AddrInfo")
				if found == nil {
					found = e.pick(st, v, "AddrInfo", "ID")
				}
				da := e.pick(st, v, "DiscoveryAddr")
				c.Rule("result", rRes)
				c.Check(found != nil && anySub(found, func(x *Term) bool { return x.Op == OCall && x.S == nDiscoverer }) && da != nil && id(da) == st.Get("called"), st, where, "what was found is registered", "the provider registered after a discovery is not what the discoverer found at the address asked for")
				st.Set("reg", "1")
				return
			}
			if !isTimes(m.Typ) {
				return
			}
			vs := strip(v)
			switch {
			case vs.Op == OZero:
				c.Rule("one", rOne)
				c.Check(free(st, id(k)) && !st.Has("marked"), st, where, "marked only if free", "a discovery is marked as in progress without making sure that there is none and that it is not too soon")
				st.Set("marked", id(k))
			case vs.Op == OCall && vs.S == "time.Now":
				ends++
				c.Rule("ended", rEnd)
				c.Check(st.Get("marked") == id(k), st, where, "the discovery that ended is marked so", "a discovery is marked as ended that was not in progress")
				st.Set("ended", "1")
				st.Del("marked")
			default:
				c.Rule("ended", rEnd)
				c.Bad(st, where, "times of discoveries", "the time noted for a discovery is neither none (in progress) nor the current time")
			}
		}
		h.MapDelete = func(st *State, fr *Frame, site ssa.Instruction, m, k *Term) {
			if !isTimes(m.Typ) {
				return
			}
			dels++
			kk := strip(k)
			n := ""
			if kk.Op == OExtract && kk.I == 1 && kk.Args[0].Op == ONext {
				n = id(kk.Args[0])
			}
			c.Rule("forgotten", rFor)
			c.Check(n != "" && free(st, n) || free(st, id(k)), st, c.whereIn(fr, site), "forgotten only when over", "the time of a discovery is forgotten although it may be in progress or the rediscovery time has not passed")
		}
		h.Next = func(st *State, fr *Frame, site ssa.Instruction, next *Term, inIter bool) {
			if isTimes(next.Args[0].Args[0].Typ) {
				for _, f := range []string{"busy:", "soon:", "known:"} {
					st.Del(f + id(next))
				}
				st.Del("empty")
			}
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) {
			if addr.Op != OFieldAddr || !isTimesAddr(addr.Typ) || strip(addr.Args[0]).Op == OAlloc {
				return
			}
			c.Rule("forgotten", rFor)
			c.Check(st.Get("empty") == "1", st, c.whereIn(fr, site), "table replaced only if empty", "the times of discoveries are replaced although there may be some")
			for _, f := range []string{"empty"} {
				st.Del(f)
			}
		}
		bal := func(st *State) int { n, _ := strconv.Atoi(st.Get("wg")); return n }
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			switch ev.Name {
			case "(*sync.WaitGroup).Add":
				n, ok := constInt(ev.Args[1])
				c.Rule("counted", rWg)
				c.Check(ok && !inGoAfter(ev.Fr), st, where, "counted before it starts", "something is counted by an amount not known, or on the goroutine that is to be waited for")
				st.Set("wg", strconv.Itoa(bal(st)+int(n)))
				adds++
			case "(*sync.WaitGroup).Done":
				c.Rule("counted", rWg)
				c.Check(bal(st) > 0, st, where, "counted off once", "something is counted off that was not counted (again)")
				st.Set("wg", strconv.Itoa(bal(st)-1))
			case nDiscoverer:
				calls++
				k := id(ev.Args[3])
				c.Rule("one", rOne)
				c.Check(st.Get("marked") == k, st, where, "marked before it starts", "a discovery starts for an address that was not marked as in progress, or is no longer")
				c.Rule("counted", rWg)
				c.Check(bal(st) > 0, st, where, "counted when it starts", "a discovery starts that closing the registry does not wait for")
				st.Set("called", k)
			}
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			if isFuncChan(ch.Typ) && st.Has("marked") {
				c.Rule("counted", rWg)
				c.Check(bal(st) > 0, st, c.whereIn(fr, site), "counted until handed over", "the result of a discovery is handed over when closing the registry no longer waits for it")
				return
			}
			if ct, ok := ch.Typ.Underlying().(*types.Chan); ok && isErrorType(ct.Elem()) && disc {
				if fr.E.NonNil(st, v) {
					st.Set("errsent", "1")
				} else if !fr.E.Assume(st.clone(), fr.E.eq(v, fr.E.Nil()), true) {
					st.Set("errsent", "1")
				}
			}
		}
		h.Return = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if !disc || !fr.Actor {
				return
			}
			where := c.whereIn(fr, site)
			if st.Has("ended") && !st.Has("judged") {
				st.Set("judged", "1")
				c.Rule("result", rRes)
				c.Check(st.Has("errsent") || st.Has("reg"), st, where, "a discovery has a result", "a discovery neither reports an error nor registers what was found")
			}
		}
		fin := func(st *State, where string) {
			exits++
			c.Rule("ended", rEnd)
			c.Check(!st.Has("marked"), st, where, "every discovery ends", "a discovery stays marked as in progress for ever")
			c.Rule("counted", rWg)
			c.Check(bal(st) == 0, st, where, "counted off", "closing the registry waits for ever for something that is over")
			if !disc || st.Has("called") || st.Has("ended") {
				return
			}
			for f := range st.flags {
				if !strings.HasPrefix(f, "known:") {
					continue
				}
				k := strings.TrimPrefix(f, "known:")
				if refused(st, k) {
					c.Rule("result", rRes)
					c.Check(st.Has("errsent"), st, where, "a refused discovery is reported", "a discovery that is refused is not reported as such")
				}
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) { fin(st, c.whereIn(fr, site)) }
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			if ct, ok := ch.Typ.Underlying().(*types.Chan); ok && typeIs(ct.Elem(), "time.Time") {
				fin(st, c.whereIn(fr, site))
			}
		}
		c.Run(root, h)
	}
	c.Rule("one", rOne)
	c.AtLeast(1, calls, "discoveries")
	c.Rule("ended", rEnd)
	c.AtLeast(1, ends, "discoveries marked as ended")
	c.AtLeast(1, exits, "ways out")
	c.Rule("counted", rWg)
	c.AtLeast(1, adds, "discoveries counted")
	c.Rule("forgotten", rFor)
	c.AtLeast(1, dels, "times forgotten")
}

// inGoAfter: the frame runs on a goroutine started by the current operation,
// and not on the registry's goroutine.
func inGoAfter(fr *Frame) bool {
	for f := fr; f != nil; f = f.Up {
		if f.Actor {
			return false
		}
		if f.Go && f.Up != nil && f.Up.InActor() {
			return true
		}
	}
	return false
}

// readsField: the value is, possibly converted, read from a field of that name.
func readsField(v ssa.Value, name string, depth int) bool {
	if v == nil || depth == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return readsField(x.X, name, depth-1)
	case *ssa.ChangeType:
		return readsField(x.X, name, depth-1)
	case *ssa.UnOp:
		return readsField(x.X, name, depth-1)
	case *ssa.Field:
		s, ok := x.X.Type().Underlying().(*types.Struct)
		return ok && s.Field(x.Field).Name() == name
	case *ssa.FieldAddr:
		s, ok := derefType(x.X.Type()).Underlying().(*types.Struct)
		return ok && s.Field(x.Field).Name() == name
	}
	return false
}
