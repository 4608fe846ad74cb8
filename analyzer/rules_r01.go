package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R01", ruleR01)
}

func isFuncChan(t types.Type) bool {
	if t == nil {
		return false
	}
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := ch.Elem().Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 0
}

// actorStruct: the struct type of a package that has a channel of functions.
func actorStruct(p *Prog, rel string) *types.Named {
	pk := p.Types[modPath+"/"+rel]
	if pk == nil {
		return nil
	}
	for _, n := range pk.Scope().Names() {
		tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if isFuncChan(s.Field(i).Type()) {
				nm, _ := tn.Type().(*types.Named)
				return nm
			}
		}
	}
	return nil
}

// mutableFields: fields of the struct that are changed after its construction:
// assigned through something else than a local variable, or maps changed.
func mutableFields(p *Prog, rel string, nm *types.Named) map[string]bool {
	out := map[string]bool{}
	for _, f := range p.PkgFuncs(rel) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || derefType(fa.X.Type()) == nil || !types.Identical(derefType(fa.X.Type()), nm) {
					continue
				}
				fld := nm.Underlying().(*types.Struct).Field(fa.Field)
				if strings.HasPrefix(fld.Type().String(), "sync.") {
					continue
				}
				_, local := fa.X.(*ssa.Alloc)
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case *ssa.Store:
						if x.Addr == fa && !local {
							out[fld.Name()] = true
						}
					case *ssa.UnOp:
						for _, rr := range *x.Referrers() {
							switch y := rr.(type) {
							case *ssa.MapUpdate:
								if y.Map == x {
									out[fld.Name()] = true
								}
							case *ssa.Call:
								if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && y.Call.Args[0] == x {
									out[fld.Name()] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

// pkgRoots: exported functions and functions nothing else in the package
// refers to.
func pkgRoots(p *Prog, rel string) []*ssa.Function {
	ref := map[*ssa.Function]bool{}
	for _, f := range p.PkgFuncs(rel) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g != f {
						ref[g] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range p.PkgFuncs(rel) {
		if f.Parent() != nil || f.Synthetic != "" || f.Object() == nil {
			continue
		}
		if f.Object().Exported() || !ref[f] {
			out = append(out, f)
		}
	}
	sortFns(out)
	return out
}

// actorRoots: pkgRoots and the functions that submit actions. The latter are
// also reached from the former, but may run on a goroutine started by the
// constructor, where the state is not the initial one.
func actorRoots(p *Prog, rel string) []*ssa.Function {
	out := pkgRoots(p, rel)
	have := map[*ssa.Function]bool{}
	for _, f := range out {
		have[f] = true
	}
	fromNew := map[*ssa.Function]bool{}
	for _, f := range out {
		if f.Signature.Recv() == nil && f.Object().Exported() && strings.HasPrefix(f.Name(), "New") {
			for g := range p.reach(f) {
				fromNew[g] = true
			}
		}
	}
	for _, f := range p.PkgFuncs(rel) {
		if f.Parent() != nil || f.Synthetic != "" || have[f] || !fromNew[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok && isFuncChan(s.Chan.Type()) && !have[f] {
					have[f] = true
					out = append(out, f)
				}
			}
		}
	}
	sortFns(out)
	return out
}

func ruleR01(c *Ctx) {
	const (
		rel   = "internal/registry"
		rConf = "the registry's mutable state is read and written only by actions run on the registry's goroutine, or before that goroutine is started"
		rSer  = "exactly one goroutine takes actions, and runs each of them once, to its end, before it takes the next"
		rBlk  = "an action never waits: it does not hand an action to its own goroutine, does not receive or sleep, and sends only without blocking, to a buffer with room, or to someone who certainly receives"
		rAns  = "whoever waits for an action's answer gets one on every path of the action"
	)
	p := c.P
	nm := actorStruct(p, rel)
	c.Rule("confined", rConf)
	if nm == nil {
		c.Bad(nil, "", "registry goroutine", "no struct with a channel of actions found")
		return
	}
	mut := mutableFields(p, rel, nm)
	c.AtLeast(1, len(mut), "mutable fields of the registry")
	stateOf := func(a *Term) string {
		if a.Op == OFieldAddr && mut[a.S] {
			b := a.Args[0]
			if t := b.Typ; t != nil && derefType(t) != nil && types.Identical(derefType(t), nm) {
				return a.S
			}
		}
		return ""
	}
	var acc, sends, recvs, acts, takes int
	for _, root := range actorRoots(p, rel) {
		h := &Hooks{}
		touch := func(st *State, fr *Frame, site ssa.Instruction, addr *Term) {
			f := stateOf(addr)
			if f == "" {
				return
			}
			acc++
			c.Rule("confined", rConf)
			fresh := strip(addr.Args[0]).Op == OAlloc && !st.Has("started") && !inGo(fr)
			c.Check(fr.InActor() || fresh, st, c.whereIn(fr, site), "state used on the registry's goroutine only", "the registry's state ("+f+") is used outside of the registry's goroutine")
		}
		h.Load = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) { touch(st, fr, site, addr) }
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) { touch(st, fr, site, addr) }
		chKey := func(ch *Term) string { return strconv.Itoa(ch.ID) }
		h.Go = func(st *State, ev *CallEv) GoMode {
			if ev.Fn != nil && takesActions(p, ev.Fn) {
				c.Rule("serial", rSer)
				c.Check(!st.Has("runner"), st, c.whereIn(ev.Fr, ev.Site), "one goroutine runs actions", "a second goroutine that runs actions is started")
				st.Set("runner", "1")
			}
			if !ev.Fr.InActor() {
				st.Set("started", "1")
			}
			if strings.HasPrefix(ev.Name, "dynamic:") {
				if anySub0(ev, func(x *Term) bool { return x.Op == ORecv }) {
					c.Rule("serial", rSer)
					c.Bad(st, c.whereIn(ev.Fr, ev.Site), "actions run one after another", "an action is run on a goroutine of its own")
				}
			}
			return GoInline
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			where := c.whereIn(fr, site)
			if ch.Op == OAlloc {
				st.Set("got:"+chKey(ch), "1")
			}
			if !fr.InActor() {
				if isFuncChan(ch.Typ) {
					acts++
				}
				return
			}
			sends++
			c.Rule("unblocked", rBlk)
			if nonblock {
				c.OK(where, "sends without blocking")
				return
			}
			if isFuncChan(ch.Typ) {
				c.Bad(st, where, "no action from an action", "an action hands an action to its own goroutine and waits for ever")
				return
			}
			mk, ok := ch.Site.(*ssa.MakeChan)
			if ch.Op != OAlloc || !ok {
				c.Bad(st, where, "actions do not block on sends", "an action blocks until someone receives from "+ch.String())
				return
			}
			n, _ := strconv.Atoi(st.Get("n:" + chKey(ch)))
			n++
			room, _ := ssaInt(mk.Size)
			if int64(n) <= room {
				c.OK(where, "sends into a buffer with room")
				st.Set("n:"+chKey(ch), strconv.Itoa(n))
				return
			}
			if n > 3 {
				c.Bad(st, where, "actions do not block on sends", "an action sends more than its client receives")
				return
			}
			st.Set("n:"+chKey(ch), strconv.Itoa(n))
			o, _ := strconv.Atoi(st.Get("owed:" + chKey(ch)))
			st.Set("owed:"+chKey(ch), strconv.Itoa(o+1))
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			where := c.whereIn(fr, site)
			if isFuncChan(ch.Typ) {
				takes++
				c.Rule("serial", rSer)
				c.Check(!st.Has("taken"), st, where, "every action is run", "an action that was taken is not run before the next is taken")
				st.Set("taken", "1")
				return
			}
			if fr.InActor() {
				if !nonblock {
					c.Rule("unblocked", rBlk)
					c.Bad(st, where, "actions do not wait", "an action waits to receive from "+ch.String())
				}
				return
			}
			if ch.Op != OAlloc {
				return
			}
			for _, pre := range []string{"owed:", "n:"} {
				if o, _ := strconv.Atoi(st.Get(pre + chKey(ch))); o > 1 {
					st.Set(pre+chKey(ch), strconv.Itoa(o-1))
				} else {
					st.Del(pre + chKey(ch))
				}
			}
			if _, plain := site.(*ssa.UnOp); plain && !nonblock {
				recvs++
				c.Rule("answered", rAns)
				c.Check(st.Has("got:"+chKey(ch)), st, where, "actions answer", "on this path nothing is ever sent on the channel that is waited on, and it is not closed")
			}
		}
		h.Close = func(st *State, fr *Frame, site ssa.Instruction, ch *Term) {
			if ch.Op == OAlloc {
				st.Set("got:"+chKey(ch), "1")
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if !v && cd.Op == OExtract && cd.I == 1 && cd.Args[0].Op == ORecv && isFuncChan(cd.Args[0].Args[0].Typ) {
				st.Del("taken")
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			switch {
			case strings.HasPrefix(ev.Name, "dynamic:") && st.Has("taken") && !ev.Go:
				st.Del("taken")
			case ev.Fr.InActor() && (ev.Name == "time.Sleep" || ev.Name == "(*sync.WaitGroup).Wait" || ev.Name == "(*sync.Cond).Wait"):
				c.Rule("unblocked", rBlk)
				c.Bad(st, c.whereIn(ev.Fr, ev.Site), "actions do not wait", "an action waits in "+ev.Name)
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			c.Rule("serial", rSer)
			c.Check(!st.Has("taken"), st, c.whereIn(fr, site), "every action is run", "an action that was taken is not run")
			c.Rule("unblocked", rBlk)
			c.Check(len(flagKeys(st, "owed:")) == 0, st, c.whereIn(fr, site), "answers are received", "an action blocks for ever because its answer is not received on this path")
		}
		c.Run(root, h)
	}
	c.Rule("confined", rConf)
	c.AtLeast(6, acc, "uses of the registry's state")
	c.Rule("serial", rSer)
	c.AtLeast(1, takes, "receivers of actions")
	c.Rule("unblocked", rBlk)
	c.AtLeast(4, sends, "sends in actions")
	c.Rule("answered", rAns)
	c.AtLeast(4, recvs, "waits for answers")
	c.AtLeast(5, acts, "actions handed over")
}

func inGo(fr *Frame) bool {
	for ; fr != nil; fr = fr.Up {
		if fr.Go {
			return true
		}
	}
	return false
}

// takesActions: the function, or one it calls, receives from a channel of
// functions.
func takesActions(p *Prog, f *ssa.Function) bool {
	for g := range p.reach(f) {
		if fnPkgPath(g) != fnPkgPath(f) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" && isFuncChan(u.X.Type()) {
					return true
				}
				if s, ok := in.(*ssa.Select); ok {
					for _, x := range s.States {
						if x.Dir == types.RecvOnly && isFuncChan(x.Chan.Type()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func anySub0(ev *CallEv, m func(*Term) bool) bool {
	for _, a := range ev.Args {
		if anySub(a, m) {
			return true
		}
	}
	if t, ok := ev.Site.(*ssa.Go); ok {
		return strings.Contains(t.Call.Value.Type().String(), "func()")
	}
	return false
}
