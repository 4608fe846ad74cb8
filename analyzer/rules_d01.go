package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D01", ruleD01)
	register("D02", ruleD02)
}

func isMutex(t types.Type) bool {
	s := t.String()
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "*sync.Mutex" || s == "*sync.RWMutex" || s == "sync.Locker"
}

// lockStruct: the struct type (named) that t is or points to, if it has a
// mutex of its own.
func lockStruct(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if isMutex(s.Field(i).Type()) {
			return n
		}
	}
	return nil
}

// selfSynced: types that may be used by several goroutines as they are.
func selfSynced(t types.Type) bool {
	s := strings.TrimPrefix(t.String(), "*")
	return strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.")
}

// lockPkgs: packages that use locks or atomic operations.
func lockPkgs(c *Ctx) []string {
	var out []string
	for _, rel := range c.P.relPkgs() {
		if strings.HasPrefix(rel, "test") || strings.HasSuffix(rel, "/test") {
			continue
		}
		for _, f := range c.P.PkgFuncs(rel) {
			if hasCall(f, func(n string) bool {
				_, ok := lockOp(n)
				return ok || strings.HasPrefix(n, "sync/atomic.")
			}) {
				out = append(out, rel)
				break
			}
		}
	}
	return out
}

// lockRoots: the functions of a package where a goroutine can enter.
func lockRoots(c *Ctx, rel string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if !seen[f] && f.Parent() == nil && f.Synthetic == "" && f.Blocks != nil {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, f := range pkgRoots(c.P, rel) {
		add(f)
	}
	for f := range goTargets(c.P, rel) {
		add(f)
	}
	// functions handed out as values: called by others
	for _, f := range c.P.PkgFuncs(rel) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					var g *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						g = v
					}
					if g == nil || fnPkgPath(g) != fnPkgPath(f) || isCall && ci.Common().Value == *op {
						continue
					}
					if g.Synthetic != "" { // bound method
						for h := range c.P.reach(g) {
							if h.Object() != nil && g.Object() == h.Object() && h != g {
								add(h)
							}
						}
						continue
					}
					add(g)
				}
			}
		}
	}
	sortFns(out)
	var res []*ssa.Function
	for _, f := range out {
		uses := false
		for g := range c.P.reach(f) {
			if fnPkgPath(g) != fnPkgPath(f) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.FieldAddr:
						uses = uses || lockStruct(x.X.Type()) != nil
					case ssa.CallInstruction:
						if _, ok := lockOp(calleeName(x)); ok {
							uses = true
						}
						uses = uses || strings.HasPrefix(calleeName(x), "sync/atomic.")
					}
				}
			}
		}
		if uses {
			res = append(res, f)
		}
	}
	return res
}

// ownLocks makes the locks held by the spawning goroutine not count as held
// in an inlined goroutine.
func ownLocks(h *Hooks) *Hooks {
	pre := func(fr *Frame) string { return fmt.Sprintf("sv%d:", goDepth(fr)) }
	user, back := h.Go, h.GoBack
	h.Go = func(st *State, ev *CallEv) GoMode {
		m := GoInline
		if user != nil {
			m = user(st, ev)
		}
		if m == GoSkip {
			return m
		}
		for k, v := range copyFlags(st) {
			if strings.HasPrefix(k, "lk:") {
				st.Set(pre(ev.Fr)+k, v)
				st.Del(k)
			}
		}
		return m
	}
	h.GoBack = func(st *State, ev *CallEv) {
		if back != nil {
			back(st, ev)
		}
		fl := copyFlags(st)
		for k := range fl {
			if strings.HasPrefix(k, "lk:") {
				st.Del(k)
			}
		}
		for k, v := range fl {
			if strings.HasPrefix(k, pre(ev.Fr)) {
				st.Set(strings.TrimPrefix(k, pre(ev.Fr)), v)
				st.Del(k)
			}
		}
	}
	return h
}

func copyFlags(st *State) map[string]string {
	m := map[string]string{}
	for k, v := range st.flags {
		m[k] = v
	}
	return m
}

// guarded: the field of a struct with a lock that an address or value belongs
// to, and the struct object.
func guarded(t *Term) (obj *Term, n *types.Named, field string) {
	for t = strip(t); t != nil; {
		switch t.Op {
		case OFieldAddr, OField:
			b := strip(t.Args[0])
			bt := b.Typ
			if b.Op == OFieldAddr {
				bt = b.Typ
			}
			if ls := lockStruct(bt); ls != nil {
				return b, ls, t.S
			}
			t = b
		case OIndexAddr, OIndex, ODeref, OLookup, OSlice, OAppend:
			t = strip(t.Args[0])
		case OExtract:
			t = strip(t.Args[0])
		case ONext, ORange:
			if len(t.Args) == 0 {
				return nil, nil, ""
			}
			t = strip(t.Args[0])
		default:
			return nil, nil, ""
		}
	}
	return nil, nil, ""
}

func fieldType(n *types.Named, name string) types.Type {
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

// heldOf: the names of the locks of obj that are held ("W" or "R").
func heldOf(e *Engine, st *State, obj *Term) map[string]string {
	out := map[string]string{}
	for k, v := range st.flags {
		if !strings.HasPrefix(k, "lk:") {
			continue
		}
		t := e.T.byID(k[3:])
		if t != nil && (t.Op == OFieldAddr || t.Op == OField) && strip(t.Args[0]) == strip(obj) {
			out[t.S] = v
		}
	}
	return out
}

// hotFields: fields of structs with locks that may be changed after the
// object was made (an over-approximation).
func hotFields(c *Ctx, rel string) map[string]bool {
	hot := map[string]bool{}
	for _, f := range c.P.PkgFuncs(rel) {
		for g := range withClosures(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || lockStruct(fa.X.Type()) == nil {
						continue
					}
					ft := derefType(fa.Type())
					if isMutex(ft) || selfSynced(ft) {
						continue
					}
					if _, local := fa.X.(*ssa.Alloc); local {
						continue
					}
					is := false
					switch ft.Underlying().(type) {
					case *types.Map, *types.Slice:
						is = true
					}
					is = is || addrChanged(fa)
					if is {
						hot[lockStruct(fa.X.Type()).String()+"."+fieldNameOf(fa)] = true
					}
				}
			}
		}
	}
	return hot
}

// addrChanged: what is at the address may be changed through it here.
func addrChanged(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr == a {
				return true
			}
		case *ssa.FieldAddr:
			if addrChanged(x) {
				return true
			}
		case *ssa.IndexAddr:
			if addrChanged(x) {
				return true
			}
		case ssa.CallInstruction:
			if f := x.Common().StaticCallee(); f != nil && strings.HasPrefix(fnPkgPath(f), modPath) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// reaching: the functions from which a matching instruction of the package
// can be reached.
func reaching(c *Ctx, rel string, m func(in ssa.Instruction) bool) func(f *ssa.Function) bool {
	has := map[*ssa.Function]bool{}
	for _, f := range c.P.PkgFuncs(rel) {
		for g := range withClosures(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if m(in) {
						has[g] = true
					}
				}
			}
		}
	}
	memo := map[*ssa.Function]bool{}
	return func(f *ssa.Function) bool {
		if v, ok := memo[f]; ok {
			return v
		}
		r := has[f]
		for g := range c.P.reach(f) {
			r = r || has[g]
		}
		memo[f] = r
		return r
	}
}

func isLockInstr(in ssa.Instruction) bool {
	if ci, ok := in.(ssa.CallInstruction); ok {
		_, ok := lockOp(calleeName(ci))
		return ok
	}
	return false
}

func isWaitInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Send:
		return true
	case *ssa.Select:
		return x.Blocking
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case ssa.CallInstruction:
		return waits(calleeName(x))
	}
	return false
}

type lockAcc struct {
	root  string
	where string
	write bool
	held  map[string]string
	st    *State
}

func ruleD01(c *Ctx) {
	const (
		rAcc = "a field that is changed after its object was made, and is accessed from more than one entry, is accessed only under one and the same lock of the object, and changed only under it exclusively"
		rAt  = "a variable that is accessed atomically anywhere is always accessed atomically once its object was made"
	)
	acc := map[string][]lockAcc{}
	seen := map[string]bool{}
	for _, rel := range lockPkgs(c) {
		hot := hotFields(c, rel)
		touchesHot := reaching(c, rel, func(in ssa.Instruction) bool {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			n := lockStruct(fa.X.Type())
			return n != nil && hot[n.String()+"."+fieldNameOf(fa)]
		})
		for _, root := range lockRoots(c, rel) {
			if !touchesHot(root) {
				continue
			}
			h := skipNamedGo(&Hooks{Opaque: func(f *ssa.Function) bool {
				return fnPkgPath(f) == fnPkgPath(root) && f.Parent() == nil && !touchesHot(f)
			}})
			note := func(st *State, fr *Frame, site ssa.Instruction, t *Term, write bool) {
				obj, n, f := guarded(t)
				if obj == nil || obj.Op == OAlloc {
					return
				}
				ft := fieldType(n, f)
				if ft == nil || isMutex(ft) || selfSynced(ft) {
					return
				}
				key := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f
				held := heldOf(fr.E, st, obj)
				where := c.whereIn(fr, site)
				sig := key + "|" + root.Name() + "|" + where + "|" + fmt.Sprint(write) + "|" + fmt.Sprint(held)
				if seen[sig] {
					return
				}
				seen[sig] = true
				acc[key] = append(acc[key], lockAcc{root.Name(), where, write, held, st.clone()})
			}
			h.Load = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) { note(st, fr, site, addr, false) }
			h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) { note(st, fr, site, addr, true) }
			h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) { note(st, fr, site, m, true) }
			h.MapDelete = func(st *State, fr *Frame, site ssa.Instruction, m, k *Term) { note(st, fr, site, m, true) }
			h.MapRead = func(st *State, fr *Frame, site ssa.Instruction, m *Term) { note(st, fr, site, m, false) }
			h.Next = func(st *State, fr *Frame, site ssa.Instruction, next *Term, inIter bool) {
				if len(next.Args) > 0 {
					note(st, fr, site, next.Args[0], false)
				}
			}
			trackLocks(ownLocks(h))
			c.Run(root, h, rel, "peerutil")
		}
	}
	nguard := 0
	for _, key := range sortedAcc(acc) {
		as := acc[key]
		written, roots := false, map[string]bool{}
		for _, a := range as {
			written = written || a.write
			roots[a.root] = true
		}
		if !written {
			continue
		}
		// the lock held most often guards the field
		count := map[string]int{}
		for _, a := range as {
			for l := range a.held {
				count[l]++
			}
		}
		best := ""
		for l := range count {
			if best == "" || count[l] > count[best] || count[l] == count[best] && l < best {
				best = l
			}
		}
		if best == "" && len(roots) < 2 {
			continue
		}
		c.Rule("guarded", rAcc)
		nguard++
		for _, a := range as {
			ok := best != "" && (a.held[best] == "W" || a.held[best] == "R" && !a.write)
			c.Check(ok, a.st, a.where, "access to "+key, "the field is accessed without holding the lock that guards it elsewhere (or changed under a read lock)")
		}
	}
	c.Rule("guarded", rAcc)
	c.AtLeast(4, nguard, "guarded fields")
	// fields accessed atomically
	c.Rule("atomic", rAt)
	atomics, nat := map[string]bool{}, 0
	each := func(do func(f *ssa.Function, fa *ssa.FieldAddr)) {
		for _, rel := range c.P.relPkgs() {
			for _, f := range c.P.PkgFuncs(rel) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if fa, ok := in.(*ssa.FieldAddr); ok {
							do(f, fa)
						}
					}
				}
			}
		}
	}
	isAtomic := func(r ssa.Instruction) bool {
		ci, ok := r.(ssa.CallInstruction)
		return ok && strings.HasPrefix(calleeName(ci), "sync/atomic.")
	}
	each(func(f *ssa.Function, fa *ssa.FieldAddr) {
		for _, r := range *fa.Referrers() {
			if isAtomic(r) {
				atomics[derefType(fa.X.Type()).String()+"."+fieldNameOf(fa)] = true
			}
		}
	})
	each(func(f *ssa.Function, fa *ssa.FieldAddr) {
		k := derefType(fa.X.Type()).String() + "." + fieldNameOf(fa)
		if !atomics[k] {
			return
		}
		if _, local := fa.X.(*ssa.Alloc); local {
			return
		}
		for _, r := range *fa.Referrers() {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			nat++
			c.Check(isAtomic(r), nil, c.at(r), "access to "+k, "a variable that is accessed atomically elsewhere is accessed without")
		}
	})
	c.AtLeast(1, nat, "atomic accesses")
}

func sortedAcc(m map[string][]lockAcc) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// waits: calls that may wait for another goroutine or a peer.
func waits(n string) bool {
	switch n {
	case "(*sync.WaitGroup).Wait", "time.Sleep", nDo, "(*sync.Cond).Wait":
		return true
	}
	return legsSub(n, "Sync") || legsSub(n, "Announce") || legsSub(n, "Close")
}

func ruleD02(c *Ctx) {
	const (
		rRel = "a lock that is taken is released on every path, is never taken again by its holder, and is released only by its holder"
		rOrd = "locks are always taken in the same order"
		rBlk = "nobody waits for another goroutine or for the network while holding a lock, except that reports on advertisements are handed to waiters that always take them (I07)"
	)
	nlock := 0
	type edge struct{ a, b string }
	edges := map[edge]lockAcc{}
	lname := func(t *Term) string {
		if t == nil {
			return "?"
		}
		if (t.Op == OFieldAddr || t.Op == OField) && len(t.Args) > 0 {
			if bt := strip(t.Args[0]).Typ; bt != nil {
				s := derefType(bt).String()
				return s[strings.LastIndexByte(s, '/')+1:] + "." + t.S
			}
		}
		return t.String()
	}
	for _, rel := range lockPkgs(c) {
		locks, blocks := reaching(c, rel, isLockInstr), reaching(c, rel, isWaitInstr)
		for _, root := range lockRoots(c, rel) {
			if !locks(root) {
				continue
			}
			h := skipNamedGo(&Hooks{Opaque: func(f *ssa.Function) bool {
				return fnPkgPath(f) == fnPkgPath(root) && f.Parent() == nil && !locks(f) && len(c.P.reach(f)) > 6
			}})
			heldAny := func(st *State, e *Engine) string {
				for k := range st.flags {
					if strings.HasPrefix(k, "lk:") {
						return lname(e.T.byID(k[3:]))
					}
				}
				return ""
			}
			block := func(st *State, fr *Frame, site ssa.Instruction, what string) {
				l := heldAny(st, fr.E)
				if l == "" {
					return
				}
				c.Rule("waiting", rBlk)
				c.Bad(st, c.whereIn(fr, site), "no waiting under "+l, what+" while a lock is held")
			}
			h.Call = func(st *State, ev *CallEv) {
				where := c.whereIn(ev.Fr, ev.Site)
				if op, ok := lockOp(ev.Name); ok && len(ev.Args) > 0 {
					nlock++
					c.Rule("released", rRel)
					m := strip(ev.Args[0])
					k := fmt.Sprintf("lk:%d", m.ID)
					if op == "" {
						rd := strings.HasSuffix(ev.Name, ").RUnlock")
						v := st.Get(k)
						c.Check(v != "" && rd == (v == "R"), st, where, "released by its holder: "+lname(m), "a lock is released that is not held (in this way)")
						st.Del(k)
						return
					}
					c.Check(!st.Has(k), st, where, "taken once: "+lname(m), "a lock is taken by the goroutine that holds it, which waits forever")
					for f := range st.flags {
						if strings.HasPrefix(f, "lk:") && f != k {
							a, b := lname(ev.E.T.byID(f[3:])), lname(m)
							if _, ok := edges[edge{a, b}]; !ok {
								edges[edge{a, b}] = lockAcc{where: where, st: st.clone()}
							}
						}
					}
					st.Set(k, op)
					return
				}
				if !ev.Inline && (waits(ev.Name) || ev.Fn != nil && fnPkgPath(ev.Fn) == fnPkgPath(root) && blocks(ev.Fn)) {
					block(st, ev.Fr, ev.Site, "there is a call of "+ev.Name)
				}
			}
			h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
				if nonblock {
					return
				}
				if v.Typ != nil && eventStruct(v.Typ) && !selectOf(site) {
					// to a waiter found in the list of waiters
					if anySub(ch, func(x *Term) bool { return x.Op == OLookup && waiterMap(x.Args[0].Typ) }) {
						c.Rule("waiting", rBlk)
						c.OK(c.whereIn(fr, site), "reports are handed over under the lock")
						return
					}
				}
				if !selectOf(site) {
					block(st, fr, site, "there is a send")
				}
			}
			h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
				if !nonblock && !selectOf(site) {
					block(st, fr, site, "there is a receive")
				}
			}
			h.Select = func(st *State, fr *Frame, site *ssa.Select) {
				if site.Blocking {
					block(st, fr, site, "there is a select without default")
				}
			}
			end := func(st *State, fr *Frame, site ssa.Instruction) {
				c.Rule("released", rRel)
				l := heldAny(st, fr.E)
				c.Check(l == "", st, c.whereIn(fr, site), "released in the end", "the lock "+l+" is still held at the end")
			}
			h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) { end(st, fr, site) }
			h.GoBack = func(st *State, ev *CallEv) { end(st, ev.Fr, ev.Site) }
			ownLocks(h)
			c.Run(root, h, rel, "peerutil")
		}
	}
	c.Rule("released", rRel)
	c.AtLeast(10, nlock, "lock operations")
	c.Rule("order", rOrd)
	c.OK("", fmt.Sprintf("%d pairs of locks taken together", len(edges)))
	// a cycle in the order
	succ := map[string][]string{}
	for e := range edges {
		succ[e.a] = append(succ[e.a], e.b)
	}
	for e, a := range edges {
		if e.a == e.b {
			continue // of different objects
		}
		seen := map[string]bool{}
		var reach func(x string) bool
		reach = func(x string) bool {
			if x == e.a {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range succ[x] {
				if reach(y) {
					return true
				}
			}
			return false
		}
		c.Check(!reach(e.b), a.st, a.where, "order of "+e.a+" and "+e.b, "these locks are also taken in the opposite order")
	}
}

func selectOf(site ssa.Instruction) bool {
	_, ok := site.(*ssa.Select)
	return ok
}
