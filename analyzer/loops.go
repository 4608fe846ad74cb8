package main

import (
	"fmt"
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

func ssaInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

// countsUp: an index that takes the values 0, 1, 2, ... at the loop test.
func countsUp(v ssa.Value) bool {
	plus1 := func(v ssa.Value) (ssa.Value, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil, false
		}
		if k, ok := ssaInt(b.Y); ok && k == 1 {
			return b.X, true
		}
		if k, ok := ssaInt(b.X); ok && k == 1 {
			return b.Y, true
		}
		return nil, false
	}
	phi := func(v ssa.Value, start int64, next func(ssa.Value) bool) bool {
		p, ok := v.(*ssa.Phi)
		if !ok {
			return false
		}
		n := 0
		for _, e := range p.Edges {
			if k, ok := ssaInt(e); ok && k == start {
				n++
				continue
			}
			if !next(e) {
				return false
			}
		}
		return n == 1 && len(p.Edges) > 1
	}
	if phi(v, 0, func(e ssa.Value) bool { x, ok := plus1(e); return ok && x == v }) {
		return true
	}
	if x, ok := plus1(v); ok {
		return phi(x, -1, func(e ssa.Value) bool { return e == v })
	}
	return false
}

// countsDown: the values n-1, n-2, ...; returns n.
func countsDown(v ssa.Value) (ssa.Value, bool) {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return nil, false
	}
	minus1 := func(v ssa.Value) (ssa.Value, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.SUB {
			return nil, false
		}
		k, ok := ssaInt(b.Y)
		return b.X, ok && k == 1
	}
	var n ssa.Value
	for _, e := range p.Edges {
		x, ok := minus1(e)
		if !ok {
			return nil, false
		}
		if x == v {
			continue
		}
		if n != nil && n != x {
			return nil, false
		}
		n = x
	}
	return n, n != nil
}

// loopCond splits the test of a counting loop i < n.
func loopCond(i *ssa.If) (idx, bound ssa.Value, neg, ok bool) {
	b, isB := i.Cond.(*ssa.BinOp)
	if !isB {
		return nil, nil, false, false
	}
	switch b.Op {
	case token.LSS:
		return b.X, b.Y, false, true
	case token.GTR:
		return b.Y, b.X, false, true
	case token.GEQ:
		return b.X, b.Y, true, true
	case token.LEQ:
		return b.Y, b.X, true, true
	}
	return nil, nil, false, false
}

// Walk tracks the complete traversal, from first to last, of a slice.
type Walk struct {
	Flag    string
	IsSlice func(*Term) bool
	Skipped func(st *State, fr *Frame, site ssa.Instruction) // an element was left unhandled
}

func (w *Walk) Handled(st *State)    { st.Del(w.Flag + ":open") }
func (w *Walk) Open(st *State) bool  { return st.Has(w.Flag + ":open") }
func (w *Walk) Done(st *State) bool  { return st.Has(w.Flag + ":done") }
func (w *Walk) Begun(st *State) bool { return st.Has(w.Flag + ":begun") }

// isElem: t is an element of the walked slice.
func (w *Walk) isElem(t *Term) bool {
	t = strip(t)
	for t != nil && t.Op == ODeref {
		t = t.Args[0]
	}
	return t != nil && (t.Op == OIndexAddr || t.Op == OIndex) && w.IsSlice(t.Args[0])
}

// track installs the walk in the hooks.
func (w *Walk) track(h *Hooks) {
	user := h.Assume
	h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
		if i, ok := site.(*ssa.If); ok {
			if idx, _, neg, ok := loopCond(i); ok {
				cc := cond
				v := val
				if cc.Op == ONot {
					cc, v = cc.Args[0], !v
				}
				_ = neg
				if cc.Op == OBin && cc.S == "<" && cc.Args[1].Op == OLen && w.IsSlice(strip(cc.Args[1].Args[0])) && countsUp(idx) {
					if w.Open(st) && w.Skipped != nil {
						w.Skipped(st, fr, site)
					}
					if v {
						st.Set(w.Flag+":open", "1")
						st.Set(w.Flag+":begun", "1")
					} else {
						w.Handled(st)
						st.Set(w.Flag+":done", "1")
					}
				}
			}
		}
		if user != nil {
			user(st, fr, site, cond, val)
		}
	}
}

// evalBool evaluates a boolean term under an assignment of its atoms.
func evalBool(t *Term, atom func(*Term) (bool, bool)) (val, known bool) {
	if v, ok := atom(t); ok {
		return v, true
	}
	if v, ok := constBool(t); ok {
		return v, true
	}
	switch t.Op {
	case ONot:
		v, ok := evalBool(t.Args[0], atom)
		return !v, ok
	case OBin:
		if t.S == "==" {
			a, ok1 := evalBool(t.Args[0], atom)
			b, ok2 := evalBool(t.Args[1], atom)
			return a == b, ok1 && ok2
		}
	}
	return false, false
}

// feasible: no branch fact of the path contradicts the assignment.
func feasible(st *State, atom func(*Term) (bool, bool)) bool {
	for t, f := range st.facts {
		if f.K != FTrue && f.K != FFalse {
			continue
		}
		if v, ok := evalBool(t, atom); ok && v != (f.K == FTrue) {
			return false
		}
	}
	return true
}

// goTargets: functions of a package started with a go statement.
func goTargets(p *Prog, rel string) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.PkgFuncs(rel) {
		for _, call := range callsIn(f) {
			if g, ok := call.(*ssa.Go); ok {
				if t := g.Common().StaticCallee(); t != nil && t.Parent() == nil {
					out[t] = true
				}
				if w := wrapOf(g); w != nil {
					out[w] = true
				}
			}
		}
	}
	return out
}

// wrapOf: the declared function of the package that is the whole work of the
// closure started by a go statement: a closure without a loop that calls one
// such function, which has loops.
func wrapOf(g *ssa.Go) *ssa.Function {
	t := goFn(g)
	if t == nil || t.Parent() == nil || t.Blocks == nil || len(naturalLoops(t)) > 0 {
		return nil
	}
	var out *ssa.Function
	for _, call := range callsIn(t) {
		if _, ok := call.(*ssa.Call); !ok {
			continue
		}
		f := call.Common().StaticCallee()
		if f == nil || f.Blocks == nil || fnPkgPath(f) != fnPkgPath(t) {
			continue
		}
		if out != nil || f.Parent() != nil {
			return nil
		}
		out = f
	}
	if out == nil || len(naturalLoops(out)) == 0 {
		return nil
	}
	return out
}

func (p *Prog) wrappedGo(f *ssa.Function) bool {
	if p.wrapC == nil {
		p.wrapC = map[*ssa.Function]bool{}
		for _, g := range p.Funcs {
			for _, call := range callsIn(g) {
				if gi, ok := call.(*ssa.Go); ok {
					if w := wrapOf(gi); w != nil {
						p.wrapC[w] = true
					}
				}
			}
		}
	}
	return p.wrapC[f]
}

// entryRoots: exported functions and goroutine bodies of a package from which
// a matching call is reachable without going through another goroutine start
// of a declared function.
func entryRoots(c *Ctx, rel string, m func(name string) bool) []*ssa.Function {
	gos := goTargets(c.P, rel)
	var out []*ssa.Function
	for _, f := range c.P.PkgFuncs(rel) {
		if f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if !gos[f] && (f.Object() == nil || !f.Object().Exported()) {
			continue
		}
		seen := map[*ssa.Function]bool{}
		hit := false
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			if g == nil || seen[g] || g.Blocks == nil || fnPkgPath(g) != fnPkgPath(f) {
				return
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if m(calleeName(ci)) {
							hit = true
						}
						if gi, ok := in.(*ssa.Go); ok {
							if t := gi.Common().StaticCallee(); t != nil && t.Parent() == nil {
								continue
							}
						}
					}
					for _, op := range in.Operands(nil) {
						switch v := (*op).(type) {
						case *ssa.Function:
							walk(v)
						case *ssa.MakeClosure:
							walk(v.Fn.(*ssa.Function))
						}
					}
				}
			}
		}
		walk(f)
		if hit {
			out = append(out, f)
		}
	}
	sortFns(out)
	return out
}

// skipNamedGo does not follow go statements that start declared functions
// (they are analysed as roots of their own).
func skipNamedGo(h *Hooks) *Hooks {
	h.SkipNamed = true
	user := h.Go
	h.Go = func(st *State, ev *CallEv) GoMode {
		m := GoInline
		if user != nil {
			m = user(st, ev)
		}
		if ev.Fn != nil && ev.Fn.Parent() == nil && ev.Fn.Object() != nil {
			m = GoSkip
		}
		return m
	}
	return h
}

// adIngestFns: the functions that ingest one advertisement (register the
// provider and change the index).
func adIngestFns(c *Ctx) []*ssa.Function {
	return deepest(c.P, "internal/ingest", func(n string) bool { return idxCall(n, "Put") }, func(n string) bool { return n == nRegOrUpd })
}

func inFns(fs []*ssa.Function) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		for _, g := range fs {
			if f == g {
				return true
			}
		}
		return false
	}
}

var _ = fmt.Sprint

// natLoop is a natural loop.
type natLoop struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
}

func naturalLoops(fn *ssa.Function) []*natLoop {
	by := map[*ssa.BasicBlock]*natLoop{}
	var out []*natLoop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := by[s]
			if l == nil {
				l = &natLoop{Fn: fn, Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
				by[s] = l
				out = append(out, l)
			}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if l.Blocks[x] {
					return
				}
				l.Blocks[x] = true
				for _, p := range x.Preds {
					up(p)
				}
			}
			up(b)
		}
	}
	return out
}

// reachesIn: some instruction of the blocks makes, directly or through
// functions of the same package, a call accepted by m.
func reachesIn(p *Prog, blocks map[*ssa.BasicBlock]bool, m func(ci ssa.CallInstruction) bool) bool {
	var pkg string
	seen := map[*ssa.Function]bool{}
	var fnHit func(f *ssa.Function) bool
	insHit := func(in ssa.Instruction) bool {
		if ci, ok := in.(ssa.CallInstruction); ok && m(ci) {
			return true
		}
		for _, op := range in.Operands(nil) {
			switch v := (*op).(type) {
			case *ssa.Function:
				if fnHit(v) {
					return true
				}
			case *ssa.MakeClosure:
				if fnHit(v.Fn.(*ssa.Function)) {
					return true
				}
			}
		}
		return false
	}
	fnHit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || f.Blocks == nil || fnPkgPath(f) != pkg {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if insHit(in) {
					return true
				}
			}
		}
		return false
	}
	for b := range blocks {
		pkg = fnPkgPath(b.Parent())
		for _, in := range b.Instrs {
			if insHit(in) {
				return true
			}
		}
	}
	return false
}

// loopsReaching: the innermost loops (over all functions of the package) from
// whose bodies such a call is reachable.
func loopsReaching(p *Prog, rel string, m func(ci ssa.CallInstruction) bool) []*natLoop {
	var all []*natLoop
	for _, f := range p.PkgFuncs(rel) {
		for _, l := range naturalLoops(f) {
			if reachesIn(p, l.Blocks, m) {
				all = append(all, l)
			}
		}
	}
	var out []*natLoop
	for _, l := range all {
		inner := true
		for _, k := range all {
			if k == l {
				continue
			}
			// k lies inside l: same function and nested, or in a function l's body refers to
			if k.Fn == l.Fn {
				if l.Blocks[k.Header] && len(k.Blocks) < len(l.Blocks) {
					inner = false
				}
			} else if reachesIn(p, l.Blocks, func(ci ssa.CallInstruction) bool { return ci.Common().StaticCallee() == k.Fn }) {
				inner = false
			}
		}
		if inner {
			out = append(out, l)
		}
	}
	return out
}

// affine is a value as a function of the iteration number k of a loop:
// the sum of atoms (with coefficients) + C + K*k.
type affine struct {
	A map[ssa.Value]int64
	C int64
	K int64
}

func (a affine) add(b affine, sign int64) affine {
	out := affine{A: map[ssa.Value]int64{}, C: a.C + sign*b.C, K: a.K + sign*b.K}
	for v, n := range a.A {
		out.A[v] += n
	}
	for v, n := range b.A {
		out.A[v] += sign * n
	}
	for v, n := range out.A {
		if n == 0 {
			delete(out.A, v)
		}
	}
	return out
}

// minusK: the value is n + c - k for a single value n.
func (a affine) minusK(c int64) (ssa.Value, bool) {
	if a.C != c || a.K != -1 || len(a.A) != 1 {
		return nil, false
	}
	for v, n := range a.A {
		if n == 1 {
			return v, true
		}
	}
	return nil, false
}

func affineIn(l *natLoop, v ssa.Value, depth int) (affine, bool) {
	if k, ok := ssaInt(v); ok {
		return affine{C: k}, true
	}
	if depth > 20 {
		return affine{}, false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		sign := int64(1)
		switch x.Op {
		case token.SUB:
			sign = -1
		case token.ADD:
		default:
			return affine{A: map[ssa.Value]int64{v: 1}}, !l.Blocks[x.Block()]
		}
		a, ok1 := affineIn(l, x.X, depth+1)
		b, ok2 := affineIn(l, x.Y, depth+1)
		return a.add(b, sign), ok1 && ok2
	case *ssa.Phi:
		if x.Block() != l.Header {
			break
		}
		var init ssa.Value
		step, haveStep := int64(0), false
		for i, e := range x.Edges {
			if !l.Blocks[x.Block().Preds[i]] {
				if init != nil && init != e {
					return affine{}, false
				}
				init = e
				continue
			}
			d, ok := delta(e, x, 0)
			if !ok || haveStep && d != step {
				return affine{}, false
			}
			step, haveStep = d, true
		}
		if init == nil || !haveStep {
			return affine{}, false
		}
		a, ok := affineIn(l, init, depth+1)
		a.K += step
		return a, ok
	}
	if in, ok := v.(ssa.Instruction); ok && l.Blocks[in.Block()] {
		// len of a value from outside is constant
		if cl, ok := v.(*ssa.Call); ok {
			if b, ok := cl.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return affine{A: map[ssa.Value]int64{v: 1}}, true
			}
		}
		return affine{}, false
	}
	return affine{A: map[ssa.Value]int64{v: 1}}, true
}

// delta: e = base + d.
func delta(e, base ssa.Value, depth int) (int64, bool) {
	if e == base {
		return 0, true
	}
	b, ok := e.(*ssa.BinOp)
	if !ok || depth > 10 {
		return 0, false
	}
	if k, ok := ssaInt(b.Y); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		d, ok := delta(b.X, base, depth+1)
		if b.Op == token.SUB {
			k = -k
		}
		return d + k, ok
	}
	if k, ok := ssaInt(b.X); ok && b.Op == token.ADD {
		d, ok := delta(b.Y, base, depth+1)
		return d + k, ok
	}
	return 0, false
}

// stepsLeft: the loop goes on as long as the returned value is positive.
func stepsLeft(l *natLoop, f *ssa.If) (affine, bool) {
	b, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return affine{}, false
	}
	x, ok1 := affineIn(l, b.X, 0)
	y, ok2 := affineIn(l, b.Y, 0)
	if !ok1 || !ok2 {
		return affine{}, false
	}
	op := b.Op
	if !l.Blocks[f.Block().Succs[0]] { // leaves when true
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	one := affine{C: 1}
	switch op {
	case token.LSS:
		return y.add(x, -1), true
	case token.LEQ:
		return y.add(x, -1).add(one, 1), true
	case token.GTR:
		return x.add(y, -1), true
	case token.GEQ:
		return x.add(y, -1).add(one, 1), true
	case token.NEQ:
		d := x.add(y, -1)
		if d.K > 0 {
			d = y.add(x, -1)
		}
		return d, true
	}
	return affine{}, false
}
