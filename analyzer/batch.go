package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const tMultihash = "github.com/multiformats/go-multihash.Multihash"

func isMhSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeIs(s.Elem(), tMultihash)
}

// accState is the state of the accumulator dataflow: pend holds the slices
// with content that has not been handed over, fly those that share memory with
// the slice most recently handed to another goroutine.
type accState struct {
	pend, fly map[ssa.Value]bool
}

func (s *accState) clone() *accState {
	n := &accState{map[ssa.Value]bool{}, map[ssa.Value]bool{}}
	for v := range s.pend {
		n.pend[v] = true
	}
	for v := range s.fly {
		n.fly[v] = true
	}
	return n
}

func (s *accState) merge(o *accState) bool {
	ch := false
	for v := range o.pend {
		if !s.pend[v] {
			s.pend[v], ch = true, true
		}
	}
	for v := range o.fly {
		if !s.fly[v] {
			s.fly[v], ch = true, true
		}
	}
	return ch
}

// cellOf: v is read from a variable that lives in memory.
func cellOf(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch u.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
			return u.X
		}
	}
	return v
}

type accReport func(at ssa.Instruction, kind string)

// accumulators follows slices of multihashes through a function: whatever is
// appended to one must be handed over before the function ends without error,
// and memory handed to another goroutine is not written until it is done.
func accumulators(fn *ssa.Function, report accReport) (sinks, appends int) {
	has := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && isAppendMh(v) {
				has = true
			}
		}
	}
	if !has {
		return 0, 0
	}
	in := map[*ssa.BasicBlock]*accState{}
	in[fn.Blocks[0]] = (&accState{}).clone()
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	flow := func(b *ssa.BasicBlock, rep accReport) *accState {
		s := in[b].clone()
		for _, ins := range b.Instrs {
			n := accStep(s, ins, rep)
			if rep != nil && n == 1 {
				sinks++
			}
			if v, ok := ins.(ssa.Value); ok && rep != nil && isAppendMh(v) {
				appends++
			}
		}
		return s
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		out := flow(b, nil)
		for k, succ := range b.Succs {
			n := out.clone()
			if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if v := emptyOn(f.Cond, k == 0); v != nil {
					delete(n.pend, cellOf(v))
				}
			}
			// phis are assigned in parallel
			pi := predIndex(succ, b)
			type mv struct {
				phi, from ssa.Value
			}
			var mvs []mv
			for _, ins := range succ.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if isMhSlice(phi.Type()) {
					mvs = append(mvs, mv{phi, cellOf(phi.Edges[pi])})
				}
			}
			pend, fly := map[ssa.Value]bool{}, map[ssa.Value]bool{}
			moved := map[ssa.Value]bool{}
			for _, m := range mvs {
				if n.pend[m.from] {
					pend[m.phi] = true
					moved[m.from] = true
				}
				if n.fly[m.from] {
					fly[m.phi] = true
				}
			}
			for _, m := range mvs {
				if n.pend[m.phi] && !moved[m.phi] && m.from != m.phi {
					// the old content of the variable is dropped: keep it
					// pending under a name nothing can clear
					pend[lostMark] = true
				}
			}
			for _, m := range mvs {
				delete(n.pend, m.phi)
				delete(n.fly, m.phi)
			}
			for v := range moved {
				delete(n.pend, v)
			}
			for v := range pend {
				n.pend[v] = true
			}
			for v := range fly {
				n.fly[v] = true
			}
			if in[succ] == nil {
				in[succ] = n
				work = append(work, succ)
			} else if in[succ].merge(n) {
				work = append(work, succ)
			}
		}
	}
	for _, b := range fn.Blocks {
		if in[b] != nil {
			flow(b, report)
		}
	}
	return
}

var lostMark ssa.Value = &ssa.Const{}

func isAppendMh(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || !isMhSlice(c.Type()) {
		return false
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

// accStep is the transfer function; it returns 1 if content was handed over.
func accStep(s *accState, ins ssa.Instruction, rep accReport) int {
	def := func(v ssa.Value) {
		delete(s.pend, v)
		delete(s.fly, v)
	}
	sink := func(v ssa.Value) int {
		if !isMhSlice(v.Type()) {
			return 0
		}
		v = cellOf(v)
		if _, ok := v.(*ssa.Const); ok {
			return 0
		}
		if s.pend[v] {
			delete(s.pend, v)
			return 1
		}
		return 0
	}
	switch x := ins.(type) {
	case *ssa.Phi:
		return 0
	case *ssa.Send:
		if isMhSlice(x.X.Type()) {
			sink(x.X)
			s.fly = map[ssa.Value]bool{cellOf(x.X): true}
			return 1
		}
	case *ssa.Select:
		n := 0
		for _, st := range x.States {
			if st.Dir == types.SendOnly && isMhSlice(st.Send.Type()) {
				sink(st.Send)
				s.fly = map[ssa.Value]bool{cellOf(st.Send): true}
				n = 1
			}
		}
		return n
	case *ssa.Slice:
		if !isMhSlice(x.Type()) {
			return 0
		}
		base := cellOf(x.X)
		fly, pend := s.fly[base], s.pend[base]
		def(x)
		if fly {
			s.fly[x] = true
		}
		if pend && x.Low == nil && x.High == nil {
			s.pend[x] = true
			delete(s.pend, base)
		}
	case *ssa.Store:
		if !isMhSlice(x.Val.Type()) {
			return 0
		}
		v, cell := cellOf(x.Val), x.Addr
		switch cell.(type) {
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		default:
			sink(x.Val)
			return 0
		}
		if s.pend[cell] && v != cell {
			s.pend[lostMark] = true
		}
		p, f := s.pend[v], s.fly[v]
		delete(s.pend, v)
		delete(s.pend, cell)
		delete(s.fly, cell)
		if p {
			s.pend[cell] = true
		}
		if f {
			s.fly[cell] = true
		}
	case ssa.CallInstruction:
		cm := x.Common()
		if b, ok := cm.Value.(*ssa.Builtin); ok {
			if v, isV := ins.(ssa.Value); isV && isAppendMh(v) {
				base := cellOf(cm.Args[0])
				if s.fly[base] && rep != nil {
					rep(ins, "reuse")
				}
				fly := s.fly[base]
				pendB := s.pend[base]
				def(v)
				if fly {
					s.fly[v] = true
				}
				if pendB {
					delete(s.pend, base)
				}
				s.pend[v] = true
			}
			_ = b
			return 0
		}
		n := 0
		for _, a := range cm.Args {
			n |= sink(a)
		}
		// a closure that hands over a captured variable
		if mc, ok := cm.Value.(*ssa.MakeClosure); ok {
			n |= closureSinks(s, mc)
		} else if !cm.IsInvoke() && cm.StaticCallee() == nil {
			// a closure kept in a variable
			if f := closureOf(cm.Value); f != nil {
				n |= closureSinks(s, f)
			}
		}
		return n
	case *ssa.Return:
		for _, r := range x.Results {
			sink(r)
		}
		if rep != nil && len(s.pend) > 0 && !errorReturn(x) && !onlyCaptured(s) {
			rep(ins, "lost")
		}
	}
	return 0
}

// onlyCaptured: what is pending belongs to a variable of the enclosing
// function.
func onlyCaptured(s *accState) bool {
	for v := range s.pend {
		if _, ok := v.(*ssa.FreeVar); !ok {
			return false
		}
	}
	return true
}

func closureOf(v ssa.Value) *ssa.MakeClosure {
	if mc, ok := v.(*ssa.MakeClosure); ok {
		return mc
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if a, ok := u.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					if mc, ok := st.Val.(*ssa.MakeClosure); ok {
						return mc
					}
				}
			}
		}
	}
	return nil
}

func closureSinks(s *accState, mc *ssa.MakeClosure) int {
	fn := mc.Fn.(*ssa.Function)
	n := 0
	for i, fv := range fn.FreeVars {
		cell := mc.Bindings[i]
		pt, ok := cell.Type().Underlying().(*types.Pointer)
		if !ok || !isMhSlice(pt.Elem()) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if cellOf(x.X) == fv {
						n = 1
					}
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.SendOnly && cellOf(st.Send) == fv {
							n = 1
						}
					}
				case ssa.CallInstruction:
					if _, ok := x.Common().Value.(*ssa.Builtin); ok {
						if v, ok := in.(ssa.Value); ok && isAppendMh(v) && cellOf(x.Common().Args[0]) == fv {
							s.pend[cell] = true
						}
						continue
					}
					for _, a := range x.Common().Args {
						if cellOf(a) == fv {
							n = 1
						}
					}
				}
			}
		}
		if n == 1 {
			delete(s.pend, cell)
		}
	}
	return n
}

// errorReturn: the function certainly returns an error here.
func errorReturn(r *ssa.Return) bool {
	if len(r.Results) == 0 {
		return false
	}
	last := r.Results[len(r.Results)-1]
	if !isErrorType(last.Type()) {
		return false
	}
	return nonNilAt(last, r.Block(), 0)
}

func nonNilAt(v ssa.Value, b *ssa.BasicBlock, depth int) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Const:
		return false
	case *ssa.UnOp:
		// a result variable, set just before the deferred calls
		if a, ok := x.X.(*ssa.Alloc); ok && depth < 3 {
			var last *ssa.Store
			for _, in := range x.Block().Instrs {
				if in == ssa.Instruction(x) {
					break
				}
				if s, ok := in.(*ssa.Store); ok && s.Addr == a {
					last = s
				}
			}
			if last != nil {
				return nonNilAt(last.Val, b, depth+1)
			}
		}
	case *ssa.Call:
		switch calleeName(x) {
		case "fmt.Errorf", "errors.New":
			return true
		}
	}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		f, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }
		if bo.X == v && isNil(bo.Y) || bo.Y == v && isNil(bo.X) {
			if bo.Op == token.NEQ && pr.Succs[0] == d || bo.Op == token.EQL && pr.Succs[1] == d {
				return true
			}
		}
	}
	return false
}

// emptyOn: the branch means that the returned slice is empty.
func emptyOn(cond ssa.Value, val bool) ssa.Value {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return emptyOn(u.X, !val)
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	lenArg := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "len" && isMhSlice(c.Common().Args[0].Type()) {
				return c.Common().Args[0]
			}
		}
		return nil
	}
	x, y, op := b.X, b.Y, b.Op
	if lenArg(y) != nil {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	a := lenArg(x)
	k, isK := ssaInt(y)
	if a == nil || !isK {
		return nil
	}
	if !val {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	// len(a) op k implies len(a) == 0
	switch op {
	case token.EQL, token.LEQ:
		if k == 0 {
			return a
		}
	case token.LSS:
		if k == 1 || k == 0 {
			return a
		}
	}
	return nil
}
