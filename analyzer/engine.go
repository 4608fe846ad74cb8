package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Facts, states

type FactKind uint8

const (
	FNone FactKind = iota
	FNil
	FNonNil
	FTrue
	FFalse
	FEq
)

type Fact struct {
	K FactKind
	C *Term
}

type deferRec struct {
	call ssa.CallInstruction
	fnT  *Term
	args []*Term
}

type trace struct {
	up   *trace
	what string
	n    int
}

// State is one abstract state: register environment of the current frame,
// abstract memory, branch facts and the rule automaton's flags.
type State struct {
	env    map[ssa.Value]*Term
	mem    map[*Term]*Term
	facts  map[*Term]Fact
	dead   bool // the rule knows that this branch cannot be taken
	flags  map[string]string
	defers []deferRec
	tr     *trace
}

func newState() *State {
	return &State{env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, facts: map[*Term]Fact{}, flags: map[string]string{}}
}

func (s *State) clone() *State {
	n := &State{
		env:   make(map[ssa.Value]*Term, len(s.env)+4),
		mem:   make(map[*Term]*Term, len(s.mem)+2),
		facts: make(map[*Term]Fact, len(s.facts)+2),
		flags: make(map[string]string, len(s.flags)+1),
		tr:    s.tr,
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.flags {
		n.flags[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	return n
}

// Set sets an automaton flag.
func (s *State) Set(k, v string)     { s.flags[k] = v }
func (s *State) Get(k string) string { return s.flags[k] }
func (s *State) Has(k string) bool   { _, ok := s.flags[k]; return ok }
func (s *State) Del(k string)        { delete(s.flags, k) }

func (s *State) note(w string) {
	n := 0
	if s.tr != nil {
		n = s.tr.n
	}
	s.tr = &trace{s.tr, w, n + 1}
}

// Path renders the last steps of the path leading to this state.
func (s *State) Path() []string {
	var out []string
	for t := s.tr; t != nil && len(out) < 40; t = t.up {
		out = append(out, t.what)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------------------------------------------------------------------------
// Hooks

// CallEv is a call about to be executed.
type CallEv struct {
	E      *Engine
	Fr     *Frame
	Site   ssa.CallInstruction
	Name   string        // full name of the callee
	Fn     *ssa.Function // static callee, closure or resolved method (may be nil)
	Args   []*Term       // receiver first
	Inline bool          // the callee's body is analysed at this site
	Go     bool
	Defer  bool
	Result *Term // for opaque calls: the result term (tuple → use ResultN)
	NRes   int
}

// ResultN is the term of the n-th result of an opaque call.
func (c *CallEv) ResultN(n int) *Term {
	if c.Result == nil {
		return nil
	}
	if c.NRes <= 1 {
		return c.Result
	}
	return c.E.extract(c.Result, n)
}

type GoMode int

const (
	GoInline GoMode = iota // run body at the spawn point
	GoSkip
)

// Hooks is a rule: an observer of the abstract execution.
type Hooks struct {
	NoJoin bool // never join states (the function is small enough)
	// SkipNamed: declared functions started as goroutines, also those that a
	// small closure wraps, are not followed
	SkipNamed bool
	// JoinFew: join states that differ only in values as soon as they meet
	JoinFew bool

	Call      func(st *State, ev *CallEv)
	After     func(st *State, ev *CallEv) // after an inlined callee returned; ev.Result = result
	Load      func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term)
	Store     func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term)
	MapUpdate func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term)
	MapDelete func(st *State, fr *Frame, site ssa.Instruction, m, k *Term)
	MapRead   func(st *State, fr *Frame, site ssa.Instruction, m *Term)
	Send      func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool)
	Recv      func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool)
	Select    func(st *State, fr *Frame, site *ssa.Select)
	Close     func(st *State, fr *Frame, site ssa.Instruction, ch *Term)
	Append    func(st *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term)
	Slice     func(st *State, fr *Frame, site *ssa.Slice, base, lo, hi *Term)
	Assume    func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool)
	Go        func(st *State, ev *CallEv) GoMode
	GoBack    func(st *State, ev *CallEv)          // inlined goroutine body finished; back in the spawner
	As        func(st *State, ev *CallEv, is bool) // outcome of errors.As
	Panic     func(st *State, fr *Frame, site ssa.Instruction, v *Term)
	Exit      func(st *State, fr *Frame, site ssa.Instruction, results []*Term) // return of the root
	Return    func(st *State, fr *Frame, site ssa.Instruction, results []*Term) // return of any frame
	Index     func(st *State, fr *Frame, site ssa.Instruction, base, idx *Term)
	Alloc     func(st *State, fr *Frame, site *ssa.Alloc, obj *Term)
	Assert    func(st *State, fr *Frame, site *ssa.TypeAssert, v *Term)
	Deref     func(st *State, fr *Frame, site ssa.Instruction, ptr *Term)
	Opaque    func(fn *ssa.Function) bool // do not inline
	NilKey    func(t types.Type) bool     // whether such a value is nil is never merged away
	Keep      func(t *Term) bool          // facts on such terms are never merged away
	Model     func(st *State, ev *CallEv) (*Term, bool)
	KeepMem   bool // never forget memory reachable from the root's parameters
	NoInvoke  bool // do not run closures handed to external functions
	NoActor   bool // do not run closures sent over channels
	LoopEntry func(st *State, fr *Frame, b *ssa.BasicBlock)
	// Next: a range over a map or string is about to advance; inIter tells
	// that an iteration just ended (facts about it still hold).
	Next func(st *State, fr *Frame, site ssa.Instruction, next *Term, inIter bool)
}

// Frame is one activation in the inlining stack.
type Frame struct {
	E      *Engine
	Fn     *ssa.Function
	info   *fnInfo
	Ctx    int
	Up     *Frame
	Site   ssa.CallInstruction
	Go     bool // goroutine body
	Actor  bool // closure executed by the receiver of a func-valued channel
	Defer  bool
	pinned []*Term
	depth  int
	// the RunDefers instruction being executed, if any
	atDefers ssa.Instruction
}

func (f *Frame) deferSite(d *ssa.Defer) ssa.Instruction {
	if f.atDefers != nil {
		return f.atDefers
	}
	return d
}

// InActor reports whether some frame of the stack is a channel-sent closure
// (with no goroutine spawned in between).
func (f *Frame) InActor() bool {
	for ; f != nil; f = f.Up {
		if f.Actor {
			return true
		}
		if f.Go {
			return false
		}
	}
	return false
}

// Stack renders the inlining stack.
func (f *Frame) Stack() string {
	var s []string
	for ; f != nil; f = f.Up {
		s = append(s, shortFn(f.Fn))
	}
	return strings.Join(s, " ← ")
}

// Root is the outermost frame.
func (f *Frame) Root() *Frame {
	for f.Up != nil {
		f = f.Up
	}
	return f
}

// ---------------------------------------------------------------------------

type fnInfo struct {
	idx    map[ssa.Value]int
	liveIn []map[ssa.Value]bool // per block: registers live at entry (after phis of that block are defined: phis included)
	header []bool
	back   map[[2]int]bool
	after  map[ssa.Instruction]map[ssa.Value]bool
}

// Engine runs one rule.
type Engine struct {
	P     *Prog
	T     *termTab
	H     *Hooks
	ctxs  map[[2]int]int
	Steps int
	Limit int
	Err   error
	// coverage
	Fns      map[*ssa.Function]bool
	Blocks   map[*ssa.BasicBlock]bool
	Calls    int
	States   int
	Merged   int
	MaxDep   int
	root     *Frame
	heavy    map[string]int
	JoinAt   int
	Joins    int
	JoinExit int
	// objects whose memory is never forgotten
	permanent []*Term
}

func NewEngine(p *Prog, h *Hooks) *Engine {
	return &Engine{P: p, T: newTermTab(), H: h, ctxs: map[[2]int]int{}, Limit: 6_000_000, Fns: map[*ssa.Function]bool{}, Blocks: map[*ssa.BasicBlock]bool{}, MaxDep: 14, heavy: map[string]int{}, JoinAt: 40, JoinExit: 12}
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.P.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, back: map[[2]int]bool{}, after: map[ssa.Instruction]map[ssa.Value]bool{}}
	n := 0
	add := func(v ssa.Value) { fi.idx[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	nb := len(fn.Blocks)
	fi.liveIn = make([]map[ssa.Value]bool, nb)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool { _, ok := fi.idx[v]; return ok }
	for changed := true; changed; {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := predIndex(s, b)
				for v := range fi.liveIn[s.Index] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b && k >= 0 {
							_ = pi
							if isReg(ph.Edges[k]) {
								live[ph.Edges[k]] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					// phis stay live-in when used below
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isReg(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(fi.liveIn[bi]) {
				fi.liveIn[bi] = live
				changed = true
			} else {
				for v := range live {
					if !fi.liveIn[bi][v] {
						fi.liveIn[bi] = live
						changed = true
						break
					}
				}
			}
		}
	}
	fi.header = make([]bool, nb)
	// back edges by DFS
	color := make([]int, nb)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		color[b.Index] = 1
		for _, s := range b.Succs {
			if color[s.Index] == 1 {
				fi.back[[2]int{b.Index, s.Index}] = true
				fi.header[s.Index] = true
			} else if color[s.Index] == 0 {
				dfs(s)
			}
		}
		color[b.Index] = 2
	}
	if nb > 0 {
		dfs(fn.Blocks[0])
		if fn.Recover != nil && color[fn.Recover.Index] == 0 {
			dfs(fn.Recover)
		}
	}
	e.P.infos[fn] = fi
	return fi
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

func (e *Engine) childCtx(ctx int, site ssa.Instruction) int {
	k := [2]int{ctx, e.T.idOf(site)}
	if v, ok := e.ctxs[k]; ok {
		return v
	}
	v := len(e.ctxs) + 1
	e.ctxs[k] = v
	return v
}

// ---------------------------------------------------------------------------
// Term constructors

func (e *Engine) Nil() *Term { return e.T.mk(Term{Op: ONil}) }
func (e *Engine) Bool(b bool) *Term {
	return e.T.mk(Term{Op: OConst, S: strconv.FormatBool(b), Val: constant.MakeBool(b), Typ: types.Typ[types.Bool]})
}
func (e *Engine) Int(i int64) *Term {
	return e.T.mk(Term{Op: OConst, S: strconv.FormatInt(i, 10), Val: constant.MakeInt64(i), Typ: types.Typ[types.Int]})
}
func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	return e.T.mk(Term{Op: OConst, S: c.Value.ExactString(), Val: c.Value, Typ: c.Type()})
}

func (e *Engine) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.Bool(false)
		case u.Info()&types.IsString != 0:
			return e.T.mk(Term{Op: OConst, S: `""`, Val: constant.MakeString(""), Typ: t})
		case u.Info()&types.IsInteger != 0:
			return e.Int(0)
		case u.Info()&types.IsFloat != 0:
			return e.Int(0)
		}
		return e.Nil()
	case *types.Struct, *types.Array:
		return e.T.mk(Term{Op: OZero, S: types.TypeString(t, nil), Typ: t})
	}
	return e.Nil()
}

func (e *Engine) field(x *Term, name string, ft types.Type) *Term {
	switch x.Op {
	case OStruct:
		st := x.Typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return x.Args[i]
			}
		}
	case OZero:
		if ft != nil {
			return e.zero(ft)
		}
	case ODeref:
		// a copy of the pointed-to struct: same value as reading the field
		x = x.Args[0]
	}
	return e.T.mk(Term{Op: OField, S: name, Args: []*Term{x}, Typ: ft})
}

func (e *Engine) fieldAddr(p *Term, name string, ft types.Type) *Term {
	return e.T.mk(Term{Op: OFieldAddr, S: name, Args: []*Term{p}, Typ: ft})
}

func (e *Engine) extract(t *Term, i int) *Term {
	if t.Op == OTuple {
		return t.Args[i]
	}
	var ty types.Type
	if tup, ok := t.Typ.(*types.Tuple); ok && i < tup.Len() {
		ty = tup.At(i).Type()
	}
	return e.T.mk(Term{Op: OExtract, I: i, Args: []*Term{t}, Typ: ty})
}

func (e *Engine) not(t *Term) *Term {
	if b, ok := constBool(t); ok {
		return e.Bool(!b)
	}
	if t.Op == ONot {
		return t.Args[0]
	}
	return e.T.mk(Term{Op: ONot, Args: []*Term{t}, Typ: types.Typ[types.Bool]})
}

func (e *Engine) eq(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return e.T.mk(Term{Op: OBin, S: "==", Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
}

func (e *Engine) lt(a, b *Term) *Term {
	// a string is empty if its length is
	if n, ok := constInt(a); ok && n == 0 {
		if x := strLen(b); x != nil {
			return e.not(e.eq(x, e.emptyStr()))
		}
	}
	if n, ok := constInt(b); ok && n == 1 {
		if x := strLen(a); x != nil {
			return e.eq(x, e.emptyStr())
		}
	}
	return e.T.mk(Term{Op: OBin, S: "<", Args: []*Term{a, b}, Typ: types.Typ[types.Bool]})
}

// strLen: the string whose length t is.
func strLen(t *Term) *Term {
	if t.Op != OLen || t.Args[0].Typ == nil {
		return nil
	}
	if b, ok := t.Args[0].Typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return nil
	}
	return t.Args[0]
}

func (e *Engine) emptyStr() *Term { return e.zero(types.Typ[types.String]) }

func (e *Engine) opaque(tag string, typ types.Type, fr *Frame, site ssa.Instruction) *Term {
	return e.T.mk(Term{Op: OOpaque, S: tag, Typ: typ, Site: site, Ctx: fr.Ctx}, site, fr.Ctx)
}

// Len builds len(x), folding simple cases.
func (e *Engine) lenOf(x *Term) *Term {
	switch x.Op {
	case ONil, OZero:
		return e.Int(0)
	case OConst:
		if s, ok := constStr(x); ok {
			return e.Int(int64(len(s)))
		}
	case OSlice: // a list written out
		if x.Args[0].Op == OAlloc && x.Args[1] == nil && x.Args[2] == nil && x.Args[0].Typ != nil {
			if pt, ok := x.Args[0].Typ.Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return e.Int(at.Len())
				}
			}
		}
	}
	return e.T.mk(Term{Op: OLen, Args: []*Term{x}, Typ: types.Typ[types.Int]})
}

// ---------------------------------------------------------------------------
// Facts

func (e *Engine) Nilness(st *State, t *Term) FactKind {
	switch t.Op {
	case ONil:
		return FNil
	case OIface, OAlloc, OFn, OFieldAddr, OIndexAddr, OGlobal, OStruct:
		return FNonNil
	case OAppend:
		if len(t.Args) > 1 {
			return FNonNil
		}
	case OConst:
		return FNonNil
	case OZero:
		return FNonNil
	case ODeref:
		// package-level error values are initialised once and non-nil
		if t.Args[0].Op == OGlobal && isErrorType(t.Typ) {
			return FNonNil
		}
	case OCall:
		if nonNilFns[t.S] {
			return FNonNil
		}
	}
	if f, ok := st.facts[t]; ok {
		if f.K == FNil || f.K == FNonNil {
			return f.K
		}
		if f.K == FEq && f.C != nil {
			return FNonNil
		}
	}
	return FNone
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// Eval evaluates a boolean term: FTrue, FFalse or FNone.
func (e *Engine) Eval(st *State, t *Term) FactKind {
	if b, ok := constBool(t); ok {
		return tf(b)
	}
	if t.Op == ONot {
		switch e.Eval(st, t.Args[0]) {
		case FTrue:
			return FFalse
		case FFalse:
			return FTrue
		}
		return FNone
	}
	if f, ok := st.facts[t]; ok && (f.K == FTrue || f.K == FFalse) {
		return f.K
	}
	if t.Op == OBin && t.S == "==" {
		a, b := t.Args[0], t.Args[1]
		if a == b {
			return FTrue
		}
		if a.Op == OConst && b.Op == OConst && a.Val != nil && b.Val != nil {
			if a.Val.Kind() == b.Val.Kind() {
				return tf(constant.Compare(a.Val, token.EQL, b.Val))
			}
		}
		if a.Op == ONil {
			a, b = b, a
		}
		if b.Op == ONil {
			switch e.Nilness(st, a) {
			case FNil:
				return FTrue
			case FNonNil:
				return FFalse
			}
			return FNone
		}
		// nil vs non-nil
		na, nb := e.Nilness(st, a), e.Nilness(st, b)
		if na == FNil && nb == FNonNil && a.Op != OConst && b.Op != OConst || na == FNonNil && nb == FNil && a.Op != OConst && b.Op != OConst {
			return FFalse
		}
		if b.Op == OConst {
			a, b = b, a
		}
		if a.Op == OConst {
			if f, ok := st.facts[b]; ok && f.K == FEq {
				if f.C == a {
					return FTrue
				}
				if f.C.Op == OConst && f.C.Val != nil && a.Val != nil && f.C.Val.Kind() == a.Val.Kind() {
					return tf(constant.Compare(f.C.Val, token.EQL, a.Val))
				}
			}
			// boolean compared with constant
			if bv, ok := constBool(a); ok {
				switch e.Eval(st, b) {
				case FTrue:
					return tf(bv)
				case FFalse:
					return tf(!bv)
				}
			}
		}
		if a.Op == OAlloc && b.Op == OAlloc {
			return FFalse
		}
		if z, ok := constInt(a); ok && b.Op == OLen {
			if n, known := e.minLen(st, b.Args[0]); known && int64(n) > z {
				return FFalse
			}
		}
		return FNone
	}
	if t.Op == OBin && t.S == "<" {
		a, b := t.Args[0], t.Args[1]
		if a.Op == OConst && b.Op == OConst && a.Val != nil && b.Val != nil && a.Val.Kind() == b.Val.Kind() && a.Val.Kind() != constant.Bool {
			return tf(constant.Compare(a.Val, token.LSS, b.Val))
		}
		if z, ok := constInt(a); ok && b.Op == OLen {
			if n, known := e.minLen(st, b.Args[0]); known && int64(n) > z {
				return FTrue
			}
		}
		if z, ok := constInt(b); ok && a.Op == OLen && z <= 0 {
			return FFalse
		}
		if z, ok := constInt(b); ok && a.Op == OLen {
			if n, known := e.minLen(st, a.Args[0]); known && int64(n) >= z {
				return FFalse
			}
		}
		// 0 < len(x) when len(x) == 0 is decided, and vice versa
		if z, ok := constInt(a); ok && z == 0 && b.Op == OLen {
			switch st.facts[e.eq(e.Int(0), b)].K {
			case FTrue:
				return FFalse
			case FFalse:
				return FTrue
			}
		}
	}
	return FNone
}

// minLen is a lower bound on the length of a slice term.
func (e *Engine) minLen(st *State, x *Term) (int, bool) {
	switch x.Op {
	case OAppend:
		n, _ := e.minLen(st, x.Args[0])
		if x.S == "" {
			return n + len(x.Args) - 1, true
		}
		m := 0
		for _, a := range x.Args[1:] {
			k, _ := e.minLen(st, a)
			m += k
		}
		return n + m, true
	case ONil:
		return 0, true
	}
	if st.facts[e.eq(e.Int(0), e.lenOf(x))].K == FFalse || st.facts[e.lt(e.Int(0), e.lenOf(x))].K == FTrue || st.facts[e.lt(e.lenOf(x), e.Int(1))].K == FFalse {
		return 1, true
	}
	return 0, false
}

func tf(b bool) FactKind {
	if b {
		return FTrue
	}
	return FFalse
}

// Assume records cond == val. It returns false if that is infeasible.
func (e *Engine) Assume(st *State, cond *Term, val bool) bool {
	for cond.Op == ONot {
		cond, val = cond.Args[0], !val
	}
	switch e.Eval(st, cond) {
	case FTrue:
		return val
	case FFalse:
		return !val
	}
	st.facts[cond] = Fact{K: tf(val)}
	if cond.Op == OBin && cond.S == "==" {
		a, b := cond.Args[0], cond.Args[1]
		if a.Op == ONil {
			a, b = b, a
		}
		if b.Op == ONil {
			if val {
				st.facts[a] = Fact{K: FNil}
			} else {
				st.facts[a] = Fact{K: FNonNil}
			}
			return true
		}
		if b.Op == OConst {
			a, b = b, a
		}
		if a.Op == OConst {
			if bv, ok := constBool(a); ok {
				return e.Assume(st, b, bv == val)
			}
			if val {
				st.facts[b] = Fact{K: FEq, C: a}
			}
			return true
		}
		if val {
			na, nb := e.Nilness(st, a), e.Nilness(st, b)
			if na == FNone && nb != FNone {
				st.facts[a] = Fact{K: nb}
			}
			if nb == FNone && na != FNone {
				st.facts[b] = Fact{K: na}
			}
		}
	}
	return true
}

// IsTrue/IsFalse/IsNil/NonNil query helpers.
func (e *Engine) IsTrue(st *State, t *Term) bool  { return e.Eval(st, t) == FTrue }
func (e *Engine) IsFalse(st *State, t *Term) bool { return e.Eval(st, t) == FFalse }
func (e *Engine) IsNil(st *State, t *Term) bool   { return e.Nilness(st, t) == FNil }
func (e *Engine) NonNil(st *State, t *Term) bool  { return e.Nilness(st, t) == FNonNil }

// kill removes what is known about t (t is about to be redefined).
func (e *Engine) kill(st *State, t *Term) {
	for f := range st.facts {
		if contains(f, t) {
			delete(st.facts, f)
		}
	}
	for a := range st.mem {
		if a != t && contains(a, t) {
			delete(st.mem, a)
		}
	}
}

// ---------------------------------------------------------------------------
// Memory

func (e *Engine) subLocs(st *State, addr *Term) []*Term {
	var out []*Term
	for a := range st.mem {
		if a == addr {
			continue
		}
		for x := a; x != nil && (x.Op == OFieldAddr || x.Op == OIndexAddr); {
			x = x.Args[0]
			if x == addr {
				out = append(out, a)
				break
			}
		}
	}
	return out
}

func (e *Engine) peek(st *State, addr *Term) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if addr.Op == OFieldAddr {
		if p := e.peek(st, addr.Args[0]); p != nil && isStructish(p, addr) {
			return e.field(p, addr.S, addr.Typ)
		}
	}
	return nil
}

func isStructish(p, addr *Term) bool { return true }

func (e *Engine) load(st *State, addr *Term, typ types.Type) *Term {
	stt, isStruct := typ.Underlying().(*types.Struct)
	if isStruct {
		if subs := e.subLocs(st, addr); len(subs) > 0 {
			args := make([]*Term, stt.NumFields())
			for i := range args {
				f := stt.Field(i)
				args[i] = e.load(st, e.fieldAddr(addr, f.Name(), f.Type()), f.Type())
			}
			return e.T.mk(Term{Op: OStruct, S: types.TypeString(typ, nil), Args: args, Typ: typ})
		}
	}
	if v := e.peek(st, addr); v != nil {
		return v
	}
	return e.deflt(addr, typ)
}

func (e *Engine) deflt(addr *Term, typ types.Type) *Term {
	switch addr.Op {
	case OAlloc:
		return e.zero(typ)
	case OFieldAddr:
		base := addr.Args[0]
		switch base.Op {
		case OFieldAddr, OIndexAddr:
			if r := rootOf(base); r.Op == OAlloc {
				return e.zero(typ)
			}
			return e.field(e.deflt(base, base.Typ), addr.S, typ)
		case OAlloc:
			return e.zero(typ)
		}
		return e.T.mk(Term{Op: OField, S: addr.S, Args: []*Term{base}, Typ: typ})
	case OIndexAddr:
		if r := rootOf(addr); r.Op == OAlloc && r.S != "slice" {
			return e.zero(typ)
		}
		return e.T.mk(Term{Op: OIndex, Args: []*Term{addr.Args[0], addr.Args[1]}, Typ: typ})
	}
	return e.T.mk(Term{Op: ODeref, Args: []*Term{addr}, Typ: typ})
}

func (e *Engine) store(st *State, addr, val *Term, typ types.Type) {
	for _, a := range e.subLocs(st, addr) {
		delete(st.mem, a)
	}
	if val.Op == OStruct {
		delete(st.mem, addr)
		s := val.Typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, e.fieldAddr(addr, s.Field(i).Name(), s.Field(i).Type()), val.Args[i], s.Field(i).Type())
		}
		if s.NumFields() == 0 {
			st.mem[addr] = val
		}
		return
	}
	// widen self-referential growth (x = f(x) in a loop)
	if val.depth > 18 {
		val = e.T.mk(Term{Op: OOpaque, S: "widened", Args: []*Term{addr}, Typ: typ})
	}
	st.mem[addr] = val
}

// VarArgs returns the elements of a variadic argument slice built at the call.
func (e *Engine) VarArgs(st *State, t *Term) ([]*Term, bool) {
	t = strip(t)
	if t.Op == ONil || t.Op == OZero {
		return nil, true
	}
	if t.Op == OAppend && t.S == "" {
		if base, ok := e.VarArgs(st, t.Args[0]); ok {
			return append(append([]*Term{}, base...), t.Args[1:]...), true
		}
		return nil, false
	}
	if t.Op == OSlice && t.Args[0].Op == OAlloc && t.Args[1] == nil {
		want := int64(-1)
		if t.Args[2] != nil {
			n, ok := constInt(t.Args[2])
			if !ok {
				return nil, false
			}
			want = n
		}
		var out []*Term
		for i := 0; ; i++ {
			a := e.T.mk(Term{Op: OIndexAddr, Args: []*Term{t.Args[0], e.Int(int64(i))}})
			// address terms carry a type only for the first creation; look up by identity
			v, ok := st.mem[a]
			if !ok {
				// a struct element is stored field-wise
				if len(e.subLocs(st, a)) > 0 && a.Typ != nil {
					v = e.load(st, a, a.Typ)
				} else {
					break
				}
			}
			out = append(out, v)
		}
		return out, want < 0 || want == int64(len(out))
	}
	return nil, false
}

// ---------------------------------------------------------------------------
// State merging

// reach computes the terms reachable from the live roots and prunes mem/facts.
func (e *Engine) prune(st *State, fr *Frame, live map[ssa.Value]bool) {
	for v := range st.env {
		if !live[v] {
			delete(st.env, v)
		}
	}
	liveSet := map[*Term]bool{}
	reach := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.Args {
			mark(a)
		}
	}
	addLive := func(t *Term) {
		if t == nil {
			return
		}
		liveSet[t] = true
		for x := t; x.Op == ONot; x = x.Args[0] {
			liveSet[x.Args[0]] = true
		}
		mark(t)
	}
	for _, t := range st.env {
		addLive(t)
	}
	for _, d := range st.defers {
		addLive(d.fnT)
		for _, a := range d.args {
			addLive(a)
		}
	}
	for f := fr; f != nil; f = f.Up {
		for _, t := range f.pinned {
			addLive(t)
		}
	}
	for _, t := range e.permanent {
		addLive(t)
	}
	for changed := true; changed; {
		changed = false
		for a, v := range st.mem {
			r := rootOf(a)
			if (reach[r] || r.Op == OGlobal) && !liveSet[v] {
				addLive(v)
				changed = true
			}
			if reach[r] && !reach[a] {
				mark(a)
				changed = true
			}
		}
	}
	for a := range st.mem {
		r := rootOf(a)
		if !reach[r] && r.Op != OGlobal {
			delete(st.mem, a)
		}
	}
	var liveT func(t *Term, d int) bool
	liveT = func(t *Term, d int) bool {
		if t == nil || liveSet[t] || t.Op == OConst || t.Op == ONil || t.Op == OGlobal || t.Op == OFn {
			return true
		}
		if d == 0 {
			return false
		}
		switch t.Op {
		case OBin, ONot, OLen, OField, OIface, OAssert, OIndex, ODeref, OConcat:
		case OCall:
			if t.Site != nil {
				return false
			}
		case OExtract:
			if t.Args[0].Op != OCall || t.Args[0].Site != nil {
				return false
			}
		default:
			return false
		}
		for _, a := range t.Args {
			if !liveT(a, d-1) {
				return false
			}
		}
		return true
	}
	for t := range st.facts {
		if e.H.Keep != nil && e.H.Keep(t) {
			continue
		}
		if !liveT(t, 6) {
			delete(st.facts, t)
		}
	}
}

func (e *Engine) key(st *State, fi *fnInfo) string {
	var ps []string
	for v, t := range st.env {
		ps = append(ps, "e"+strconv.Itoa(fi.idx[v])+":"+strconv.Itoa(t.ID))
	}
	for a, t := range st.mem {
		ps = append(ps, "m"+strconv.Itoa(a.ID)+":"+strconv.Itoa(t.ID))
	}
	for a, f := range st.facts {
		c := ""
		if f.C != nil {
			c = "/" + strconv.Itoa(f.C.ID)
		}
		ps = append(ps, "f"+strconv.Itoa(a.ID)+":"+strconv.Itoa(int(f.K))+c)
	}
	for k, v := range st.flags {
		ps = append(ps, "x"+k+"="+v)
	}
	sort.Strings(ps)
	for _, d := range st.defers {
		s := "d" + strconv.Itoa(e.T.idOf(d.call)) + "("
		if d.fnT != nil {
			s += strconv.Itoa(d.fnT.ID)
		}
		for _, a := range d.args {
			s += "," + strconv.Itoa(a.ID)
		}
		ps = append(ps, s+")")
	}
	return strings.Join(ps, ";")
}

// ctlKey identifies the part of a state that is never joined: the rule
// automaton's flags and the pending deferred calls.
func (e *Engine) ctlKey(st *State) string {
	var ps []string
	for k, v := range st.flags {
		ps = append(ps, k+"="+v)
	}
	if e.H.Keep != nil {
		for t, f := range st.facts {
			if e.H.Keep(t) {
				ps = append(ps, "F"+strconv.Itoa(t.ID)+":"+strconv.Itoa(int(f.K)))
			}
		}
	}
	if e.H.NilKey != nil {
		for v, t := range st.env {
			if e.H.NilKey(v.Type()) {
				ps = append(ps, "N"+strconv.Itoa(e.T.idOf(v))+":"+strconv.Itoa(int(e.Nilness(st, t))))
			}
		}
		for a, t := range st.mem {
			if t.Typ != nil && e.H.NilKey(t.Typ) {
				ps = append(ps, "M"+strconv.Itoa(a.ID)+":"+strconv.Itoa(int(e.Nilness(st, t))))
			}
		}
	}
	sort.Strings(ps)
	for _, d := range st.defers {
		s := "d" + strconv.Itoa(e.T.idOf(d.call)) + "("
		if d.fnT != nil {
			s += strconv.Itoa(d.fnT.ID)
		}
		for _, a := range d.args {
			s += "," + strconv.Itoa(a.ID)
		}
		ps = append(ps, s+")")
	}
	return strings.Join(ps, ";")
}

// join is the least upper bound in the value domain: what both states know
// stays, everything else becomes unknown.
func (e *Engine) join(fr *Frame, at interface{}, a, b *State) *State {
	n := a.clone()
	var nils []func()
	for v, t := range a.env {
		u, ok := b.env[v]
		if !ok {
			delete(n.env, v)
		} else if u != t {
			j := e.T.mk(Term{Op: OOpaque, S: "join", Typ: v.Type()}, at, v, fr.Ctx)
			e.kill(n, j)
			n.env[v] = j
			t := t
			nils = append(nils, func() { e.joinNil(n, j, a, t, b, u) })
		}
	}
	addrs := map[*Term]bool{}
	for x := range a.mem {
		addrs[x] = true
	}
	for x := range b.mem {
		addrs[x] = true
	}
	for x := range addrs {
		if a.mem[x] != b.mem[x] {
			ty := x.Typ
			if x.Op == OAlloc {
				if p, ok := x.Typ.Underlying().(*types.Pointer); ok {
					ty = p.Elem()
				}
			}
			n.mem[x] = e.T.mk(Term{Op: OOpaque, S: "joinm", Typ: ty, Args: []*Term{x}}, at, fr.Ctx)
			if a.mem[x] != nil && b.mem[x] != nil {
				x := x
				nils = append(nils, func() { e.joinNil(n, n.mem[x], a, a.mem[x], b, b.mem[x]) })
			}
		}
	}
	for f, k := range a.facts {
		if b.facts[f] != k {
			delete(n.facts, f)
		}
	}
	for _, f := range nils {
		f()
	}
	return n
}

// joinNil: with NilKey, a joined value is nil or not as both of its values are.
func (e *Engine) joinNil(n *State, j *Term, a *State, t *Term, b *State, u *Term) {
	if e.H.NilKey == nil || j.Typ == nil || !e.H.NilKey(j.Typ) {
		return
	}
	if k := e.Nilness(a, t); (k == FNil || k == FNonNil) && e.Nilness(b, u) == k {
		n.facts[j] = Fact{K: k}
	}
}

func (e *Engine) joinList(fr *Frame, at ssa.Instruction, in []*State) []*State {
	groups := map[string][]*State{}
	var order []string
	for _, s := range in {
		k := e.ctlKey(s)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		if len(g) <= e.JoinAt {
			out = append(out, g...)
			continue
		}
		e.Joins++
		acc := g[0]
		for _, s := range g[1:] {
			acc = e.join(fr, at, acc, s)
		}
		out = append(out, acc)
	}
	return out
}

// ---------------------------------------------------------------------------
// Execution

type exitSt struct {
	st      *State
	results []*Term
	site    ssa.Instruction
}

// Run analyses fn as a root with opaque parameters.
func (e *Engine) Run(fn *ssa.Function) {
	e.RunWith(fn, nil, newState())
}

// RunWith analyses fn as a root from a given state and (optional) arguments.
func (e *Engine) RunWith(fn *ssa.Function, args []*Term, st *State) {
	if fn == nil || fn.Blocks == nil {
		return
	}
	var binds []*Term
	if args == nil {
		for i, p := range fn.Params {
			args = append(args, e.T.mk(Term{Op: OParam, S: p.Name(), I: i, Typ: p.Type()}, fn))
		}
	}
	for i, v := range fn.FreeVars {
		binds = append(binds, e.T.mk(Term{Op: OFree, S: v.Name(), I: i, Typ: v.Type()}, fn))
	}
	fr := &Frame{E: e, Fn: fn, Ctx: 0}
	e.root = fr
	exits := e.exec(fr, args, binds, st)
	for _, x := range exits {
		if e.H.Exit != nil {
			e.H.Exit(x.st, fr, x.site, x.results)
		}
	}
}

func (e *Engine) exec(fr *Frame, args, binds []*Term, in *State) []exitSt {
	fn := fr.Fn
	e.Fns[fn] = true
	fi := e.info(fn)
	fr.info = fi
	st := in.clone()
	st.env = map[ssa.Value]*Term{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			st.env[p] = args[i]
		} else {
			st.env[p] = e.T.mk(Term{Op: OOpaque, S: "param:" + p.Name(), Typ: p.Type()}, fn, fr.Ctx)
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) && binds[i] != nil {
			st.env[v] = binds[i]
		} else {
			st.env[v] = e.T.mk(Term{Op: OFree, S: v.Name(), I: i, Typ: v.Type()}, fn)
		}
	}
	type item struct {
		b  *ssa.BasicBlock
		st *State
	}
	seen := map[string]bool{}
	perBlock := map[string]int{}
	joined := map[string]*State{}
	var exits []exitSt
	exitSeen := map[string]bool{}
	work := []item{{fn.Blocks[0], st}}
	push := func(from, to *ssa.BasicBlock, s *State) {
		// evaluate phis along this edge
		s = e.edge(fr, from, to, s)
		e.prune(s, fr, fi.liveIn[to.Index])
		k := strconv.Itoa(to.Index) + "|" + e.key(s, fi)
		if seen[k] {
			e.Merged++
			return
		}
		seen[k] = true
		jk := strconv.Itoa(to.Index) + "|" + e.ctlKey(s)
		perBlock[jk]++
		e.States++
		e.heavy[shortFn(fn)]++
		if perBlock[jk] > e.JoinAt {
			// too many states agree on the rule automaton: join them
			e.Joins++
			if acc := joined[jk]; acc != nil {
				j := e.join(fr, to, acc, s)
				e.prune(j, fr, fi.liveIn[to.Index])
				s = j
			}
			joined[jk] = s
			k := strconv.Itoa(to.Index) + "|" + e.key(s, fi)
			if seen[k+"#j"] {
				return
			}
			seen[k+"#j"] = true
			s = s.clone()
		}
		if perBlock[jk] > 60000 {
			e.Err = fmt.Errorf("state budget exceeded in %s block %d", shortFn(fn), to.Index)
			return
		}
		work = append(work, item{to, s})
	}
	for len(work) > 0 && e.Err == nil {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		e.Blocks[it.b] = true
		if e.H.LoopEntry != nil && fi.header[it.b.Index] {
			e.H.LoopEntry(it.st, fr, it.b)
		}
		states := []*State{it.st}
		for _, ins := range it.b.Instrs {
			if len(states) == 0 {
				break
			}
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				for _, s := range states {
					c := e.get(fr, s, x.Cond)
					for k, val := range []bool{true, false} {
						n := s.clone()
						if !e.Assume(n, c, val) {
							continue
						}
						if e.H.Assume != nil {
							e.H.Assume(n, fr, x, c, val)
						}
						if n.dead {
							continue
						}
						n.note(fmt.Sprintf("%s: %v is %v", e.P.instrLoc(x), c, val))
						push(it.b, it.b.Succs[k], n)
					}
				}
				states = nil
			case *ssa.Jump:
				for _, s := range states {
					push(it.b, it.b.Succs[0], s)
				}
				states = nil
			case *ssa.Return:
				for _, s := range states {
					var rs []*Term
					for _, r := range x.Results {
						rs = append(rs, e.get(fr, s, r))
					}
					if e.H.Return != nil {
						e.H.Return(s, fr, x, rs)
					}
					// dedupe exits
					s2 := s
					s2.env = map[ssa.Value]*Term{}
					tmp := &Frame{E: e, Fn: fn, Up: fr.Up, pinned: rs}
					s2.defers = nil
					e.prune(s2, tmp, nil)
					k := e.key(s2, fi)
					for _, r := range rs {
						k += "|" + strconv.Itoa(r.ID)
					}
					if fr.Up == nil {
						k += "@" + strconv.Itoa(e.T.idOf(x))
					}
					if exitSeen[k] {
						continue
					}
					exitSeen[k] = true
					exits = append(exits, exitSt{s2, rs, x})
				}
				states = nil
			case *ssa.Panic:
				for _, s := range states {
					if e.H.Panic != nil {
						e.H.Panic(s, fr, x, e.get(fr, s, x.X))
					}
				}
				states = nil
			default:
				var next []*State
				forked := false
				for _, s := range states {
					r := e.step(fr, s, ins)
					if len(r) != 1 || r[0] != s {
						forked = true
					}
					next = append(next, r...)
					e.Steps++
					if e.Steps > e.Limit {
						e.Err = fmt.Errorf("step budget exceeded in %s", shortFn(fn))
						return nil
					}
				}
				if forked && len(next) > 1 {
					// merge equal states after a fork inside the block
					m := map[string]bool{}
					var ded []*State
					for _, s := range next {
						k := e.key(s, fi)
						if !m[k] {
							m[k] = true
							ded = append(ded, s)
						}
					}
					next = ded
					if len(next) > e.JoinAt {
						next = e.joinList(fr, ins, next)
					}
				}
				states = next
			}
		}
	}
	return e.joinExits(fr, exits)
}

// joinExits joins exits that agree on the automaton and on the results when
// there are many of them.
func (e *Engine) joinExits(fr *Frame, exits []exitSt) []exitSt {
	if fr.Up == nil || len(exits) <= e.JoinExit {
		return exits
	}
	groups := map[string]int{}
	var out []exitSt
	for _, x := range exits {
		k := e.ctlKey(x.st)
		for _, r := range x.results {
			k += "|" + strconv.Itoa(r.ID)
		}
		if i, ok := groups[k]; ok {
			out[i].st = e.join(fr, fr.Fn, out[i].st, x.st)
			e.Joins++
			continue
		}
		groups[k] = len(out)
		out = append(out, x)
	}
	return out
}

// edge moves a state across a CFG edge: phis take the edge's value.
func (e *Engine) edge(fr *Frame, from, to *ssa.BasicBlock, s *State) *State {
	n := s.clone()
	pi := predIndex(to, from)
	isBack := fr.info.back[[2]int{from.Index, to.Index}]
	vals := map[*ssa.Phi]*Term{}
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		t := e.get(fr, s, ph.Edges[pi])
		if isBack {
			cur := s.env[ph]
			if widens(t, cur) {
				t = e.T.mk(Term{Op: OLoop, S: ph.Comment, Typ: ph.Type(), Ctx: fr.Ctx}, ph, fr.Ctx)
			}
		}
		vals[ph] = t
	}
	for ph, t := range vals {
		if t.Op == OLoop && isBack {
			e.kill(n, t)
		}
		n.env[ph] = t
	}
	return n
}

// widens decides whether a loop-carried value must be summarised.
func widens(t, cur *Term) bool {
	if t.Op == OBin && t.S != "==" && t.S != "<" || t.Op == OAppend || t.Op == OSlice || t.Op == OConcat {
		return true
	}
	if cur != nil && t != cur && t.Op != OConst && t.Op != ONil && contains(t, cur) && cur.Op != OConst && cur.Op != ONil {
		return true
	}
	return t.depth > 16
}

func (e *Engine) get(fr *Frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Function:
		return e.T.mk(Term{Op: OFn, Fn: x, Typ: x.Type()}, x)
	case *ssa.Global:
		return e.T.mk(Term{Op: OGlobal, S: x.String(), Typ: x.Type()}, x)
	case *ssa.Builtin:
		return e.T.mk(Term{Op: OOpaque, S: "builtin:" + x.Name(), Typ: x.Type()})
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	t := e.T.mk(Term{Op: OOpaque, S: "reg:" + v.Name(), Typ: v.Type()}, v, fr.Ctx)
	return t
}

func one(s *State) []*State { return []*State{s} }

func (e *Engine) step(fr *Frame, st *State, ins ssa.Instruction) []*State {
	set := func(v ssa.Value, t *Term) []*State { st.env[v] = t; return one(st) }
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := e.T.mk(Term{Op: OAlloc, Typ: x.Type(), Site: x, Ctx: fr.Ctx}, x, fr.Ctx)
		e.kill(st, t)
		delete(st.mem, t)
		if e.H.Alloc != nil {
			e.H.Alloc(st, fr, x, t)
		}
		return set(x, t)
	case *ssa.MakeChan:
		t := e.T.mk(Term{Op: OAlloc, S: "chan", Typ: x.Type(), Site: x, Ctx: fr.Ctx}, x, fr.Ctx)
		e.kill(st, t)
		delete(st.mem, t)
		return set(x, t)
	case *ssa.MakeMap:
		t := e.T.mk(Term{Op: OAlloc, S: "map", Typ: x.Type(), Site: x, Ctx: fr.Ctx}, x, fr.Ctx)
		e.kill(st, t)
		delete(st.mem, t)
		return set(x, t)
	case *ssa.MakeSlice:
		l := e.get(fr, st, x.Len)
		t := e.T.mk(Term{Op: OAlloc, S: "slice", Typ: x.Type(), Site: x, Ctx: fr.Ctx, Args: []*Term{l}}, x, fr.Ctx)
		e.kill(st, t)
		delete(st.mem, t)
		return set(x, t)
	case *ssa.FieldAddr:
		p := e.get(fr, st, x.X)
		if e.H.Deref != nil {
			e.H.Deref(st, fr, x, p)
		}
		sty := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := sty.Field(x.Field)
		return set(x, e.fieldAddr(p, f.Name(), f.Type()))
	case *ssa.Field:
		p := e.get(fr, st, x.X)
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		return set(x, e.field(p, f.Name(), f.Type()))
	case *ssa.IndexAddr:
		b, i := e.get(fr, st, x.X), e.get(fr, st, x.Index)
		if e.H.Index != nil {
			e.H.Index(st, fr, x, b, i)
		}
		if b.Op == OSlice && b.Args[1] == nil {
			b = b.Args[0]
		}
		return set(x, e.T.mk(Term{Op: OIndexAddr, Args: []*Term{b, i}, Typ: x.Type().Underlying().(*types.Pointer).Elem()}))
	case *ssa.Index:
		b, i := e.get(fr, st, x.X), e.get(fr, st, x.Index)
		if e.H.Index != nil {
			e.H.Index(st, fr, x, b, i)
		}
		return set(x, e.T.mk(Term{Op: OIndex, Args: []*Term{b, i}, Typ: x.Type()}))
	case *ssa.Lookup:
		m, k := e.get(fr, st, x.X), e.get(fr, st, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return set(x, e.T.mk(Term{Op: OIndex, Args: []*Term{m, k}, Typ: x.Type()}))
		}
		if e.H.MapRead != nil {
			e.H.MapRead(st, fr, x, m)
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		var val, ok *Term
		la := e.T.mk(Term{Op: OIndexAddr, Args: []*Term{m, k}})
		if v, have := st.mem[la]; have {
			if v.Op == OOpaque && v.S == "deleted" {
				val, ok = e.zero(et), e.Bool(false)
			} else {
				val, ok = v, e.Bool(true)
			}
		} else if m.Op == ONil {
			val, ok = e.zero(et), e.Bool(false)
		} else {
			l := e.T.mk(Term{Op: OLookup, Args: []*Term{m, k}, Typ: et, Site: x, Ctx: fr.Ctx}, x, fr.Ctx)
			e.kill(st, l)
			val = l
			ok = e.T.mk(Term{Op: OExtract, S: "ok", I: 1, Args: []*Term{l}, Typ: types.Typ[types.Bool]})
		}
		if x.CommaOk {
			return set(x, e.T.mk(Term{Op: OTuple, Args: []*Term{val, ok}}))
		}
		return set(x, val)
	case *ssa.Range:
		m := e.get(fr, st, x.X)
		if e.H.MapRead != nil {
			e.H.MapRead(st, fr, x, m)
		}
		return set(x, e.T.mk(Term{Op: ORange, Args: []*Term{m}, Typ: x.X.Type(), Site: x, Ctx: fr.Ctx}, x, fr.Ctx))
	case *ssa.Next:
		it := e.get(fr, st, x.Iter)
		t := e.T.mk(Term{Op: ONext, Args: []*Term{it}, Typ: x.Type(), Site: x, Ctx: fr.Ctx}, x, fr.Ctx)
		if e.H.Next != nil {
			e.H.Next(st, fr, x, t, e.IsTrue(st, e.extract(t, 0)))
		}
		e.kill(st, t)
		return set(x, t)
	case *ssa.Extract:
		return set(x, e.extract(e.get(fr, st, x.Tuple), x.Index))
	case *ssa.UnOp:
		v := e.get(fr, st, x.X)
		switch x.Op {
		case token.MUL:
			if e.H.Deref != nil {
				e.H.Deref(st, fr, x, v)
			}
			t := e.load(st, v, x.Type())
			if e.H.Load != nil {
				e.H.Load(st, fr, x, v, t)
			}
			return set(x, t)
		case token.NOT:
			return set(x, e.not(v))
		case token.ARROW:
			return e.recv(fr, st, x, v, x.CommaOk, x)
		default:
			return set(x, e.T.mk(Term{Op: OBin, S: "u" + x.Op.String(), Args: []*Term{v, v}, Typ: x.Type()}))
		}
	case *ssa.BinOp:
		a, b := e.get(fr, st, x.X), e.get(fr, st, x.Y)
		return set(x, e.binop(x, a, b))
	case *ssa.Convert:
		return set(x, e.get(fr, st, x.X))
	case *ssa.ChangeType:
		return set(x, e.get(fr, st, x.X))
	case *ssa.ChangeInterface:
		return set(x, e.get(fr, st, x.X))
	case *ssa.SliceToArrayPointer:
		return set(x, e.get(fr, st, x.X))
	case *ssa.MultiConvert:
		return set(x, e.get(fr, st, x.X))
	case *ssa.MakeInterface:
		v := e.get(fr, st, x.X)
		return set(x, e.T.mk(Term{Op: OIface, S: types.TypeString(x.X.Type(), nil), Args: []*Term{v}, Typ: x.X.Type()}))
	case *ssa.TypeAssert:
		return e.typeAssert(fr, st, x)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.get(fr, st, b))
		}
		f := x.Fn.(*ssa.Function)
		return set(x, e.T.mk(Term{Op: OFn, Fn: f, Args: bs, Typ: x.Type(), Site: x}, f))
	case *ssa.Slice:
		b := e.get(fr, st, x.X)
		g := func(v ssa.Value) *Term {
			if v == nil {
				return nil
			}
			return e.get(fr, st, v)
		}
		lo, hi := g(x.Low), g(x.High)
		if e.H.Slice != nil {
			e.H.Slice(st, fr, x, b, lo, hi)
		}
		if lo != nil {
			if z, ok := constInt(lo); ok && z == 0 {
				lo = nil
			}
		}
		if lo == nil && hi == nil && g(x.Max) == nil && b.Op != OAlloc {
			return set(x, b)
		}
		return set(x, e.T.mk(Term{Op: OSlice, Args: []*Term{b, lo, hi, g(x.Max)}, Typ: x.Type()}))
	case *ssa.Store:
		a, v := e.get(fr, st, x.Addr), e.get(fr, st, x.Val)
		if e.H.Deref != nil {
			e.H.Deref(st, fr, x, a)
		}
		if e.H.Store != nil {
			e.H.Store(st, fr, x, a, v)
		}
		e.store(st, a, v, x.Val.Type())
		return one(st)
	case *ssa.MapUpdate:
		m, k, v := e.get(fr, st, x.Map), e.get(fr, st, x.Key), e.get(fr, st, x.Value)
		if e.H.MapUpdate != nil {
			e.H.MapUpdate(st, fr, x, m, k, v)
		}
		la := e.T.mk(Term{Op: OIndexAddr, Args: []*Term{m, k}})
		st.mem[la] = v
		return one(st)
	case *ssa.Send:
		ch, v := e.get(fr, st, x.Chan), e.get(fr, st, x.X)
		return e.send(fr, st, x, ch, v, false)
	case *ssa.Select:
		return e.sel(fr, st, x)
	case *ssa.RunDefers:
		fr.atDefers = x
		r := e.runDefers(fr, st)
		fr.atDefers = nil
		return r
	case *ssa.Defer:
		fnT, args := e.callOperands(fr, st, x)
		if e.H.Call != nil {
			// the registration itself is not a call event
		}
		if len(st.defers) < 40 {
			dup := false
			for _, d := range st.defers {
				if d.call == x {
					dup = true
				}
			}
			if !dup {
				st.defers = append(st.defers, deferRec{x, fnT, args})
			}
		}
		return one(st)
	case *ssa.Go:
		fnT, args := e.callOperands(fr, st, x)
		return e.doCall(fr, st, x, fnT, args, true, false)
	case *ssa.Call:
		fnT, args := e.callOperands(fr, st, x)
		return e.doCall(fr, st, x, fnT, args, false, false)
	}
	if v, ok := ins.(ssa.Value); ok {
		st.env[v] = e.opaque(fmt.Sprintf("%T", ins), v.Type(), fr, ins)
	}
	return one(st)
}

func (e *Engine) binop(x *ssa.BinOp, a, b *Term) *Term {
	switch x.Op {
	case token.EQL, token.NEQ:
		// comparison of a typed nil wrapped in an interface with nil etc. is
		// left to Eval
		t := e.eqFold(a, b)
		if x.Op == token.NEQ {
			return e.not(t)
		}
		return t
	case token.LSS:
		return e.lt(a, b)
	case token.GTR:
		return e.lt(b, a)
	case token.LEQ:
		return e.not(e.lt(b, a))
	case token.GEQ:
		return e.not(e.lt(a, b))
	case token.ADD:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			if s1, ok := constStr(a); ok {
				if s2, ok := constStr(b); ok {
					return e.T.mk(Term{Op: OConst, S: strconv.Quote(s1 + s2), Val: constant.MakeString(s1 + s2), Typ: x.Type()})
				}
			}
			return e.T.mk(Term{Op: OConcat, Args: []*Term{a, b}, Typ: x.Type()})
		}
	}
	if a.Op == OConst && b.Op == OConst && a.Val != nil && b.Val != nil && a.Val.Kind() == constant.Int && b.Val.Kind() == constant.Int {
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			// keep as an operation: folding would unroll counting loops
		}
	}
	return e.T.mk(Term{Op: OBin, S: x.Op.String(), Args: []*Term{a, b}, Typ: x.Type()})
}

func (e *Engine) eqFold(a, b *Term) *Term {
	sa, sb := a, b
	// comparing a boolean with a constant is the boolean itself
	if bv, ok := constBool(sa); ok {
		if bv {
			return sb
		}
		return e.not(sb)
	}
	if bv, ok := constBool(sb); ok {
		if bv {
			return sa
		}
		return e.not(sa)
	}
	for i, t := range []*Term{a, b} {
		if n, ok := constInt([]*Term{b, a}[i]); ok && n == 0 {
			if x := strLen(t); x != nil {
				return e.eq(x, e.emptyStr())
			}
		}
	}
	// concrete values compared as interfaces
	if a.Op == OIface && b.Op == OIface && types.Identical(a.Typ, b.Typ) {
		sa, sb = a.Args[0], b.Args[0]
	}
	return e.eq(sa, sb)
}

func (e *Engine) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) []*State {
	v := e.get(fr, st, x.X)
	if e.H.Assert != nil {
		e.H.Assert(st, fr, x, v)
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	res := func(val, ok *Term) []*State {
		if x.CommaOk {
			st.env[x] = e.T.mk(Term{Op: OTuple, Args: []*Term{val, ok}})
		} else {
			st.env[x] = val
		}
		return one(st)
	}
	if v.Op == OIface {
		if !toIface {
			if types.Identical(v.Typ, x.AssertedType) {
				return res(v.Args[0], e.Bool(true))
			}
			return res(e.zero(x.AssertedType), e.Bool(false))
		}
		if types.Implements(v.Typ, x.AssertedType.Underlying().(*types.Interface)) {
			return res(v, e.Bool(true))
		}
		return res(e.zero(x.AssertedType), e.Bool(false))
	}
	if v.Op == ONil && x.CommaOk {
		return res(e.zero(x.AssertedType), e.Bool(false))
	}
	val := e.T.mk(Term{Op: OAssert, S: types.TypeString(x.AssertedType, nil), Args: []*Term{v}, Typ: x.AssertedType})
	ok := e.T.mk(Term{Op: OCall, S: "typeassert:" + types.TypeString(x.AssertedType, nil), Args: []*Term{v}, Typ: types.Typ[types.Bool]})
	return res(val, ok)
}

// ---------------------------------------------------------------------------
// Channels

func (e *Engine) chElem(ch *Term) *Term   { return e.fieldAddr(ch, "#elem", nil) }
func (e *Engine) chClosed(ch *Term) *Term { return e.fieldAddr(ch, "#closed", nil) }

func (e *Engine) send(fr *Frame, st *State, site ssa.Instruction, ch, v *Term, nonblock bool) []*State {
	if e.H.Send != nil {
		e.H.Send(st, fr, site, ch, v, nonblock)
	}
	if ch.Op == OAlloc {
		st.mem[e.chElem(ch)] = v
	}
	if v.Op == OFn && v.Fn.Blocks != nil && !e.H.NoActor && fr.depth < e.MaxDep {
		return e.runClosure(fr, st, site, v, nil, func(f *Frame) { f.Actor = true })
	}
	return one(st)
}

// runClosure runs a function value for its effects.
func (e *Engine) runClosure(fr *Frame, st *State, site ssa.Instruction, fnT *Term, args []*Term, cfg func(*Frame)) []*State {
	if onStack(fr, fnT.Fn) {
		return one(st)
	}
	sub := &Frame{E: e, Fn: fnT.Fn, Ctx: e.childCtx(fr.Ctx, site), Up: fr, depth: fr.depth + 1}
	if c, ok := site.(ssa.CallInstruction); ok {
		sub.Site = c
	}
	cfg(sub)
	if rd, ok := site.(*ssa.Defer); ok && rd.Block() != nil {
		site = fr.deferSite(rd)
	}
	e.pin(fr, st, site)
	save, saveD := st.env, st.defers
	exits := e.exec(sub, args, fnT.Args, st)
	e.unpin(fr)
	var out []*State
	for _, x := range exits {
		n := x.st
		n.env = copyEnv(save)
		n.defers = append([]deferRec(nil), saveD...)
		out = append(out, n)
	}
	return out
}

func copyEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// liveAfter is the set of registers live just after an instruction.
func (e *Engine) liveAfter(fr *Frame, site ssa.Instruction) map[ssa.Value]bool {
	fi := fr.info
	if l, ok := fi.after[site]; ok {
		return l
	}
	b := site.Block()
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range fi.liveIn[s.Index] {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
				continue
			}
			live[v] = true
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range s.Preds {
				if pr == b {
					live[ph.Edges[k]] = true
				}
			}
		}
	}
	for k := len(b.Instrs) - 1; k >= 0; k-- {
		in := b.Instrs[k]
		if in == site {
			break
		}
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				live[*op] = true
			}
		}
	}
	fi.after[site] = live
	return live
}

// pin drops the registers dead after the call and protects the others from
// pruning while the callee is analysed.
func (e *Engine) pin(fr *Frame, st *State, site ssa.Instruction) {
	fr.pinned = fr.pinned[:0:0]
	live := e.liveAfter(fr, site)
	// copy first: the caller restores this environment after the call
	env := make(map[ssa.Value]*Term, len(st.env))
	for v, t := range st.env {
		if live[v] {
			env[v] = t
		}
	}
	st.env = env
	for _, t := range env {
		fr.pinned = append(fr.pinned, t)
	}
	for _, d := range st.defers {
		if d.fnT != nil {
			fr.pinned = append(fr.pinned, d.fnT)
		}
		fr.pinned = append(fr.pinned, d.args...)
	}
}
func (e *Engine) unpin(fr *Frame) { fr.pinned = nil }

func (e *Engine) recvVal(fr *Frame, st *State, site ssa.Instruction, ch *Term, et types.Type) (val, ok *Term) {
	if ch.Op == OAlloc {
		if v, have := st.mem[e.chElem(ch)]; have {
			delete(st.mem, e.chElem(ch))
			return v, e.Bool(true)
		}
		if _, closed := st.mem[e.chClosed(ch)]; closed {
			return e.zero(et), e.Bool(false)
		}
	}
	r := e.T.mk(Term{Op: ORecv, Args: []*Term{ch}, Typ: et, Site: site, Ctx: fr.Ctx}, site, fr.Ctx)
	e.kill(st, r)
	return r, e.T.mk(Term{Op: OExtract, S: "ok", I: 1, Args: []*Term{r}, Typ: types.Typ[types.Bool]})
}

func (e *Engine) recv(fr *Frame, st *State, site ssa.Instruction, ch *Term, commaOk bool, v ssa.Value) []*State {
	e.ctxDone(st, ch)
	if e.H.Recv != nil {
		e.H.Recv(st, fr, site, ch, false)
	}
	et := v.Type()
	if commaOk {
		et = v.Type().(*types.Tuple).At(0).Type()
	}
	val, ok := e.recvVal(fr, st, site, ch, et)
	if commaOk {
		st.env[v] = e.T.mk(Term{Op: OTuple, Args: []*Term{val, ok}})
	} else {
		st.env[v] = val
	}
	return one(st)
}

// ctxDone: after a receive from ctx.Done(), ctx.Err() is not nil.
func (e *Engine) ctxDone(st *State, ch *Term) {
	if cl := callOf(ch); cl != nil && cl.S == "(context.Context).Done" && len(cl.Args) == 1 {
		st.Set("~done:"+itoa(int64(cl.Args[0].ID)), "")
	}
}

func (e *Engine) sel(fr *Frame, st *State, x *ssa.Select) []*State {
	if e.H.Select != nil {
		e.H.Select(st, fr, x)
		if st.dead {
			return nil
		}
	}
	var out []*State
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	mk := func(n *State, idx int, ok *Term, recvIdx int, val *Term) {
		args := []*Term{e.Int(int64(idx)), ok}
		k := 0
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				if k == recvIdx {
					args = append(args, val)
				} else {
					args = append(args, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
				k++
			}
		}
		n.env[x] = e.T.mk(Term{Op: OTuple, Args: args})
	}
	r := 0
	for i, s := range x.States {
		n := st.clone()
		ch := e.get(fr, n, s.Chan)
		if ch.Op == ONil {
			if s.Dir == types.RecvOnly {
				r++
			}
			continue
		}
		n.note(fmt.Sprintf("%s: select case %d on %v", e.P.instrLoc(x), i, ch))
		if s.Dir == types.RecvOnly {
			e.ctxDone(n, ch)
			if e.H.Recv != nil {
				e.H.Recv(n, fr, x, ch, !x.Blocking)
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			val, ok := e.recvValSel(fr, n, x, i, ch, et)
			mk(n, i, ok, r, val)
			out = append(out, n)
			r++
		} else {
			v := e.get(fr, n, s.Send)
			for _, m := range e.send(fr, n, x, ch, v, !x.Blocking) {
				mk(m, i, e.Bool(false), -1, nil)
				out = append(out, m)
			}
		}
	}
	if !x.Blocking {
		n := st.clone()
		n.note(fmt.Sprintf("%s: select default", e.P.instrLoc(x)))
		mk(n, -1, e.Bool(false), -1, nil)
		out = append(out, n)
	}
	return out
}

func (e *Engine) recvValSel(fr *Frame, st *State, site ssa.Instruction, i int, ch *Term, et types.Type) (val, ok *Term) {
	if ch.Op == OAlloc {
		if v, have := st.mem[e.chElem(ch)]; have {
			delete(st.mem, e.chElem(ch))
			return v, e.Bool(true)
		}
		if _, closed := st.mem[e.chClosed(ch)]; closed {
			return e.zero(et), e.Bool(false)
		}
	}
	r := e.T.mk(Term{Op: ORecv, I: i, Args: []*Term{ch}, Typ: et, Site: site, Ctx: fr.Ctx}, site, fr.Ctx)
	e.kill(st, r)
	return r, e.T.mk(Term{Op: OExtract, S: "ok", I: 1, Args: []*Term{r}, Typ: types.Typ[types.Bool]})
}

// ---------------------------------------------------------------------------
// Calls

func (e *Engine) callOperands(fr *Frame, st *State, c ssa.CallInstruction) (*Term, []*Term) {
	cc := c.Common()
	var args []*Term
	var fnT *Term
	if cc.IsInvoke() {
		args = append(args, e.get(fr, st, cc.Value))
	} else {
		fnT = e.get(fr, st, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, e.get(fr, st, a))
	}
	return fnT, args
}

func fullName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok && (fn.Synthetic == "" || strings.HasPrefix(fn.Synthetic, "from ")) {
		return o.FullName()
	}
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName() + "$" + strings.Fields(fn.Synthetic + " x")[0]
	}
	return fn.String()
}

func onStack(fr *Frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.Up {
		if f.Fn == fn {
			return true
		}
	}
	return false
}

func (e *Engine) runDefers(fr *Frame, st *State) []*State {
	states := []*State{st}
	ds := st.defers
	st.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		var next []*State
		for _, s := range states {
			// the deferred calls still pending keep their operands alive
			s.defers = append([]deferRec(nil), ds[:i]...)
			next = append(next, e.doCall(fr, s, ds[i].call, ds[i].fnT, ds[i].args, false, true)...)
		}
		states = next
	}
	for _, s := range states {
		s.defers = nil
	}
	return states
}

func (e *Engine) doCall(fr *Frame, st *State, c ssa.CallInstruction, fnT *Term, args []*Term, isGo, isDefer bool) []*State {
	e.Calls++
	cc := c.Common()
	var resV ssa.Value
	if v, ok := c.(*ssa.Call); ok && !isDefer {
		resV = v
	}
	setRes := func(s *State, t *Term) {
		if resV != nil && t != nil {
			s.env[resV] = t
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return e.builtin(fr, st, c, b.Name(), args, setRes)
	}
	// resolve callee
	var fn *ssa.Function
	var binds []*Term
	name := ""
	if cc.IsInvoke() {
		recv := args[0]
		if recv.Op == OIface {
			if f := e.P.SSA.LookupMethod(recv.Typ, cc.Method.Pkg(), cc.Method.Name()); f != nil {
				fn = f
				args = append([]*Term{recv.Args[0]}, args[1:]...)
			}
		}
		name = cc.Method.FullName()
	} else if fnT.Op == OFn {
		fn = fnT.Fn
		binds = fnT.Args
	} else {
		name = "dynamic:" + fnT.String()
	}
	if fn != nil && (name == "" || fn.Blocks != nil) {
		name = fullName(fn)
	}
	ev := &CallEv{E: e, Fr: fr, Site: c, Name: name, Fn: fn, Args: args, Go: isGo, Defer: isDefer}
	sig := cc.Signature()
	ev.NRes = sig.Results().Len()
	inline := fn != nil && fn.Blocks != nil && fr.depth < e.MaxDep && !onStack(fr, fn)
	if inline && generated(fn) {
		inline = false
	}
	if inline && e.H.Opaque != nil && e.H.Opaque(fn) {
		inline = false
	}
	if inline && e.H.SkipNamed && !isGo && fr.Go && fr.Fn.Parent() != nil && fn.Parent() == nil && e.P.wrappedGo(fn) {
		inline = false // a root of its own
	}
	ev.Inline = inline
	if isGo {
		mode := GoInline
		if e.H.Go != nil {
			mode = e.H.Go(st, ev)
		}
		if mode == GoSkip {
			return one(st)
		}
	}
	if !inline {
		ev.Result = e.callResult(fr, st, ev, sig)
	}
	if e.H.Call != nil {
		e.H.Call(st, ev)
	}
	if noReturn[name] {
		return nil
	}
	if e.H.Model != nil {
		if t, ok := e.H.Model(st, ev); ok {
			setRes(st, t)
			return one(st)
		}
	}
	if inline {
		sub := &Frame{E: e, Fn: fn, Ctx: e.childCtx(fr.Ctx, c), Up: fr, Site: c, Go: isGo, Defer: isDefer, depth: fr.depth + 1}
		var at ssa.Instruction = c
		if isDefer && fr.atDefers != nil {
			at = fr.atDefers
		}
		e.pin(fr, st, at)
		save, saveD := st.env, st.defers
		exits := e.exec(sub, args, binds, st)
		e.unpin(fr)
		if isGo && len(exits) == 0 {
			// a goroutine that never returns: the spawner goes on
			n := st.clone()
			n.env = copyEnv(save)
			if e.H.GoBack != nil {
				e.H.GoBack(n, ev)
			}
			return one(n)
		}
		var out []*State
		for _, x := range exits {
			n := x.st
			n.env = copyEnv(save)
			n.defers = append([]deferRec(nil), saveD...)
			var t *Term
			if len(x.results) == 1 {
				t = x.results[0]
			} else if len(x.results) > 1 {
				t = e.T.mk(Term{Op: OTuple, Args: x.results})
			}
			if !isGo {
				setRes(n, t)
			}
			if e.H.After != nil {
				ev2 := *ev
				ev2.Result = t
				e.H.After(n, &ev2)
			}
			if isGo && e.H.GoBack != nil {
				e.H.GoBack(n, ev)
			}
			out = append(out, n)
		}
		return out
	}
	if t, ok, sts := e.intrinsic(fr, st, ev); ok {
		if sts != nil {
			return sts(setRes)
		}
		setRes(st, t)
		return one(st)
	}
	// opaque call: havoc memory reachable through pointer arguments
	if !readOnly(name) {
		for i, a := range args {
			a = strip(a)
			if a.Op == OAlloc && a.S == "" || (a.Op == OFieldAddr || a.Op == OIndexAddr) && rootOf(a).Op == OAlloc {
				e.havoc(st, fr, c, a, i)
			}
		}
	}
	setRes(st, ev.Result)
	states := one(st)
	if !e.H.NoInvoke && !isGo {
		for _, a := range args {
			a = strip(a)
			if a.Op == OFn && a.Fn.Blocks != nil {
				states = e.mayInvoke(fr, states, c, a, name == "(*sync.Once).Do")
			}
		}
	}
	return states
}

func (e *Engine) havoc(st *State, fr *Frame, site ssa.Instruction, a *Term, i int) {
	for _, s := range e.subLocs(st, a) {
		delete(st.mem, s)
	}
	var ty types.Type
	if a.Op == OAlloc {
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			ty = p.Elem()
		}
	} else {
		ty = a.Typ
	}
	o := e.T.mk(Term{Op: OOpaque, S: "out" + strconv.Itoa(i), Typ: ty, Site: site, Ctx: fr.Ctx}, site, fr.Ctx)
	e.kill(st, o)
	st.mem[a] = o
}

func (e *Engine) mayInvoke(fr *Frame, in []*State, site ssa.CallInstruction, fnT *Term, exactlyOnce bool) []*State {
	fi := fr.info
	seen := map[string]bool{}
	var out []*State
	var add func(ss []*State) []*State
	add = func(ss []*State) []*State {
		var fresh []*State
		for _, s := range ss {
			k := e.key(s, fi)
			if !seen[k] {
				seen[k] = true
				out = append(out, s)
				fresh = append(fresh, s)
			}
		}
		return fresh
	}
	if exactlyOnce {
		for _, s := range in {
			add(e.runClosure(fr, s.clone(), site, fnT, nil, func(*Frame) {}))
		}
		return out
	}
	// zero and one invocation exactly, further ones joined to a fixpoint
	cur := add(in)
	var next []*State
	for _, s := range cur {
		next = append(next, e.runClosure(fr, s.clone(), site, fnT, nil, func(*Frame) {})...)
	}
	cur = add(next)
	acc := map[string]*State{}
	for round := 0; len(cur) > 0; round++ {
		if round > 50 {
			e.Err = fmt.Errorf("no fixpoint for closure %s", shortFn(fnT.Fn))
			return out
		}
		var todo []*State
		changed := map[string]bool{}
		for _, s := range cur {
			k := e.ctlKey(s)
			if acc[k] == nil {
				acc[k] = s.clone()
				changed[k] = true
				continue
			}
			j := e.join(fr, fnT, acc[k], s)
			if e.key(j, fi) != e.key(acc[k], fi) {
				acc[k] = j
				changed[k] = true
			}
		}
		var ks []string
		for k := range changed {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			todo = append(todo, acc[k])
		}
		add(todo)
		next = nil
		for _, s := range todo {
			next = append(next, e.runClosure(fr, s.clone(), site, fnT, nil, func(*Frame) {})...)
		}
		cur = next
	}
	return out
}

// callResult builds the term for the result(s) of an opaque call.
func (e *Engine) callResult(fr *Frame, st *State, ev *CallEv, sig *types.Signature) *Term {
	var ty types.Type = sig.Results()
	if sig.Results().Len() == 1 {
		ty = sig.Results().At(0).Type()
	}
	if isNoise(ev.Name) {
		return e.T.mk(Term{Op: OCall, S: "noise", Typ: ty})
	}
	// canonicalise pure functions: no site identity
	args := make([]*Term, len(ev.Args))
	for i, a := range ev.Args {
		args[i] = a
		if a.depth > 14 {
			args[i] = e.T.mk(Term{Op: OOpaque, S: "deep", Typ: a.Typ})
		}
	}
	if isPure(ev.Name) {
		return e.T.mk(Term{Op: OCall, S: ev.Name, Args: args, Typ: ty})
	}
	t := e.T.mk(Term{Op: OCall, S: ev.Name, Args: args, Typ: ty, Site: ev.Site.(ssa.Instruction), Ctx: fr.Ctx}, ev.Site, fr.Ctx)
	e.kill(st, t)
	if ev.Name == "(context.Context).Err" && len(args) == 1 && st.Has("~done:"+itoa(int64(args[0].ID))) {
		st.facts[t] = Fact{K: FNonNil}
	}
	return t
}

func (e *Engine) builtin(fr *Frame, st *State, c ssa.CallInstruction, name string, args []*Term, setRes func(*State, *Term)) []*State {
	switch name {
	case "len":
		setRes(st, e.lenOf(args[0]))
	case "cap":
		setRes(st, e.T.mk(Term{Op: OCap, Args: args[:1], Typ: types.Typ[types.Int]}))
	case "append":
		base := args[0]
		var elems []*Term
		tag := ""
		var spread *Term
		if len(args) > 1 {
			if vs, ok := e.VarArgs(st, args[1]); ok {
				elems = vs
			} else {
				elems = []*Term{args[1]}
				spread = args[1]
				tag = "..."
			}
		}
		if e.H.Append != nil {
			if spread != nil {
				e.H.Append(st, fr, c, base, nil, spread)
			} else {
				e.H.Append(st, fr, c, base, elems, nil)
			}
		}
		if len(elems) == 0 {
			setRes(st, base)
			break
		}
		// bound growth: keep only the base object when it is already a long append
		if n, b := 0, base; b.Op == OAppend {
			for ; b.Op == OAppend; b = b.Args[0] {
				n++
			}
			if n > 6 {
				base = base.Args[0]
				if tag == "" {
					tag = "~" // not exact
				}
			}
		}
		var ty types.Type
		if v, ok := c.(ssa.Value); ok {
			ty = v.Type()
		}
		setRes(st, e.T.mk(Term{Op: OAppend, S: tag, Args: append([]*Term{base}, elems...), Typ: ty}))
	case "close":
		if e.H.Close != nil {
			e.H.Close(st, fr, c, args[0])
		}
		if args[0].Op == OAlloc {
			st.mem[e.chClosed(args[0])] = e.Bool(true)
		}
	case "delete":
		if e.H.MapDelete != nil {
			e.H.MapDelete(st, fr, c, args[0], args[1])
		}
		la := e.T.mk(Term{Op: OIndexAddr, Args: []*Term{args[0], args[1]}})
		st.mem[la] = e.T.mk(Term{Op: OOpaque, S: "deleted"})
	case "panic":
		return nil
	case "copy":
		setRes(st, e.opaque("copy", types.Typ[types.Int], fr, c))
	case "recover":
		setRes(st, e.Nil())
	case "ssa:wrapnilchk":
		setRes(st, args[0])
	default:
		if v, ok := c.(ssa.Value); ok {
			setRes(st, e.opaque("builtin:"+name, v.Type(), fr, c))
		}
	}
	return one(st)
}

// intrinsic models a few library functions precisely.
func (e *Engine) intrinsic(fr *Frame, st *State, ev *CallEv) (*Term, bool, func(func(*State, *Term)) []*State) {
	switch ev.Name {
	case "errors.As":
		errT, target := ev.Args[0], strip(ev.Args[1])
		if errT.Op == ONil || e.IsNil(st, errT) {
			return e.Bool(false), true, nil
		}
		var want types.Type
		if len(ev.Args) > 1 && ev.Args[1].Op == OIface {
			if p, ok := ev.Args[1].Typ.Underlying().(*types.Pointer); ok {
				want = p.Elem()
			}
		}
		if want == nil {
			return nil, false, nil
		}
		if inner := findWrapped(errT, want); inner != nil {
			e.store(st, target, inner, want)
			return e.Bool(true), true, nil
		}
		if errT.Op == OIface && !wrapsOther(errT) {
			return e.Bool(false), true, nil
		}
		return nil, true, func(set func(*State, *Term)) []*State {
			t := st.clone()
			e.havoc(t, fr, ev.Site.(ssa.Instruction), target, 1)
			set(t, e.Bool(true))
			f := st
			set(f, e.Bool(false))
			if e.H.As != nil {
				e.H.As(t, ev, true)
				e.H.As(f, ev, false)
			}
			return []*State{t, f}
		}
	case "errors.Is":
		if ev.Args[0].Op == ONil || e.IsNil(st, ev.Args[0]) {
			return e.Bool(false), true, nil
		}
	case "path.Join":
		if vs, ok := e.VarArgs(st, ev.Args[0]); ok && len(vs) == 2 {
			if c, ok := constStr(vs[0]); ok && c != "" {
				cv := constant.MakeString(strings.TrimSuffix(c, "/") + "/")
				pre := e.T.mk(Term{Op: OConst, S: cv.ExactString(), Val: cv, Typ: types.Typ[types.String]})
				return e.T.mk(Term{Op: OConcat, Args: []*Term{pre, vs[1]}, Typ: types.Typ[types.String]}), true, nil
			}
		}
	case "fmt.Errorf":
		t := e.T.mk(Term{Op: OCall, S: "fmt.Errorf", Args: e.errorfArgs(st, ev), Typ: ev.Result.Typ})
		return t, true, nil
	}
	return nil, false, nil
}

func (e *Engine) errorfArgs(st *State, ev *CallEv) []*Term {
	out := []*Term{ev.Args[0]}
	if vs, ok := e.VarArgs(st, ev.Args[1]); ok {
		for _, v := range vs {
			if v.depth > 12 {
				v = e.T.mk(Term{Op: OOpaque, S: "deep", Typ: v.Typ})
			}
			out = append(out, v)
		}
	}
	return out
}

// findWrapped looks for a value of dynamic type want inside an error built
// with interface conversion or %w wrapping.
func findWrapped(t *Term, want types.Type) *Term {
	if t.Op == OIface && types.Identical(t.Typ, want) {
		return t.Args[0]
	}
	if t.Op == OCall && t.S == "fmt.Errorf" {
		if f, ok := constStr(t.Args[0]); ok && strings.Contains(f, "%w") {
			for _, a := range t.Args[1:] {
				if w := findWrapped(a, want); w != nil {
					return w
				}
			}
		}
	}
	return nil
}

func wrapsOther(t *Term) bool {
	// a concrete error type with an Unwrap method may hide another error
	ms := types.NewMethodSet(t.Typ)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "Unwrap" || n == "As" {
			return true
		}
	}
	return false
}
