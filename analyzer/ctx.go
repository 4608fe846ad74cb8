package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is one reported construct.
type Violation struct {
	Rule  string   // rule name
	Key   string   // rule + construct, no line numbers
	Where string   // file:line
	Msg   string   // what is wrong
	Path  []string // offending path
}

// Obligation is one discharged rule instance.
type Obligation struct {
	Rule, Where, What string
}

// Ctx is the run of one property's rules.
type Ctx struct {
	P     *Prog
	ID    string
	Tier  string
	V     map[string]*Violation
	O     map[string]*Obligation
	Fns   map[*ssa.Function]bool
	Blk   map[*ssa.BasicBlock]bool
	Calls int
	Steps int
	State int
	Rules map[string]string
	rule  string
}

func NewCtx(p *Prog, id, tier string) *Ctx {
	return &Ctx{P: p, ID: id, Tier: tier, V: map[string]*Violation{}, O: map[string]*Obligation{}, Fns: map[*ssa.Function]bool{}, Blk: map[*ssa.BasicBlock]bool{}, Rules: map[string]string{}}
}

// Rule starts a named rule with its text.
func (c *Ctx) Rule(name, text string) { c.rule = name; c.Rules[name] = text }

// OK records a discharged instance.
func (c *Ctx) OK(where, what string) {
	k := c.rule + "|" + where + "|" + what
	c.O[k] = &Obligation{c.rule, where, what}
}

// Check records an instance and reports a violation when cond is false.
func (c *Ctx) Check(cond bool, st *State, where, construct, msg string) {
	c.OK(where, construct)
	if !cond {
		c.Bad(st, where, construct, msg)
	}
}

// Bad reports a violation.
func (c *Ctx) Bad(st *State, where, construct, msg string) {
	key := c.rule + ":" + construct
	if _, ok := c.V[key]; ok {
		return
	}
	v := &Violation{Rule: c.rule, Key: key, Where: where, Msg: msg}
	if st != nil {
		v.Path = st.Path()
	}
	c.V[key] = v
}

// Need fails the rule when an anchor is missing.
func (c *Ctx) Need(fn *ssa.Function, what string) *ssa.Function {
	if fn == nil {
		c.Bad(nil, "-", "anchor:"+what, "anchor not found: "+what+" (the rule cannot be decided)")
	}
	return fn
}

// AtLeast fails when a rule matched fewer instances than confirmed by hand.
func (c *Ctx) AtLeast(n int, got int, what string) {
	if got < n {
		c.Bad(nil, "-", "instances:"+what, fmt.Sprintf("only %d instances of %s found, expected at least %d (the rule would be vacuous)", got, what, n))
	}
}

// Count is the number of distinct instances of the current rule whose text
// starts with a prefix.
func (c *Ctx) Count(prefix string) int {
	n := 0
	for _, o := range c.O {
		if o.Rule == c.rule && strings.HasPrefix(o.What, prefix) {
			n++
		}
	}
	return n
}

// Run analyses root with the given hooks, inlining only functions of the
// scope packages (relative paths; none = the root's own package).
func (c *Ctx) Run(root *ssa.Function, h *Hooks, scope ...string) *Engine {
	return c.RunS(root, nil, nil, h, scope...)
}

func (c *Ctx) RunS(root *ssa.Function, prep func(e *Engine, st *State, args []*Term), extraOpaque func(*ssa.Function) bool, h *Hooks, scope ...string) *Engine {
	if root == nil {
		return nil
	}
	sc := map[string]bool{}
	for _, s := range scope {
		sc[modPath+"/"+s] = true
	}
	if len(scope) == 0 {
		sc[fnPkgPath(root)] = true
	}
	userOpaque := h.Opaque
	h.Opaque = func(f *ssa.Function) bool {
		if userOpaque != nil && userOpaque(f) {
			return true
		}
		if extraOpaque != nil && extraOpaque(f) {
			return true
		}
		return !sc[fnPkgPath(f)]
	}
	e := NewEngine(c.P, h)
	if c.Tier == "thorough" {
		e.JoinAt, e.JoinExit, e.Limit = 120, 40, 20_000_000
	}
	if h.NoJoin {
		e.JoinAt, e.JoinExit = 1<<30, 1<<30
	}
	if h.JoinFew {
		e.JoinAt, e.JoinExit = 1, 1
	}
	st := newState()
	var args []*Term
	for i, p := range root.Params {
		args = append(args, e.T.mk(Term{Op: OParam, S: p.Name(), I: i, Typ: p.Type()}, root))
	}
	if prep != nil {
		prep(e, st, args)
	}
	if h.KeepMem {
		e.permanent = args
	}
	t0 := time.Now()
	e.RunWith(root, args, st)
	if os.Getenv("VSA_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "run %s: %d states %d steps %d joins %.1fs\n", shortFn(root), e.States, e.Steps, e.Joins, time.Since(t0).Seconds())
	}
	h.Opaque = userOpaque
	for f := range e.Fns {
		c.Fns[f] = true
	}
	for b := range e.Blocks {
		c.Blk[b] = true
	}
	c.Calls += e.Calls
	c.Steps += e.Steps
	c.State += e.States
	if e.Err != nil {
		c.Bad(nil, c.P.Loc(root.Pos()), "undecided:"+shortFn(root), "analysis did not finish: "+e.Err.Error())
	}
	return e
}

func (c *Ctx) at(i ssa.Instruction) string { return c.P.instrLoc(i) }

// where renders an instruction inside its frame.
func (c *Ctx) whereIn(fr *Frame, i ssa.Instruction) string {
	return c.P.instrLoc(i) + " in " + shortFn(fr.Fn)
}

// ---------------------------------------------------------------------------
// Fact queries

// holds reports whether a boolean term accepted by f is known true (val) or
// false in st.
func holds(st *State, val bool, f func(*Term) bool) bool {
	for t, k := range st.facts {
		if (k.K == FTrue) == val && (k.K == FTrue || k.K == FFalse) && f(t) {
			return true
		}
	}
	return false
}

// nilFact reports whether a term accepted by f is known nil (or non-nil).
func nilFact(st *State, isNil bool, f func(*Term) bool) bool {
	want := FNonNil
	if isNil {
		want = FNil
	}
	for t, k := range st.facts {
		if k.K == want && f(t) {
			return true
		}
	}
	return false
}

// errNil: the error result of call c (a call term accepted by f) is known nil.
func errNil(st *State, f func(call *Term) bool) bool {
	return nilFact(st, true, func(t *Term) bool {
		c := callOf(t)
		return c != nil && isErrRes(t) && f(c)
	})
}

func errNonNil(st *State, f func(call *Term) bool) bool {
	return nilFact(st, false, func(t *Term) bool {
		c := callOf(t)
		return c != nil && isErrRes(t) && f(c)
	})
}

func isErrRes(t *Term) bool {
	return t.Typ != nil && isErrorType(t.Typ)
}

// eqFact: a == b known true (either order) for terms accepted by fa, fb.
func eqFact(st *State, val bool, fa, fb func(*Term) bool) bool {
	return holds(st, val, func(t *Term) bool {
		return t.Op == OBin && t.S == "==" && (fa(t.Args[0]) && fb(t.Args[1]) || fa(t.Args[1]) && fb(t.Args[0]))
	})
}

func is(x *Term) func(*Term) bool {
	return func(t *Term) bool { return t == x || strip(t) == strip(x) }
}

// same compares two value terms, looking through interface wrapping.
func same(a, b *Term) bool { return a != nil && b != nil && (a == b || strip(a) == strip(b)) }

// short name of a callee: "Type.Method" or "pkg.Func".
func callee(name string) string {
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	return strings.NewReplacer("(", "", ")", "", "*", "").Replace(name)
}

func typeIs(t types.Type, full string) bool {
	if t == nil {
		return false
	}
	return types.TypeString(t, nil) == full
}

// deref removes pointers.
func derefType(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
