package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of an abstract value (value number).
type Op uint8

const (
	OConst Op = iota
	ONil
	OParam
	OFree
	OGlobal
	OFn
	OAlloc
	OField
	OFieldAddr
	OIndex
	OIndexAddr
	OLookup
	ONext
	ORange
	OCall
	OExtract
	OBin
	ONot
	OIface
	OAssert
	OSlice
	OAppend
	OLen
	OCap
	OZero
	OStruct
	ODeref
	ORecv
	OLoop
	OOpaque
	OTuple
	OConcat
)

var opNames = [...]string{"const", "nil", "param", "free", "global", "fn", "alloc", "field", "fieldaddr", "index", "indexaddr", "lookup", "next", "range", "call", "extract", "bin", "not", "iface", "assert", "slice", "append", "len", "cap", "zero", "struct", "deref", "recv", "loop", "opaque", "tuple", "concat"}

// Term is a hash-consed abstract value: two SSA values with the same Term are
// known to hold the same run-time value (value numbering).
type Term struct {
	ID    int
	Op    Op
	S     string // field name, callee, operator, constant text
	I     int    // index
	Args  []*Term
	Typ   types.Type
	Fn    *ssa.Function
	Val   constant.Value
	Site  ssa.Instruction
	Ctx   int
	depth int
	size  int
}

type termTab struct {
	m    map[string]*Term
	n    int
	sidx map[interface{}]int
	all  []*Term
}

// byID finds a term by the decimal form of its ID.
func (tt *termTab) byID(id string) *Term {
	n, err := strconv.Atoi(id)
	if err != nil || n < 1 || n > len(tt.all) {
		return nil
	}
	return tt.all[n-1]
}

func newTermTab() *termTab {
	return &termTab{m: map[string]*Term{}, sidx: map[interface{}]int{}}
}

func (tt *termTab) idOf(x interface{}) int {
	if v, ok := tt.sidx[x]; ok {
		return v
	}
	v := len(tt.sidx) + 1
	tt.sidx[x] = v
	return v
}

func (tt *termTab) mk(t Term, ident ...interface{}) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%d", t.Op, t.S, t.I)
	for _, a := range t.Args {
		if a == nil {
			b.WriteString(",_")
			continue
		}
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	for _, x := range ident {
		fmt.Fprintf(&b, ";%d", tt.idOf(x))
	}
	k := b.String()
	if e, ok := tt.m[k]; ok {
		return e
	}
	n := new(Term)
	*n = t
	tt.n++
	n.ID = tt.n
	for _, a := range t.Args {
		if a != nil {
			if a.depth+1 > n.depth {
				n.depth = a.depth + 1
			}
			n.size += a.size
		}
	}
	n.size++
	tt.all = append(tt.all, n)
	tt.m[k] = n
	return n
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		return t.S
	case ONil:
		return "nil"
	case OParam, OFree:
		return t.S
	case OGlobal:
		return "&" + t.S
	case OFn:
		return "func:" + shortFn(t.Fn)
	case OAlloc:
		return "new#" + fmt.Sprint(t.ID)
	case OField:
		return t.Args[0].str(d-1) + "." + t.S
	case OFieldAddr:
		return "&" + t.Args[0].str(d-1) + "." + t.S
	case OIndex:
		return t.Args[0].str(d-1) + "[" + t.Args[1].str(d-1) + "]"
	case OIndexAddr:
		return "&" + t.Args[0].str(d-1) + "[" + t.Args[1].str(d-1) + "]"
	case OCall:
		n := t.S
		if i := strings.LastIndex(n, "/"); i >= 0 {
			n = n[i+1:]
		}
		return n + "(" + args() + ")"
	case OExtract:
		return t.Args[0].str(d) + fmt.Sprintf("#%d", t.I)
	case OBin:
		return "(" + t.Args[0].str(d-1) + " " + t.S + " " + t.Args[1].str(d-1) + ")"
	case ONot:
		return "!" + t.Args[0].str(d-1)
	case OIface:
		return t.Args[0].str(d)
	case OAssert:
		return t.Args[0].str(d) + ".(" + types.TypeString(t.Typ, func(p *types.Package) string { return p.Name() }) + ")"
	case ODeref:
		return "*" + t.Args[0].str(d-1)
	}
	return opNames[t.Op] + t.S + "(" + args() + ")"
}

// strip removes representation-only wrappers.
func strip(t *Term) *Term {
	for t != nil && (t.Op == OIface || t.Op == OAssert) {
		t = t.Args[0]
	}
	return t
}

// contains reports whether x occurs in t.
func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	if t == nil || t.size < x.size || t.ID < x.ID {
		return false
	}
	for _, a := range t.Args {
		if a != nil && contains(a, x) {
			return true
		}
	}
	return false
}

// anySub reports whether some subterm satisfies f.
func anySub(t *Term, f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if anySub(a, f) {
			return true
		}
	}
	return false
}

func isCallTo(t *Term, names ...string) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	if t.Op == OExtract {
		t = t.Args[0]
	}
	if t.Op != OCall {
		return false
	}
	for _, n := range names {
		if nameMatch(t.S, n) {
			return true
		}
	}
	return false
}

// nameMatch matches a callee's full name. A pattern starting with "~" matches
// as a suffix.
func nameMatch(full, pat string) bool {
	if strings.HasPrefix(pat, "~") {
		return strings.HasSuffix(full, pat[1:])
	}
	return full == pat
}

// callOf returns the OCall term underlying a result term.
func callOf(t *Term) *Term {
	t = strip(t)
	if t == nil {
		return nil
	}
	if t.Op == OExtract {
		t = t.Args[0]
	}
	if t.Op == OCall {
		return t
	}
	return nil
}

func isField(t *Term, name string) bool {
	t = strip(t)
	return t != nil && t.Op == OField && t.S == name
}

func constStr(t *Term) (string, bool) {
	t = strip(t)
	if t != nil && t.Op == OConst && t.Val != nil && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}

func constInt(t *Term) (int64, bool) {
	t = strip(t)
	if t != nil && t.Op == OConst && t.Val != nil && t.Val.Kind() == constant.Int {
		return constant.Int64Val(t.Val)
	}
	return 0, false
}

func constBool(t *Term) (bool, bool) {
	t = strip(t)
	if t != nil && t.Op == OConst && t.Val != nil && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}

// rootOf returns the base object of an address or field chain.
func rootOf(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case OFieldAddr, OIndexAddr:
			t = t.Args[0]
		default:
			return t
		}
	}
	return nil
}
