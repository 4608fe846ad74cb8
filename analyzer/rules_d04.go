package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D04", ruleD04)
}

// The packages that handle what comes from the network.
var remotePkgs = []string{
	"api/v0", "api/v0/ingest/model", "api/v0/ingest/schema", "api/v0/finder/model",
	"internal/libp2pserver", "internal/httpserver", "internal/importer",
	"internal/ingest", "internal/registry", "internal/registry/policy", "internal/lotus", "peerutil",
	"server/admin/http", "server/finder/handler", "server/finder/http", "server/finder/libp2p",
	"server/ingest/handler", "server/ingest/http", "server/ingest/libp2p", "server/reframe",
}

func nillable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
		return true
	}
	return false
}

// mayNil: the results of a function that are nil on some path on which no
// error is returned.
func mayNil(f *ssa.Function, memo map[*ssa.Function]map[int]bool) map[int]bool {
	if r, ok := memo[f]; ok {
		return r
	}
	r := map[int]bool{}
	memo[f] = r
	var isNil func(v ssa.Value, d int, seen map[ssa.Value]bool) bool
	isNil = func(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
		if seen[v] || d > 6 {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value == nil && nillable(x.Type())
		case *ssa.Phi:
			for _, e := range x.Edges {
				if isNil(e, d+1, seen) {
					return true
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW && !x.CommaOk && nillable(x.Type()) {
				return closedEmpty(f, x.X.Type())
			}
			// a variable that is only set by a closure, or by one branch
			if x.Op == token.MUL {
				if a, ok := x.X.(*ssa.Alloc); ok {
					zero := true
					for _, ref := range *a.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == a && s.Block().Dominates(x.Block()) {
							zero = false
						}
					}
					return zero && nillable(x.Type())
				}
			}
		case *ssa.Lookup:
			return !x.CommaOk && nillable(x.Type())
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && fnInModule(g) {
					return mayNil(g, memo)[x.Index]
				}
			}
			if l, ok := x.Tuple.(*ssa.Lookup); ok {
				return x.Index == 0 && nillable(l.Type().(*types.Tuple).At(0).Type())
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && fnInModule(g) {
				return mayNil(g, memo)[0]
			}
		case *ssa.MakeInterface:
			return false
		}
		return false
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		n := len(ret.Results)
		if n > 1 && isErrorType(ret.Results[n-1].Type()) {
			if c, ok := ret.Results[n-1].(*ssa.Const); !ok || c.Value != nil {
				continue
			}
		}
		for i, v := range ret.Results {
			if nillable(v.Type()) && !isErrorType(v.Type()) && isNil(v, 0, map[ssa.Value]bool{}) {
				r[i] = true
			}
		}
	}
	return r
}

// closedEmpty: in f, a channel of this type is closed where nothing was
// certainly sent on it before.
func closedEmpty(f *ssa.Function, ch types.Type) bool {
	elem := func(t types.Type) types.Type {
		if c, ok := t.Underlying().(*types.Chan); ok {
			return c.Elem()
		}
		return nil
	}
	same := func(t types.Type) bool { e := elem(t); return e != nil && types.Identical(e, elem(ch)) }
	for g := range withClosures(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				bi, ok := cl.Common().Value.(*ssa.Builtin)
				if !ok || bi.Name() != "close" || !same(cl.Common().Args[0].Type()) {
					continue
				}
				sent := false
				for _, sb := range g.Blocks {
					for _, si := range sb.Instrs {
						if s, ok := si.(*ssa.Send); ok && same(s.Chan.Type()) && sb.Dominates(b) {
							sent = true
						}
					}
				}
				if !sent {
					return true
				}
			}
		}
	}
	return false
}

// maybeNilPhi: the converted pointer is nil on some way to the conversion, with
// no test in between.
func maybeNilPhi(m *ssa.MakeInterface) bool {
	var nilFrom func(v ssa.Value, d int) bool
	nilFrom = func(v ssa.Value, d int) bool {
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value == nil
		case *ssa.Phi:
			if d > 4 {
				return false
			}
			for _, e := range x.Edges {
				if nilFrom(e, d+1) {
					return true
				}
			}
		}
		return false
	}
	if _, ok := m.X.(*ssa.Phi); !ok || !nilFrom(m.X, 0) {
		return false
	}
	for _, ref := range *m.X.Referrers() {
		bo, ok := ref.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		for _, r2 := range *bo.Referrers() {
			i, ok := r2.(*ssa.If)
			if !ok {
				continue
			}
			to := i.Block().Succs[0]
			if bo.Op == token.EQL {
				to = i.Block().Succs[1]
			}
			if len(to.Preds) == 1 && to.Dominates(m.Block()) {
				return false
			}
		}
	}
	return true
}

// fromEnd: idx is len(base)-k.
func fromEnd(idx, base *Term) (int64, bool) {
	if idx.Op == OBin && idx.S == "-" && idx.Args[0].Op == OLen && idx.Args[0].Args[0] == base {
		return constInt(idx.Args[1])
	}
	return 0, false
}

// fromOutside: the list is (part of) an argument or the result of a call other
// than reading back what the indexer itself stored.
func fromOutside(t *Term) bool {
	for t != nil {
		switch t.Op {
		case OParam:
			return true
		case OCall:
			return !strings.Contains(t.S, "sync/atomic") && !strings.Contains(t.S, "go-datastore")
		case OField, OFieldAddr, ODeref, OExtract, OIface, OAssert, OIndexAddr, OIndex, OSlice, OLoop:
			if len(t.Args) == 0 {
				return false
			}
			t = t.Args[0]
		case OOpaque:
			return strings.HasPrefix(t.S, "out")
		default:
			return false
		}
	}
	return false
}

// someAddrs: the list of addresses, or what it was decoded from, is known not
// to be empty.
func someAddrs(e *Engine, st *State, list *Term) bool {
	for _, x := range []*Term{list} {
		if m, _ := e.minLen(st, x); m > 0 {
			return true
		}
	}
	cl := callOf(list)
	if cl == nil || !strings.HasSuffix(cl.S, ".GetAddrs") {
		return false
	}
	for f := range st.facts {
		if f.Op != OBin {
			continue
		}
		for _, x := range f.Args {
			if lenOfAddrs(x) {
				if m, _ := e.minLen(st, x.Args[0]); m > 0 {
					return true
				}
			}
		}
	}
	return false
}

func lenOfAddrs(t *Term) bool {
	if t.Op != OLen {
		return false
	}
	x := t.Args[0]
	if x.Op == ODeref {
		x = x.Args[0]
	}
	return (x.Op == OField || x.Op == OFieldAddr) && x.S == "Addrs"
}

func fnInModule(f *ssa.Function) bool { return strings.HasPrefix(fnPkgPath(f), modPath) }

// termFieldKey names the field a term reads: package path, type and field.
func termFieldKey(fa *Term) string {
	if fa.Op == ODeref {
		fa = fa.Args[0]
	}
	if fa.Op != OField && fa.Op != OFieldAddr {
		return ""
	}
	bt := fa.Args[0].Typ
	if bt == nil {
		return ""
	}
	if pt, ok := bt.Underlying().(*types.Pointer); ok {
		bt = pt.Elem()
	}
	if n, ok := bt.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + fa.S
	}
	return ""
}

func loadedField(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fieldKeyOf(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
		}
	case *ssa.Field:
		return fieldKeyOf(x.X.Type(), x.Field)
	}
	return ""
}

// shrinkingMaps: fields holding a map from which entries are deleted.
func shrinkingMaps(p *Prog) map[string]bool {
	out := map[string]bool{}
	for _, f := range p.Funcs {
		if !fnInModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := cl.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						if k := loadedField(cl.Common().Args[0]); k != "" {
							out[k] = true
						}
					}
				}
			}
		}
	}
	return out
}

// optionalFields: fields of pointer or interface type that some code of the
// module compares with nil: they may be nil.
func optionalFields(p *Prog) map[string]bool {
	out := map[string]bool{}
	for _, f := range p.Funcs {
		if !fnInModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					if c, ok := xy[1].(*ssa.Const); ok && c.Value == nil && nillable(xy[0].Type()) && !isErrorType(xy[0].Type()) {
						if k := loadedField(xy[0]); k != "" {
							out[k] = true
						}
					}
				}
			}
		}
	}
	return out
}

func fieldKeyOf(t types.Type, i int) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + s.Field(i).Name()
}

func ruleD04(c *Ctx) {
	const (
		rNil = "nothing that may be absent (a looked-up record, an optional field, the result of a failed call) is used without knowing that it is there"
		rIdx = "every index and slice bound is within the list"
		rTyp = "every type assertion that is not tested holds"
		rTyn = "a pointer that may be nil is not converted to an interface, where a test for nil would no longer find it"
		rPan = "no panic is raised while handling a request or an advertisement"
	)
	p := c.P
	memo := map[*ssa.Function]map[int]bool{}
	shrinks := shrinkingMaps(p)
	opt := optionalFields(p)
	for _, k := range []string{modPath + "/api/v0/ingest/schema.Advertisement.PreviousID", modPath + "/api/v0/ingest/schema.EntryChunk.Next"} {
		opt[k] = true
	}
	for _, rel := range []string{"api/v0/finder/model", "api/v0/ingest/model"} {
		pkg := p.Types[modPath+"/"+rel]
		if pkg == nil {
			continue
		}
		for _, n := range pkg.Scope().Names() {
			tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if _, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
					opt[modPath+"/"+rel+"."+n+"."+s.Field(i).Name()] = true
				}
			}
		}
	}
	// Without libp2p there is no ingester.
	for _, rel := range p.relPkgs() {
		pkg := p.Types[modPath+"/"+rel]
		if pkg == nil || rel == "internal/ingest" {
			continue
		}
		for _, n := range pkg.Scope().Names() {
			if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
				if s, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if isPtrTo(s.Field(i).Type(), tIngester) {
							opt[modPath+"/"+rel+"."+n+"."+s.Field(i).Name()] = true
						}
					}
				}
			}
		}
	}
	c.Rule("typednil", rTyn)
	nmk := 0
	for _, f := range p.Funcs {
		if !fnInModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MakeInterface)
				if !ok || m.Type().Underlying().(*types.Interface).NumMethods() == 0 || isErrorType(m.Type()) {
					continue
				}
				if _, ok := m.X.Type().Underlying().(*types.Pointer); !ok {
					continue
				}
				nmk++
				c.Check(!maybeNilPhi(m), nil, c.at(m), "conversion of a "+types.TypeString(m.X.Type(), func(q *types.Package) string { return q.Name() })+" in "+shortFn(f),
					"the pointer may be nil, and the interface then tests as not nil")
			}
		}
	}
	c.AtLeast(5, nmk, "conversions of pointers to interfaces")
	byName := map[string]*ssa.Function{}
	for _, f := range p.Funcs {
		if fnInModule(f) && f.Parent() == nil {
			byName[f.String()] = f
		}
	}
	nder, nidx, nty := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, rel := range remotePkgs {
		rel := rel
		roots := pkgRoots(p, rel)
		for _, f := range p.PkgFuncs(rel) {
			if isHTTPHandler(f) && f.Parent() == nil && f.Synthetic == "" && f.Blocks != nil {
				roots = append(roots, f)
			}
		}
		done := map[*ssa.Function]bool{}
		for i := 0; i <= len(roots); i++ {
			if i == len(roots) {
				// what none of them reached: goroutines, and callbacks kept for later
				for _, f := range p.PkgFuncs(rel) {
					if f.Blocks != nil && !c.Fns[f] && f.Synthetic == "" && !done[f] && !p.unused(f) {
						roots = append(roots, f)
						break
					}
				}
				if i == len(roots) {
					break
				}
			}
			root := roots[i]
			if root.Name() == "init" || done[root] {
				continue
			}
			done[root] = true
			// Starting a server registers many handlers; each is looked at on its own.
			h := skipNamedGo(&Hooks{NoJoin: root.Signature.Recv() != nil && len(root.Blocks) < 20, JoinFew: root.Signature.Recv() == nil})
			h.Keep = func(t *Term) bool {
				if h.JoinFew {
					return false
				}
				if t.Op == OBin {
					return t.Args[0].Op == OLen || t.Args[1].Op == OLen
				}
				return t.Op == OExtract || nillable(t.Typ)
			}
			// Long steps are looked at on their own.
			h.Opaque = func(f *ssa.Function) bool {
				rs := f.Signature.Results()
				return f != root && f.Parent() == nil && len(f.Blocks) >= 15 && (rs.Len() == 0 || rs.Len() == 1 && isErrorType(rs.At(0).Type()))
			}
			var absent func(st *State, e *Engine, t *Term) string
			absent = func(st *State, e *Engine, t *Term) string {
				if t == nil || t.Op == OParam || t.Op == OOpaque && strings.HasPrefix(t.S, "param:") {
					return "" // the caller's business
				}
				switch e.Nilness(st, t) {
				case FNonNil:
					return ""
				case FNil:
					return "it is nil"
				}
				switch t.Op {
				case OParam:
					return ""
				case OAssert:
					if _, ok := t.Typ.Underlying().(*types.Pointer); ok {
						return "" // decided where it is asserted
					}
					return absent(st, e, t.Args[0])
				case OIface:
					return ""
				case OLookup:
					if k := termFieldKey(t.Args[0]); k != "" && !shrinks[k] {
						return "" // entries stay once they are there
					}
					if !holds(st, true, func(x *Term) bool {
						return x.Op == OExtract && x.I == 1 && x.Args[0].Op == OLookup && x.Args[0].Args[0] == t.Args[0] && x.Args[0].Args[1] == t.Args[1]
					}) {
						return "there may be no such entry"
					}
				case OCall, OExtract:
					cl := callOf(t)
					if cl == nil {
						return ""
					}
					i := 0
					if t.Op == OExtract {
						i = t.I
						sig, _ := cl.Typ.(*types.Tuple)
						if sig != nil && sig.Len() > 1 && isErrorType(sig.At(sig.Len()-1).Type()) && i < sig.Len()-1 {
							if errNonNil(st, func(x *Term) bool { return x == cl }) {
								return callee(cl.S) + " failed"
							}
						}
					}
					if f := byName[cl.S]; f != nil && mayNil(f, memo)[i] {
						return callee(cl.S) + " may return nil"
					}
				case OField, ODeref:
					fa := t
					if t.Op == ODeref {
						fa = t.Args[0]
						if fa.Op != OFieldAddr {
							return "" // what a pointer points to
						}
					}
					if k := termFieldKey(fa); opt[k] {
						return k[strings.LastIndex(k, "/")+1:] + " may be nil"
					}
				}
				return ""
			}
			what := func(t *Term) string {
				s := t.String()
				if len(s) > 60 {
					s = s[:60]
				}
				return s
			}
			h.Deref = func(st *State, fr *Frame, site ssa.Instruction, ptr *Term) {
				t := ptr
				where := c.whereIn(fr, site)
				nder[where] = true
				c.Rule("absent", rNil)
				if why := absent(st, fr.E, t); why != "" {
					c.Bad(st, where, "use of "+what(t), why)
				} else {
					c.OK(where, "pointer used")
				}
			}
			h.Call = func(st *State, ev *CallEv) {
				cm := ev.Site.Common()
				if f := ev.Fn; f != nil && !ev.Inline && len(ev.Args) > 0 && f.Signature.Recv() != nil {
					// a method that is not looked into uses its receiver
					if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
						where := c.whereIn(ev.Fr, ev.Site)
						nder[where] = true
						c.Rule("absent", rNil)
						if why := absent(st, ev.E, ev.Args[0]); why != "" {
							c.Bad(st, where, "call of "+callee(ev.Name)+" on "+what(ev.Args[0]), why)
						} else {
							c.OK(where, "call of "+callee(ev.Name))
						}
					}
				}
				if !cm.IsInvoke() || isErrorType(cm.Value.Type()) {
					return
				}
				where := c.whereIn(ev.Fr, ev.Site)
				nder[where] = true
				c.Rule("absent", rNil)
				if why := absent(st, ev.E, ev.Args[0]); why != "" {
					c.Bad(st, where, "call of "+callee(ev.Name)+" on "+what(ev.Args[0]), why)
				} else {
					c.OK(where, "call of "+callee(ev.Name))
				}
			}
			h.Assert = func(st *State, fr *Frame, x *ssa.TypeAssert, v *Term) {
				if x.CommaOk {
					return
				}
				where := c.whereIn(fr, x)
				nty[where] = true
				c.Rule("assert", rTyp)
				if v.Op == OIface {
					return
				}
				if why := absent(st, fr.E, v); why != "" {
					c.Bad(st, where, "type assertion on "+what(v), why)
					return
				}
				// Links are CID links; what the code itself put somewhere has the type it
				// was put with; a node loaded by a prototype has the prototype's type.
				ok := typeIs(x.AssertedType, "github.com/ipld/go-ipld-prime/linking/cid.Link")
				if cl := callOf(v); cl != nil {
					switch {
					case strings.Contains(cl.S, "sync.Pool).Get"), strings.Contains(cl.S, "sync/atomic.Value)."):
						ok = true
					case strings.HasSuffix(cl.S, "bindnode.Unwrap"):
						n := callOf(cl.Args[0])
						ok = n != nil && (strings.Contains(n.S, "LinkSystem).Load") || strings.HasSuffix(n.S, "NodeBuilder).Build"))
					}
				}
				c.Check(ok, st, where, "type assertion on "+what(v), "it is not known to be a "+types.TypeString(x.AssertedType, func(q *types.Package) string { return q.Name() }))
			}
			h.Index = func(st *State, fr *Frame, site ssa.Instruction, base, idx *Term) {
				var bt types.Type
				var at ssa.Value
				switch x := site.(type) {
				case *ssa.IndexAddr:
					bt, at = x.X.Type(), x.Index
				case *ssa.Index:
					bt, at = x.X.Type(), x.Index
				}
				// Positions that a loop counts are not bounded here; positions written
				// out and positions relative to another one are.
				switch x := at.(type) {
				case *ssa.Const:
				case *ssa.BinOp:
					if _, ok := x.X.(*ssa.Phi); ok {
						return
					}
				default:
					return
				}
				if pt, ok := bt.Underlying().(*types.Pointer); ok {
					bt = pt.Elem()
				}
				if _, ok := bt.Underlying().(*types.Array); ok && idx.Op == OConst {
					return
				}
				if !fromOutside(base) {
					return // what the code itself keeps
				}
				where := c.whereIn(fr, site)
				nidx[where] = true
				c.Rule("index", rIdx)
				e := fr.E
				l := e.lenOf(base)
				if base.Op == OAlloc && base.S == "slice" && len(base.Args) > 0 {
					l = base.Args[0]
				}
				ok := e.Eval(st, e.lt(idx, l)) == FTrue
				if n, isC := constInt(idx); isC && !ok {
					m, _ := e.minLen(st, base)
					ok = int(n) < m
				}
				// counted back from the end: the list holds at least one element if an
				// element was looked at
				if k, isB := fromEnd(idx, base); isB && !ok {
					m, _ := e.minLen(st, base)
					ok = int(k) <= m || k == 1 && holds(st, true, func(x *Term) bool { return x.Op == OBin && x.S == "<" && x.Args[1] == l })
				}
				// one peer per address, and there is an address
				if cl := callOf(base); cl != nil && !ok && strings.HasSuffix(cl.S, "peer.AddrInfosFromP2pAddrs") && isConstN(idx, 0) {
					ok = someAddrs(e, st, cl.Args[0])
				}
				c.Check(ok, st, where, "index of "+what(base), "the list may be shorter: "+what(idx))
			}
			h.Panic = func(st *State, fr *Frame, site ssa.Instruction, v *Term) {
				c.Rule("panic", rPan)
				if root.Signature.Recv() == nil && goDepth(fr) == 0 {
					return // at start-up, or what a caller passed
				}
				c.Bad(st, c.whereIn(fr, site), "panic in "+shortFn(fr.Fn), "it is reachable")
			}
			c.Run(root, h, rel)
		}
	}
	c.Rule("absent", rNil)
	c.AtLeast(100, len(nder), "uses of pointers and interfaces")
	c.Rule("index", rIdx)
	c.AtLeast(3, len(nidx), "uses of list elements")
	c.Rule("assert", rTyp)
	c.AtLeast(3, len(nty), "type assertions")
}
