package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("A01", ruleA01)
	register("A02", ruleA02)
}

// ---------------------------------------------------------------------------
// A01: blocks carrying an advertisement are stored only when authentic.

func ruleA01(c *Ctx) {
	c.Rule("gate", "in the block committer installed in the ingester's link system, every path to the datastore write knows either that the decoded node has no \"Signature\" field, or that the signature of that node's advertisement verified, its provider ID decoded, and the signer is the provider or may publish for it")
	var openers []*ssa.Function
	for _, st := range c.P.fieldStores(c.P.PkgFuncs("internal/ingest"), "github.com/ipld/go-ipld-prime/linking.LinkSystem", "StorageWriteOpener") {
		if f := asFn(st.Val); f != nil {
			openers = append(openers, f)
		} else {
			c.Bad(nil, c.at(st), "opener", "the storage write opener is not a function of this repository that can be resolved")
		}
	}
	if len(openers) == 0 {
		c.Need(nil, "function installed as LinkSystem.StorageWriteOpener in internal/ingest")
		return
	}
	keepCall := func(t *Term) bool {
		return anySub(t, func(x *Term) bool {
			return x.Op == OCall && (nameMatch(x.S, nVerifySig) || nameMatch(x.S, nUnwrapAd) || nameMatch(x.S, nRegPubAllow) || nameMatch(x.S, nPolPubAllow) || nameMatch(x.S, nPeerDecode) || strings.HasSuffix(x.S, ").LookupByString"))
		})
	}
	for _, op := range openers {
		var committers, puts, rets int
		h := &Hooks{Keep: keepCall}
		var committer *ssa.Function
		h.Call = func(st *State, ev *CallEv) {
			if committer == nil {
				return
			}
			isBuf := func(t *Term) bool {
				t = strip(t)
				return t.Op == OCall && (t.S == "bytes.NewBuffer" || t.S == "bytes.NewBufferString") || t.Op == OAlloc && typeIs(derefType(t.Typ), "bytes.Buffer")
			}
			for i, a := range ev.Args {
				if !isBuf(a) {
					continue
				}
				switch {
				case i == 0 && (ev.Name == "(*bytes.Buffer).Bytes" || ev.Name == "(*bytes.Buffer).String"):
					if st.Has("consumed") {
						st.Set("late"+fmt.Sprint(ev.Result.ID), "1")
					}
				case i == 0 && (ev.Name == "(*bytes.Buffer).Len" || ev.Name == "(*bytes.Buffer).Cap"):
				case !ev.Inline:
					st.Set("consumed", "1")
				}
			}
			if !dsCall(ev.Name, "Put") {
				return
			}
			puts++
			where := c.whereIn(ev.Fr, ev.Site)
			key, val := ev.Args[2], strip(ev.Args[3])
			e := ev.E
			// which node was examined
			notAd := nilFact(st, true, func(t *Term) bool {
				cl := callOf(t)
				if cl == nil || !strings.HasSuffix(cl.S, ").LookupByString") || len(cl.Args) < 2 || t.Op == OExtract && t.I != 0 {
					return false
				}
				s, ok := constStr(cl.Args[1])
				return ok && s == "Signature" && nodeFromBlock(cl.Args[0])
			})
			authentic := false
			why := "no verified signature of the stored block on this path"
			for t, f := range st.facts {
				cl := callOf(t)
				if f.K != FNil || cl == nil || !nameMatch(cl.S, nVerifySig) || !isErrRes(t) {
					continue
				}
				ad := cl.Args[0]
				un := callOf(ad)
				if un == nil || !nameMatch(un.S, nUnwrapAd) || !nodeFromBlock(un.Args[0]) {
					why = "the verified advertisement is not the one decoded from the block being stored"
					continue
				}
				if !errNil(st, func(x *Term) bool { return x == un }) {
					why = "the result of unwrapping the advertisement is used without checking its error"
					continue
				}
				signer := e.extract(cl, 0)
				var prov *Term
				for t2, f2 := range st.facts {
					c2 := callOf(t2)
					if f2.K == FNil && c2 != nil && c2.S == nPeerDecode && isField(c2.Args[0], "Provider") && same(c2.Args[0].Args[0], ad) {
						prov = e.extract(c2, 0)
					}
				}
				if prov == nil {
					why = "the advertisement's provider ID is not decoded (or the decoding error not checked) before storing"
					continue
				}
				ok := eqFact(st, true, is(signer), is(prov)) || holds(st, true, func(t *Term) bool {
					return (nt(nRegPubAllow)(t) || nt(nPolPubAllow)(t)) && len(t.Args) == 3 && same(t.Args[1], signer) && same(t.Args[2], prov)
				})
				if !ok {
					why = "the signer is neither known to be the provider nor allowed to publish for it"
					continue
				}
				authentic = true
			}
			c.Check(notAd || authentic, st, where, "write gated by advertisement verification", "a block can be written to the datastore: "+why)
			okVal := val.Op == OCall && (val.S == "(*bytes.Buffer).Bytes") && !st.Has("late"+fmt.Sprint(val.ID))
			c.Check(okVal, st, where, "stored bytes are the verified block's bytes", "the value stored is not the complete content of the received block: "+val.String())
			_, rest, ok := keyParts(key)
			okKey := ok && rest != nil && rest.Op == OCall && strings.HasSuffix(rest.S, "cid.Cid).String") && anySub(rest, func(t *Term) bool { return t.Op == OField && t.S == "Cid" })
			c.Check(okKey, st, where, "stored under the block's CID", "the block is not stored under its own CID: "+key.String())
			st.Set("put", fmt.Sprint(ev.Result.ID))
		}
		h.Return = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if fr.Fn != committer || len(res) != 1 {
				return
			}
			rets++
			r := res[0]
			e := fr.E
			if e.NonNil(st, r) {
				return
			}
			isPutErr := r.Op == OCall && dsCall(r.S, "Put")
			c.Check(st.Has("put") && (isPutErr || errNil(st, func(x *Term) bool { return dsCall(x.S, "Put") })), st, c.whereIn(fr, site), "acceptance implies stored", "the committer can report success although the block was not (successfully) stored")
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if len(res) < 2 || res[1].Op != OFn {
				if len(res) == 3 && fr.E.NonNil(st, res[2]) {
					return
				}
				c.Bad(st, c.whereIn(fr, site), "committer", "the block committer returned by the storage write opener cannot be resolved")
				return
			}
			committers++
			committer = res[1].Fn
			fr.E.runClosure(fr, st, site, res[1], nil, func(*Frame) {})
			committer = nil
		}
		e := c.Run(op, h)
		_ = e
		c.AtLeast(1, committers, "block committers")
		c.AtLeast(1, puts, "datastore writes in the block committer")
		c.AtLeast(1, rets, "returns of the block committer")
	}

	c.Rule("sole-writer", "no other code of the ingester writes raw blocks: every other datastore write in internal/ingest uses a constant key prefix")
	for _, fn := range c.P.PkgFuncs("internal/ingest") {
		inOpener := false
		for _, op := range openers {
			if fn == op || within(fn, op) || reachesFrom(c.P, op, fn) {
				inOpener = true
			}
		}
		if inOpener {
			continue
		}
		for _, call := range callsIn(fn) {
			nm := calleeName(call)
			if !dsCall(nm, "Put") {
				continue
			}
			pre := constPrefixOf(call.Common().Args[1], 0)
			c.Check(pre != "", nil, c.at(call)+" in "+shortFn(fn), "prefixed write in "+shortFn(fn), "a datastore write outside the verified block committer uses a key with no constant prefix: it could store an unverified block")
		}
	}

	c.Rule("verify-source", "the subscriber that fetches advertisement chains is given the verifying link system")
	n := 0
	for _, fn := range c.P.PkgFuncs("internal/ingest") {
		for _, call := range callsIn(fn) {
			if calleeName(call) != "github.com/filecoin-project/go-legs.NewSubscriber" {
				continue
			}
			n++
			ok := linkSystemFrom(c.P, call.Common().Args[2], openers)
			c.Check(ok, nil, c.at(call)+" in "+shortFn(fn), "subscriber link system", "the subscriber's link system is not the one that verifies advertisements")
		}
	}
	c.AtLeast(1, n, "subscriber constructions")
}

// asFn resolves a function value (closure, function, bound method).
func asFn(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return asFn(x.X)
	case *ssa.MakeInterface:
		return asFn(x.X)
	}
	return nil
}

// nodeFromBlock: the node was decoded from the committed block's buffer.
func nodeFromBlock(n *Term) bool {
	n = strip(n)
	// nb.Build() of a builder filled by the decoder, or a decode helper's result
	return anySub(n, func(t *Term) bool { return t.Op == OCall && strings.HasSuffix(t.S, ").Build") }) || n.Op == OCall || n.Op == OExtract
}

func within(fn, outer *ssa.Function) bool {
	for f := fn.Parent(); f != nil; f = f.Parent() {
		if f == outer {
			return true
		}
	}
	return false
}

func callsIn(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				out = append(out, ci)
			}
		}
	}
	return out
}

// calleeName is the statically resolved callee (interface methods by their
// declaring interface).
func calleeName(ci ssa.CallInstruction) string {
	cc := ci.Common()
	if cc.IsInvoke() {
		return cc.Method.FullName()
	}
	if f := cc.StaticCallee(); f != nil {
		return fullName(f)
	}
	return ""
}

// reachesFrom: fn is reachable from root through static in-repo calls,
// closures and deferred or spawned calls.
func reachesFrom(p *Prog, root, fn *ssa.Function) bool {
	return p.reach(root)[fn]
}

func (p *Prog) reach(root *ssa.Function) map[*ssa.Function]bool {
	if p.reachC == nil {
		p.reachC = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	if m, ok := p.reachC[root]; ok {
		return m
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.InRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						walk(v)
					case *ssa.MakeClosure:
						walk(v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	walk(root)
	p.reachC[root] = seen
	return seen
}

// constPrefixOf finds the constant prefix of a datastore key value.
func constPrefixOf(v ssa.Value, d int) string {
	if d > 6 || v == nil {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return strings.Trim(x.Value.ExactString(), `"`)
		}
	case *ssa.BinOp:
		return constPrefixOf(x.X, d+1)
	case *ssa.ChangeType:
		return constPrefixOf(x.X, d+1)
	case *ssa.Convert:
		return constPrefixOf(x.X, d+1)
	case *ssa.Slice:
		return constPrefixOf(x.X, d+1)
	case *ssa.Alloc:
		// variadic backing array: the element stored at index 0
		for _, r := range *x.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if k, ok := ia.Index.(*ssa.Const); !ok || k.Int64() != 0 {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
					return constPrefixOf(s.Val, d+1)
				}
			}
		}
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil {
			switch fullName(f) {
			case "github.com/ipfs/go-datastore.NewKey", "path.Join", "fmt.Sprintf":
				return constPrefixOf(x.Common().Args[0], d+1)
			}
			if f.Blocks != nil {
				// a key helper: all its returns have a constant prefix
				pre := ""
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
						p := constPrefixOf(r.Results[0], d+1)
						if p == "" {
							return ""
						}
						pre = p
					}
				}
				return pre
			}
		}
	case *ssa.Phi:
		pre := ""
		for _, e := range x.Edges {
			p := constPrefixOf(e, d+1)
			if p == "" {
				return ""
			}
			pre = p
		}
		return pre
	}
	return ""
}

// linkSystemFrom: the value is (loaded from a field or variable that only
// holds) the result of a function installing one of the openers.
func linkSystemFrom(p *Prog, v ssa.Value, openers []*ssa.Function) bool {
	makers := map[*ssa.Function]bool{}
	for _, op := range openers {
		for f := op.Parent(); f != nil; f = f.Parent() {
			makers[f] = true
		}
	}
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Call:
			if f := x.Common().StaticCallee(); f != nil {
				if makers[f] {
					return true
				}
				for m := range makers {
					if f.Blocks != nil && reachesFrom(p, f, m) {
						return true
					}
				}
			}
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				// every store to this field in the repository
				pt := a.X.Type().Underlying().(*types.Pointer).Elem()
				name := pt.Underlying().(*types.Struct).Field(a.Field).Name()
				ss := p.fieldStores(p.Funcs, types.TypeString(pt, nil), name)
				if len(ss) == 0 {
					return false
				}
				for _, s := range ss {
					if !from(s.Val, d+1) {
						return false
					}
				}
				return true
			case *ssa.Alloc:
				n := 0
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						n++
						if !from(s.Val, d+1) {
							return false
						}
					}
				}
				return n > 0
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !from(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			return from(x.Tuple, d+1)
		}
		return false
	}
	return from(v, 0)
}
