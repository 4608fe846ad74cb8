package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// exportedRoots: exported functions and methods of a package (no closures).
func exportedRoots(p *Prog, rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.PkgFuncs(rel) {
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return out
}

// hasCall: some call in f (closures included) satisfies m.
func hasCall(f *ssa.Function, m func(name string) bool) bool {
	for g := range withClosures(f) {
		for _, call := range callsIn(g) {
			if m(calleeName(call)) {
				return true
			}
		}
	}
	return false
}

// reachesCall: f or an in-package function it refers to makes such a call.
func reachesCall(p *Prog, f *ssa.Function, m func(name string) bool) bool {
	for g := range p.reach(f) {
		if fnPkgPath(g) != fnPkgPath(f) {
			continue
		}
		for _, call := range callsIn(g) {
			if m(calleeName(call)) {
				return true
			}
		}
	}
	return false
}

// deepest: the declared functions of a package from which all the given calls
// are reachable but none of whose (other) callees reaches all of them.
func deepest(p *Prog, rel string, ms ...func(name string) bool) []*ssa.Function {
	all := func(f *ssa.Function) bool {
		for _, m := range ms {
			if !reachesCall(p, f, m) {
				return false
			}
		}
		return true
	}
	memo := map[*ssa.Function]bool{}
	for _, f := range p.PkgFuncs(rel) {
		if f.Parent() == nil {
			memo[f] = all(f)
		}
	}
	var out []*ssa.Function
	for f, ok := range memo {
		if !ok {
			continue
		}
		low := true
		for g := range p.reach(f) {
			if g != f && g.Parent() == nil && memo[g] && !p.reach(g)[f] {
				low = false
			}
		}
		if low {
			out = append(out, f)
		}
	}
	sortFns(out)
	return out
}

func sortFns(fs []*ssa.Function) {
	for i := range fs {
		for j := i + 1; j < len(fs); j++ {
			if shortFn(fs[j]) < shortFn(fs[i]) {
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
	}
}

// mapOf: t is map[key]elem by type strings ("" = any).
func mapOf(t types.Type, key, elem string) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && (key == "" || typeIs(m.Key(), key)) && (elem == "" || typeIs(m.Elem(), elem))
}

const tPeerID = "github.com/libp2p/go-libp2p-core/peer.ID"

// isProviders: the registry's map of registered providers.
func isProviders(t types.Type) bool {
	return mapOf(t, tPeerID, "*"+pkgRegistry+".ProviderInfo")
}
