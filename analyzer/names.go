package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Names of the library and in-repo API functions the rules are anchored on.
const (
	pkgIngest   = modPath + "/internal/ingest"
	pkgRegistry = modPath + "/internal/registry"
	pkgPolicy   = modPath + "/internal/registry/policy"
	pkgSchema   = modPath + "/api/v0/ingest/schema"
	pkgModel    = modPath + "/api/v0/ingest/model"
	pkgPeerutil = modPath + "/peerutil"

	nVerifySig   = "(*" + pkgSchema + ".Advertisement).VerifySignature"
	nUnwrapAd    = pkgSchema + ".UnwrapAdvertisement"
	nRegAllowed  = "(*" + pkgRegistry + ".Registry).Allowed"
	nRegPubAllow = "(*" + pkgRegistry + ".Registry).PublishAllowed"
	nPolAllowed  = "(*" + pkgPolicy + ".Policy).Allowed"
	nPolPubAllow = "(*" + pkgPolicy + ".Policy).PublishAllowed"
	nPeerDecode  = "github.com/libp2p/go-libp2p-core/peer.Decode"
	nCheckSeq    = "(*" + pkgRegistry + ".Registry).CheckSequence"
	nRegister    = "(*" + pkgRegistry + ".Registry).Register"
	nRegOrUpd    = "(*" + pkgRegistry + ".Registry).RegisterOrUpdate"
	nDiscover    = "(*" + pkgRegistry + ".Registry).Discover"
	nSyncChan    = "(*" + pkgRegistry + ".Registry).SyncChan"
	nDeleted     = "(*" + pkgRegistry + ".ProviderInfo).Deleted"
)

// dsCall: method m of one of the go-datastore interfaces.
func dsCall(name, m string) bool {
	return strings.HasPrefix(name, "(github.com/ipfs/go-datastore.") && strings.HasSuffix(name, ")."+m)
}

// idxCall: method m of the index engine.
func idxCall(name, m string) bool {
	return name == "(github.com/filecoin-project/go-indexer-core.Interface)."+m
}

// legsSub: method of the legs subscriber.
func legsSub(name, m string) bool {
	return name == "(*github.com/filecoin-project/go-legs.Subscriber)."+m
}

func isPeerID(t types.Type) bool {
	return typeIs(t, "github.com/libp2p/go-libp2p-core/peer.ID")
}

// nt is a call term matcher by name.
func nt(names ...string) func(*Term) bool {
	return func(t *Term) bool {
		if t.Op != OCall {
			return false
		}
		for _, n := range names {
			if nameMatch(t.S, n) {
				return true
			}
		}
		return false
	}
}

// keyStr returns the string argument of datastore.NewKey.
func keyStr(t *Term) *Term {
	t = strip(t)
	if t != nil && t.Op == OCall && t.S == "github.com/ipfs/go-datastore.NewKey" {
		return t.Args[0]
	}
	return nil
}

// keyParts splits a datastore key term into a constant prefix and the rest.
func keyParts(t *Term) (prefix string, rest *Term, ok bool) {
	if x := strip(t); x != nil && x.Op == OCall && x.S == "(github.com/ipfs/go-datastore.Key).ChildString" {
		if p, r, ok := keyParts(x.Args[0]); ok && r == nil {
			return strings.TrimSuffix(p, "/") + "/", x.Args[1], true
		}
	}
	k := keyStr(t)
	if k == nil {
		return "", nil, false
	}
	return strParts(k)
}

func strParts(k *Term) (prefix string, rest *Term, ok bool) {
	if s, c := constStr(k); c {
		return s, nil, true
	}
	if k.Op == OConcat {
		if s, c := constStr(k.Args[0]); c {
			return s, k.Args[1], true
		}
		if k.Args[0].Op == OConcat {
			p, r, ok := strParts(k.Args[0])
			if ok && r == nil {
				return p, k.Args[1], true
			}
		}
		return "", k, true
	}
	if k.Op == OCall && k.S == "path.Join" {
		return "", k, true
	}
	return "", k, true
}

// storesTo lists the values stored to fields with the given name whose struct
// type is the named type, in the given functions.
func (p *Prog) fieldStores(fns []*ssa.Function, typeFull, field string) []*ssa.Store {
	var out []*ssa.Store
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if types.TypeString(pt, nil) != typeFull {
					continue
				}
				if pt.Underlying().(*types.Struct).Field(fa.Field).Name() == field {
					out = append(out, st)
				}
			}
		}
	}
	return out
}
