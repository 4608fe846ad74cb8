package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// A02: the advertisement signature covers the advertisement's content.

const (
	nConsumeTyped = "github.com/libp2p/go-libp2p-core/record.ConsumeTypedEnvelope"
	nConsumeEnv   = "github.com/libp2p/go-libp2p-core/record.ConsumeEnvelope"
	nSeal         = "github.com/libp2p/go-libp2p-core/record.Seal"
	nIDFromPub    = "github.com/libp2p/go-libp2p-core/peer.IDFromPublicKey"
)

func ruleA02(c *Ctx) {
	adT := c.P.Pkg("api/v0/ingest/schema").Type("Advertisement")
	if adT == nil {
		c.Need(nil, "type schema.Advertisement")
		return
	}
	st := adT.Type().Underlying().(*types.Struct)
	var fields []string
	for i := 0; i < st.NumFields(); i++ {
		if n := st.Field(i).Name(); n != "Signature" {
			fields = append(fields, n)
		}
	}
	verify := c.Need(c.P.Method("api/v0/ingest/schema", "Advertisement", "VerifySignature"), "Advertisement.VerifySignature")
	sign := c.Need(c.P.Method("api/v0/ingest/schema", "Advertisement", "Sign"), "Advertisement.Sign")
	if verify == nil || sign == nil {
		return
	}

	isHash := func(n string) bool {
		return n == "github.com/multiformats/go-multihash.Sum" || n == "github.com/multiformats/go-multihash.Encode"
	}
	// record that a field of the advertisement flows into the digest input
	mark := func(stt *State, t *Term) {
		anySub(t, func(x *Term) bool {
			if x.Op == OField {
				if r := strip(x.Args[0]); r.Op == OParam || r.Op == ODeref && r.Args[0].Op == OParam {
					stt.Set("w:"+x.S, "1")
				}
			}
			return false
		})
	}
	mkHooks := func() *Hooks {
		h := &Hooks{}
		h.Keep = func(t *Term) bool {
			return anySub(t, func(x *Term) bool {
				return x.Op == OCall && (x.S == nConsumeTyped || x.S == nSeal || x.S == "bytes.Equal" || x.S == nIDFromPub || isHash(x.S)) || x.Op == OField && (x.S == "IsRm" || x.S == "PreviousID")
			})
		}
		h.Call = func(stt *State, ev *CallEv) {
			if ev.Inline {
				return
			}
			n := ev.Name
			if isHash(n) || n == nConsumeTyped || n == nSeal || n == nIDFromPub || isNoise(n) || n == "bytes.Equal" || strings.HasSuffix(n, ".Grow") {
				if isHash(n) {
					mark(stt, ev.Args[0])
					stt.Set("digest", "1")
				}
				return
			}
			// accumulation into a buffer or hasher
			for i, a := range ev.Args {
				if i == 0 && len(ev.Args) > 1 {
					continue
				}
				mark(stt, a)
				// removal flag encoded as constants on its two branches
				isRm := func(t *Term) bool { return t.Op == OField && t.S == "IsRm" }
				if k, ok := constInt(a); ok {
					if holds(stt, true, isRm) {
						stt.Set("rm1", itoa(k))
						stt.Set("w:IsRm", "1")
					} else if holds(stt, false, isRm) {
						stt.Set("rm0", itoa(k))
						stt.Set("w:IsRm", "1")
					}
				}
			}
		}
		h.Append = func(stt *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term) {
			for _, e := range append(append([]*Term(nil), elems...), spread) {
				if e != nil {
					mark(stt, e)
					if k, ok := constInt(e); ok {
						isRm := func(t *Term) bool { return t.Op == OField && t.S == "IsRm" }
						if holds(stt, true, isRm) {
							stt.Set("rm1", itoa(k))
							stt.Set("w:IsRm", "1")
						} else if holds(stt, false, isRm) {
							stt.Set("rm0", itoa(k))
							stt.Set("w:IsRm", "1")
						}
					}
				}
			}
		}
		return h
	}
	addrLoop := false
	rm := map[string]map[string]bool{"rm0": {}, "rm1": {}}
	covered := func(stt *State, fr *Frame, site ssa.Instruction, who string) {
		for _, k := range []string{"rm0", "rm1"} {
			if stt.Has(k) {
				rm[k][stt.Get(k)] = true
			}
		}
		for _, f := range fields {
			if f == "Addresses" {
				if stt.Has("w:Addresses") {
					addrLoop = true
				}
				continue
			}
			ok := stt.Has("w:" + f)
			if f == "PreviousID" && !ok {
				// a chain head has no previous advertisement
				ok = nilFact(stt, true, func(t *Term) bool { return t.Op == OField && t.S == "PreviousID" })
			}
			c.Check(ok, stt, c.whereIn(fr, site), who+" covers field "+f, "the signature digest does not depend on the advertisement's "+f+": it can be altered without invalidating the signature")
		}
	}

	c.Rule("verify", "VerifySignature succeeds only if the envelope was opened, the digest recomputed from this advertisement equals the signed digest in full, and the returned signer is the ID of the envelope's key")
	succ := 0
	h := mkHooks()
	h.Exit = func(stt *State, fr *Frame, site ssa.Instruction, res []*Term) {
		e := fr.E
		if len(res) != 2 || e.NonNil(stt, res[1]) {
			return
		}
		succ++
		where := c.whereIn(fr, site)
		var env *Term
		for t, f := range stt.facts {
			cl := callOf(t)
			if f.K == FNil && cl != nil && cl.S == nConsumeTyped && isErrRes(t) && isField(cl.Args[0], "Signature") {
				env = cl
			}
		}
		c.Check(env != nil, stt, where, "envelope opened and checked", "success although the signature envelope was not successfully opened")
		if env == nil {
			return
		}
		recT := strip(env.Args[1])
		eq := holds(stt, true, func(t *Term) bool {
			if t.Op != OCall || t.S != "bytes.Equal" {
				return false
			}
			dig := func(x *Term) bool {
				cl := callOf(x)
				return cl != nil && isHash(cl.S)
			}
			rec := func(x *Term) bool {
				return anySub(x, func(y *Term) bool { return y == recT || y.Op == OOpaque && y.Site == env.Site })
			}
			return dig(t.Args[0]) && rec(t.Args[1]) || dig(t.Args[1]) && rec(t.Args[0])
		})
		c.Check(eq, stt, where, "digest compared in full", "success without the recomputed digest being known equal to the signed digest")
		idc := callOf(res[0])
		okID := idc != nil && idc.S == nIDFromPub && anySub(idc.Args[0], func(y *Term) bool { return y.Op == OField && y.S == "PublicKey" && callOf(y.Args[0]) == env })
		c.Check(okID, stt, where, "signer is the envelope key's ID", "the returned signer is not derived from the key that signed the envelope: "+res[0].String())
		if okID {
			c.Check(errNil(stt, func(x *Term) bool { return x == idc }), stt, where, "signer ID conversion checked", "the error of converting the signer's key is ignored")
		}
		c.rule = "coverage"
		covered(stt, fr, site, "verification digest")
		c.rule = "verify"
	}
	c.Rules["coverage"] = "every field of the advertisement except the signature itself flows into the digest on every path, for signing and for verifying"
	c.Run(verify, h)
	c.rule = "coverage"
	c.Check(addrLoop, nil, c.P.Loc(verify.Pos()), "verification digest covers field Addresses", "the signature digest does not depend on the advertisement's Addresses")
	for k := range rm["rm0"] {
		if rm["rm1"][k] {
			c.Bad(nil, c.P.Loc(verify.Pos()), "verification digest covers field IsRm", "the digest contribution is the same whether or not the advertisement is a removal")
		}
	}
	c.AtLeast(1, succ, "successful exits of VerifySignature")

	c.Rule("sign", "Sign stores a signature only after sealing, with the caller's key, the digest of this advertisement")
	n := 0
	addrLoop = false
	rm = map[string]map[string]bool{"rm0": {}, "rm1": {}}
	h = mkHooks()
	baseCall := h.Call
	h.Call = func(stt *State, ev *CallEv) {
		baseCall(stt, ev)
		if ev.Name == nSeal {
			n++
			where := c.whereIn(ev.Fr, ev.Site)
			c.Check(ev.Args[1].Op == OParam, stt, where, "sealed with the caller's key", "the signature is not made with the given key")
			rec := strip(ev.Args[0])
			v := ev.E.peekStruct(stt, rec)
			c.Check(anySub(v, func(y *Term) bool { return y.Op == OCall && isHash(y.S) }), stt, where, "sealed record carries the digest", "the sealed record does not carry the advertisement digest: "+v.String())
			covered(stt, ev.Fr, ev.Site, "signing digest")
		}
	}
	h.Exit = func(stt *State, fr *Frame, site ssa.Instruction, res []*Term) {
		if fr.E.NonNil(stt, res[0]) {
			return
		}
		ok := errNil(stt, func(x *Term) bool { return x.S == nSeal })
		c.Check(ok, stt, c.whereIn(fr, site), "success implies sealed", "Sign can succeed although sealing failed")
	}
	c.Run(sign, h)
	c.Check(addrLoop, nil, c.P.Loc(sign.Pos()), "signing digest covers field Addresses", "the signature digest does not depend on the advertisement's Addresses")
	for k := range rm["rm0"] {
		if rm["rm1"][k] {
			c.Bad(nil, c.P.Loc(sign.Pos()), "signing digest covers field IsRm", "the digest contribution is the same whether or not the advertisement is a removal")
		}
	}
	c.AtLeast(1, n, "sealing calls in Sign")

	c.Rule("domain", "signing and verifying use the same record type with the same, constant domain and codec")
	rec := map[string]bool{}
	for _, fn := range c.P.PkgFuncs("api/v0/ingest/schema") {
		for _, call := range callsIn(fn) {
			nm := calleeName(call)
			i := -1
			if nm == nSeal {
				i = 0
			} else if nm == nConsumeTyped {
				i = 1
			}
			if i < 0 {
				continue
			}
			if mi, ok := call.Common().Args[i].(*ssa.MakeInterface); ok {
				rec[types.TypeString(mi.X.Type(), nil)] = true
				c.OK(c.at(call), nm+" with "+types.TypeString(mi.X.Type(), nil))
			}
		}
	}
	c.Check(len(rec) == 1, nil, "api/v0/ingest/schema", "one record type", "signing and verification use different envelope record types")
}
