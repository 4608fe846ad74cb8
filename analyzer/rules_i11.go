package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I11", ruleI11)
}

const (
	pRate      = "golang.org/x/time/rate"
	nNewLim    = pRate + ".NewLimiter"
	nPolEval   = "(" + pkgPeerutil + ".Policy).Eval"
	nNewSubscr = "github.com/filecoin-project/go-legs.NewSubscriber"
	nLimOpt    = "github.com/filecoin-project/go-legs.RateLimiter"
)

// limiterFn: a function that gives the rate limiter for a peer.
func limiterFn(sig *types.Signature) bool {
	return sig.Params().Len() == 1 && sig.Results().Len() == 1 &&
		sig.Params().At(0).Type().String() == tPeerID && sig.Results().At(0).Type().String() == "*"+pRate+".Limiter"
}

func isLimit(t types.Type) bool { return t != nil && t.String() == pRate+".Limit" }

// isZero: the number zero.
func isZero(t *Term) bool {
	t = strip(t)
	return t != nil && t.Op == OConst && t.Val != nil && (t.Val.Kind() == constant.Int || t.Val.Kind() == constant.Float) && constant.Sign(t.Val) == 0
}

func ruleI11(c *Ctx) {
	const (
		rLim = "the limiter for a publisher has the rate and the burst size that were set; it is unlimited exactly if no rate is set or the publisher is exempt"
		rSet = "the rate, the burst size and the peers they apply to are set together, and are those of the configuration; a rate of zero turns limiting off; negative values and invalid peer IDs are rejected, and then nothing is changed"
		rUse = "everything fetched from publishers is subject to these limiters"
	)
	p := c.P
	rel := "internal/ingest"
	burst := ""
	field := func(t *Term) string {
		t = strip(t)
		if t != nil && t.Op == ODeref {
			t = t.Args[0]
		}
		if t != nil && (t.Op == OFieldAddr || t.Op == OField) {
			return t.S
		}
		return ""
	}
	c.Rule("limiter", rLim)
	nf := 0
	isLimiter := map[*ssa.Function]bool{}
	for _, f := range p.PkgFuncs(rel) {
		if f.Synthetic == "" && limiterFn(f.Signature) {
			isLimiter[f] = true
		}
	}
	for _, root := range p.PkgFuncs(rel) {
		root := root
		if !isLimiter[root] || p.unused(root) {
			continue
		}
		nf++
		h := &Hooks{}
		pi := len(root.Params) - 1
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if cl := callOf(cd); cl != nil && cd.Op == OCall && (cl.S == nPolEval || strings.HasSuffix(cl.S, "peerutil.Policy).Eval")) {
				c.Rule("limiter", rLim)
				c.Check(rootParam(fr.E, cl.Args[len(cl.Args)-1], pi), st, c.whereIn(fr, site), "exemption from rate limiting", "another peer than the publisher is looked up")
				st.Set("apply", fmt.Sprint(v))
			}
			if cd.Op == OBin && (cd.S == "==" || cd.S == "<") {
				for i := 0; i < 2; i++ {
					if isZero(cd.Args[i]) && isLimit(derefType(cd.Args[1-i].Typ)) {
						// limit == 0; or 0 < limit
						st.Set("off", fmt.Sprint(v == (cd.S == "==")))
					}
				}
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			c.Rule("limiter", rLim)
			where := c.whereIn(fr, site)
			cl := callOf(res[0])
			if cl == nil || cl.S != nNewLim {
				c.Bad(st, where, "limiter of "+shortFn(root), "it is not a new limiter: "+res[0].String())
				return
			}
			free := st.Get("off") == "true" || st.Get("apply") == "false"
			inf := strip(cl.Args[0]).Op == OConst
			if free {
				c.Check(inf, st, where, "limiter of "+shortFn(root), "an exempt publisher is limited, or a rate of zero is used as limit")
				return
			}
			c.Check(!inf && isLimit(derefType(cl.Args[0].Typ)), st, where, "limiter of "+shortFn(root), "the configured rate is not applied")
			c.Check(st.Get("off") == "false" && st.Get("apply") == "true", st, where, "limiter of "+shortFn(root), "it is limited although it may be exempt, or no rate may be set")
			b := field(cl.Args[1])
			c.Check(b != "" && (burst == "" || burst == b), st, where, "limiter of "+shortFn(root), "the configured burst size is not applied")
			burst = b
		}
		c.Run(root, h, rel)
	}
	c.Rule("limiter", rLim)
	c.AtLeast(1, nf, "functions that give limiters")

	// where the limits are set
	kindOf := func(addr *Term) string {
		if addr.Op != OFieldAddr || addr.Typ == nil {
			return ""
		}
		switch {
		case isLimit(addr.Typ):
			return "rate"
		case addr.Typ.String() == pkgPeerutil+".Policy":
			return "peers"
		case burst != "" && addr.S == burst && addr.Typ.String() == "int":
			return "burst"
		}
		return ""
	}
	// ofCfg: t is this field of the configuration
	ofCfg := func(t *Term, name string) bool {
		t = strip(t)
		if t == nil {
			return false
		}
		if t.Op == ODeref {
			t = strip(t.Args[0])
		}
		return (t.Op == OField || t.Op == OFieldAddr) && t.S == name
	}
	touch := reaching(c, rel, func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
				return isLimit(derefType(fa.Type()))
			}
		}
		ci, ok := in.(ssa.CallInstruction)
		return ok && calleeName(ci) == pkgPeerutil+".NewPolicyStrings"
	})
	nset, nsub := 0, 0
	for _, root := range exportedRoots(p, rel) {
		root := root
		if !touch(root) {
			continue
		}
		h := skipNamedGo(&Hooks{Keep: func(t *Term) bool {
			return isErrRes(t) && callOf(t) != nil && strings.HasPrefix(callOf(t).S, pkgPeerutil)
		}})
		h.Opaque = func(f *ssa.Function) bool { return !touch(f) }
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if cd.Op != OBin {
				return
			}
			for i := 0; i < 2; i++ {
				if !isZero(cd.Args[i]) {
					continue
				}
				for _, n := range []string{"BlocksPerSecond", "BurstSize"} {
					if !ofCfg(cd.Args[1-i], n) {
						continue
					}
					switch {
					case cd.S == "==" && v:
						st.Set("zero:"+n, "")
					case cd.S == "==":
						st.Set("nonzero:"+n, "")
					case cd.S == "<" && i == 1: // x < 0
						st.Set("neg:"+n, fmt.Sprint(v))
					case cd.S == "<" && i == 0 && v: // 0 < x
						st.Set("neg:"+n, "false")
						st.Set("nonzero:"+n, "")
					}
				}
			}
			if cd.S == "==" {
				for i := 0; i < 2; i++ {
					if cl := callOf(cd.Args[1-i]); cd.Args[i].Op == ONil && cl != nil && cl.S == pkgPeerutil+".NewPolicyStrings" {
						st.Set("peers", fmt.Sprint(v))
					}
				}
			}
		}
		bad := func(st *State) bool {
			return st.Get("neg:BlocksPerSecond") == "true" || st.Get("neg:BurstSize") == "true" || st.Get("peers") == "false"
		}
		check := func(st *State, where string) {
			c.Rule("set", rSet)
			n := 0
			for _, k := range []string{"rate", "burst", "peers"} {
				if st.Has("set:" + k) {
					n++
				}
			}
			c.Check(n == 3, st, where, "limits set by "+shortFn(root), "they are not all set")
			for _, k := range []string{"rate", "burst", "peers"} {
				c.Check(st.Get("set:"+k) != "bad", st, where, "limits set by "+shortFn(root), "the "+k+" is not that of the configuration")
			}
			if !st.Has("zero:BlocksPerSecond") && !bad(st) {
				c.Check(st.Get("neg:BlocksPerSecond") == "false" && st.Get("neg:BurstSize") == "false" && st.Get("peers") == "true", st, where, "limits set by "+shortFn(root), "invalid values are accepted")
				for _, k := range []string{"rate", "burst", "peers"} {
					c.Check(st.Get("set:"+k) == "cfg", st, where, "limits set by "+shortFn(root), "the "+k+" of the configuration is not used")
				}
			}
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) {
			k := kindOf(addr)
			if k == "" {
				return
			}
			nset++
			v := strip(val)
			how := "bad"
			switch {
			case k == "rate" && ofCfg(v, "BlocksPerSecond"), k == "burst" && ofCfg(v, "BurstSize"):
				how = "cfg"
			case k == "peers" && callOf(v) != nil && callOf(v).S == pkgPeerutil+".NewPolicyStrings":
				cl := callOf(v)
				if ofCfg(cl.Args[0], "Apply") && ofCfg(cl.Args[1], "Except") {
					how = "cfg"
				}
			case isZero(v) || v.Op == OZero || v.Op == ONil:
				how = "zero"
				if k != "peers" && !st.Has("zero:BlocksPerSecond") && !bad(st) {
					how = "bad"
				}
			case k == "peers" && (st.Has("zero:BlocksPerSecond") || bad(st)):
				how = "zero"
			}
			st.Set("set:"+k, how)
			st.Set("badset", fmt.Sprint(bad(st)))
		}
		h.Call = func(st *State, ev *CallEv) {
			if ev.Name != nNewSubscr {
				return
			}
			nsub++
			where := c.whereIn(ev.Fr, ev.Site)
			check(st, where)
			c.Rule("used", rUse)
			opts := optsOf(ev.E, st, ev.Args[len(ev.Args)-1])
			found := false
			for _, o := range opts {
				cl := callOf(o)
				if cl == nil || cl.S != nLimOpt {
					continue
				}
				if fn := strip(cl.Args[0]); fn.Op == OFn && fn.Fn != nil {
					for g := range p.reach(fn.Fn) {
						found = found || isLimiter[g]
					}
					found = found || isLimiter[fn.Fn]
				}
			}
			c.Check(found, st, where, "rate limits of the subscriber", "they are not given to it")
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			where := c.whereIn(fr, site)
			for _, r := range res {
				if !isErrorType(r.Typ) && strip(r).Op != ONil || len(res) != 1 {
					continue
				}
				c.Rule("set", rSet)
				if fr.E.Assume(st.clone(), fr.E.eq(r, fr.E.Nil()), true) {
					c.Check(!bad(st), st, where, "limits set by "+shortFn(root), "invalid values are accepted")
					check(st, where)
				}
				if fr.E.Assume(st.clone(), fr.E.eq(r, fr.E.Nil()), false) {
					c.Check(!st.Has("set:rate") && !st.Has("set:burst") && !st.Has("set:peers"), st, where, "limits set by "+shortFn(root), "they are changed although this fails")
				}
			}
		}
		c.Run(root, h, rel)
	}
	c.Rule("set", rSet)
	c.AtLeast(2, nset, "places that set limits")
	c.Rule("used", rUse)
	c.AtLeast(1, nsub, "subscribers")
}
