package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P03", ruleP03) }

const nDo = "(*net/http.Client).Do"

func ruleP03(c *Ctx) {
	httpClients(c)
	p2pClients(c)
	streamClient(c)
}

// codeRange follows what is known of the status of the response.
func codeRange(st *State) (lo, hi int64) {
	lo, hi = 0, 1<<30
	if v := st.Get("lo"); v != "" {
		lo, _ = strconv.ParseInt(v, 10, 64)
	}
	if v := st.Get("hi"); v != "" {
		hi, _ = strconv.ParseInt(v, 10, 64)
	}
	return
}

func isCode(t *Term) bool {
	t = strip(t)
	return t != nil && t.Op == OField && t.S == "StatusCode"
}

func noteCode(st *State, cd *Term, v bool) {
	if cd.Op != OBin || len(cd.Args) != 2 {
		return
	}
	lo, hi := codeRange(st)
	a, b := cd.Args[0], cd.Args[1]
	na, ka := constInt(a)
	nb, kb := constInt(b)
	switch {
	case cd.S == "==" && v && isCode(a) && kb:
		lo, hi = nb, nb
	case cd.S == "==" && v && isCode(b) && ka:
		lo, hi = na, na
	case cd.S == "<" && isCode(a) && kb:
		if v && nb-1 < hi {
			hi = nb - 1
		} else if !v && nb > lo {
			lo = nb
		}
	case cd.S == "<" && isCode(b) && ka:
		if v && na+1 > lo {
			lo = na + 1
		} else if !v && na < hi {
			hi = na
		}
	default:
		return
	}
	st.Set("lo", itoa(lo))
	st.Set("hi", itoa(hi))
}

func isRespBody(t *Term) bool {
	t = strip(t)
	return t != nil && t.Op == OField && t.S == "Body" && anySub(t, func(x *Term) bool { return x.Op == OCall && x.S == nDo })
}

// emptyFind: t is a lookup response without results.
func emptyFind(e *Engine, st *State, t *Term) bool {
	t = strip(t)
	if t == nil || t.Op != OAlloc || !strings.HasSuffix(t.Typ.String(), "model.FindResponse") {
		return false
	}
	m := strip(e.pick(st, t, "MultihashResults"))
	return m != nil && (m.Op == ONil || m.Op == OZero)
}

func httpClients(c *Ctx) {
	const (
		rSuc = "a client method reports success only if its request was sent and answered with a success status and the answer could be read (for a lookup, not found means no results), and then gives what was answered; it reports an error only if a step failed or another status was answered"
		rBod = "the body of every response is closed"
		rReq = "what is sent is the request made for the call, under the caller's context"
	)
	nm, nok, nclose, ndo := 0, 0, 0, 0
	for _, rel := range []string{"api/v0/finder/client/http", "api/v0/ingest/client/http", "api/v0/admin/client/http"} {
		for _, root := range rootsReaching(c.P, rel, func(f *ssa.Function) bool { return hasCall(f, func(n string) bool { return n == nDo }) }) {
			rs := root.Signature.Results()
			if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
				continue
			}
			nm++
			o := &ops{c: c, Main: func(ev *CallEv) bool { return ev.Name == nDo }}
			h := &Hooks{NoJoin: true, Keep: isErrRes}
			h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
				o.assume(st, cond, val)
				cd, v := bare(cond, val)
				noteCode(st, cd, v)
				if e, ok := emptyTest(cd, v, func(x *Term) bool { x = strip(x); return x.Op == OParam }); ok && e {
					st.Set("nothing", "1")
				}
				if n := st.Get("do"); n != "" && st.Get("op:"+n) == "ok" && !st.Has("closed") {
					st.Set("open", "1")
				}
			}
			h.Call = func(st *State, ev *CallEv) {
				if ev.Inline {
					return
				}
				where := c.whereIn(ev.Fr, ev.Site)
				if strings.HasSuffix(ev.Name, ").Close") && len(ev.Args) > 0 && isRespBody(ev.Args[0]) {
					if st.Has("open") {
						nclose++
					}
					st.Del("open")
					st.Set("closed", "1")
					return
				}
				if strings.HasPrefix(ev.Name, "net/http.NewRequest") {
					c.Rule("request", rReq)
					c.Check(strings.HasSuffix(ev.Name, "WithContext") && strip(ev.Args[0]).Op == OParam, st, where, "under the caller's context", "the request is not made under the caller's context")
				}
				o.call(st, ev)
				if ev.Name == nDo {
					ndo++
					c.Rule("request", rReq)
					rq := strip(ev.Args[1])
					c.Check(rq.Op == OExtract && rq.Args[0].Op == OCall && strings.HasPrefix(rq.Args[0].S, "net/http.NewRequest") && !st.Has("do"), st, where, "the request made", "what is sent is not the request made for the call, or it is sent twice")
					st.Set("do", strconv.Itoa(ev.ResultN(1).ID))
					for _, f := range []string{"lo", "hi", "open", "closed"} {
						st.Del(f)
					}
				}
				if strings.Contains(ev.Name, "Unmarshal") && len(ev.Args) > 0 {
					b := strip(ev.Args[0])
					if b.Op == OExtract && b.Args[0].Op == OCall && strings.HasSuffix(b.Args[0].S, ".ReadAll") && isRespBody(b.Args[0].Args[0]) {
						st.Set("decoded", "1")
						if len(ev.Args) > 1 {
							st.Set("into", strconv.Itoa(strip(ev.Args[1]).ID))
						} else {
							st.Set("into", strconv.Itoa(strip(ev.ResultN(0)).ID))
						}
					}
				}
				if strings.HasSuffix(ev.Name, "Scanner).Scan") {
					st.Set("scan", "unknown")
				}
				if strings.HasSuffix(ev.Name, "Scanner).Err") && st.Has("scan") {
					st.Set("scan", "looked at")
				}
			}
			h.Exit = func(st *State, fr *Frame, site ssa.Instruction, r []*Term) {
				e := fr.E
				where := c.whereIn(fr, site)
				if st.Has("do") {
					c.Rule("bodies", rBod)
					c.Check(!st.Has("open"), st, where, "bodies are closed", "the body of a response is not closed")
				}
				er := strip(r[len(r)-1])
				lo, hi := codeRange(st)
				good := lo >= 200 && hi <= 299
				if !e.Assume(st.clone(), e.eq(er, e.Nil()), true) {
					c.Rule("success", rSuc)
					c.Check(!good || o.failed(st) || er.Op != ONil && st.Has("op:"+strconv.Itoa(er.ID)), st, where, "errors only after a failure", "an error is reported although the request succeeded")
					return
				}
				nok++
				c.Rule("success", rSuc)
				if !st.Has("do") {
					ok := st.Has("nothing") && len(r) == 2 && emptyFind(e, st, r[0])
					c.Check(ok, st, where, "success only if sent", "success is reported although no request was sent")
					return
				}
				// an error that is itself returned was looked at
				ret := st.clone()
				ret.Del("op:" + strconv.Itoa(er.ID))
				u := o.undone(ret)
				if lo == 404 && hi == 404 {
					c.Check(u == "" && len(r) == 2 && emptyFind(e, st, r[0]), st, where, "not found means no results", "not found is not reported as a lookup without results")
					return
				}
				c.Check(u == "" && good, st, where, "success only after success", "success is reported although "+u+" failed, or the status is not known to be one of success")
				c.Check(st.Get("scan") != "unknown", st, where, "read to the end", "success is reported although the answer may not have been read to the end")
				if len(r) == 2 && !st.Has("scan") {
					x := strip(r[0])
					ok := st.Has("decoded")
					switch x.Op {
					case ODeref:
						x = strip(x.Args[0])
					}
					ok = ok && (strconv.Itoa(x.ID) == st.Get("into") || x.Op == OOpaque || x.Op == OField)
					c.Check(ok, st, where, "what was answered", "what is given is not what was answered")
				}
			}
			c.Run(root, h, rel, "api/v0/httpclient")
		}
	}
	c.Rule("success", rSuc)
	c.AtLeast(12, nm, "methods of HTTP clients")
	c.AtLeast(12, nok, "successes reported")
	c.Rule("bodies", rBod)
	c.AtLeast(12, nclose, "bodies closed")
	c.Rule("request", rReq)
	c.AtLeast(12, ndo, "requests sent")
}

func p2pClients(c *Ctx) {
	const (
		rTyp = "a client method reports success only if the request was answered with the response of its type, and then gives the data of that response; an error response is reported as an error"
	)
	nreq, nok := 0, 0
	for _, pr := range [][2]string{{"api/v0/finder/client/libp2p", "api/v0/finder/pb"}, {"api/v0/ingest/client/libp2p", "api/v0/ingest/pb"}} {
		rel := pr[0]
		mt := msgTypes(c.P, pr[1])
		isSend := func(n string) bool { return strings.HasSuffix(n, "libp2pclient.Client).SendRequest") }
		for _, root := range rootsReaching(c.P, rel, func(f *ssa.Function) bool { return hasCall(f, isSend) }) {
			o := &ops{c: c, Main: func(ev *CallEv) bool { return isSend(ev.Name) }}
			h := &Hooks{NoJoin: true, Keep: isErrRes, NoInvoke: true}
			h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
				o.assume(st, cond, val)
				cd, v := bare(cond, val)
				if cd.Op == OBin && cd.S == "==" && v {
					for i := 0; i < 2; i++ {
						x := strip(cd.Args[i])
						if n, ok := constInt(cd.Args[1-i]); ok && (x.Op == OCall && strings.HasSuffix(x.S, ").GetType") || x.Op == OField && x.S == "Type") {
							st.Set("type", mt[n])
						}
					}
				}
				if e, ok := emptyTest(cd, v, func(x *Term) bool { x = strip(x); return x.Op == OParam }); ok && e {
					st.Set("nothing", "1")
				}
			}
			h.Call = func(st *State, ev *CallEv) {
				if ev.Inline {
					return
				}
				if o.call(st, ev) {
					nreq++
					where := c.whereIn(ev.Fr, ev.Site)
					n, ok := constInt(ev.E.pick(st, ev.Args[2], "Type"))
					c.Rule("response", rTyp)
					c.Check(ok && !strings.HasSuffix(mt[n], "_RESPONSE") && strip(ev.Args[1]).Op == OParam && !st.Has("req"), st, where, "one request", "what is sent is not one request of a known type under the caller's context")
					st.Set("req", mt[n])
				}
			}
			h.Exit = func(st *State, fr *Frame, site ssa.Instruction, r []*Term) {
				e := fr.E
				where := c.whereIn(fr, site)
				er := strip(r[len(r)-1])
				if !e.Assume(st.clone(), e.eq(er, e.Nil()), true) {
					return
				}
				nok++
				c.Rule("response", rTyp)
				if !st.Has("req") {
					c.Check(st.Has("nothing") && len(r) == 2 && emptyFind(e, st, r[0]), st, where, "success only if sent", "success is reported although no request was sent")
					return
				}
				ret := st.clone()
				ret.Del("op:" + strconv.Itoa(er.ID))
				u := o.undone(ret)
				c.Check(u == "" && st.Get("type") == st.Get("req")+"_RESPONSE", st, where, "the response of that request", "success is reported although the response to "+st.Get("req")+" is "+st.Get("type")+", or "+u+" failed")
			}
			c.Run(root, h)
		}
	}
	c.Rule("response", rTyp)
	c.AtLeast(6, nreq, "requests")
	c.AtLeast(6, nok, "successes reported")
}

// streamClient: the exchange of requests and responses over one stream.
func streamClient(c *Ctx) {
	const (
		rLck = "the client's stream is used by one request at a time: it is looked at and changed only while the client's lock is held, and the lock is released at the end of each call"
		rPai = "a request that reports success was sent whole and its response was read and decoded; after any failure the stream is dropped, so that a late response is never taken for that of another request"
	)
	rel := "api/v0/libp2pclient"
	accesses, writes, reads, nex := 0, 0, 0, 0
	isStreamT := func(t types.Type) bool { return t != nil && strings.HasSuffix(t.String(), "network.Stream") }
	isReaderT := func(t types.Type) bool {
		return t != nil && (strings.HasSuffix(t.String(), "go-msgio.ReadCloser") || strings.HasSuffix(t.String(), "go-msgio.Reader"))
	}
	isLock := func(ch *Term) bool {
		ch = strip(ch)
		return ch != nil && ch.Op == OField && ch.Typ != nil && strings.HasPrefix(ch.Typ.Underlying().String(), "chan struct{}") && strip(ch.Args[0]).Op == OParam
	}
	for _, root := range pkgRoots(c.P, rel) {
		if !touches(c.P, root, func(t types.Type) bool { return isStreamT(t) || isReaderT(t) }) {
			continue
		}
		// the client a constructor makes is its own
		sends := reachesCall(c.P, root, func(n string) bool { return strings.HasSuffix(n, ").ReadMsg") })
		h := &Hooks{NoJoin: true}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			if isLock(ch) {
				c.Rule("lock", rLck)
				c.Check(!st.Has("held"), st, c.whereIn(fr, site), "locked once", "the lock is taken while it is held, which never ends")
				st.Set("held", "1")
			}
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			if isLock(ch) {
				st.Del("held")
				return
			}
			if d := strip(ch); d.Op == OCall && d.S == "(context.Context).Done" {
				st.Set("done:"+strconv.Itoa(strip(d.Args[0]).ID), "1")
			}
			if st.Has("ch:" + strconv.Itoa(strip(ch).ID)) {
				st.Set("waited", "1")
			}
		}
		h.Close = func(st *State, fr *Frame, site ssa.Instruction, ch *Term) {
			if inGo(fr) {
				st.Set("ch:"+strconv.Itoa(strip(ch).ID), "1")
			}
		}
		access := func(st *State, fr *Frame, site ssa.Instruction, addr *Term) {
			a := strip(addr)
			if a.Op != OFieldAddr || strip(a.Args[0]).Op != OParam {
				return
			}
			if !isStreamT(a.Typ) && !isReaderT(a.Typ) {
				return
			}
			accesses++
			c.Rule("lock", rLck)
			c.Check(st.Has("held") && !inGo(fr), st, c.whereIn(fr, site), "used under the lock", "the stream is used without holding the lock")
		}
		h.Load = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) { access(st, fr, site, addr) }
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) {
			access(st, fr, site, addr)
			a := strip(addr)
			if a.Op == OFieldAddr && strip(a.Args[0]).Op == OParam && val != nil && strip(val).Op == ONil {
				if isStreamT(a.Typ) && st.Has("reset") {
					st.Del("used")
				}
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if cd.Op != OBin || cd.S != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				x := strip(cd.Args[i])
				if strip(cd.Args[1-i]).Op != ONil || !isErrRes(x) {
					continue
				}
				call := callOf(x)
				if call == nil {
					continue
				}
				if v && call.S == "(context.Context).Err" && st.Has("done:"+strconv.Itoa(strip(call.Args[0]).ID)) {
					st.dead = true // the error of a context that is done
				}
				b := map[bool]string{true: "ok", false: "failed"}[v]
				switch {
				case strings.HasSuffix(call.S, ").WriteMsg"):
					st.Set("write", b)
				case strings.HasSuffix(call.S, ").Flush"):
					st.Set("flush", b)
				case strings.HasSuffix(call.S, ").ReadMsg"):
					st.Set("read", b)
				}
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			if ev.Inline {
				return
			}
			where := c.whereIn(ev.Fr, ev.Site)
			switch {
			case strings.HasSuffix(ev.Name, ").WriteMsg"):
				writes++
				c.Rule("pairing", rPai)
				ok := false
				for _, a := range ev.Args {
					ok = ok || strip(a).Op == OParam && strip(a).I > 0
				}
				c.Check(ok && st.Has("held"), st, where, "the request given", "what is sent is not the request given, or the lock is not held")
				st.Set("used", "1")
			case strings.HasSuffix(ev.Name, ").ReadMsg"):
				reads++
				c.Rule("pairing", rPai)
				c.Check(st.Get("flush") == "ok" && st.Has("held"), st, where, "read after the request was sent", "a response is read although the request was not sent, or the lock is not held")
			case strings.HasSuffix(ev.Name, ").Reset") && len(ev.Args) > 0 && isStreamT(strip(ev.Args[0]).Typ), strings.HasSuffix(ev.Name, ").Close") && len(ev.Args) > 0 && isStreamT(strip(ev.Args[0]).Typ):
				st.Set("reset", "1")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, r []*Term) {
			where := c.whereIn(fr, site)
			e := fr.E
			nex++
			c.Rule("lock", rLck)
			c.Check(!st.Has("held"), st, where, "released at the end", "the lock is not released")
			if len(r) == 0 {
				return
			}
			er := r[len(r)-1]
			c.Rule("pairing", rPai)
			canFail := e.Assume(st.clone(), e.eq(er, e.Nil()), false)
			canOK := e.Assume(st.clone(), e.eq(er, e.Nil()), true)
			if canFail && st.Has("used") {
				c.Check(canOK && !sends, st, where, "dropped after a failure", "a failure is reported but the stream, on which a response may still arrive, is kept")
			}
			if canOK && sends {
				c.Check(st.Get("write") == "ok" && st.Get("flush") == "ok" && st.Get("read") == "ok" && st.Has("waited"), st, where, "success only after the response", "success is reported although the response was not received")
			}
		}
		c.Run(root, h)
	}
	c.Rule("lock", rLck)
	c.AtLeast(3, accesses, "uses of the stream")
	c.Rule("pairing", rPai)
	c.AtLeast(1, writes, "requests written")
	c.AtLeast(1, reads, "responses read")
	c.AtLeast(2, nex, "exits")
}

// touches: the function or one it reaches in its package has a field access
// of a matching type.
func touches(p *Prog, f *ssa.Function, m func(types.Type) bool) bool {
	fs := map[*ssa.Function]bool{f: true}
	for g := range p.reach(f) {
		if fnPkgPath(g) == fnPkgPath(f) {
			fs[g] = true
		}
	}
	for g := range fs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if pt, ok := fa.Type().Underlying().(*types.Pointer); ok && m(pt.Elem()) {
						return true
					}
				}
			}
		}
	}
	return false
}
