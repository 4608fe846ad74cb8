package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P01", ruleP01)
	register("P02", ruleP02)
}

// ops follows the operations of a request: calls that can fail. For each it
// knows whether the outcome was looked at, and what it was.
type ops struct {
	c *Ctx
	// Main: a call that carries out the request.
	Main func(ev *CallEv) bool
}

// notOps: calls whose error says nothing about the outcome of the request.
func notOp(n string) bool {
	switch {
	case strings.HasSuffix(n, ").Write"), strings.HasPrefix(n, "fmt."), strings.HasSuffix(n, ").Close"), strings.HasSuffix(n, ".Close"),
		strings.Contains(n, "stats.Record"), strings.HasPrefix(n, "errors."), strings.HasSuffix(n, "/api/v0.NewError"), n == "(context.Context).Err",
		strings.HasPrefix(n, "(error)."), strings.HasSuffix(n, ").Unwrap"), strings.HasSuffix(n, ".HandleError"), strings.HasSuffix(n, ").Reset"),
		strings.Contains(n, "context."), strings.Contains(n, "/go-log") && !strings.Contains(n, ".SetLogLevel"), strings.Contains(n, "zap"), strings.HasSuffix(n, "api/v0.EncodeError"):
		return true
	}
	return false
}

// errResult: the error result of an opaque call.
func errResult(ev *CallEv) *Term {
	sg := ev.Site.Common().Signature()
	n := sg.Results().Len()
	if n == 0 || !isErrorType(sg.Results().At(n-1).Type()) {
		return nil
	}
	return ev.ResultN(n - 1)
}

// errUsed: the error result of the call is looked at by the program.
func errUsed(call ssa.CallInstruction) bool {
	v, ok := call.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return false
	}
	if _, tuple := v.Type().(*types.Tuple); !tuple {
		return len(*v.Referrers()) > 0
	}
	for _, r := range *v.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && isErrorType(x.Type()) && x.Referrers() != nil && len(*x.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// call notes a call; main tells that it is an operation that carries out the
// request.
func (o *ops) call(st *State, ev *CallEv) (main bool) {
	if ev.Inline {
		return false
	}
	main = o.Main(ev)
	if notOp(ev.Name) || ev.Defer || ev.Go {
		return main
	}
	r := errResult(ev)
	if r == nil {
		if main {
			st.Set("main", "1")
		}
		return main
	}
	if ev.Name == "encoding/json.Marshal" && !errUsed(ev.Site) {
		return main
	}
	st.Set("op:"+strconv.Itoa(r.ID), "?"+callee(ev.Name))
	if main {
		st.Set("main", "1")
		st.Set("lastmain", strconv.Itoa(r.ID))
	}
	return main
}

// recv notes that an outcome is received from a channel.
func (o *ops) recv(st *State, site ssa.Instruction, ch *Term) {
	if ch.Typ == nil {
		return
	}
	if cht, ok := ch.Typ.Underlying().(*types.Chan); ok && isErrorType(cht.Elem()) {
		st.Set("op:r"+o.c.at(site), "?what is received")
	}
}

// assume notes the outcome of operations.
func (o *ops) assume(st *State, cond *Term, val bool) {
	cd, v := bare(cond, val)
	if cd.Op != OBin || cd.S != "==" {
		return
	}
	for i := 0; i < 2; i++ {
		x := strip(cd.Args[i])
		if strip(cd.Args[1-i]).Op != ONil {
			continue
		}
		if isErrRecv(x) {
			for x.Op == OExtract {
				x = x.Args[0]
			}
			st.Set("op:r"+o.c.at(x.Site), map[bool]string{true: "ok", false: "failed"}[v])
			continue
		}
		k := "op:" + strconv.Itoa(x.ID)
		if !st.Has(k) {
			continue
		}
		if v {
			st.Set(k, "ok")
		} else {
			st.Set(k, "failed")
		}
	}
}

// isErrRecv: an error received from a channel.
func isErrRecv(x *Term) bool {
	for x.Op == OExtract && x.I == 0 {
		x = x.Args[0]
	}
	return x.Op == ORecv && x.Typ != nil && isErrorType(x.Typ)
}

func opKeys(st *State) []string {
	var out []string
	for k := range st.flags {
		if strings.HasPrefix(k, "op:") {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// undone: an operation that failed, or whose outcome was not looked at.
func (o *ops) undone(st *State) string {
	for _, k := range opKeys(st) {
		if v := st.Get(k); v != "ok" {
			return strings.TrimPrefix(v, "?")
		}
	}
	return ""
}

func (o *ops) failed(st *State) bool {
	for _, k := range opKeys(st) {
		if st.Get(k) == "failed" {
			return true
		}
	}
	return false
}

// moduleOp: a call into the parts of the module that carry out requests.
func moduleOp(ev *CallEv) bool {
	n := ev.Name
	for _, p := range []string{"/server/finder/handler.", "/server/ingest/handler.", "/internal/registry.Registry)", "/internal/ingest.Ingester)"} {
		if strings.Contains(n, modPath+p) && !strings.Contains(n, "handler.New") {
			return true
		}
	}
	return idxCall(n, "Put") || idxCall(n, "Remove") || idxCall(n, "RemoveProvider") || idxCall(n, "RemoveProviderContext")
}

func isHTTPHandler(f *ssa.Function) bool {
	ps := f.Signature.Params()
	return f.Signature.Results().Len() == 0 && ps.Len() == 2 && typeIs(ps.At(0).Type(), "net/http.ResponseWriter") && strings.HasSuffix(ps.At(1).Type().String(), "net/http.Request")
}

func isWriter(t *Term) bool {
	t = strip(t)
	return t != nil && t.Typ != nil && typeIs(t.Typ, "net/http.ResponseWriter") && t.Op == OParam
}

func ruleP02(c *Ctx) {
	const (
		rOne = "a request is answered with one status; no header is set after it, and nothing follows an error status"
		rSuc = "success is answered only if every step of the request succeeded, and an error whenever one failed"
		rErr = "an error is answered only if something failed or nothing was found"
		r404 = "not found is answered exactly if nothing was found"
		rBod = "the body of a successful answer is what the operation gave"
		rReq = "an operation is given the content of the request"
	)
	nh, nok, nerr, nbody, nreq := 0, 0, 0, 0, 0
	for _, rel := range []string{"server/finder/http", "server/ingest/http", "server/admin/http"} {
		for _, root := range c.P.PkgFuncs(rel) {
			if !isHTTPHandler(root) || c.P.unused(root) && root.Parent() == nil {
				continue
			}
			nh++
			o := &ops{c: c, Main: moduleOp}
			h := &Hooks{NoJoin: true}
			h.Go = func(st *State, ev *CallEv) GoMode { return GoSkip }
			h.Opaque = func(f *ssa.Function) bool { return f.Name() == "HandleError" }
			answer := func(st *State, where, k string) {
				c.Rule("one status", rOne)
				c.Check(!st.Has("resp"), st, where, "one status per request", "a status is sent although one was sent before")
				st.Set("resp", k)
			}
			success := func(st *State, where string) {
				nok++
				c.Rule("success", rSuc)
				u := o.undone(st)
				c.Check(u == "", st, where, "success only after success", "success is answered although "+u+" failed or its outcome was not looked at")
				c.Rule("not found", r404)
				if st.Has("finds") {
					c.Check(st.Get("empty") == "0", st, where, "not found if nothing was found", "success is answered although nothing may have been found")
				}
			}
			failure := func(st *State, where string, code *Term) {
				nerr++
				c.Rule("errors", rErr)
				c.Check(!st.Has("main") || o.failed(st) || st.Get("empty") == "1", st, where, "errors only after a failure", "an error is answered although the operation succeeded")
				if n, ok := constInt(code); ok && st.Has("finds") && !o.failed(st) {
					c.Rule("not found", r404)
					c.Check(n == 404 && st.Get("empty") == "1", st, where, "not found only if nothing was found", "not found is answered although something was found, or another status although nothing was found")
				}
			}
			status := func(st *State, where string, code *Term) {
				n, known := constInt(code)
				switch {
				case known && n < 400:
					answer(st, where, "ok")
					success(st, where)
				default:
					answer(st, where, "err")
					failure(st, where, code)
				}
			}
			h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
				o.assume(st, cond, val)
				cd, v := bare(cond, val)
				if e, ok := emptyTest(cd, v, func(x *Term) bool {
					x = strip(x)
					if x.Op == OField {
						x = strip(x.Args[0])
					}
					return x.Op == OExtract && x.Args[0].Op == OCall && (x.Args[0].S == nFind || strings.HasSuffix(x.Args[0].S, "FinderHandler).GetProvider"))
				}); ok {
					st.Set("empty", map[bool]string{true: "1", false: "0"}[e])
				}
				if cd.Op == OBin && cd.S == "==" {
					for i := 0; i < 2; i++ {
						x := strip(cd.Args[i])
						if strip(cd.Args[1-i]).Op == ONil && x.Op == OExtract && x.I == 0 && x.Args[0].Op == OCall && strings.HasSuffix(x.Args[0].S, "FinderHandler).GetProvider") {
							st.Set("empty", map[bool]string{true: "1", false: "0"}[v])
						}
					}
				}
			}
			h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
				o.recv(st, site, ch)
			}
			h.Call = func(st *State, ev *CallEv) {
				where := c.whereIn(ev.Fr, ev.Site)
				if ev.Inline {
					return
				}
				if len(ev.Args) > 0 && isWriter(ev.Args[0]) {
					switch {
					case strings.HasSuffix(ev.Name, "ResponseWriter).WriteHeader"):
						status(st, where, ev.Args[1])
						return
					case ev.Name == "net/http.Error":
						n, known := constInt(ev.Args[2])
						c.Rule("one status", rOne)
						c.Check(!known || n >= 400, st, where, "errors have error statuses", "an error is answered with a success status")
						answer(st, where, "err")
						failure(st, where, ev.Args[2])
						return
					case strings.HasSuffix(ev.Name, ".HandleError"):
						answer(st, where, "err")
						failure(st, where, nil)
						return
					case strings.HasSuffix(ev.Name, "ResponseWriter).Write"), strings.HasPrefix(ev.Name, "fmt.Fprint"):
						c.Rule("one status", rOne)
						c.Check(st.Get("resp") != "err", st, where, "nothing follows an error", "something is written after an error was answered")
						if !st.Has("resp") {
							answer(st, where, "ok")
							success(st, where)
						}
						if strings.HasSuffix(ev.Name, ".Write") && st.Has("data") {
							nbody++
							c.Rule("body", rBod)
							b := strip(ev.Args[1])
							ok := false
							for b.Op == OExtract && b.I == 0 && b.Args[0].Op == OCall {
								call := b.Args[0]
								if strings.Contains(call.S, "/server/finder/handler.") {
									ok = true
									break
								}
								if !strings.Contains(call.S, "Marshal") || len(call.Args) == 0 {
									break
								}
								b = strip(call.Args[0])
							}
							c.Check(ok, st, where, "the answer of the operation", "the body is not what the operation gave")
						}
						return
					case strings.HasSuffix(ev.Name, "ResponseWriter).Header"):
						return
					default: // someone else answers
						answer(st, where, "ok")
						return
					}
				}
				if strings.HasPrefix(ev.Name, "(net/http.Header).") && len(ev.Args) > 0 && anySub(ev.Args[0], isWriter) && !strings.HasSuffix(ev.Name, ".Get") {
					c.Rule("one status", rOne)
					c.Check(!st.Has("resp"), st, where, "headers before the status", "a header is set after the status was sent, which has no effect")
					return
				}
				if o.call(st, ev) {
					c.Rule("one status", rOne)
					c.Check(st.Get("resp") != "err", st, where, "nothing follows an error", "the operation is carried out although an error was answered")
					if strings.Contains(ev.Name, "/server/finder/handler.") {
						st.Set("data", "1")
						st.Del("empty")
						if ev.Name == nFind || strings.HasSuffix(ev.Name, ").GetProvider") {
							st.Set("finds", "1")
						}
					}
					for _, a := range ev.Args[1:] {
						if a.Typ == nil {
							continue
						}
						s := strip(a)
						switch {
						case a.Typ.String() == "[]byte" && strings.Contains(ev.Name, "/server/ingest/handler."):
							nreq++
							c.Rule("request", rReq)
							ok := s.Op == OExtract && s.I == 0 && s.Args[0].Op == OCall && strings.HasSuffix(s.Args[0].S, ".ReadAll") && anySub(s.Args[0], func(x *Term) bool { return x.Op == OField && x.S == "Body" })
							c.Check(ok, st, where, "the body of the request", "the operation is not given the body of the request")
						case typeIs(a.Typ, tPeerID) && strings.HasSuffix(ev.Name, ").GetProvider"):
							nreq++
							c.Rule("request", rReq)
							ok := s.Op == OExtract && s.I == 0 && s.Args[0].Op == OCall && s.Args[0].S == nPeerDecode && routeVar(s.Args[0].Args[0], "providerid")
							c.Check(ok, st, where, "the provider of the request", "the operation is not given the provider named in the request")
						}
					}
				}
			}
			h.Exit = func(st *State, fr *Frame, site ssa.Instruction, r []*Term) {
				if !st.Has("resp") {
					success(st, c.whereIn(fr, site))
				}
			}
			c.Run(root, h, rel, "internal/httpserver")
		}
	}
	errorStatuses(c)
	c.Rule("success", rSuc)
	c.AtLeast(12, nh, "HTTP handlers")
	c.AtLeast(10, nok, "successful answers")
	c.Rule("errors", rErr)
	c.AtLeast(10, nerr, "error answers")
	c.Rule("body", rBod)
	c.AtLeast(3, nbody, "bodies")
	c.Rule("request", rReq)
	c.AtLeast(3, nreq, "operations given the content of the request")
}

// errorStatuses: how errors become statuses, for both protocols.
func errorStatuses(c *Ctx) {
	const rMap = "an error that carries a status is answered with that status, any other as a bad request; the text of an internal error is not told to clients, that of a client's error is"
	n := 0
	for _, rel := range []string{"internal/httpserver", "internal/libp2pserver"} {
		http := rel == "internal/httpserver"
		for _, root := range pkgRoots(c.P, rel) {
			pe := -1
			for i, q := range root.Params {
				if isErrorType(q.Type()) {
					pe = i
				}
			}
			if pe < 0 || !reachesCall(c.P, root, func(n string) bool { return n == "errors.As" }) {
				continue
			}
			h := &Hooks{NoJoin: true}
			h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
				cd, v := bare(cond, val)
				b := map[bool]string{true: "1", false: "0"}
				switch {
				case cd.Op == OBin && cd.S == "<" && isStatus(cd.Args[0]) && isConstN(cd.Args[1], 500):
					st.Set("srv", b[!v])
				case cd.Op == OBin && cd.S == "<" && isStatus(cd.Args[1]) && isConstN(cd.Args[0], 499):
					st.Set("srv", b[v])
				}
			}
			h.As = func(st *State, ev *CallEv, is bool) {
				if a := strip(ev.Args[0]); a.Op == OParam && a.I == pe {
					st.Set("as", map[bool]string{true: "1", false: "0"}[is])
				}
			}
			hasText := func(t *Term) bool {
				return t != nil && anySub(t, func(x *Term) bool { return x.Op == OCall && strings.HasSuffix(x.S, ").Error") })
			}
			check := func(st *State, where string, code *Term, text, noText bool) {
				n++
				c.Rule("statuses", rMap)
				switch {
				case st.Get("as") == "1":
					c.Check(isStatus(code), st, where, "the status the error carries", "an error is answered with another status than the one it carries")
					c.Check(st.Get("srv") == "1" && noText || st.Get("srv") == "0" && text, st, where, "text of client errors only", "the text of an internal error is told to the client, or that of a client error is not")
				case st.Get("as") == "0":
					c.Check(isConstN(code, 400) && text, st, where, "other errors are bad requests", "an error without a status is not answered as a bad request with its text")
				default:
					c.Check(false, st, where, "the status the error carries", "an error is answered without looking for the status it carries")
				}
			}
			h.Call = func(st *State, ev *CallEv) {
				if http && ev.Name == "net/http.Error" {
					c.Rule("statuses", rMap)
					c.Check(!st.Has("sent"), st, c.whereIn(ev.Fr, ev.Site), "one answer", "an error is answered twice")
					st.Set("sent", "1")
					check(st, c.whereIn(ev.Fr, ev.Site), ev.Args[2], hasText(ev.Args[1]), isStrConst(strip(ev.Args[1]), ""))
				}
			}
			h.Exit = func(st *State, fr *Frame, site ssa.Instruction, r []*Term) {
				where := c.whereIn(fr, site)
				if http {
					c.Rule("statuses", rMap)
					c.Check(st.Has("sent"), st, where, "errors are answered", "an error is not answered")
					return
				}
				if len(r) != 1 {
					return
				}
				x := strip(r[0])
				switch {
				case x.Op == OCall && strings.HasSuffix(x.S, "/api/v0.NewError"):
					a := strip(x.Args[0])
					check(st, where, x.Args[1], a.Op == OParam && a.I == pe, a.Op == ONil)
				default: // the API error itself, with its status and text
					n++
					c.Rule("statuses", rMap)
					c.Check(st.Get("as") == "1" && st.Get("srv") == "0" && x.Op != ONil, st, where, "text of client errors only", "the text of an internal error is told to the client")
				}
			}
			c.Run(root, h)
		}
	}
	c.Rule("statuses", rMap)
	c.AtLeast(5, n, "answers to errors")
}

func isStatus(t *Term) bool {
	t = strip(t)
	return t != nil && t.Op == OCall && strings.HasSuffix(t.S, "/api/v0.Error).Status")
}

// msgTypes: the message types of a protocol, by value.
func msgTypes(p *Prog, rel string) map[int64]string {
	out := map[int64]string{}
	pk := p.Types[modPath+"/"+rel]
	if pk == nil {
		return out
	}
	for _, n := range pk.Scope().Names() {
		k, ok := pk.Scope().Lookup(n).(*types.Const)
		if !ok || !strings.HasSuffix(k.Type().String(), "_MessageType") {
			continue
		}
		if v, ok := constant.Int64Val(k.Val()); ok {
			name := n
			if i := strings.Index(n, "Message_"); i >= 0 {
				name = n[i+len("Message_"):]
			}
			out[v] = name
		}
	}
	return out
}

// camel: GET_PROVIDER becomes GetProvider.
func camel(s string) string {
	out := ""
	for _, w := range strings.Split(s, "_") {
		if w != "" {
			out += w[:1] + strings.ToLower(w[1:])
		}
	}
	return out
}

func ruleP01(c *Ctx) {
	const (
		rTyp = "a request is carried out by the operation its type names, with the data it carries, and answered with the response type of that request"
		rSuc = "a request is answered as successful exactly if every step succeeded, with what the operation gave; otherwise with an error response that carries the status and text of the error"
		rUns = "a message that cannot be read, or of an unknown type, is not answered as if it were carried out"
	)
	nok, nerr, nops, nrej := 0, 0, 0, 0
	seen := map[string]bool{}
	for _, pr := range [][2]string{{"server/finder/libp2p", "api/v0/finder/pb"}, {"server/ingest/libp2p", "api/v0/ingest/pb"}} {
		rel := pr[0]
		mt := msgTypes(c.P, pr[1])
		byName := map[string]int64{}
		for v, n := range mt {
			byName[n] = v
		}
		for _, root := range c.P.PkgFuncs(rel) {
			if root.Name() != "HandleMessage" || root.Signature.Results().Len() != 2 {
				continue
			}
			o := &ops{c: c, Main: moduleOp}
			h := &Hooks{NoJoin: true, Keep: isErrRes}
			isType := func(t *Term) bool {
				t = strip(t)
				return t != nil && t.Typ != nil && strings.HasSuffix(t.Typ.String(), "_MessageType") && (t.Op == OCall && strings.HasSuffix(t.S, ").GetType") || t.Op == OField && t.S == "Type")
			}
			isData := func(t *Term) bool {
				t = strip(t)
				return t != nil && (t.Op == OCall && strings.HasSuffix(t.S, ").GetData") || t.Op == OField && t.S == "Data")
			}
			h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
				o.assume(st, cond, val)
				cd, v := bare(cond, val)
				if cd.Op == OBin && cd.S == "==" && v {
					for i := 0; i < 2; i++ {
						if n, ok := constInt(cd.Args[1-i]); ok && isType(cd.Args[i]) {
							st.Set("type", mt[n])
						}
					}
				}
				if e, ok := emptyTest(cd, v, func(x *Term) bool {
					x = strip(x)
					return x.Op == OExtract && x.Args[0].Op == OCall && strings.HasSuffix(x.Args[0].S, "FinderHandler).GetProvider")
				}); ok {
					st.Set("empty", map[bool]string{true: "1", false: "0"}[e])
				}
				if cd.Op == OBin && cd.S == "==" {
					for i := 0; i < 2; i++ {
						x := strip(cd.Args[i])
						if strip(cd.Args[1-i]).Op == ONil && x.Op == OExtract && x.I == 0 && x.Args[0].Op == OCall && strings.HasSuffix(x.Args[0].S, "FinderHandler).GetProvider") {
							st.Set("empty", map[bool]string{true: "1", false: "0"}[v])
						}
					}
				}
			}
			h.Call = func(st *State, ev *CallEv) {
				if ev.Inline {
					return
				}
				where := c.whereIn(ev.Fr, ev.Site)
				if strings.HasSuffix(ev.Name, "Message).Unmarshal") {
					c.Rule("unsupported", rUns)
					c.Check(strip(ev.Args[1]).Op == OParam, st, where, "the message received", "what is read is not the message received")
				}
				if !o.call(st, ev) {
					return
				}
				nops++
				c.Rule("operation", rTyp)
				op := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
				seen[st.Get("type")] = true
				c.Check(camel(st.Get("type")) == op, st, where, "the operation the type names", "a message of type "+st.Get("type")+" is carried out by "+op)
				if st.Get("type") == "GET_PROVIDER" {
					st.Set("finds", "1")
				}
				for _, a := range ev.Args[1:] {
					if a.Typ != nil && a.Typ.String() == "[]byte" {
						c.Check(isData(a), st, where, "the data of the message", "the operation is not given the data of the message")
					}
				}
			}
			h.Exit = func(st *State, fr *Frame, site ssa.Instruction, r []*Term) {
				where := c.whereIn(fr, site)
				e := fr.E
				if strip(r[0]).Op == ONil {
					nrej++
					c.Rule("unsupported", rUns)
					c.Check(!e.Assume(st.clone(), e.eq(r[1], e.Nil()), true), st, where, "no answer only with an error", "a message is neither answered nor refused")
					c.Check(!st.Has("main"), st, where, "no answer only if nothing was done", "a message is refused although it was carried out")
					return
				}
				c.Rule("unsupported", rUns)
				ty := st.Get("type")
				c.Check(ty != "" && !strings.HasSuffix(ty, "_RESPONSE"), st, where, "known types only", "a message of an unknown type is answered")
				if strip(r[1]).Op != ONil {
					return // the message is refused
				}
				rt, known := constInt(e.pick(st, r[0], "Type"))
				data := strip(e.pick(st, r[0], "Data"))
				c.Rule("answer", rSuc)
				if !known {
					c.Check(false, st, where, "the type of the response", "the response type is not that of the request")
					return
				}
				isErr := data != nil && data.Op == OCall && strings.HasSuffix(data.S, "api/v0.EncodeError")
				switch {
				case mt[rt] == "ERROR_RESPONSE":
					nerr++
					he := (*Term)(nil)
					if isErr {
						he = strip(data.Args[0])
					}
					c.Check(he != nil && he.Op == OCall && strings.HasSuffix(he.S, "libp2pserver.HandleError"), st, where, "the error in the response", "an error response does not carry the error")
					if he != nil && he.Op == OCall && len(he.Args) > 0 {
						c.Check(!e.Assume(st.clone(), e.eq(he.Args[0], e.Nil()), true), st, where, "an error occurred", "an error response is given although no error occurred")
					}
					c.Check(!st.Has("main") || o.failed(st) || st.Get("empty") == "1", st, where, "errors only after a failure", "an error response is given although the operation succeeded")
				default:
					nok++
					u := o.undone(st)
					c.Check(u == "" && !isErr && (st.Get("empty") == "0" || !st.Has("finds")), st, where, "success only after success", "success is answered although "+u+" failed, its outcome was not looked at, or nothing was found")
					c.Check(st.Has("main"), st, where, "success only if carried out", "success is answered although nothing was done")
					c.Rule("operation", rTyp)
					c.Check(mt[rt] == ty+"_RESPONSE", st, where, "the type of the response", "a message of type "+ty+" is answered with "+mt[rt])
					if strings.HasPrefix(rel, "server/finder") {
						b := data
						ok := false
						for b != nil && b.Op == OExtract && b.I == 0 && b.Args[0].Op == OCall {
							call := b.Args[0]
							if strings.Contains(call.S, "/server/finder/handler.") {
								ok = true
								break
							}
							if !strings.Contains(call.S, "Marshal") || len(call.Args) == 0 {
								break
							}
							b = strip(call.Args[0])
						}
						c.Rule("answer", rSuc)
						c.Check(ok, st, where, "the answer of the operation", "the response does not carry what the operation gave")
					}
				}
			}
			c.Run(root, h)
		}
		// every operation can be asked for
		for n := range byName {
			if strings.HasSuffix(n, "_RESPONSE") {
				continue
			}
			c.Rule("operation", rTyp)
			if n != "REMOVE_PROVIDER" {
				c.Check(seen[n], nil, rel, "requests of type "+n, "messages of type "+n+" are not carried out")
			}
		}
	}
	streams(c)
	c.Rule("operation", rTyp)
	c.AtLeast(6, nops, "operations")
	c.Rule("answer", rSuc)
	c.AtLeast(6, nok, "successful responses")
	c.AtLeast(6, nerr, "error responses")
	c.Rule("unsupported", rUns)
	c.AtLeast(2, nrej, "refusals")
}

// streams: the server loop of a libp2p stream.
func streams(c *Ctx) {
	const (
		rOne = "each message read from a stream is handled once, with its own bytes and sender, and answered by its own response before the next is read"
		rEnd = "a stream is closed or reset exactly once when no more messages are handled, and is given up after a failure to read or write"
	)
	h0, reads, handles, writes, ends := 0, 0, 0, 0, 0
	isStream := func(t types.Type) bool { return strings.HasSuffix(t.String(), "network.Stream") }
	called := map[*ssa.Function]bool{}
	for _, f := range c.P.PkgFuncs("internal/libp2pserver") {
		for _, call := range callsIn(f) {
			if g := call.Common().StaticCallee(); g != nil && f.Synthetic == "" {
				called[g] = true
			}
		}
	}
	for _, root := range c.P.PkgFuncs("internal/libp2pserver") {
		if called[root] || root.Synthetic != "" || root.Parent() != nil {
			continue
		}
		has := false
		for _, q := range root.Params {
			has = has || isStream(q.Type())
		}
		if !has {
			continue
		}
		h0++
		h := &Hooks{}
		errIs := func(cd *Term, m func(*Term) bool) (v, ok bool) {
			if cd.Op != OBin || cd.S != "==" {
				return false, false
			}
			for i := 0; i < 2; i++ {
				x := strip(cd.Args[i])
				if strip(cd.Args[1-i]).Op != ONil || !isErrRes(x) {
					continue
				}
				if x.Op == OExtract {
					x = strip(x.Args[0])
				}
				if x.Op == OCall && m(x) {
					return true, true
				}
			}
			return false, false
		}
		suffix := func(s string) func(*Term) bool { return func(x *Term) bool { return strings.HasSuffix(x.S, s) } }
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if _, ok := errIs(cd, suffix(").ReadMsg")); ok {
				st.Set("s", map[bool]string{true: "read", false: "dead"}[v])
			}
			if _, ok := errIs(cd, suffix(").HandleMessage")); ok {
				st.Set("s", map[bool]string{true: "handled", false: "dead"}[v])
			}
			if _, ok := errIs(cd, suffix(").WriteMsg")); ok && !v {
				st.Set("s", "dead")
			}
			if _, ok := errIs(cd, suffix(").Flush")); ok {
				st.Set("s", map[bool]string{true: "idle", false: "dead"}[v])
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			if ev.Inline {
				return
			}
			where := c.whereIn(ev.Fr, ev.Site)
			switch {
			case strings.HasSuffix(ev.Name, ").ReadMsg"):
				reads++
				s := st.Get("s")
				c.Rule("one response", rOne)
				c.Check((s == "" || s == "idle") && !st.Has("ended"), st, where, "answered before the next is read", "the next message is read although the last was not answered, or the stream failed")
				st.Set("s", "reading")
				st.Set("msg", strconv.Itoa(ev.ResultN(0).ID))
				st.Del("released")
			case strings.HasSuffix(ev.Name, ").HandleMessage"):
				handles++
				c.Rule("one response", rOne)
				c.Check(st.Get("s") == "read", st, where, "handled once", "a message is handled that was not read, or twice")
				ok := false
				for _, a := range ev.Args {
					ok = ok || strconv.Itoa(strip(a).ID) == st.Get("msg")
				}
				c.Check(ok && !st.Has("released"), st, where, "its own bytes", "a message is handled with bytes that are not, or no longer, its own")
				peerOK := false
				for _, a := range ev.Args {
					peerOK = peerOK || anySub(a, func(x *Term) bool { return x.Op == OCall && strings.HasSuffix(x.S, ").RemotePeer") })
				}
				c.Check(peerOK, st, where, "its sender", "a message is handled as if it came from another peer")
				st.Set("s", "handling")
				st.Set("resp", strconv.Itoa(ev.ResultN(0).ID))
			case strings.HasSuffix(ev.Name, ").ReleaseMsg"):
				st.Set("released", "1")
			case strings.HasSuffix(ev.Name, ").WriteMsg"):
				writes++
				c.Rule("one response", rOne)
				ok := false
				for _, a := range ev.Args {
					ok = ok || strconv.Itoa(strip(a).ID) == st.Get("resp")
				}
				c.Check(st.Get("s") == "handled" && ok, st, where, "its own response", "what is written is not the response of the message handled last")
				st.Set("s", "writing")
			case strings.HasSuffix(ev.Name, ").Flush"):
				if st.Get("s") != "writing" {
					c.Rule("one response", rOne)
					c.Check(false, st, where, "its own response", "what is sent is not a response")
				}
			case (strings.HasSuffix(ev.Name, ").Close") || strings.HasSuffix(ev.Name, ").Reset")) && strip(ev.Args[0]).Typ != nil && isStream(strip(ev.Args[0]).Typ) && !inGo(ev.Fr):
				ends++
				c.Rule("end", rEnd)
				c.Check(!st.Has("ended"), st, where, "ended once", "a stream is ended twice")
				st.Set("ended", "1")
			}
		}
		h.NoInvoke = true
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, r []*Term) {
			c.Rule("end", rEnd)
			c.Check(st.Has("ended"), st, c.whereIn(fr, site), "streams are ended", "a stream is left open")
		}
		c.Run(root, h)
	}
	c.Rule("one response", rOne)
	c.AtLeast(1, h0, "stream handlers")
	c.AtLeast(1, reads, "reads")
	c.AtLeast(1, handles, "messages handled")
	c.AtLeast(1, writes, "responses written")
	c.Rule("end", rEnd)
	c.AtLeast(1, ends, "ends of streams")
}
