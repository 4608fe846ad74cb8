package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D06", ruleD06)
}

const (
	nCidDecode = "github.com/ipfs/go-cid.Decode"
	nCidHash   = "(github.com/ipfs/go-cid.Cid).Hash"
	nCidDef    = "(github.com/ipfs/go-cid.Cid).Defined"
	nScan      = "(*bufio.Scanner).Scan"
	nScanErr   = "(*bufio.Scanner).Err"
)

func chanOf(t types.Type, elem func(types.Type) bool) bool {
	if t == nil {
		return false
	}
	ch, ok := t.Underlying().(*types.Chan)
	return ok && elem(ch.Elem())
}

func isMhChan(t types.Type) bool {
	return chanOf(t, func(e types.Type) bool { return typeIs(e, tMultihash) })
}
func isErrChan(t types.Type) bool { return chanOf(t, isErrorType) }

// lineRead: a call that reads the next line.
func lineRead(n string) bool {
	switch n {
	case "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadLine":
		return true
	}
	return false
}

func isEOF(t *Term) bool {
	t = strip(t)
	for t != nil && t.Op == ODeref {
		t = strip(t.Args[0])
	}
	return t != nil && t.Op == OGlobal && strings.HasSuffix(t.S, "io.EOF")
}

// importers: the functions that read a file and send multihashes.
func importers(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range exportedRoots(p, "internal/importer") {
		for _, pr := range f.Params {
			if isMhChan(pr.Type()) {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

func ruleD06(c *Ctx) {
	const (
		rAll = "of every line of the file, the multihash of the CID it holds is sent; only an empty line, one that is not a valid record or CID, or a record of another type, is left out"
		rOnl = "only multihashes of CIDs decoded from the file are sent"
		rEnd = "the channel of multihashes and that of the error are closed exactly once, on every path; at most one error is sent"
		rErr = "a failure to read, a canceled context, and a file with no CIDs are reported; the end of the file is not an error"
		rCtx = "sending ends when the context is canceled"
		rHnd = "an import reads the requested file, and puts each multihash read under the provider, context ID and metadata of the request"
		rBat = "everything that is added to a batch of multihashes is put into the index"
		rRes = "success is answered only after the whole file was read without an error and everything was put into the index"
	)
	p := c.P
	fns := importers(p)
	c.Rule("lines", rAll)
	c.AtLeast(2, len(fns), "readers of import files")
	for _, root := range fns {
		root := root
		outI, errI := -1, -1
		for i, pr := range root.Params {
			if isMhChan(pr.Type()) {
				outI = i
			}
			if isErrChan(pr.Type()) {
				errI = i
			}
		}
		if errI < 0 {
			c.Bad(nil, p.Loc(root.Pos()), "error of "+shortFn(root), "there is no channel for errors")
			continue
		}
		h := &Hooks{Keep: isErrRes}
		// fields of the record that hold a CID
		cidFields := map[string]bool{}
		for _, f := range p.PkgFuncs("internal/importer") {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok {
						if st, ok := derefType(a.Type()).Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								n := st.Field(i).Name()
								if strings.HasPrefix(n, "DagCid") && st.Field(i).Type().String() == "string" {
									cidFields[n] = true
								}
							}
						}
					}
				}
			}
		}
		isLine := func(t *Term) bool {
			return anySub(t, func(x *Term) bool {
				return x.Op == OCall && (lineRead(x.S) || strings.HasPrefix(x.S, "(*bufio.Scanner).") && !strings.HasSuffix(x.S, ".Err"))
			})
		}
		isRec := func(t *Term) bool {
			f := strip(t)
			return f != nil && (f.Op == OField || f.Op == ODeref || f.Op == OOpaque)
		}
		pend := func(st *State, where string) {
			c.Rule("lines", rAll)
			bad := ""
			switch {
			case !st.Has("line"):
			case st.Has("dec"):
				bad = "the multihash of a decoded CID is not sent"
			default:
				bad = "a line is passed over"
			}
			if st.Has("line") && st.Has("tried:") {
				bad = "" // not a CID
			} else if tr := onPath(st, "tried"); st.Has("line") && len(tr) > 0 && !st.Has("dec") {
				bad = ""
				for f := range cidFields {
					if !tr[f] {
						bad = "a record is passed over although it may have a CID in " + f
					}
				}
			}
			c.Check(bad == "", st, where, "lines of "+shortFn(root), bad)
			for _, k := range sortedKeys(onPath(st, "tried")) {
				st.Del("tried:" + k)
			}
			st.Del("line")
			st.Del("dec")
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			switch {
			case lineRead(ev.Name):
				pend(st, where)
				st.Set("line", "")
			case ev.Name == nScan:
				pend(st, where)
			case ev.Name == nCidDecode:
				if st.Has("line") {
					st.Set("decoding", "")
				}
			}
		}
		triedName := func(call *Term) string {
			a := strip(call.Args[0])
			if isLine(a) {
				return ""
			}
			if a.Op == OField {
				return a.S
			}
			if a.Op == ODeref && a.Args[0].Op == OFieldAddr {
				return a.Args[0].S
			}
			// a field of the record, filled in by the decoder
			for f := range cidFields {
				if strings.HasSuffix(a.String(), "."+f) {
					return f
				}
			}
			return "?"
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if cl := callOf(cd); cl != nil && cd.Op == OCall {
				switch cl.S {
				case nScan:
					if v {
						st.Set("line", "")
					} else {
						st.Set("scanend", "")
					}
				case nCidDef:
					if !v {
						st.Del("line")
						st.Del("dec")
					}
				case "errors.Is":
					if len(cl.Args) == 2 && isEOF(cl.Args[1]) {
						if v {
							st.Set("eof", "")
						} else if st.Has("rderr?") {
							st.Set("rderr", "")
							st.Del("line")
						}
					}
				}
			}
			if empty, ok := emptyTest(cd, v, isLine); ok && empty {
				st.Del("line")
			}
			if cd.Op != OBin || cd.S != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				a, b := strip(cd.Args[i]), strip(cd.Args[1-i])
				if s, ok := constStr(a); ok {
					if s == "" && isLine(b) && v {
						st.Del("line")
					}
					if s == "DagAggregateEntry" && !isLine(b) && isRec(b) && !v {
						st.Del("line")
					}
				}
				if isEOF(a) {
					if cl := callOf(b); cl != nil && lineRead(cl.S) {
						if v {
							st.Set("eof", "")
						} else if st.Has("rderr?") {
							st.Set("rderr", "")
							st.Del("line")
						} else {
							st.Set("noteof", "")
						}
					}
				}
				if a.Op == ONil {
					cl := callOf(b)
					if cl == nil {
						continue
					}
					switch {
					case lineRead(cl.S):
						st.Del("rderr?")
						if !v {
							st.Set("rderr?", "")
							if st.Has("noteof") {
								st.Set("rderr", "")
								st.Del("line")
							}
						}
						st.Del("noteof")
					case cl.S == nScanErr:
						if !v {
							st.Set("rderr", "")
						} else if st.Has("scanend") {
							st.Set("eof", "")
						}
					case cl.S == nCidDecode:
						if v {
							st.Set("dec", fmt.Sprint(cl.ID))
						} else {
							st.Set("tried:"+triedName(cl), "")
						}
					case strings.HasPrefix(cl.S, "encoding/json.") || strings.HasPrefix(cl.S, "(*encoding/json."):
						if !v {
							st.Del("line")
						}
					case cl.S == "(context.Context).Err":
						if !v {
							st.Set("canc", "")
							st.Del("line")
						}
					}
				}
			}
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			if cl := callOf(ch); cl != nil && cl.S == nCtxDone {
				st.Set("canc", "")
				st.Del("line")
				st.Del("dec")
			}
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			where := c.whereIn(fr, site)
			switch {
			case rootParam(fr.E, ch, outI):
				c.Rule("only", rOnl)
				cl := callOf(v)
				ok := false
				if cl != nil && cl.S == nCidHash {
					d := callOf(cl.Args[0])
					ok = d != nil && d.S == nCidDecode && st.Get("dec") == fmt.Sprint(d.ID)
				}
				c.Check(ok, st, where, "multihash sent by "+shortFn(root), "it is not the multihash of the CID decoded last, or that could not be decoded")
				c.Check(!st.Has("outclosed"), st, where, "multihash sent by "+shortFn(root), "the channel is closed already")
				c.Rule("canceled", rCtx)
				done := false
				if s, is := site.(*ssa.Select); is && s.Blocking {
					for _, x := range s.States {
						if cc := callOf(fr.E.get(fr, st, x.Chan)); cc != nil && cc.S == nCtxDone {
							done = true
						}
					}
				}
				c.Check(done, st, where, "multihash sent by "+shortFn(root), "this does not end when the context is canceled")
				st.Del("line")
				st.Del("dec")
				for _, k := range sortedKeys(onPath(st, "tried")) {
					st.Del("tried:" + k)
				}
				st.Set("any", "")
			case rootParam(fr.E, ch, errI):
				c.Rule("closed", rEnd)
				c.Check(!st.Has("errsent") && !st.Has("errclosed"), st, where, "error sent by "+shortFn(root), "a second error, or one after the channel was closed")
				c.Check(strip(v).Op != ONil, st, where, "error sent by "+shortFn(root), "nil is sent")
				c.Rule("reported", rErr)
				e := callOf(v)
				if e != nil && lineRead(e.S) {
					c.Check(!st.Has("eof"), st, where, "error sent by "+shortFn(root), "the end of the file is reported as an error")
				}
				st.Set("errsent", "")
			}
		}
		h.Close = func(st *State, fr *Frame, site ssa.Instruction, ch *Term) {
			for k, i := range map[string]int{"outclosed": outI, "errclosed": errI} {
				if rootParam(fr.E, ch, i) {
					c.Rule("closed", rEnd)
					c.Check(!st.Has(k), st, c.whereIn(fr, site), "channels of "+shortFn(root), "closed twice")
					st.Set(k, "")
				}
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			where := c.whereIn(fr, site)
			pend(st, where)
			c.Rule("closed", rEnd)
			c.Check(st.Has("outclosed") && st.Has("errclosed"), st, where, "channels of "+shortFn(root), "not closed in the end")
			c.Rule("reported", rErr)
			if st.Has("rderr") || st.Has("canc") {
				c.Check(st.Has("errsent"), st, where, "failure in "+shortFn(root), "it is not reported")
			}
			if !st.Has("errsent") {
				c.Check(st.Has("eof"), st, where, "success of "+shortFn(root), "the end of the file was not reached")
				c.Check(st.Has("any"), st, where, "success of "+shortFn(root), "nothing was imported")
			}
		}
		c.Run(root, h, "internal/importer")
	}

	// the handlers
	isImp := func(n string) bool {
		for _, f := range fns {
			if fullName(f) == n {
				return true
			}
		}
		return false
	}
	rel := "server/admin/http"
	nh, nput := 0, 0
	for _, root := range p.PkgFuncs(rel) {
		root := root
		if root.Parent() != nil || root.Synthetic != "" || !isHTTPHandler(root) || !reachesCall(p, root, isImp) {
			continue
		}
		nh++
		h := &Hooks{Keep: isErrRes}
		param := func(t *Term, name string) bool { return routeVar(t, name) }
		h.Go = func(st *State, ev *CallEv) GoMode {
			if !isImp(ev.Name) {
				return GoInline
			}
			c.Rule("handler", rHnd)
			where := c.whereIn(ev.Fr, ev.Site)
			file := false
			for i, a := range ev.Args {
				switch {
				case isMhChan(ev.Fn.Params[i].Type()):
					st.Set("mh", fmt.Sprint(strip(a).ID))
				case isErrChan(ev.Fn.Params[i].Type()):
					st.Set("err", fmt.Sprint(strip(a).ID))
					if mc, ok := strip(a).Site.(*ssa.MakeChan); ok {
						n, isN := ssaInt(mc.Size)
						c.Check(isN && n > 0, st, where, "error channel of "+shortFn(root), "the reader cannot leave its error there before it closes the channel of multihashes")
					}
				default:
					if cl := callOf(a); cl != nil && cl.S == "os.Open" && param(cl.Args[0], "file") && errNil(st, func(x *Term) bool { return x == cl }) {
						file = true
					}
				}
			}
			c.Check(file, st, where, "file read by "+shortFn(root), "not the opened file that the request names")
			return GoSkip
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			if isMhChan(ch.Typ) {
				c.Rule("handler", rHnd)
				c.Check(st.Get("mh") == fmt.Sprint(strip(ch).ID), st, c.whereIn(fr, site), "multihashes put by "+shortFn(root), "they are not those that are read")
				c.Check(!st.Has("due"), st, c.whereIn(fr, site), "multihashes put by "+shortFn(root), "one is dropped")
			}
		}
		h.Append = func(st *State, fr *Frame, site ssa.Instruction, base *Term, elems []*Term, spread *Term) {
			for _, e := range elems {
				if s := strip(e); s.Op == ORecv && isMhChan(s.Args[0].Typ) {
					st.Del("due")
				}
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if cd.Op == OExtract && cd.I == 1 && cd.Args[0].Op == ORecv && isMhChan(cd.Args[0].Args[0].Typ) {
				if v {
					st.Set("due", "")
				} else {
					st.Set("all", "")
				}
			}
			if cd.Op != OBin || cd.S != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				a, b := strip(cd.Args[i]), strip(cd.Args[1-i])
				if a.Op != ONil {
					continue
				}
				if b.Op == ORecv && st.Get("err") == fmt.Sprint(strip(b.Args[0]).ID) && v {
					st.Set("rdok", "")
				}
				if cl := callOf(b); cl != nil && idxCall(cl.S, "Put") && !v {
					st.Set("putfail", "")
				}
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			if idxCall(ev.Name, "Put") {
				nput++
				c.Rule("handler", rHnd)
				c.Check(!st.Has("due"), st, where, "multihashes put by "+shortFn(root), "one is dropped")
				val := ev.Args[1]
				prov := ev.E.pick(st, val, "ProviderID")
				okP := false
				if prov != nil {
					if cl := callOf(prov); cl != nil && cl.S == nPeerDecode && routeVar(cl.Args[0], "provider") {
						okP = true
					}
				}
				c.Check(okP, st, where, "provider of an import", "not the provider that the request names")
				for f, n := range map[string]string{"ContextID": "context_id", "MetadataBytes": "metadata"} {
					t := ev.E.pick(st, val, f)
					c.Check(t != nil && param(t, n), st, where, f+" of an import", "not the "+n+" of the request")
				}
			}
			if strings.HasSuffix(ev.Name, "http.ResponseWriter).WriteHeader") && len(ev.Args) > 1 {
				if n, ok := constInt(ev.Args[1]); ok && n < 300 {
					c.Rule("success", rRes)
					c.Check(st.Has("all"), st, where, "success of "+shortFn(root), "not all multihashes were received")
					c.Check(st.Has("rdok"), st, where, "success of "+shortFn(root), "the result of reading the file was not received")
					c.Check(!st.Has("putfail") && !st.Has("due"), st, where, "success of "+shortFn(root), "something was not put into the index")
				}
			}
		}
		c.Run(root, h, rel)
	}
	na := 0
	for _, f := range p.PkgFuncs(rel) {
		f := f
		c.Rule("batch", rBat)
		_, a := accumulators(f, func(at ssa.Instruction, kind string) {
			if kind == "lost" {
				c.Bad(nil, c.at(at), "batches of "+shortFn(f), "multihashes added to a batch are not put on some path that ends without error")
			}
		})
		if a > 0 {
			na += a
			c.OK(p.Loc(f.Pos()), "batches of multihashes in "+shortFn(f))
		}
	}
	c.AtLeast(1, na, "batches of multihashes")
	c.Rule("handler", rHnd)
	c.AtLeast(2, nh, "import handlers")
	c.AtLeast(2, nput, "puts of imports")
}
