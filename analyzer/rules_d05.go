package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D05", ruleD05)
}

const (
	nCfgLoad  = modPath + "/config.Load"
	nSetPol   = "(*" + modPath + "/internal/registry.Registry).SetPolicy"
	nSetRate  = "(*" + modPath + "/internal/ingest.Ingester).SetRateLimit"
	nSetBatch = "(*" + modPath + "/internal/ingest.Ingester).SetBatchSize"
	nRunWork  = "(*" + modPath + "/internal/ingest.Ingester).RunWorkers"
	nSetLog   = "github.com/ipfs/go-log/v2.SetLogLevel"
	nPeerAddr = "(" + modPath + "/config.Peering).PeerAddrs"
	tConfig   = modPath + "/config.Config"
	tPeering  = "github.com/ipfs/go-ipfs/peering.PeeringService"
	tIngester = modPath + "/internal/ingest.Ingester"
)

// isReqChan: a channel of channels on which an error is answered.
func isReqChan(t types.Type) bool { return chanOf(t, isErrChan) }

func isPtrTo(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeIs(p.Elem(), name)
}

// cfgPath: the path of fields through which t is read from what call returned.
func cfgPath(t *Term, call func(*Term) bool) (string, bool) {
	var path []string
	for t = strip(t); t != nil; t = strip(t) {
		switch t.Op {
		case OField, OFieldAddr:
			path = append([]string{t.S}, path...)
			t = t.Args[0]
			continue
		case ODeref:
			t = t.Args[0]
			continue
		}
		if cl := callOf(t); cl != nil && call(cl) {
			return strings.Join(path, "."), true
		}
		return "", false
	}
	return "", false
}

func ruleD05(c *Ctx) {
	const (
		rAns = "every request to reload is answered exactly once, with success exactly if every part of the new configuration was applied"
		rApp = "a reload that is not reported as failed applies the freshly loaded configuration: policy, rate limit, batch size, number of workers, log levels and peering"
		rRun = "after a failed reload the daemon goes on with the configuration and the peering service it has"
		rReq = "a hang-up signal and a changed configuration file request a reload, without making the daemon wait for itself"
		rHnd = "the admin server answers a reload request with what the daemon reported, and waits no longer than until it is shut down"
		rWrk = "as many workers are started or stopped as the number of workers changes"
	)
	p := c.P
	fns := daemonFns(c)
	c.Rule("answer", rAns)
	c.AtLeast(1, len(fns), "daemons")
	steps := map[string]string{nSetPol: "Discovery.Policy", nSetRate: "Ingest.RateLimit", nSetBatch: "Ingest.StoreBatchSize", nRunWork: "Ingest.IngestWorkerCount"}
	names := map[string]string{nSetPol: "the policy", nSetRate: "the rate limit", nSetBatch: "the batch size", nRunWork: "the number of workers", nSetLog: "the log level", nPeerAddr: "the peers"}
	isPeering := func(n, m string) bool { return n == "(*"+tPeering+")."+m }
	touch := reaching(c, "command", func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case ssa.CallInstruction:
			n := calleeName(x)
			return n == nCfgLoad || names[n] != "" || strings.Contains(n, tPeering) || strings.HasSuffix(n, ".FileInfo).ModTime")
		case *ssa.Send:
			return isReqChan(x.Chan.Type()) || isErrChan(x.Chan.Type())
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && (isReqChan(s.Chan.Type()) || isErrChan(s.Chan.Type())) {
					return true
				}
			}
		}
		return false
	})
	nreq, nanswer, nself, nsig := 0, 0, 0, 0
	for _, root := range fns {
		h := &Hooks{SkipNamed: true}
		h.Opaque = func(f *ssa.Function) bool { return !touch(f) }
		h.NilKey = func(t types.Type) bool { return isPtrTo(t, tConfig) || isPtrTo(t, tPeering) }
		h.Go = func(st *State, ev *CallEv) GoMode { return GoSkip }
		ended := func(st *State, where string) {
			if !st.Has("reload") {
				return
			}
			c.Rule("answer", rAns)
			c.Check(!st.Has("rq"), st, where, "answer to a reload request", "there is none")
			if !st.Has("failed") {
				c.Rule("applied", rApp)
				var miss []string
				for _, n := range []string{nSetPol, nSetRate, nSetBatch, nRunWork, nSetLog, nPeerAddr} {
					if st.Has("did:" + n) {
						continue
					}
					if !st.Has("made:ing") && strings.Contains(n, "ingest.") || !st.Has("made:host") && n == nPeerAddr {
						continue
					}
					miss = append(miss, names[n])
				}
				c.Check(len(miss) == 0, st, where, "reload of the configuration", "it does not apply "+strings.Join(miss, ", "))
			}
		}
		reset := func(st *State) {
			for _, k := range []string{"reload", "rq", "failed", "load", "want"} {
				st.Del(k)
			}
			for k := range names {
				st.Del("did:" + k)
			}
		}
		wanted := func(st *State, where string) {
			if st.Has("want") {
				c.Rule("requests", rReq)
				c.Bad(st, where, "request of a reload", "none is made after "+st.Get("want"))
			}
		}
		isLoad := func(st *State) func(*Term) bool {
			return func(cl *Term) bool { return cl.S == nCfgLoad && st.Get("load") == fmt.Sprint(cl.ID) }
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			if goDepth(fr) > 0 || ch.Typ == nil {
				return
			}
			switch {
			case isReqChan(ch.Typ):
				nreq++
				delete(st.mem, fr.E.chElem(strip(ch))) // others send, too
				st.Set("reload", "")
				st.Set("rq", "")
			case chanOf(ch.Typ, func(e types.Type) bool { return e.String() == "os.Signal" }):
				st.Set("want", "a signal")
				nsig++
			}
		}
		answered := func(t *Term) bool {
			t = strip(t)
			return t.Op == ORecv && isReqChan(t.Args[0].Typ)
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			where := c.whereIn(fr, site)
			switch {
			case isReqChan(ch.Typ):
				c.Rule("requests", rReq)
				nself++
				c.Check(nonblock, st, where, "request of a reload", "the daemon waits for itself when a request is pending")
				st.Del("want")
			case answered(ch):
				nanswer++
				c.Rule("answer", rAns)
				c.Check(st.Has("rq"), st, where, "answer to a reload request", "it was answered already, or nobody waits for it")
				st.Del("rq")
				isNil, notNil := fr.E.Assume(st.clone(), fr.E.eq(v, fr.E.Nil()), true), fr.E.Assume(st.clone(), fr.E.eq(v, fr.E.Nil()), false)
				if isNil {
					c.Check(!st.Has("failed"), st, where, "answer to a reload request", "success is answered although a step failed")
				}
				if notNil {
					c.Check(st.Has("failed"), st, where, "answer to a reload request", "failure is answered although nothing failed")
				}
			}
		}
		h.Select = func(st *State, fr *Frame, x *ssa.Select) {
			if goDepth(fr) > 0 || x.Blocking {
				return
			}
			// without waiting: a request is pending already
			for _, s := range x.States {
				if s.Dir == types.SendOnly && isReqChan(s.Chan.Type()) {
					st.Del("want")
				}
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			n := ev.Name
			where := c.whereIn(ev.Fr, ev.Site)
			switch {
			case n == modPath+"/internal/ingest.NewIngester":
				st.Set("made:ing", "")
			case n == "github.com/libp2p/go-libp2p.New":
				st.Set("made:host", "")
			case isPeering(n, "Start"):
				c.Rule("running", rRun)
				c.Check(!st.Has("svc"), st, where, "peering service", "a second one is started while one is running")
				st.Set("starting", "")
			case isPeering(n, "Stop"):
				st.Del("svc")
			case n == "github.com/ipfs/go-ipfs/peering.NewPeeringService":
				st.Del("stopped")
			case strings.HasSuffix(n, "config.Load"):
				if st.Has("reload") {
					st.Set("load", fmt.Sprint(ev.ResultN(0).Args[0].ID))
				}
			}
			if isPeering(n, "Stop") || isPeering(n, "AddPeer") || isPeering(n, "RemovePeer") {
				c.Rule("running", rRun)
				c.Check(ev.E.Nilness(st, strip(ev.Args[0])) != FNil, st, where, "peering service", "there is none here")
				c.Check(!isPeering(n, "AddPeer") || !st.Has("stopped"), st, where, "peering service", "it was stopped before")
			}
			if !st.Has("reload") || names[n] == "" {
				return
			}
			c.Rule("applied", rApp)
			if want := steps[n]; want != "" {
				path, ok := cfgPath(ev.Args[1], isLoad(st))
				c.Check(ok && path == want, st, where, "reload of "+names[n], "it is not "+want+" of the configuration that was loaded")
			}
			st.Set("did:"+n, "")
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if goDepth(fr) > 0 {
				return
			}
			if empty, ok := emptyTest(cd, v, func(t *Term) bool {
				path, is := cfgPath(t, isLoad(st))
				return is && path == "Peering.Peers"
			}); ok && empty {
				st.Set("did:"+nPeerAddr, "")
			}
			// the file was changed
			if anySub(cd, func(t *Term) bool { return t.Op == OCall && strings.HasSuffix(t.S, ".ModTime") }) && cd.Op == OBin && cd.S == "==" && st.Has("loop") {
				if !v {
					st.Set("want", "a change of the configuration file")
				}
			}
			if cl := callOf(cd); cl != nil && cd.Op == OCall && (cl.S == "(time.Time).Equal" || cl.S == "(time.Time).After") && st.Has("loop") {
				if v == (cl.S == "(time.Time).After") {
					st.Set("want", "a change of the configuration file")
				}
			}
			if cd.Op != OBin || cd.S != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				a, b := strip(cd.Args[i]), strip(cd.Args[1-i])
				if a.Op != ONil {
					continue
				}
				switch {
				case answered(b) && v:
					st.Del("rq") // nobody waits
				// there is one of each: it is nil exactly if it was not made
				case isPtrTo(b.Typ, tIngester):
					st.dead = st.dead || st.Has("made:ing") == v
				case b.Typ != nil && strings.HasSuffix(b.Typ.String(), "/host.Host"):
					st.dead = st.dead || st.Has("made:host") == v
				case isErrRes(b):
					cl := callOf(b)
					if cl == nil {
						continue
					}
					if isPeering(cl.S, "Start") {
						if v {
							st.Set("svc", "")
						}
						st.Del("starting")
					}
					if isPeering(cl.S, "Stop") && v {
						st.Set("stopped", "")
					}
					if !v && st.Has("reload") && cl.S != "os.Stat" {
						st.Set("failed", "")
					}
				}
			}
		}
		h.Deref = func(st *State, fr *Frame, site ssa.Instruction, ptr *Term) {
			x, ok := site.(*ssa.FieldAddr)
			if ok && isPtrTo(x.X.Type(), tConfig) {
				c.Rule("running", rRun)
				c.Check(fr.E.Nilness(st, strip(ptr)) != FNil, st, c.whereIn(fr, site), "configuration in use", "it is nil here")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			where := c.whereIn(fr, site)
			if !st.Has("loop") && !st.Has("reload") {
				return
			}
			wanted(st, where)
			ended(st, where)
			c.Rule("running", rRun)
			c.Check(!st.Has("svc"), st, where, "peering service", "it is lost while running: it is not stopped when the daemon ends")
		}
		sel := h.Select
		h.Select = func(st *State, fr *Frame, x *ssa.Select) {
			if x.Blocking && goDepth(fr) == 0 {
				for _, s := range x.States {
					if s.Dir == types.RecvOnly && isReqChan(s.Chan.Type()) {
						st.Set("loop", "")
						wanted(st, c.whereIn(fr, x))
						ended(st, c.whereIn(fr, x))
						reset(st)
					}
				}
			}
			sel(st, fr, x)
		}
		c.Run(root, h, "command")
	}
	c.Rule("answer", rAns)
	c.AtLeast(1, nreq, "receipts of reload requests")
	c.AtLeast(1, nanswer, "answers to reload requests")
	c.Rule("requests", rReq)
	c.AtLeast(2, nself, "requests of a reload")
	c.AtLeast(1, nsig, "receipts of signals")

	// the admin server
	rel := "server/admin/http"
	nh := 0
	sends := reaching(c, rel, func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.Send:
			return isReqChan(x.Chan.Type())
		case *ssa.Select:
			for _, s := range x.States {
				if s.Dir == types.SendOnly && isReqChan(s.Chan.Type()) {
					return true
				}
			}
		}
		return false
	})
	for _, root := range p.PkgFuncs(rel) {
		root := root
		if root.Parent() != nil || root.Synthetic != "" || !isHTTPHandler(root) || !sends(root) {
			continue
		}
		nh++
		h := &Hooks{Keep: isErrRes}
		hasDone := func(fr *Frame, st *State, site ssa.Instruction) bool {
			x, ok := site.(*ssa.Select)
			if !ok {
				return false
			}
			if !x.Blocking {
				return true
			}
			for _, s := range x.States {
				if cl := callOf(fr.E.get(fr, st, s.Chan)); s.Dir == types.RecvOnly && cl != nil && (cl.S == nCtxDone || cl.S == "time.After") {
					return true
				}
			}
			return false
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			if !isReqChan(ch.Typ) {
				return
			}
			c.Rule("handler", rHnd)
			where := c.whereIn(fr, site)
			c.Check(hasDone(fr, st, site), st, where, "reload request of "+shortFn(root), "it waits although the server is shut down")
			mc, ok := strip(v).Site.(*ssa.MakeChan)
			buf := int64(0)
			if ok {
				buf, _ = ssaInt(mc.Size)
			}
			c.Check(ok && buf > 0, st, where, "reload request of "+shortFn(root), "the daemon cannot leave its answer: it would wait for a handler that is gone")
			c.Check(!st.Has("sent"), st, where, "reload request of "+shortFn(root), "it is sent twice")
			st.Set("sent", fmt.Sprint(strip(v).ID))
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			if st.Has("sent") && st.Get("sent") == fmt.Sprint(strip(ch).ID) {
				c.Rule("handler", rHnd)
				c.Check(hasDone(fr, st, site), st, c.whereIn(fr, site), "waiting for the answer in "+shortFn(root), "it goes on although the server is shut down")
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if cd.Op != OBin || cd.S != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				a, b := strip(cd.Args[i]), strip(cd.Args[1-i])
				if a.Op == ONil && b.Op == ORecv && st.Get("sent") == fmt.Sprint(strip(b.Args[0]).ID) {
					if v {
						st.Set("ok", "")
					} else {
						st.Set("no", "")
					}
				}
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			code := int64(-1)
			if strings.HasSuffix(ev.Name, "http.ResponseWriter).WriteHeader") {
				code, _ = constInt(ev.Args[1])
			} else if strings.HasSuffix(ev.Name, "http.ResponseWriter).Write") && !st.Has("status") {
				code = 200
			} else if ev.Name == "net/http.Error" {
				code = 500
			}
			if code < 0 {
				return
			}
			st.Set("status", "")
			c.Rule("handler", rHnd)
			if code < 300 {
				c.Check(st.Has("ok"), st, where, "answer of "+shortFn(root), "success is answered although the daemon did not report it")
			} else {
				c.Check(!st.Has("ok"), st, where, "answer of "+shortFn(root), "failure is answered although the daemon reported success")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			c.Rule("handler", rHnd)
			c.Check(st.Has("status"), st, c.whereIn(fr, site), "answer of "+shortFn(root), "there is none")
		}
		c.Run(root, h, rel)
	}
	c.Rule("handler", rHnd)
	c.AtLeast(1, nh, "handlers that request a reload")

	// the number of workers
	root := c.Need(p.Method("internal/ingest", "Ingester", "RunWorkers"), "RunWorkers")
	if root == nil {
		return
	}
	h := &Hooks{SkipNamed: true}
	nstart, nstop := 0, 0
	turn := func(old string, t *Term) string {
		if anySub(t, func(x *Term) bool { return x.Op == OLoop }) {
			if old == "x" {
				return "y"
			}
			return "x"
		}
		return fmt.Sprint(t.ID)
	}
	isN := func(e *Engine, t *Term) bool { return rootParam(e, t, 1) }
	h.Go = func(st *State, ev *CallEv) GoMode {
		nstart++
		c.Rule("workers", rWrk)
		where := c.whereIn(ev.Fr, ev.Site)
		c.Check(st.Get("lt") == "true", st, where, "start of a worker", "there may be as many already")
		if st.Has("inc") || st.Has("dec") {
			st.Set("many", "") // the number is set later
			c.Check(st.Get("ltprev") != st.Get("ltT"), st, where, "number of workers", "nothing counts those started: this does not end")
		}
		st.Set("ltprev", st.Get("ltT"))
		st.Set("inc", "")
		st.Set("lt", "?")
		return GoSkip
	}
	h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
		nstop++
		c.Rule("workers", rWrk)
		where := c.whereIn(fr, site)
		c.Check(st.Get("gt") == "true", st, where, "end of a worker", "there may be as few already")
		if st.Has("inc") || st.Has("dec") {
			st.Set("many", "")
			c.Check(st.Get("gtprev") != st.Get("gtT"), st, where, "number of workers", "nothing counts those stopped: this does not end")
		}
		st.Set("gtprev", st.Get("gtT"))
		c.Check(!nonblock, st, where, "end of a worker", "it is not ended if it is busy")
		st.Set("dec", "")
		st.Set("gt", "?")
	}
	h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
		cd, v := bare(cond, val)
		if cd.Op != OBin || cd.S != "<" && cd.S != "==" {
			return
		}
		e := fr.E
		switch {
		case cd.S == "==" && (isN(e, cd.Args[0]) || isN(e, cd.Args[1])):
			if v {
				st.Set("lt", "false")
				st.Set("gt", "false")
			}
		case cd.S == "<" && isN(e, cd.Args[1]): // size < n
			st.Set("lt", fmt.Sprint(v))
			st.Set("ltT", turn(st.Get("ltT"), cd.Args[0]))
		case cd.S == "<" && isN(e, cd.Args[0]): // n < size
			st.Set("gt", fmt.Sprint(v))
			st.Set("gtT", turn(st.Get("gtT"), cd.Args[1]))
		}
	}
	h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) {
		if addr.Op != OFieldAddr || addr.Typ == nil {
			return
		}
		if b, ok := addr.Typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return
		}
		where := c.whereIn(fr, site)
		c.Rule("workers", rWrk)
		if isN(fr.E, val) {
			st.Del("inc")
			st.Del("dec")
			st.Del("many")
			return
		}
		m := map[*Term]int64{}
		lin(val, 1, m)
		lin(fr.E.load(st, addr, addr.Typ), -1, m)
		k := m[nil]
		for t, n := range m {
			if t != nil && n != 0 {
				k = 0
			}
		}
		switch {
		case st.Has("many"):
		case k == 1 && st.Has("inc"):
			st.Del("inc")
		case k == -1 && st.Has("dec"):
			st.Del("dec")
		default:
			c.Bad(st, where, "number of workers", "it is changed although no worker was started or stopped accordingly")
		}
	}
	h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
		c.Rule("workers", rWrk)
		where := c.whereIn(fr, site)
		c.Check(!st.Has("inc") && !st.Has("dec"), st, where, "number of workers", "a worker that was started or stopped is not counted")
		c.Check(st.Get("lt") == "false" && st.Get("gt") == "false", st, where, "number of workers", "it is not the one asked for in the end")
	}
	c.Run(root, h, "internal/ingest")
	c.Rule("workers", rWrk)
	c.AtLeast(1, nstart, "starts of workers")
	c.AtLeast(1, nstop, "ends of workers")
}
