package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D07", ruleD07)
}

// cfgField: the path of the configuration field t, as the file has it.
func cfgField(t *Term) (string, bool) {
	var path []string
	for t = strip(t); t != nil; t = strip(t) {
		switch t.Op {
		case OField, OFieldAddr:
			path = append([]string{t.S}, path...)
			t = t.Args[0]
			continue
		case ODeref:
			t = t.Args[0]
			continue
		case OOpaque:
			return strings.Join(path, "."), derefType(t.Typ) != nil && typeIs(derefType(t.Typ), tConfig)
		}
		return "", false
	}
	return "", false
}

// fieldLeaves: the basic fields of a struct type, with their paths.
func fieldLeaves(t types.Type, pre []string, f func(path []string, t types.Type)) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		f(pre, t)
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		fieldLeaves(s.Field(i).Type(), append(append([]string{}, pre...), s.Field(i).Name()), f)
	}
}

// readsJSON: a call that fills the object its last argument points to.
func readsJSON(n string) bool {
	return n == "(*encoding/json.Decoder).Decode" || n == "encoding/json.Unmarshal"
}

// valOf follows a value through conversions of representation to a call.
func valOf(t *Term, names ...string) *Term {
	cl := callOf(strip(t))
	if cl == nil {
		return nil
	}
	for _, n := range names {
		if cl.S == n {
			return cl
		}
	}
	return nil
}

func ruleD07(c *Ctx) {
	const (
		rLoad = "a configuration is loaded only from a file that exists and can be decoded; a missing file is reported as not initialized"
		rDef  = "a setting that is missing in the file has the default value that a new configuration has"
		rZero = "a setting whose zero value means the default gets the default exactly if it is zero; all others are as in the file"
		rID   = "an identity is the private key and the peer ID that belongs to it; a configured peer ID that does not match is rejected"
		rSave = "a configuration reported as saved was written to the file in full"
		rKeep = "an existing configuration file is replaced only after it was moved to another name, and never by a new configuration"
		rFlag = "the values given to the init command are those saved"
		rSvr  = "each server is made, at its configured address, and started exactly if neither its address is none nor it is disabled by its flag"
		rSto  = "data are kept in the configured directories, in the configured type of store"
	)
	p := c.P
	pkg := p.Types[modPath+"/config"]
	if pkg == nil {
		c.Rule("load", rLoad)
		c.Need(nil, "package config")
		return
	}
	tn := pkg.Scope().Lookup("Config")
	if tn == nil {
		c.Rule("load", rLoad)
		c.Need(nil, "config.Config")
		return
	}
	type leaf struct {
		path []string
		typ  types.Type
	}
	var all []leaf
	fieldLeaves(tn.Type(), nil, func(path []string, t types.Type) { all = append(all, leaf{path, t}) })
	name := func(l leaf) string { return strings.Join(l.path, ".") }
	isBasic := func(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

	// what a new configuration has
	c.Rule("default", rDef)
	defaults := map[string]*Term{}
	if root := c.Need(p.Func("config", "InitWithIdentity"), "InitWithIdentity"); root != nil {
		h := &Hooks{}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			for _, l := range all {
				if isBasic(l.typ) {
					if v := fr.E.pick(st, res[0], l.path...); v != nil && strip(v).Op == OConst {
						defaults[name(l)] = strip(v)
					}
				}
			}
		}
		c.Run(root, h, "config")
	}
	c.AtLeast(15, len(defaults), "settings with a default value")

	// zero values that are kept
	kept := map[string]bool{
		"Version": true, "Identity.PeerID": true, "Identity.PrivKey": true,
		"Bootstrap.MinimumPeers": true, "Discovery.LotusGateway": true, "Discovery.RediscoverWait": true,
		"Ingest.RateLimit.BlocksPerSecond": true,
	}
	root := c.Need(p.Func("config", "Load"), "Load")
	if root != nil {
		isZ := func(t *Term) bool { return isZero(t) || isStrConst(t, "") }
		ndec := 0
		run := func(l leaf) {
			me := name(l)
			h := &Hooks{Keep: isErrRes, JoinFew: true}
			mine := func(t *Term) bool { n, ok := cfgField(t); return ok && n == me }
			h.Call = func(st *State, ev *CallEv) {
				if !readsJSON(ev.Name) {
					return
				}
				ndec++
				st.Set("dec", "")
				where := c.whereIn(ev.Fr, ev.Site)
				obj := strip(ev.Args[len(ev.Args)-1])
				if l.path == nil {
					c.Rule("load", rLoad)
					c.Check(errNil(st, func(cl *Term) bool { return cl.S == "os.Open" || cl.S == "os.ReadFile" || cl.S == "os.OpenFile" }), st, where, "file of the configuration", "it was not opened")
					return
				}
				if !isBasic(l.typ) || kept[me] && strings.HasPrefix(me, "Identity") || me == "Version" {
					return
				}
				want := defaults[me]
				if want == nil {
					return
				}
				c.Rule("default", rDef)
				v := ev.E.pick(st, obj, l.path...)
				c.Check(v != nil && sameConst(v, want), st, where, "default of "+me, "it is not the one of a new configuration before the file is decoded")
			}
			h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
				cd, v := bare(cond, val)
				if cd.Op != OBin {
					return
				}
				for i := 0; i < 2; i++ {
					a, b := cd.Args[i], strip(cd.Args[1-i])
					switch {
					case cd.S == "==" && isZ(a) && (mine(b) || b.Op == OLen && mine(b.Args[0])):
						st.Set("z", fmt.Sprint(v))
					case cd.S == "<" && i == 0 && isZero(a) && b.Op == OLen && mine(b.Args[0]):
						st.Set("z", fmt.Sprint(!v))
					case cd.S == "<" && mine(b) && l.typ.String() == modPath+"/config.Duration":
						if isZero(a) && i == 0 || isConstN(a, 1) && i == 1 { // 0 < x; x < 1
							st.Set("z", fmt.Sprint(v == (i == 1)))
						}
					}
				}
			}
			h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
				where := c.whereIn(fr, site)
				e := fr.E
				ok := st.clone()
				if !e.Assume(ok, e.eq(res[1], e.Nil()), true) {
					if l.path == nil {
						c.Rule("load", rLoad)
						c.Check(e.Nilness(st, strip(res[0])) == FNil, st, where, "configuration that failed to load", "it is returned all the same")
						c.Check(!st.Has("absent") || strings.HasSuffix(globalName(res[1]), ".ErrNotInitialized"), st, where, "missing configuration file", "it is not reported as not initialized")
					}
					return
				}
				if l.path == nil {
					c.Rule("load", rLoad)
					c.Check(errNil(ok, func(cl *Term) bool { return readsJSON(cl.S) }), st, where, "loaded configuration", "it was not decoded")
					c.Check(e.Nilness(ok, strip(res[0])) == FNonNil, st, where, "loaded configuration", "it may be nil")
					return
				}
				v := e.pick(st, res[0], l.path...)
				if v == nil {
					return
				}
				c.Rule("zero", rZero)
				switch {
				case me == "Logging.Loggers": // depends on the level
				case me == "Ingest.RateLimit.BurstSize":
					c.Check(st.Get("z") == "true" || mine(v), st, where, "setting "+me, "it is replaced although it is set")
				case kept[me] || defaults[me] == nil || isZ(defaults[me]) || isBool(l.typ):
					c.Check(mine(v), st, where, "setting "+me, "it is not the one of the file: "+v.String())
				case st.Get("z") == "true":
					c.Check(sameConst(v, defaults[me]), st, where, "setting "+me, "zero is not replaced by the default: "+v.String())
				case st.Get("z") == "false":
					c.Check(mine(v), st, where, "setting "+me, "it is replaced although it is set")
				default:
					c.Bad(st, where, "setting "+me, "zero is not replaced by the default")
				}
			}
			if l.path == nil {
				h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
					cd, v := bare(cond, val)
					if notExist(cd) && v {
						st.Set("absent", "")
					}
				}
			}
			c.Run(root, h, "config")
		}
		run(leaf{})
		for _, l := range all {
			run(l)
		}
		c.Rule("load", rLoad)
		c.AtLeast(1, ndec, "configuration files decoded")
	}

	ruleD07Identity(c, rID)
	ruleD07Save(c, rSave, rKeep, rFlag)
	ruleD07Daemon(c, rSvr, rSto)
}

// sameConst: the same constant (terms of different runs).
func sameConst(a, b *Term) bool {
	a, b = strip(a), strip(b)
	return a.Op == OConst && b.Op == OConst && a.Val != nil && b.Val != nil && a.Val.Kind() == b.Val.Kind() && constant.Compare(a.Val, token.EQL, b.Val)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// globalName: the name of the package variable whose value t is.
func globalName(t *Term) string {
	t = strip(t)
	for t != nil && t.Op == ODeref {
		t = strip(t.Args[0])
	}
	if t != nil && t.Op == OGlobal {
		return t.S
	}
	return ""
}

// notExist: a test that an error says a file does not exist.
func notExist(cd *Term) bool {
	cl := callOf(cd)
	if cl == nil || cd.Op != OCall {
		return false
	}
	if cl.S == "os.IsNotExist" {
		return true
	}
	return cl.S == "errors.Is" && strings.HasSuffix(globalName(cl.Args[1]), ".ErrNotExist")
}

func ruleD07Identity(c *Ctx, rID string) {
	p := c.P
	const (
		ncrypto = "github.com/libp2p/go-libp2p-core/crypto."
		npeer   = "github.com/libp2p/go-libp2p-core/peer."
	)
	c.Rule("identity", rID)
	if root := c.Need(p.Method("config", "Identity", "Decode"), "Identity.Decode"); root != nil {
		h := &Hooks{Keep: isErrRes}
		n := 0
		ofID := func(t *Term, f string) bool {
			t = strip(t)
			if t.Op == ODeref {
				t = strip(t.Args[0])
			}
			return (t.Op == OField || t.Op == OFieldAddr) && t.S == f
		}
		isMine := func(t *Term) bool {
			cl := callOf(t)
			return cl != nil && cl.S == nPeerDecode && ofID(cl.Args[0], "PeerID")
		}
		isOwn := func(t *Term) bool {
			cl := callOf(t)
			return cl != nil && (cl.S == npeer+"IDFromPrivateKey" || cl.S == npeer+"IDFromPublicKey")
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if cl := callOf(cd); cl != nil && cd.Op == OCall && strings.HasPrefix(cl.S, "("+npeer+"ID).Matches") && isMine(cl.Args[0]) && v {
				st.Set("match", "")
			}
			if cd.Op != OBin {
				return
			}
			for i := 0; i < 2; i++ {
				a, b := strip(cd.Args[i]), strip(cd.Args[1-i])
				switch {
				case cd.S == "==" && v && isStrConst(a, "") && (ofID(b, "PeerID") || isMine(b)),
					cd.S == "==" && v && isZero(a) && b.Op == OLen && ofID(b.Args[0], "PeerID"),
					cd.S == "==" && v && isMine(a) && isOwn(b),
					cd.S == "<" && !v && isZero(a) && i == 0 && b.Op == OLen && ofID(b.Args[0], "PeerID"):
					st.Set("match", "")
				}
				if cd.S == "==" && isStrConst(a, "") && ofID(b, "PrivKey") {
					st.Set("nokey", fmt.Sprint(v))
				}
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			ok := st.clone()
			if !fr.E.Assume(ok, fr.E.eq(res[2], fr.E.Nil()), true) {
				return
			}
			n++
			c.Rule("identity", rID)
			where := c.whereIn(fr, site)
			cl := callOf(res[0])
			key := strip(res[1])
			own := cl != nil && cl.S == npeer+"IDFromPrivateKey" && same(cl.Args[0], key)
			if cl != nil && cl.S == npeer+"IDFromPublicKey" {
				pk := callOf(cl.Args[0])
				own = pk != nil && strings.HasSuffix(pk.S, ".GetPublic") && same(pk.Args[0], key)
			}
			if isMine(res[0]) {
				own = st.Has("match") // just compared
			}
			c.Check(own, st, where, "peer ID of the identity", "it is not made from the private key that is returned")
			c.Check(errNil(ok, func(x *Term) bool { return x == cl || x.S == nPeerDecode }), st, where, "peer ID of the identity", "it may be invalid")
			c.Check(st.Has("match"), st, where, "configured peer ID", "it may be another than that of the private key")
			un := callOf(key)
			good := un != nil && un.S == ncrypto+"UnmarshalPrivateKey"
			c.Check(good && errNil(ok, func(x *Term) bool { return x == un }), st, where, "private key of the identity", "it is not one that was decoded")
			if good {
				src := callOf(un.Args[0])
				from := src != nil && strings.HasSuffix(src.S, "base64.Encoding).DecodeString") && ofID(src.Args[1], "PrivKey") ||
					src != nil && (src.S == "os.ReadFile" || src.S == "io/ioutil.ReadFile") && valOf(src.Args[0], "os.Getenv", "os.LookupEnv") != nil && st.Get("nokey") == "true"
				c.Check(from, st, where, "private key of the identity", "it is not the one configured, or the one in the file to use without")
				c.Check(src == nil || errNil(ok, func(x *Term) bool { return x == src }), st, where, "private key of the identity", "it may not have been read")
			}
		}
		c.Run(root, h, "config")
		c.AtLeast(1, n, "ways to decode an identity")
	}
	if root := c.Need(p.Func("config", "CreateIdentity"), "CreateIdentity"); root != nil {
		h := &Hooks{Keep: isErrRes}
		n := 0
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			ok := st.clone()
			if !fr.E.Assume(ok, fr.E.eq(res[1], fr.E.Nil()), true) {
				return
			}
			n++
			c.Rule("identity", rID)
			where := c.whereIn(fr, site)
			gen := func(t *Term, i int64) *Term {
				t = strip(t)
				cl := callOf(t)
				if cl != nil && t.Op == OExtract && int64(t.I) == i && strings.HasPrefix(cl.S, ncrypto+"Generate") && errNil(ok, func(x *Term) bool { return x == cl }) {
					return cl
				}
				return nil
			}
			var kgen, igen *Term
			if enc := callOf(fr.E.pick(st, res[0], "PrivKey")); enc != nil && strings.HasSuffix(enc.S, "base64.Encoding).EncodeToString") {
				if m := valOf(enc.Args[1], ncrypto+"MarshalPrivateKey"); m != nil && errNil(ok, func(x *Term) bool { return x == m }) {
					kgen = gen(m.Args[0], 0)
				}
			}
			if s := callOf(fr.E.pick(st, res[0], "PeerID")); s != nil && len(s.Args) > 0 && (s.S == npeer+"Encode" || strings.HasPrefix(s.S, "("+npeer+"ID).")) {
				if id := valOf(s.Args[0], npeer+"IDFromPublicKey"); id != nil && errNil(ok, func(x *Term) bool { return x == id }) {
					igen = gen(id.Args[0], 1)
					if g := callOf(id.Args[0]); igen == nil && g != nil && strings.HasSuffix(g.S, ".GetPublic") {
						igen = gen(g.Args[0], 0)
					}
				} else if id := valOf(s.Args[0], npeer+"IDFromPrivateKey"); id != nil && errNil(ok, func(x *Term) bool { return x == id }) {
					igen = gen(id.Args[0], 0)
				}
			}
			c.Check(kgen != nil, st, where, "private key of a new identity", "it is not that of the generated key pair")
			c.Check(igen != nil && igen == kgen, st, where, "peer ID of a new identity", "it is not that of the generated key pair")
		}
		c.Run(root, h, "config")
		c.AtLeast(1, n, "ways to create an identity")
	}
}

// makesFile: a call that replaces the file named by its first argument.
func makesFile(n string) bool {
	return n == "os.Create" || n == "os.WriteFile" || n == "io/ioutil.WriteFile" || n == "os.OpenFile"
}

func ruleD07Save(c *Ctx, rSave, rKeep, rFlag string) {
	p := c.P
	nSave := "(*" + tConfig + ").Save"
	nUpgr := "(*" + tConfig + ").UpgradeConfig"
	isPath := func(fr *Frame, t *Term, i int) bool {
		cl := callOf(t)
		return rootParam(fr.E, t, i) || cl != nil && strings.HasPrefix(cl.S, modPath+"/config.")
	}
	for _, m := range []string{"Save", "UpgradeConfig"} {
		upgrade := m == "UpgradeConfig"
		c.Rule("save", rSave)
		root := c.Need(p.Method("config", "Config", m), "Config."+m)
		if root == nil {
			continue
		}
		n := 0
		h := &Hooks{Keep: isErrRes}
		h.Opaque = func(f *ssa.Function) bool {
			return f.Name() == "Filename" || f.Name() == "Path" || f.Name() == "PathRoot"
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if cd.Op != OBin || cd.S != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				cl := callOf(cd.Args[1-i])
				if cd.Args[i].Op == ONil && cl != nil && isErrRes(cd.Args[1-i]) && cl.S == "os.Rename" && v {
					if isPath(fr, cl.Args[0], 1) && !same(cl.Args[0], cl.Args[1]) {
						st.Set("moved", "")
					}
				}
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			where := c.whereIn(ev.Fr, ev.Site)
			e := ev.E
			switch {
			case makesFile(ev.Name):
				if upgrade && st.Get("version") != "current" {
					st.Del("version")
				}
				c.Rule("save", rSave)
				c.Check(isPath(ev.Fr, ev.Args[0], 1), st, where, "file that "+m+" writes", "it is not the one asked for")
				if upgrade {
					c.Rule("keep", rKeep)
					c.Check(st.Has("moved"), st, where, "file that "+m+" replaces", "it was not moved to another name before")
				}
				if strings.HasSuffix(ev.Name, "WriteFile") && isMarshalled(e, ev.Args[1]) {
					st.Set("wrote", fmt.Sprint(ev.Result.ID))
				}
			case ev.Name == "(*os.File).Write" || ev.Name == "(*bufio.Writer).Write":
				if isMarshalled(e, ev.Args[1]) {
					st.Set("wrote", fmt.Sprint(callOf(ev.ResultN(1)).ID))
				}
			case ev.Name == "(*encoding/json.Encoder).Encode":
				if rootParam(e, strip(ev.Args[1]), 0) {
					st.Set("wrote", fmt.Sprint(ev.Result.ID))
				}
			case ev.Name == "os.Remove" || ev.Name == "os.RemoveAll" || ev.Name == "(*os.File).Truncate" || ev.Name == "os.Truncate":
				c.Rule("keep", rKeep)
				c.Bad(st, where, "file that "+m+" writes", "a file is removed")
			}
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) {
			if addr.Op == OFieldAddr && addr.S == "Version" && rootParam(fr.E, addr.Args[0], 0) {
				want, _ := constOf(p.Types[modPath+"/config"], "Version")
				st.Set("version", map[bool]string{true: "current", false: "other"}[isConstN(val, want)])
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			ok := st.clone()
			if !fr.E.Assume(ok, fr.E.eq(res[0], fr.E.Nil()), true) {
				return
			}
			n++
			c.Rule("save", rSave)
			where := c.whereIn(fr, site)
			c.Check(st.Has("wrote") && errNil(ok, func(cl *Term) bool { return fmt.Sprint(cl.ID) == st.Get("wrote") }), st, where, "success of "+m, "the configuration may not have been written")
			if upgrade {
				c.Check(st.Get("version") == "current", st, where, "version of an upgraded configuration", "it is not the current one")
			}
		}
		c.Run(root, h, "config")
		c.AtLeast(1, n, "ways "+m+" succeeds")
	}

	// the init command
	flags := map[string]string{"listen-admin": "Addresses.Admin", "listen-finder": "Addresses.Finder", "listen-ingest": "Addresses.Ingest",
		"lotus-gateway": "Discovery.LotusGateway", "pubsub-topic": "Ingest.PubSubTopic", "store": "Indexer.ValueStoreType"}
	cmds := deepest(p, "command", func(n string) bool { return n == nSave }, func(n string) bool { return strings.HasPrefix(n, modPath+"/config.Init") })
	c.Rule("keep", rKeep)
	c.AtLeast(1, len(cmds), "commands that make a new configuration")
	for _, root := range cmds {
		root := root
		nsave := 0
		h := &Hooks{}
		h.Opaque = func(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/config" }
		flagOf := func(t *Term) string {
			cl := callOf(t)
			if cl == nil || !strings.HasSuffix(cl.S, "cli/v2.Context).String") {
				return ""
			}
			s, _ := constStr(cl.Args[1])
			return s
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if notExist(cd) && v {
				if src := callOf(callOf(cd).Args[0]); src != nil && (strings.HasPrefix(src.S, "os.Stat") || strings.HasPrefix(src.S, "os.Lstat")) {
					st.Set("absent", fmt.Sprint(strip(src.Args[0]).ID))
				}
			}
			// there is an error exactly if there is no information on the file
			for i := 0; cd.Op == OBin && cd.S == "==" && i < 2; i++ {
				t := strip(cd.Args[1-i])
				if cl := callOf(t); cl != nil && cd.Args[i].Op == ONil && (cl.S == "os.Stat" || cl.S == "os.Lstat") {
					noFile := v != isErrRes(t)
					k := "nofile:" + fmt.Sprint(cl.ID)
					st.dead = st.dead || st.Has(k) && st.Get(k) != fmt.Sprint(noFile)
					st.Set(k, fmt.Sprint(noFile))
				}
			}
			if cd.Op == OBin && cd.S == "==" && !v {
				for i := 0; i < 2; i++ {
					if f := flagOf(cd.Args[1-i]); flags[f] != "" && isStrConst(cd.Args[i], "") {
						st.Set("want:"+f, "")
					}
				}
			}
		}
		h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, val *Term) {
			if f := flagOf(val); flags[f] != "" && addr.Op == OFieldAddr {
				c.Rule("flags", rFlag)
				pth, _ := cfgPath(addr, func(*Term) bool { return true })
				c.Check(pth == flags[f], st, c.whereIn(fr, site), "value of --"+f, "it is stored as "+pth)
				st.Del("want:" + f)
			}
		}
		h.Call = func(st *State, ev *CallEv) {
			if ev.Name == nUpgr {
				c.Rule("keep", rKeep)
				ld := callOf(ev.Args[0])
				c.Check(ld != nil && ld.S == nCfgLoad && same(ld.Args[0], ev.Args[1]), st, c.whereIn(ev.Fr, ev.Site), "upgrade by "+shortFn(root), "it replaces the file by another configuration than it has")
			}
			if ev.Name != nSave {
				return
			}
			nsave++
			where := c.whereIn(ev.Fr, ev.Site)
			c.Rule("keep", rKeep)
			c.Check(st.Has("absent") && st.Get("absent") == fmt.Sprint(strip(ev.Args[1]).ID), st, where, "configuration written by "+shortFn(root), "the file may exist already")
			c.Rule("flags", rFlag)
			for _, f := range sortedStrings(flags) {
				c.Check(!st.Has("want:"+f), st, where, "value of --"+f, "it is not in the configuration that is saved")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {}
		c.Run(root, h, "command")
		c.Rule("keep", rKeep)
		c.AtLeast(1, nsave, "configurations saved by "+shortFn(root))
	}
}

func sortedStrings(m map[string]string) []string {
	k := map[string]bool{}
	for x := range m {
		k[x] = true
	}
	return sortedKeys(k)
}

// isMarshalled: the bytes of the configuration that is saved.
func isMarshalled(e *Engine, t *Term) bool {
	cl := callOf(t)
	if cl != nil && (cl.S == "bytes.Join" || cl.S == "append") {
		return false
	}
	return cl != nil && strings.HasPrefix(cl.S, "encoding/json.Marshal") && rootParam(e, strip(cl.Args[0]), 0)
}

func ruleD07Daemon(c *Ctx, rSvr, rSto string) {
	fns := daemonFns(c)
	c.Rule("servers", rSvr)
	c.AtLeast(1, len(fns), "daemons")
	parts := []string{"admin", "finder", "ingest"}
	title := map[string]string{"admin": "Admin", "finder": "Finder", "ingest": "Ingest", "p2p": "P2PAddr"}
	for _, root := range fns {
		nsel := 0
		isCfg := func(cl *Term) bool { return cl.S == nCfgLoad }
		addrOf := func(t *Term) string {
			s, ok := cfgPath(t, isCfg)
			if !ok {
				return ""
			}
			for k, v := range title {
				if s == "Addresses."+v {
					return k
				}
			}
			return ""
		}
		touch := reaching(c, "command", func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			n := calleeName(ci)
			return n == nCfgLoad || strings.HasPrefix(n, modPath+"/server/") || strings.HasPrefix(n, "(*"+modPath+"/server/") || strings.Contains(n, "go-indexer-core/store/") || strings.HasPrefix(n, "github.com/libp2p/go-libp2p.") || strings.Contains(n, "multiaddr") || strings.HasSuffix(n, "cli/v2.Context).Bool")
		})
		h := &Hooks{SkipNamed: true}
		h.Opaque = func(f *ssa.Function) bool { return !touch(f) }
		h.NilKey = func(t types.Type) bool { return t != nil && partOfType(t) != "" && strings.HasPrefix(t.String(), "*") }
		// source of an address: the setting it is made of
		var from func(t *Term, d int) string
		from = func(t *Term, d int) string {
			if a := addrOf(t); a != "" {
				return a
			}
			cl := callOf(t)
			if cl == nil || d == 0 {
				return ""
			}
			for _, a := range cl.Args {
				if s := from(a, d-1); s != "" {
					return s
				}
			}
			return ""
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			if goDepth(fr) > 0 {
				return
			}
			if st.Has("opts") {
				st.Set("opt:"+fmt.Sprint(cd.ID), fmt.Sprint(v)) // the list of options depends on it
			}
			if cd.Op == OBin && cd.S == "==" {
				for i := 0; i < 2; i++ {
					// there is one of each: it is nil exactly if it was not made
					if b := strip(cd.Args[1-i]); cd.Args[i].Op == ONil && b.Typ != nil && strings.HasPrefix(b.Typ.String(), "*") {
						if pt := partOfType(b.Typ); strings.HasSuffix(pt, "/http") {
							st.dead = st.dead || st.Has("made:"+strings.TrimSuffix(strings.TrimPrefix(pt, "server/"), "/http")) == v
						}
					}
					if b := strip(cd.Args[1-i]); cd.Args[i].Op == ONil && b.Typ != nil && (strings.HasSuffix(b.Typ.String(), "/host.Host") || isPtrTo(b.Typ, tIngester)) {
						st.dead = st.dead || st.Has("made:p2p") == v
					}
					if x := addrOf(cd.Args[1-i]); x != "" && isStrConst(cd.Args[i], "none") {
						st.dead = st.dead || v && st.Has("addr:"+x) || !v && st.Has("none:"+x)
						if v {
							st.Set("off:"+x, "")
							st.Set("none:"+x, "")
						} else {
							st.Set("addr:"+x, "")
						}
					}
					if pth, ok := cfgPath(cd.Args[1-i], isCfg); ok && pth == "Indexer.ValueStoreType" && v {
						s, _ := constStr(cd.Args[i])
						st.Set("type", s)
					}
				}
			}
			if cl := callOf(cd); cl != nil && cd.Op == OCall && strings.HasSuffix(cl.S, "cli/v2.Context).Bool") {
				s, _ := constStr(cl.Args[1])
				if x := strings.TrimPrefix(s, "no"); x != s && title[x] != "" {
					st.dead = st.dead || v && st.Has("flag:"+x) || !v && st.Has("noflag:"+x)
					if v {
						st.Set("off:"+x, "")
						st.Set("noflag:"+x, "")
					} else {
						st.Set("flag:"+x, "")
					}
				}
			}
		}
		on := func(st *State, x string) bool { return st.Has("addr:"+x) && st.Has("flag:"+x) && !st.Has("off:"+x) }
		h.Call = func(st *State, ev *CallEv) {
			if goDepth(ev.Fr) > 0 {
				return
			}
			n := ev.Name
			where := c.whereIn(ev.Fr, ev.Site)
			for _, x := range parts {
				switch n {
				case modPath + "/server/" + x + "/http.New":
					c.Rule("servers", rSvr)
					c.Check(on(st, x), st, where, x+" server", "it is made although it may be disabled")
					c.Check(from(ev.Args[0], 6) == x, st, where, x+" server", "it does not listen at its configured address")
					st.Set("made:"+x, "")
				case modPath + "/server/" + x + "/libp2p.New":
					c.Rule("servers", rSvr)
					c.Check(on(st, x) && st.Has("made:p2p"), st, where, x+" server over libp2p", "it is made although it may be disabled")
					st.Set("p2p:"+x, "")
				}
			}
			switch {
			case n == "github.com/libp2p/go-libp2p.Identity" || n == "github.com/libp2p/go-libp2p.ListenAddrs":
				st.Set("opts", "")
			case n == "github.com/libp2p/go-libp2p.New":
				st.Del("opts")
				for _, k := range sortedKeys(st.flagsWith("opt:")) {
					st.Del(k)
				}
				c.Rule("servers", rSvr)
				c.Check(on(st, "p2p"), st, where, "libp2p host", "it is made although it may be disabled")
				st.Set("made:p2p", "")
				id, at := false, false
				for _, o := range optsOf(ev.E, st, ev.Args[len(ev.Args)-1]) {
					cl := callOf(o)
					if cl == nil {
						continue
					}
					switch cl.S {
					case "github.com/libp2p/go-libp2p.Identity":
						k := callOf(cl.Args[0])
						id = k != nil && k.S == "("+modPath+"/config.Identity).Decode"
					case "github.com/libp2p/go-libp2p.ListenAddrs", "github.com/libp2p/go-libp2p.ListenAddrStrings":
						for _, a := range optsOf(ev.E, st, cl.Args[0]) {
							at = at || from(a, 6) == "p2p"
						}
					}
				}
				c.Check(id, st, where, "libp2p host", "it does not have the configured identity")
				c.Check(at, st, where, "libp2p host", "it does not listen at its configured address")
			case strings.Contains(n, "go-indexer-core/store/") && strings.HasSuffix(n, ".New"):
				c.Rule("stores", rSto)
				kind := strings.TrimSuffix(n[strings.LastIndex(n, "/")+1:], ".New")
				want := map[string]string{"storethehash": "sth", "pogreb": "pogreb", "memory": "memory"}[kind]
				c.Check(want != "" && st.Get("type") == want, st, where, "value store", "it is not of the configured type: "+kind)
				st.Set("type", "opened")
				if kind == "memory" {
					return
				}
				dir := false
				for _, a := range ev.Args {
					dir = dir || isDir(a, "Indexer.ValueStoreDir", isCfg)
				}
				c.Check(dir, st, where, "value store", "it is not in the configured directory")
			case n == "github.com/ipfs/go-ds-leveldb.NewDatastore":
				c.Rule("stores", rSto)
				st.Set("ds", "")
				c.Check(isDir(ev.Args[0], "Datastore.Dir", isCfg), st, where, "datastore", "it is not in the configured directory")
			}
		}
		h.Go = func(st *State, ev *CallEv) GoMode {
			if fn := ev.Fn; fn != nil {
				g := map[*ssa.Function]bool{fn: true}
				for f := range c.P.reach(fn) {
					g[f] = true
				}
				for f := range g {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							ci, ok := in.(ssa.CallInstruction)
							if !ok {
								continue
							}
							for _, x := range parts {
								if calleeName(ci) == "(*"+modPath+"/server/"+x+"/http.Server).Start" {
									st.Set("run:"+x, "")
								}
							}
						}
					}
				}
			}
			return GoSkip
		}
		h.Select = func(st *State, fr *Frame, x *ssa.Select) {
			if goDepth(fr) > 0 || !x.Blocking {
				return
			}
			loop := false
			for _, s := range x.States {
				loop = loop || s.Dir == types.RecvOnly && isReqChan(s.Chan.Type())
			}
			if !loop {
				return
			}
			nsel++
			st.dead = true
			c.Rule("servers", rSvr)
			where := c.whereIn(fr, x)
			for _, x := range append([]string{"p2p"}, parts...) {
				c.Check(st.Has("made:"+x) || st.Has("off:"+x), st, where, x+" server", "it is not made although it is not disabled")
				if x == "p2p" || !st.Has("made:"+x) {
					continue
				}
				c.Check(st.Has("run:"+x), st, where, x+" server", "it is not started")
				if x != "admin" && st.Has("made:p2p") {
					c.Check(st.Has("p2p:"+x), st, where, x+" server over libp2p", "it is not made although it is not disabled")
				}
			}
		}
		c.Run(root, h, "command")
		c.Rule("servers", rSvr)
		c.AtLeast(1, nsel, "states in which the daemon is ready")
	}
}

// isDir: the path of a configured directory.
func isDir(t *Term, want string, isCfg func(*Term) bool) bool {
	cl := valOf(t, modPath+"/config.Path")
	if cl == nil {
		return false
	}
	pth, ok := cfgPath(cl.Args[1], isCfg)
	return ok && pth == want
}

// flagsWith: the flags whose names start so.
func (s *State) flagsWith(pre string) map[string]bool {
	m := map[string]bool{}
	for k := range s.flags {
		if strings.HasPrefix(k, pre) {
			m[k] = true
		}
	}
	return m
}
