package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R04", ruleR04)
}

// lin writes a term as a linear combination of atoms.
func lin(t *Term, k int64, out map[*Term]int64) bool {
	t = strip(t)
	if t == nil {
		return false
	}
	if n, ok := constInt(t); ok {
		if n != 0 {
			out[nil] += k * n
		}
		return true
	}
	if t.Op == OBin && len(t.Args) == 2 {
		switch t.S {
		case "+":
			return lin(t.Args[0], k, out) && lin(t.Args[1], k, out)
		case "-":
			return lin(t.Args[0], k, out) && lin(t.Args[1], -k, out)
		case "u-":
			return lin(t.Args[0], -k, out)
		case "*":
			if n, ok := constInt(t.Args[0]); ok {
				return lin(t.Args[1], k*n, out)
			}
			if n, ok := constInt(t.Args[1]); ok {
				return lin(t.Args[0], k*n, out)
			}
		}
	}
	out[t] += k
	if out[t] == 0 {
		delete(out, t)
	}
	return true
}

func ruleR04(c *Ctx) {
	const (
		rSet = "a provider is polled by its own settings if it has any, by the general ones otherwise, each setting being what the configuration says it is"
		rPol = "a provider with a publisher is polled exactly when there was no contact for the polling interval; before that, and at the first look after start-up, it is left alone"
		rIna = "a provider is marked inactive only, and whenever, polling went on for twice the retry time without it being given up"
		rEnd = "a provider is given up and removed only if polling went on for the stop time without contact"
		rTim = "polling goes on: at each tick the providers are looked at and the timer is set again"
	)
	p := c.P
	delField, inField := boolGetter(p, "Deleted"), boolGetter(p, "Inactive")
	// the time of last contact: the time that is not stored
	contact := ""
	if pk := p.Types[pkgRegistry]; pk != nil {
		if o := pk.Scope().Lookup("ProviderInfo"); o != nil {
			s := o.Type().Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if !s.Field(i).Exported() && typeIs(s.Field(i).Type(), "time.Time") {
					contact = s.Field(i).Name()
				}
			}
		}
	}
	c.Rule("interval", rPol)
	if contact == "" || delField == "" || inField == "" {
		c.Bad(nil, pkgRegistry, "provider record", "time of last contact, deleted or inactive flag not found")
		return
	}
	general := map[string]string{"PollInterval": "I", "PollRetryAfter": "R", "PollStopAfter": "S"}
	special := map[string]string{"Interval": "I", "RetryAfter": "R", "StopAfter": "S"}
	role := map[string]string{} // field of the settings struct -> role
	isOverrides := func(t types.Type) bool {
		if t == nil {
			return false
		}
		m, ok := t.Underlying().(*types.Map)
		if !ok || !isPeerID(m.Key()) {
			return false
		}
		s, ok := derefOr(m.Elem()).Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < s.NumFields(); i++ {
			if !typeIs(s.Field(i).Type(), "time.Duration") && !strings.HasSuffix(s.Field(i).Type().String(), "config.Duration") && !isStringType(s.Field(i).Type()) {
				return false
			}
		}
		return s.NumFields() >= 3
	}
	isRec := func(t *Term) bool {
		t = strip(t)
		if t != nil && t.Op == OLookup && isProviders(t.Args[0].Typ) {
			k := strip(t.Args[1])
			return k.Op == OExtract && k.I == 1 && k.Args[0].Op == ONext && isProviders(k.Args[0].Args[0].Args[0].Typ)
		}
		return t != nil && t.Op == OExtract && t.I == 2 && t.Args[0].Op == ONext && isProviders(t.Args[0].Args[0].Args[0].Typ)
	}
	isKey := func(t *Term) bool {
		t = strip(t)
		return t != nil && t.Op == OExtract && t.I == 1 && t.Args[0].Op == ONext && isProviders(t.Args[0].Args[0].Args[0].Typ) ||
			t != nil && t.Op == OField && t.S == "ID" && anySub(t, isRec)
	}
	// setting: the role and source ("g"eneral or own) of a term
	setting := func(t *Term) (r, src string) {
		t = strip(t)
		if t == nil || t.Op != OField {
			return "", ""
		}
		if lk := strip(t.Args[0]); lk.Op == OLookup && isOverrides(lk.Args[0].Typ) {
			if !isKey(lk.Args[1]) {
				return role[t.S], "other"
			}
			if r, ok := special[t.S]; ok && role[t.S] == "" {
				return r, "own"
			}
			return role[t.S], "own"
		}
		if r, ok := general[t.S]; ok {
			return r, "g"
		}
		return "", ""
	}
	elapsed := func(t *Term) bool {
		t = strip(t)
		if t == nil || t.Op != OCall {
			return false
		}
		isC := func(x *Term) bool {
			x = strip(x)
			return x != nil && x.Op == OField && x.S == contact && isRec(x.Args[0])
		}
		switch t.S {
		case "(time.Time).Sub":
			n := strip(t.Args[0])
			return n.Op == OCall && n.S == "time.Now" && isC(t.Args[1])
		case "time.Since":
			return isC(t.Args[0])
		}
		return false
	}
	var iters, pollSends, rem, marks, ticks, sets int
	flags := []string{"valid", "ov", "zero", "recent", "stop", "inact", "tried", "marked", "gone", "reset", "looked", "it"}
	for _, root := range topsReaching(c, "internal/registry", func(f *ssa.Function) bool { return f.Name() == "NewRegistry" }) {
		h := &Hooks{}
		wk := &Walk{Flag: "po", IsSlice: func(t *Term) bool { return isField(strip(t), "PollOverrides") }}
		wk.Skipped = func(st *State, fr *Frame, site ssa.Instruction) {
			c.Rule("settings", rSet)
			c.Bad(st, c.whereIn(fr, site), "settings of every provider kept", "polling settings configured for a provider are passed over")
		}
		h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) {
			where := c.whereIn(fr, site)
			e := fr.E
			if isOverrides(m.Typ) && anySub(k, func(x *Term) bool { return x.Op == OCall && x.S == nPeerDecode }) {
				sets++
				c.Rule("settings", rSet)
				elem := func(t *Term) *Term { // element of the configured list
					var out *Term
					anySub(t, func(x *Term) bool {
						if x.Op == OIndex || x.Op == OIndexAddr {
							if anySub(x, func(y *Term) bool { return isField(y, "PollOverrides") }) && out == nil {
								out = x
							}
						}
						return false
					})
					return out
				}
				el := elem(k)
				c.Check(el != nil, st, where, "settings kept for the provider they name", "polling settings are not kept under the provider they were configured for")
				s, _ := derefOr(m.Typ.Underlying().(*types.Map).Elem()).Underlying().(*types.Struct)
				seen := map[string]bool{}
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i).Name()
					var fv *Term
					if vs := strip(v); vs != nil {
						fv = e.pick(st, vs, f)
					}
					fv = strip(fv)
					if fv == nil || fv.Op != OField || special[fv.S] == "" || elem(fv) == nil || el == nil || elem(fv) != el {
						if isStringType(s.Field(i).Type()) {
							continue
						}
						c.Bad(st, where, "settings as configured", "a polling setting of a provider is not one of those configured for it")
						continue
					}
					r := special[fv.S]
					c.Check(role[f] == "" || role[f] == r, st, where, "settings as configured", "polling settings are mixed up")
					role[f] = r
					seen[r] = true
				}
				wk.Handled(st)
				c.Check(len(seen) == 3, st, where, "all settings kept", "not all polling settings of a provider are kept")
				return
			}
			if !isProviders(m.Typ) || !st.Has("it") {
				return
			}
			if b, ok := constBool(e.pick(st, v, inField)); ok && b {
				marks++
				c.Rule("inactive", rIna)
				c.Check(st.Get("inact") == "1" && st.Get("stop") == "0" && st.Get("recent") == "0" && isKey(k), st, where, "inactive only after retries", "a provider is marked inactive although polling has not gone on for twice the retry time, or under another provider's ID")
				st.Set("marked", "1")
				return
			}
			c.Rule("interval", rPol)
			ct := e.pick(st, v, contact)
			ok := ct != nil && ct.Op == OCall && ct.S == "(time.Time).Add" && isKey(k)
			if ok {
				l := map[*Term]int64{}
				ok = lin(ct.Args[1], 1, l) && len(l) == 1
				for a, n := range l {
					if a == nil {
						ok = false
						continue
					}
					r, src := setting(a)
					ok = ok && n == -1 && r == "I" && srcOK(st, src)
				}
			}
			c.Check(ok && st.Get("zero") == "1", st, where, "first look sets the time of contact", "a provider's record is replaced while polling by one that is neither marked inactive nor, at the first look, due at the next")
			st.Set("reset", "1")
		}
		h.MapRead = func(st *State, fr *Frame, site ssa.Instruction, m *Term) {
			if isOverrides(m.Typ) {
				st.Set("looked", "1")
			}
			if lk, ok := site.(*ssa.Lookup); ok && isOverrides(lk.X.Type()) {
				st.Set("looked", "1")
			}
		}
		h.Assume = func(st *State, fr *Frame, site ssa.Instruction, cond *Term, val bool) {
			cd, v := bare(cond, val)
			b := map[bool]string{true: "1", false: "0"}
			if v && cd.Op == OBin && len(cd.Args) == 2 {
				// no settings configured
				n, isN := constInt(cd.Args[1])
				if x := cd.Args[0]; isN && x.Op == OLen && wk.IsSlice(x.Args[0]) && (cd.S == "==" && n == 0 || cd.S == "<" && n <= 1) {
					st.Set("noset", "1")
				}
				n, isN = constInt(cd.Args[0])
				if x := cd.Args[1]; isN && x.Op == OLen && wk.IsSlice(x.Args[0]) && cd.S == "==" && n == 0 {
					st.Set("noset", "1")
				}
			}
			switch {
			case cd.Op == OExtract && cd.I == 0 && cd.Args[0].Op == ONext && isProviders(cd.Args[0].Args[0].Args[0].Typ) && fr.InActor():
				if v {
					st.Set("it", "1")
					st.Set("itfn", fr.Fn.String())
				}
			case !st.Has("it"):
			case cd.Op == OExtract && cd.I == 1 && cd.Args[0].Op == OLookup && isOverrides(cd.Args[0].Args[0].Typ):
				c.Rule("settings", rSet)
				c.Check(isKey(cd.Args[0].Args[1]), st, c.whereIn(fr, site), "own settings looked up", "polling settings are looked up for another provider")
				st.Set("ov", b[v])
			case cd.Op == OBin && cd.S == "==":
				if anySub(cd, func(x *Term) bool {
					return x.Op == OCall && x.S == nValidate && isField(x.Args[0], "Publisher") && anySub(x.Args[0], isRec)
				}) {
					st.Set("valid", b[v])
				}
			case cd.Op == OCall && cd.S == "(time.Time).IsZero":
				if x := strip(cd.Args[0]); x.Op == OField && x.S == contact && isRec(x.Args[0]) {
					st.Set("zero", b[v])
				}
			case cd.Op == OBin && cd.S == "<":
				l := map[*Term]int64{}
				if !lin(cd.Args[0], 1, l) || !lin(cd.Args[1], -1, l) {
					return
				}
				coef := map[string]int64{}
				for a, n := range l {
					if a == nil {
						coef["const"] = n
						continue
					}
					if elapsed(a) {
						coef["E"] += n
						continue
					}
					r, src := setting(a)
					if r == "" {
						return
					}
					c.Rule("settings", rSet)
					c.Check(srcOK(st, src), st, c.whereIn(fr, site), "own settings used", "a provider is polled by settings that are not its own ("+src+")")
					coef[r] += n
				}
				if coef["E"] == 0 {
					return
				}
				below := v
				if coef["E"] < 0 {
					for k := range coef {
						coef[k] = -coef[k]
					}
					below = !v
				}
				is := func(i, r, s int64) bool {
					return coef["E"] == 1 && coef["I"] == -i && coef["R"] == -r && coef["S"] == -s && coef["const"] == 0
				}
				switch {
				case is(1, 0, 0):
					st.Set("recent", b[below])
				case is(1, 0, 1):
					st.Set("stop", b[!below])
				case is(1, 2, 0):
					st.Set("inact", b[!below])
				default:
					c.Rule("interval", rPol)
					c.Bad(st, c.whereIn(fr, site), "known thresholds", "the time without contact is compared with something else than interval, interval and stop time, or interval and twice the retry time")
				}
			}
		}
		h.Select = func(st *State, fr *Frame, site *ssa.Select) {
			for _, s := range site.States {
				if s.Dir == types.SendOnly && st.Has("it") {
					if ct, ok := s.Chan.Type().Underlying().(*types.Chan); ok && isInfoPtr(ct.Elem()) {
						st.Set("tried", "1")
					}
				}
			}
		}
		due := func(st *State) bool {
			return st.Get("valid") == "1" && st.Get("zero") == "0" && st.Get("recent") == "0"
		}
		h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) {
			v = strip(v)
			if v == nil || !isInfoPtr0(v) || !st.Has("it") {
				return
			}
			where := c.whereIn(fr, site)
			e := fr.E
			st.Set("tried", "1")
			pollSends++
			if b, ok := constBool(e.pick(st, v, delField)); ok && b {
				c.Rule("given-up", rEnd)
				c.Check(due(st) && st.Get("stop") == "1", st, where, "given up only after the stop time", "a provider is given up although polling has not gone on for the stop time")
				return
			}
			c.Rule("interval", rPol)
			c.Check(due(st), st, where, "polled only when due", "a provider is polled although it has no publisher, was just loaded, or was in contact within the interval")
			id := e.pick(st, v, "AddrInfo", "ID")
			c.Check(id != nil && anySub(id, isRec), st, where, "the due provider is polled", "another provider than the one that is due is polled")
			c.Rule("given-up", rEnd)
			c.Check(st.Get("stop") == "0", st, where, "given up after the stop time", "a provider is polled although polling has gone on for the stop time")
		}
		h.MapDelete = func(st *State, fr *Frame, site ssa.Instruction, m, k *Term) {
			if !isProviders(m.Typ) || !st.Has("it") {
				return
			}
			rem++
			c.Rule("given-up", rEnd)
			c.Check(due(st) && st.Get("stop") == "1" && isKey(k), st, c.whereIn(fr, site), "removed only after the stop time", "a provider is removed although polling has not gone on for the stop time")
			st.Set("gone", "1")
		}
		h.Next = func(st *State, fr *Frame, site ssa.Instruction, next *Term, inIter bool) {
			if !isProviders(next.Args[0].Args[0].Typ) || !fr.InActor() {
				return
			}
			if st.Has("it") {
				iters++
				where := c.whereIn(fr, site)
				c.Rule("interval", rPol)
				c.Check(st.Get("valid") == "0" || st.Get("zero") == "1" && st.Has("reset") || st.Get("recent") == "1" || st.Has("tried"), st, where, "every due provider is polled", "a provider that is due is not polled")
				c.Rule("inactive", rIna)
				c.Check(st.Get("inact") != "1" || st.Has("marked") || st.Get("stop") == "1", st, where, "marked inactive", "a provider that did not answer for twice the retry time stays active")
				c.Check(!(due(st) && st.Get("stop") == "0") || st.Has("inact"), st, where, "inactivity considered", "a provider is polled without considering whether it is inactive")
				c.Rule("given-up", rEnd)
				c.Check(!due(st) || st.Has("stop"), st, where, "giving up considered", "a provider is polled without considering whether to give it up")
				c.Check(!(due(st) && st.Get("stop") == "1") || st.Has("gone") || st.Has("tried"), st, where, "given up after the stop time", "a provider is not given up although polling has gone on for the stop time")
			}
			st.Set("polled", "1")
			for _, f := range flags {
				st.Del(f)
			}
		}
		h.Recv = func(st *State, fr *Frame, site ssa.Instruction, ch *Term, nonblock bool) {
			ct, ok := ch.Typ.Underlying().(*types.Chan)
			if !ok || !typeIs(ct.Elem(), "time.Time") {
				return
			}
			tickCheck(c, rTim, st, c.whereIn(fr, site))
			ticks++
			if anySub(ch, func(x *Term) bool { return x.Op == OCall && x.S == "time.NewTicker" }) {
				st.Set("again", "1")
			} else {
				st.Del("again")
			}
			st.Set("tick", "1")
			st.Del("polled")
		}
		h.Call = func(st *State, ev *CallEv) {
			if ev.Name == "(*time.Timer).Reset" || ev.Name == "time.NewTimer" || ev.Name == "time.After" {
				st.Set("again", "1")
			}
		}
		h.Return = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if st.Has("it") && st.Get("itfn") == fr.Fn.String() {
				c.Rule("interval", rPol)
				c.Bad(st, c.whereIn(fr, site), "all providers looked at", "polling stops at a provider, so that those after it are not looked at")
			}
		}
		h.Exit = func(st *State, fr *Frame, site ssa.Instruction, res []*Term) {
			if n := len(res); n > 0 && !fr.E.Assume(st.clone(), fr.E.eq(res[n-1], fr.E.Nil()), true) {
				return
			}
			c.Rule("settings", rSet)
			c.Check(wk.Done(st) || st.Has("noset"), st, c.whereIn(fr, site), "settings of every provider kept", "polling settings configured for providers are passed over")
		}
		wk.track(h)
		c.Run(root, h)
	}
	c.Rule("settings", rSet)
	c.AtLeast(1, sets, "settings of providers")
	c.Rule("interval", rPol)
	c.AtLeast(1, iters, "providers looked at")
	c.AtLeast(1, pollSends, "polls")
	c.Rule("inactive", rIna)
	c.AtLeast(1, marks, "providers marked inactive")
	c.Rule("given-up", rEnd)
	c.AtLeast(1, rem, "providers given up")
	c.Rule("goes-on", rTim)
	c.AtLeast(1, ticks, "ticks")
}

func tickCheck(c *Ctx, rule string, st *State, where string) {
	if !st.Has("tick") {
		return
	}
	c.Rule("goes-on", rule)
	c.Check(st.Has("polled"), st, where, "polled at each tick", "a tick passes without the providers being looked at")
	c.Check(st.Has("again"), st, where, "timer set again", "the timer is not set again after a tick, so polling stops")
}

// srcOK: the settings used are those that apply to the provider in hand.
func srcOK(st *State, src string) bool {
	if st.Get("ov") == "1" {
		return src == "own"
	}
	return src == "g" && st.Has("looked")
}

func derefOr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}
