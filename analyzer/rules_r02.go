package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R02", ruleR02)
}

const tProvInfo = pkgRegistry + ".ProviderInfo"

// infoRoot: the ProviderInfo object (pointer term) a location is part of.
func infoRoot(a *Term) *Term {
	for a != nil {
		switch a.Op {
		case OFieldAddr, OIndexAddr:
			b := a.Args[0]
			if b.Typ != nil && isInfoPtr(b.Typ) {
				return b
			}
			a = b
		case OAlloc:
			if a.Typ != nil && isInfoPtr(a.Typ) {
				return a
			}
			return nil
		default:
			if a.Typ != nil && isInfoPtr(a.Typ) {
				return a
			}
			return nil
		}
	}
	return nil
}

func isInfoPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && typeIs(p.Elem(), tProvInfo)
}

func ruleR02(c *Ctx) {
	const (
		rImm = "a provider record is changed only while no one else can have it: after it was created in the same operation and before it is put in the registry, sent, or given away"
		rElm = "the address list of a provider record is not changed in place"
	)
	p := c.P
	var writes, pubs int
	for _, rel := range p.relPkgs() {
		if strings.HasSuffix(rel, "/test") || !p.refersTo(rel, tProvInfo) {
			continue
		}
		for _, root := range topsReaching(c, rel, changesInfo) {
			h := skipNamedGo(&Hooks{})
			h.Alloc = func(st *State, fr *Frame, site *ssa.Alloc, obj *Term) {
				if isInfoPtr(obj.Typ) {
					st.Del("pub:" + strconv.Itoa(obj.ID))
					st.Set("new", strconv.Itoa(obj.ID))
				}
			}
			// what an iteration created is no longer in hand in the next one
			h.Next = func(st *State, fr *Frame, site ssa.Instruction, next *Term, inIter bool) {
				for _, k := range flagKeys(st, "pub:") {
					st.Del(k)
				}
				st.Del("new")
			}
			key := func(t *Term) string { return "pub:" + strconv.Itoa(strip(t).ID) }
			// publish: the record may now be seen by others
			publish := func(st *State, t *Term) {
				t = strip(t)
				if t != nil && t.Typ != nil && isInfoPtr(t.Typ) {
					pubs++
					if t.Op == OAlloc {
						st.Set(key(t), "1")
					}
				}
			}
			write := func(st *State, fr *Frame, site ssa.Instruction, obj *Term, how string) {
				obj = strip(obj)
				where := c.whereIn(fr, site)
				writes++
				c.Rule("immutable", rImm)
				c.Check(obj.Op == OAlloc, st, where, "only new records are changed", "a provider record that was not created here is changed ("+how+")")
				if obj.Op == OAlloc {
					c.Check(!st.Has(key(obj)), st, where, "no change after publication", "a provider record is changed after others can see it ("+how+")")
				}
			}
			h.Store = func(st *State, fr *Frame, site ssa.Instruction, addr, v *Term) {
				if s, ok := site.(*ssa.Store); ok {
					if al, ok := s.Addr.(*ssa.Alloc); ok && isInfoPtr(al.Type()) && al.Comment != "" && st.Has(key(addr)) == false {
						return // initialisation of a local
					}
				}
				// an element of a record's address list
				if addr.Op == OIndexAddr && anySub(addr.Args[0], func(x *Term) bool {
					return (x.Op == OField || x.Op == OFieldAddr) && x.S == "Addrs"
				}) && anySub(addr.Args[0], func(x *Term) bool { return x.Typ != nil && (isInfoPtr(x.Typ) || typeIs(x.Typ, tProvInfo)) }) {
					c.Rule("addresses", rElm)
					c.Bad(st, c.whereIn(fr, site), "address lists are not changed in place", "an address of a provider record is overwritten in place")
				}
				if addr.Op == OFieldAddr || addr.Op == OIndexAddr || isInfoPtr0(addr) {
					if o := infoRoot(addr); o != nil {
						if isReceiver(fr, o) && unmarshals(fr.Fn) {
							return // filled in by the JSON decoder, checked at its call
						}
						write(st, fr, site, o, "assignment")
					}
				}
				// stored where others can find it
				if strip(v) != nil && strip(v).Typ != nil && isInfoPtr(strip(v).Typ) && !localVar(addr) {
					publish(st, v)
				}
			}
			h.MapUpdate = func(st *State, fr *Frame, site ssa.Instruction, m, k, v *Term) { publish(st, v) }
			h.Send = func(st *State, fr *Frame, site ssa.Instruction, ch, v *Term, nonblock bool) { publish(st, v) }
			h.Call = func(st *State, ev *CallEv) {
				if ev.Inline {
					return
				}
				for i, a := range ev.Args {
					a = strip(a)
					if a == nil || a.Typ == nil || !isInfoPtr(a.Typ) {
						continue
					}
					switch {
					case strings.HasPrefix(ev.Name, "encoding/json.Unmarshal") || strings.HasSuffix(ev.Name, "json.Decoder).Decode") || strings.HasSuffix(ev.Name, "ProviderInfo).UnmarshalJSON"):
						write(st, ev.Fr, ev.Site, a, "decoded into")
					case strings.HasPrefix(ev.Name, "encoding/json.Marshal"):
					case i == 0 && strings.Contains(ev.Name, "ProviderInfo)."):
					default:
						publish(st, a)
					}
				}
			}
			c.Run(root, h)
		}
	}
	c.Rule("immutable", rImm)
	c.AtLeast(8, writes, "assignments to provider records")
	c.AtLeast(4, pubs, "publications of provider records")
	c.Rule("addresses", rElm)
	c.OK(pkgRegistry, "address lists")
}

func isInfoPtr0(a *Term) bool { return a.Typ != nil && isInfoPtr(a.Typ) }

// isReceiver: the object is the function's receiver.
func isReceiver(fr *Frame, o *Term) bool {
	return fr != nil && fr.Up == nil && o.Op == OParam && len(fr.Fn.Params) > 0 && fr.Fn.Signature.Recv() != nil && o.Typ != nil && types.Identical(o.Typ, fr.Fn.Params[0].Type())
}

func unmarshals(f *ssa.Function) bool { return f.Name() == "UnmarshalJSON" }

// localVar: the location is a local variable.
func localVar(a *Term) bool {
	return a != nil && a.Op == OAlloc
}

// changesInfo: the function assigns to a provider record, or to a part of one,
// or decodes into one.
func changesInfo(f *ssa.Function) bool {
	part := func(v ssa.Value) bool {
		for {
			if isInfoPtr(v.Type()) {
				return true
			}
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			default:
				return false
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if part(x.Addr) {
					return true
				}
			case ssa.CallInstruction:
				if strings.HasPrefix(calleeName(x), "encoding/json.") {
					for _, a := range x.Common().Args {
						if mi, ok := a.(*ssa.MakeInterface); ok && isInfoPtr(mi.X.Type()) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (p *Prog) relPkgs() []string {
	m := map[string]bool{}
	for path := range p.Types {
		if strings.HasPrefix(path, modPath+"/") {
			m[strings.TrimPrefix(path, modPath+"/")] = true
		}
	}
	return sortedKeys(m)
}

// refersTo: some function of the package handles pointers to the named type.
func (p *Prog) refersTo(rel, name string) bool {
	for _, f := range p.PkgFuncs(rel) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if pt, ok := v.Type().Underlying().(*types.Pointer); ok && typeIs(pt.Elem(), name) {
						return true
					}
				}
			}
		}
	}
	return false
}
