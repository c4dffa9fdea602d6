package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tConst = pkgGem + ".EquipmentConstant"

func (P *Program) structType(pkg, name string) *types.Struct {
	pk := P.byPkg[pkg]
	if pk == nil {
		return nil
	}
	o, ok := pk.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	st, _ := o.Type().Underlying().(*types.Struct)
	return st
}

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name
}

func init() {
	register("C34", "The handlers of S2F13 and S2F15 and the constant's own ApplyValue and Value are interpreted without merging against a symbolic registry of equipment constants with symbolic validators, updaters and providers; at every call of an updater, every store and the end of every path the constant's callbacks and content are compared with what the request names.", func(r *Report) {
		P := r.P
		r.Rule("validated", "a constant's updater is called and its value stored only for a constant that is registered, with a value that its validator, if it has one, accepted before")
		r.Rule("refused", "when a named constant is not registered or its validator or updater reports an error, S2F15 is answered with a non-zero EAC, and ApplyValue returns an error")
		r.Rule("accepted", "when S2F15 is answered with EAC 0 (or ApplyValue without an error), every named constant's updater, if it has one, was called with the value the request gives it, and the value is stored unless the application provides it")
		r.Rule("read", "S2F13 answers each requested identifier, in order, with the value of the constant registered under it (what the provider returns, else the stored value, else the default) or an empty item")
		r.Assume("requests with more entries than the examples behave like those with two")
		st := P.structType(pkgGem, "EquipmentConstant")
		if !r.Anchor(st != nil, "gem.EquipmentConstant") {
			return
		}
		field := func(n string) string { return fieldBy(st, func(t types.Type) bool { return isNamed(t, n) }) }
		fVal, fUpd, fProv := field("EquipmentConstantValueValidator"), field("EquipmentConstantValueUpdater"), field("EquipmentConstantValueProvider")
		fStored := ""
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); types.TypeString(f.Type(), nil) == tItem && !f.Exported() {
				if fStored != "" {
					fStored = ""
					break
				}
				fStored = f.Name()
			}
		}
		if !r.Anchor(fVal != "" && fUpd != "" && fProv != "" && fStored != "", "the validator, updater, provider and stored value of an equipment constant") {
			return
		}
		// nilness of a callback of the constant with this name
		nilOf := func(x *gx, a, name, f string) int {
			is, known := x.isNil(a, "?"+name+"."+f)
			switch {
			case !known:
				return 0
			case is:
				return 1
			}
			return -1
		}
		// valid: the value was accepted by the constant's validator
		valid := func(x *gx, a, name, arg string) bool {
			return nilOf(x, a, name, fVal) == 1 || parseA(a)["val:"+name+":"+arg] == "ok"
		}
		watch := func(x *gx, what string, registered func(c *Ctx, name string) bool) {
			x.app = func(c *Ctx, site ssa.CallInstruction, tag string, args []Val) ([]CallRes, bool) {
				k := appKind(site)
				name := strings.TrimPrefix(tag, "?")
				if i := strings.LastIndex(name, "."); i >= 0 {
					name = name[:i]
				}
				arg := ""
				if len(args) > 0 {
					arg = tagOf(args[len(args)-1])
				}
				key := ""
				switch k {
				case "EquipmentConstantValueValidator":
					key = "val"
				case "EquipmentConstantValueUpdater":
					key = "upd"
					r.Check(registered(c, name) && valid(x, c.A(), name, arg), "validated", what+": updater", P.ipos(site), what+" calls the updater of "+name+" with a value that its validator has not accepted, or of a constant that is not registered")
				default:
					return nil, false
				}
				var out []CallRes
				for _, rs := range x.appResults(c, site, tag) {
					res := "ok"
					if strings.HasPrefix(tagOf(rs.Ret), "=err:") {
						res = "err"
						rs.A = withA(rs.A, key+"err", "1")
					}
					rs.A = withA(rs.A, key+":"+name+":"+arg, res)
					out = append(out, rs)
				}
				return out, true
			}
		}
		// done: the value is the constant's at the end of a path
		done := func(x *gx, o Outcome, what, pos, name, arg string, obj Val, last bool) {
			a := o.A
			m := parseA(a)
			r.Check(valid(x, a, name, arg), "validated", what+": "+arg, pos, what+" accepts a value for "+name+" that its validator has not accepted: "+traceString(o.tr))
			r.Check(nilOf(x, a, name, fUpd) == 1 || m["upd:"+name+":"+arg] == "ok", "accepted", what+": updater "+arg, pos, what+" accepts a value for "+name+" without its updater having taken it: "+traceString(o.tr))
			if p := nilOf(x, a, name, fProv); last && p != -1 {
				r.Check(p == 1 && tagOf(x.read(o.Mem, obj, fStored)) == arg, "accepted", what+": stored "+arg, pos, what+" accepts a value for "+name+", which has no provider, but does not store it: "+traceString(o.tr))
			}
		}
		// stores: what is stored at the end of a path is validated
		stores := func(x *gx, o Outcome, what, pos, name string, obj Val) {
			v := x.read(o.Mem, obj, fStored)
			if v.K == KTag && (strings.HasPrefix(v.Tag, "?"+name+".") || strings.HasPrefix(v.Tag, "id!"+name+".")) {
				return
			}
			r.Check(parseA(o.A)["upd:"+name+":"+tagOf(v)] != "err", "refused", what+": stores a refused value", pos, what+" stores a value in "+name+" that its updater has refused: "+traceString(o.tr))
			r.Check(v.K == KTag && valid(x, o.A, name, v.Tag), "validated", what+": stores", pos, what+" stores "+x.e.key(v)+" in "+name+", which its validator has not accepted: "+traceString(o.tr))
		}
		path := func(s *shape, p string) string {
			t := s.at(p)
			if t == nil {
				return "?none"
			}
			if t.as != "" {
				p = t.as
			}
			return "vals(" + p + ")"
		}
		n := 0
		for _, h := range P.gemRegs(r) {
			if h.role != "DeviceEquipment" {
				continue
			}
			pos := P.pos(h.fn.Pos())
			switch h.sf() {
			case "S2F15":
				n++
				shapes := configShapes()["S2F15"]
				var all []*shape
				seen := map[string]bool{}
				for i, s := range shapes {
					for j, f := range append([]*shape{s}, s.variants()...) {
						if (j == 0 || i < 2) && !seen[f.String()] {
							seen[f.String()] = true
							all = append(all, f)
						}
					}
				}
				for _, s := range all {
					x := newGX(P, h.role, s, 1)
					what := "S2F15"
					watch(x, what, func(c *Ctx, name string) bool {
						m, ok := parseA(c.A()), false
						_ = m
						for k := range x.entries(c.st.mem, tConst) {
							ok = ok || strings.HasSuffix(name, "{"+strings.Trim(strings.TrimPrefix(strings.TrimPrefix(k, "{"), "~"), "{}")+"}")
						}
						return ok
					})
					for _, o := range x.handle(h) {
						if o.Panicked {
							continue
						}
						m := parseA(o.A)
						ack := ""
						if len(o.Rets) > 0 {
							ack = ackOf(tagOf(o.Rets[0]))
						}
						for k, v := range x.entries(o.Mem, tConst) {
							_ = k
							if v.K == KAddr {
								stores(x, o, what, pos, v.Site.(*instSite).name, v)
							}
						}
						if ack != "0" {
							continue
						}
						r.Check(m["valerr"] == "" && m["upderr"] == "", "refused", what+": errors", pos, "S2F15 is accepted although a validator or an updater reported an error: "+traceString(o.tr))
						if s.kind != "L" {
							r.Bad("refused", what+": form", pos, "an S2F15 that is no list is accepted")
							continue
						}
						last := map[string]int{}
						for i := range s.sub {
							last[path(s, "in/"+itoa(i)+"/0")] = i
						}
						for i, e := range s.sub {
							p := "in/" + itoa(i)
							if !r.Check(e.kind == "L" && len(e.sub) >= 2, "refused", what+": entry", pos, "an S2F15 with the entry "+e.String()+" is accepted") {
								continue
							}
							val := path(s, p+"/0")
							name, v, had, _ := x.keyed(o.Mem, tConst, val)
							if !r.Check(had && v.K == KAddr, "refused", what+": unknown", pos, "an S2F15 is accepted for a constant that may not be registered: "+traceString(o.tr)) {
								continue
							}
							done(x, o, what, pos, name, "item("+p+"/1)", v, last[val] == i)
						}
					}
					r.SawEngine(x.e)
					r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of S2F15 "+s.String())
				}
			case "S2F13":
				n++
				U, A, I := sh("U"), sh("A"), sh("I")
				for _, s := range []*shape{sh("L", U), sh("L", A, U), sh("L", I), sh("L", U, same("U", "in/0")), sh("L", sh("L"), A), sh("L", U, sh("F"))} {
					x := newGX(P, h.role, s, 1)
					for _, o := range x.handle(h) {
						if o.Panicked || len(o.Rets) == 0 {
							continue
						}
						b := attr(tagOf(o.Rets[0]), "body")
						vs := itemArgs(b)
						if !r.Check(strings.HasPrefix(b, "L(") && len(vs) == len(s.sub), "read", "S2F14 length", pos, "S2F13 "+s.String()+" is answered with "+b+", which has not one value per identifier") {
							continue
						}
						apperr := parseA(o.A)["apperr"] != ""
						for i, e := range s.sub {
							name, _, had, _ := x.keyed(o.Mem, tConst, path(s, "in/"+itoa(i)))
							if e.kind == "L" || e.kind == "F" || !had {
								r.Check(vs[i] == "E()", "read", "S2F14 unknown", pos, "S2F13 "+s.String()+" answers the identifier at "+itoa(i)+", which is not registered, with "+vs[i])
								continue
							}
							a := o.A
							def := "DefaultValue"
							isE := vs[i] == "E()"
							var good bool
							switch nilOf(x, a, name, fProv) {
							case -1:
								ret := "?ret(" + name + "." + fProv + ")"
								is, known := x.isNil(a, ret)
								good = vs[i] == ret || isE && (known && is || apperr)
							case 1:
								v, kv := x.isNil(a, "?"+name+"."+fStored)
								d, kd := x.isNil(a, "?"+name+"."+def)
								switch {
								case kv && !v:
									good = vs[i] == "?"+name+"."+fStored
								case kv && kd && v && !d:
									good = vs[i] == "?"+name+"."+def
								case kv && kd && v && d:
									good = isE
								}
							}
							r.Check(good, "read", "S2F14 "+s.String()+" "+itoa(i), pos, "S2F13 "+s.String()+" answers the identifier at "+itoa(i)+" with "+vs[i]+", which is not the value of "+name+": "+traceString(o.tr))
						}
					}
					r.SawEngine(x.e)
					r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of S2F13 "+s.String())
				}
			}
		}
		r.Anchor(n == 2, "the equipment's handlers of S2F13 and S2F15")
		if f := P.method(pkgGem, "EquipmentConstant", "ApplyValue"); r.Anchor(f != nil, "EquipmentConstant.ApplyValue") {
			pos := P.pos(f.Pos())
			for _, arg := range []Val{TagV("v"), NilV} {
				arg := arg
				x := newGX(P, "DeviceEquipment", nil, 1)
				watch(x, "ApplyValue", func(*Ctx, string) bool { return true })
				for _, o := range x.run(f, "", []Val{{}, arg}, nil) {
					if o.Panicked || len(o.Rets) != 1 {
						continue
					}
					obj := Val{K: KAddr, Site: x.root}
					m := parseA(o.A)
					stores(x, o, "ApplyValue", pos, "g", obj)
					if o.Rets[0].K != KNil {
						continue
					}
					r.Check(arg.K != KNil && m["valerr"] == "" && m["upderr"] == "", "refused", "ApplyValue", pos, "ApplyValue reports success for no value or although the validator or the updater reported an error: "+traceString(o.tr))
					if arg.K != KNil {
						done(x, o, "ApplyValue", pos, "g", "v", obj, true)
					}
				}
				r.SawEngine(x.e)
			}
		}
		r.Floor("validated", 6)
		r.Floor("refused", 4)
		r.Floor("accepted", 6)
		r.Floor("read", 6)
	})
}
