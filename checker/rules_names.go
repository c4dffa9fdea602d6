package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tStatus = pkgGem + ".StatusVariable"

// reported is one of the two kinds of things an equipment reports: its type,
// the type of its provider, and the field with the value to start with.
type reported struct {
	typ, provider, def string
	value, names       string // requests of values and of names
	texts              []string
	askValues, askInfo string // the host's operations
	register           string
}

var reportedKinds = []reported{
	{tStatus, "StatusValueProvider", "", "S1F3", "S1F11", []string{"Name", "Unit"}, "RequestStatusVariables", "RequestStatusVariableInfo", "RegisterStatusVariable"},
	{tConst, "EquipmentConstantValueProvider", "DefaultValue", "S2F13", "S2F29", []string{"Name", "?MinValue", "?MaxValue", "?DefaultValue", "Unit"}, "RequestEquipmentConstants", "RequestEquipmentConstantInfo", "RegisterEquipmentConstant"},
}

// reads: the item is the value of the object with this name.
func (x *gx) reads(a, item, name, provider, stored, def string) bool {
	isE := item == "E()"
	nil3 := func(f string) int {
		is, known := x.isNil(a, "?"+name+"."+f)
		switch {
		case !known:
			return 0
		case is:
			return 1
		}
		return -1
	}
	switch nil3(provider) {
	case -1:
		ret := "?ret(" + name + "." + provider + ")"
		is, known := x.isNil(a, ret)
		return item == ret || isE && (known && is || parseA(a)["apperr"] != "")
	case 1:
		switch v := nil3(stored); {
		case v == -1:
			return item == "?"+name+"."+stored
		case v == 1 && def == "":
			return isE
		case v == 1:
			switch nil3(def) {
			case -1:
				return item == "?"+name+"."+def
			case 1:
				return isE
			}
		}
	}
	return false
}

func init() {
	register("C65", "The handlers of S1F3, S1F11, S2F13 and S2F29 are interpreted without merging against symbolic registries of status variables and equipment constants with symbolic providers, the host's four request operations against symbolic identifiers and replies; every item that is answered, every request that is sent and every value that is returned is compared with what it stands for.", func(r *Report) {
		P := r.P
		r.Rule("values", "S1F4 answers each requested identifier, in order, with the value of the status variable registered under it (what the provider returns, else the stored value, else an empty item), an unknown identifier with an empty item")
		r.Rule("names", "S1F12 and S2F30 answer each requested identifier, in order, with the id, name and unit (and the limits and default) of what is registered under it, an unknown identifier with empty texts")
		r.Rule("all", "an empty request is answered with every registered variable or constant, in the order of registration")
		r.Rule("register", "registering puts the variable or constant at the end of the order; a second one under the same id is refused and nothing changes")
		r.Rule("request", "the host's operations send the identifiers they are given, in order, in the request they are named after")
		r.Rule("reply", "the host's operations return, in order, the items of the reply with the identifier each was requested by (with the id, name, unit, limits and default of each entry), and an error for a reply of another form or length")
		r.Assume("requests and replies with more entries than the examples behave like those with two")
		U, A, I := sh("U"), sh("A"), sh("I")
		regs := P.gemRegs(r)
		for _, k := range reportedKinds {
			short := k.typ[strings.LastIndex(k.typ, ".")+1:]
			st := P.structType(pkgGem, short)
			if !r.Anchor(st != nil, k.typ) {
				continue
			}
			provider := fieldBy(st, func(t types.Type) bool { return isNamed(t, k.provider) })
			stored := ""
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); types.TypeString(f.Type(), nil) == tItem && !f.Exported() {
					stored = f.Name()
				}
			}
			if !r.Anchor(provider != "" && stored != "", "the provider and the stored value of "+k.typ) {
				continue
			}
			reg := P.method(pkgGem, "GemHandler", k.register)
			if !r.Anchor(reg != nil, "GemHandler."+k.register) {
				continue
			}
			order, keys := P.orderField(reg, k.typ)

			// value and entry judge one item of an answer
			value := func(x *gx, o Outcome, what, pos, item, name string) {
				r.Check(x.reads(o.A, item, name, provider, stored, k.def), "values", what, pos, what+" answers with "+item+", which is not the value of "+name+": "+traceString(o.tr))
			}
			entry := func(x *gx, o Outcome, what, pos, item, name, path string, sure bool) {
				b := itemArgs(item)
				if !r.Check(strings.HasPrefix(item, "L(") && len(b) == len(k.texts)+1, "names", what+" form", pos, what+" answers with the entry "+item+" instead of a list of "+itoa(len(k.texts)+1)) {
					return
				}
				if name == "" {
					good := b[0] == "E()" && !sure || strings.Contains(b[0], path+")")
					for i, f := range k.texts {
						good = good && b[i+1] == map[bool]string{true: "E()", false: `A("")`}[f[0] == '?']
					}
					r.Check(good, "names", what+" unknown", pos, what+" answers an identifier that is not registered with "+item+": "+traceString(o.tr))
					return
				}
				good := strings.HasPrefix(b[0], "id!"+name+".") || strings.HasPrefix(b[0], "?"+name+".")
				for i, f := range k.texts {
					if f[0] != '?' {
						good = good && b[i+1] == "A("+name+"."+f+")"
						continue
					}
					is, known := x.isNil(o.A, "?"+name+"."+f[1:])
					good = good && (b[i+1] == "?"+name+"."+f[1:] && !(known && is) || b[i+1] == "E()" && known && is)
				}
				r.Check(good, "names", what+" entry", pos, what+" describes "+name+" as "+item+": "+traceString(o.tr))
			}
			n := 0
			for _, h := range regs {
				if h.role != "DeviceEquipment" || h.sf() != k.value && h.sf() != k.names {
					continue
				}
				n++
				pos := P.pos(h.fn.Pos())
				for _, s := range []*shape{sh("L", U), sh("L", A, U), sh("L", U, I), sh("L", U, same("U", "in/0")), sh("L", sh("L"), A), sh("L", U, sh("F")), sh("L", A, &shape{kind: "U", none: true})} {
					x := newGX(P, h.role, s, 1)
					x.ids = true
					for _, o := range x.handle(h) {
						if o.Panicked || len(o.Rets) == 0 {
							continue
						}
						b := attr(tagOf(o.Rets[0]), "body")
						vs := itemArgs(b)
						rule := map[bool]string{true: "values", false: "names"}[h.sf() == k.value]
						if !r.Check(strings.HasPrefix(b, "L(") && len(vs) == len(s.sub), rule, h.sf()+" length", pos, h.sf()+" "+s.String()+" is answered with "+b+", which has not one entry per identifier: "+traceString(o.tr)) {
							continue
						}
						for i, e := range s.sub {
							p := "in/" + itoa(i)
							if e.as != "" {
								p = e.as
							}
							name, _, had, _ := x.keyed(o.Mem, k.typ, "vals("+p+")")
							odd := e.kind == "L" || e.kind == "F" || e.none
							if odd || !had {
								name = ""
							}
							what := h.sf() + " " + s.String() + " " + itoa(i)
							switch {
							case h.sf() == k.names:
								path := "(in/" + itoa(i)
								if strings.Contains(vs[i], "("+p+")") {
									path = "(" + p
								}
								entry(x, o, what, pos, vs[i], name, path, !odd && (e.kind == "A" || e.kind == "U"))
							case name != "":
								value(x, o, what, pos, vs[i], name)
							default:
								r.Check(vs[i] == "E()", "values", what+" unknown", pos, what+" answers an identifier that is not registered with "+vs[i]+": "+traceString(o.tr))
							}
						}
					}
					r.SawEngine(x.e)
					r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of "+h.sf()+" "+s.String())
				}
				// everything
				if order == "" {
					r.Count("empty requests whose order is not followed", 1)
					continue
				}
				x := newGX(P, h.role, sh("L"), 2)
				x.ids = true
				most := 0
				for _, o := range x.handle(h) {
					if o.Panicked || len(o.Rets) == 0 {
						continue
					}
					b := attr(tagOf(o.Rets[0]), "body")
					vs := itemArgs(b)
					var names []string
					mapName := x.mapName(o.Mem, k.typ)
					for i := 0; i < 2; i++ {
						el := "g." + order + "[" + itoa(i) + "]"
						if !keys {
							names = append(names, el)
						} else if _, had, _ := x.entryOf(o.Mem, k.typ, TagV(el)); had {
							names = append(names, mapName+"{"+el+"}")
						}
					}
					if !r.Check(strings.HasPrefix(b, "L(") && len(vs) == len(names), "all", h.sf()+" length", pos, "an empty "+h.sf()+" is answered with "+b+" instead of one entry for each of "+strings.Join(names, ", ")+": "+traceString(o.tr)) {
						continue
					}
					most = max(most, len(vs))
					for i, name := range names {
						if h.sf() == k.names {
							entry(x, o, "empty "+h.sf()+" "+itoa(i), pos, vs[i], name, "", false)
						} else {
							value(x, o, "empty "+h.sf()+" "+itoa(i), pos, vs[i], name)
						}
					}
				}
				r.Check(most == 2, "all", h.sf()+" lists", pos, "an empty "+h.sf()+" never lists what is registered")
				r.SawEngine(x.e)
				r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of an empty "+h.sf())
			}
			r.Anchor(n == 2, "the equipment's handlers of "+k.value+" and "+k.names)

			// registration
			{
				x := newGX(P, "DeviceEquipment", nil, 1)
				pos := P.pos(reg.Pos())
				done := 0
				var obj *instSite
				x.setup = func(st *State) []Val {
					obj = x.e.symObj(st, reg.Params[1], "new")
					obj.typ = reg.Params[1].Type().Underlying().(*types.Pointer).Elem()
					return []Val{{}, {K: KAddr, Site: obj}}
				}
				for _, o := range x.run(reg, "", nil, nil) {
					if o.Panicked || len(o.Rets) != 1 {
						continue
					}
					free, had, put := false, false, false
					m, _, ok := x.registry(o.Mem, k.typ)
					if !ok {
						// the pointer's type
						m, _, ok = x.registry(o.Mem, "*"+k.typ)
					}
					if !ok {
						r.Check(o.Rets[0].K != KNil, "register", k.register, pos, k.register+" succeeds without storing what it is given: "+traceString(o.tr))
						continue
					}
					id := x.e.siteID(m.Site)
					for mk, v := range o.Mem {
						if mk.site == id && strings.HasPrefix(mk.path, "i{") {
							free, had = free || isAbsent(v), had || !isAbsent(v)
						}
					}
					es := x.entries(o.Mem, k.typ)
					for _, v := range es {
						put = put || v.K == KAddr && v.Site == obj
					}
					if o.Rets[0].K == KNil {
						done++
						r.Check(put && !had && free, "register", k.register+" stores", pos, k.register+" succeeds although the id may be taken, or without storing what it is given: "+traceString(o.tr))
						if order != "" {
							c := &Ctx{e: x.e, st: &State{mem: o.Mem}}
							l := x.read(o.Mem, Val{K: KAddr, Site: x.root}, order)
							var el types.Type = types.Typ[types.String]
							if !keys {
								el = reg.Params[1].Type()
							}
							vs, ok := c.elems(l, el)
							good := ok && len(vs) == 2 && tagOf(vs[0]) == "g."+order+"[0]"
							if good && keys {
								_, in := es[mapKey(vs[1])]
								good = in
							} else if good {
								good = vs[1].K == KAddr && vs[1].Site == obj
							}
							r.Check(good, "register", k.register+" order", pos, k.register+" does not put what it is given at the end of the order: "+traceString(o.tr))
						}
					} else {
						r.Check(!put, "register", k.register+" refuses", pos, k.register+" reports an error but stores what it is given: "+traceString(o.tr))
					}
				}
				r.Check(done > 0, "register", k.register+" succeeds", pos, k.register+" never succeeds")
				r.SawEngine(x.e)
			}

			// the host
			for _, op := range []string{k.askValues, k.askInfo} {
				f := P.method(pkgGem, "GemHandler", op)
				if !r.Anchor(f != nil && len(f.Params) == 2, "GemHandler."+op) {
					continue
				}
				pos := P.pos(f.Pos())
				sf := k.value
				var ent []*shape
				replies := []*shape{sh("L", U, A), sh("L", U), sh("L"), sh("L", U, U, U), U}
				if op == k.askInfo {
					sf = k.names
					for _, t := range k.texts {
						if t[0] == '?' {
							ent = append(ent, sh("F"))
						} else {
							ent = append(ent, A)
						}
					}
					e := func(id *shape) *shape { return sh("L", append([]*shape{id}, ent...)...) }
					replies = []*shape{sh("L", e(U), e(A)), sh("L", U, A), sh("L", e(U), sh("L", append([]*shape{U}, ent[1:]...)...)), sh("L", e(U), sh("L")), U}
				}
				for ri, rep := range replies {
					x := newGX(P, "DeviceHost", sh("E"), 1)
					x.reply = rep
					sent, got := 0, 0
					x.gm.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
						sent++
						if ri > 0 {
							return
						}
						s, fu, _, ok := newData(tagOf(msg))
						b := attr(tagOf(msg), "body")
						vs := itemArgs(b)
						good := ok && "S"+s+"F"+fu == sf && strings.HasPrefix(b, "L(") && len(vs) == 2
						for i := 0; good && i < 2; i++ {
							good = strings.Contains(vs[i], "ids["+itoa(i)+"]") && !strings.Contains(vs[i], "ids["+itoa(1-i)+"]") && (vs[i][0] == 'A' || vs[i][0] == 'U')
						}
						d := tagOf(msg)
						if len(d) > 300 {
							d = d[:300] + "..."
						}
						r.Check(good, "request", op, P.ipos(site), op+" sends "+d+" instead of "+sf+" with the identifiers it is given: "+c.Trace())
					}
					x.setup = func(st *State) []Val {
						o := x.e.symObj(st, f.Params[1], "ids")
						o.typ = f.Params[1].Type()
						for i := 0; i < 2; i++ {
							st.mem[memKey{x.e.siteID(o), "[" + itoa(i) + "]"}] = TagV("ids[" + itoa(i) + "]")
						}
						return []Val{{}, {K: KSlice, Site: o, Len: 2}}
					}
					for _, o := range x.run(f, "", nil, nil) {
						if o.Panicked || len(o.Rets) != 2 || o.Rets[1].K != KNil {
							continue
						}
						got++
						if ri > 0 {
							r.Bad("reply", op+" "+rep.String(), pos, op+" reports success for the reply "+rep.String()+" to a request of two identifiers: "+traceString(o.tr))
							continue
						}
						c := &Ctx{e: x.e, st: &State{mem: o.Mem}}
						es, ok := c.elems(o.Rets[0], f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem())
						if !r.Check(ok && len(es) == 2, "reply", op+" length", pos, op+" does not return what the reply lists: "+traceString(o.tr)) {
							continue
						}
						for i, e := range es {
							p := "reply/" + itoa(i)
							fs := []string{"Value"}
							if op == k.askInfo {
								fs = k.texts
							}
							id := x.e.key(structField(e, "ID"))
							good := strings.Contains(id, "ids["+itoa(i)+"]") && !strings.Contains(id, "ids["+itoa(1-i)+"]")
							if op == k.askInfo {
								good = strings.Contains(id, "vals("+p+"/0)")
							}
							r.Check(good, "reply", op+" id", pos, op+" returns entry "+itoa(i)+" with the id "+id+": "+traceString(o.tr))
							for j, fl := range fs {
								want := "vals(" + p + "/" + itoa(j+1) + ")"
								switch {
								case op == k.askValues:
									want = "item(" + p + ")"
								case fl[0] == '?':
									fl = strings.TrimSuffix(fl[1:], "Value")
									want = "item(" + p + "/" + itoa(j+1) + ")"
								}
								v := tagOf(structField(e, fl))
								r.Check(v == want, "reply", op+" "+fl, pos, op+" returns entry "+itoa(i)+" with "+fl+" "+v+" instead of "+want+": "+traceString(o.tr))
							}
						}
					}
					r.Check(sent > 0 && (ri > 0 || got > 0), "reply", op+" answers", pos, op+" never sends its request or never returns the reply")
					if ri > 0 && got == 0 {
						r.Good("reply", op+" refuses "+rep.String(), pos)
					}
					r.SawEngine(x.e)
				}
			}
		}
		r.Floor("values", 10)
		r.Floor("names", 20)
		r.Floor("register", 6)
		r.Floor("request", 4)
		r.Floor("reply", 20)
	})
}

// orderField is the handler's list that a registration appends to: of keys or
// of the registered things themselves.
func (P *Program) orderField(reg *ssa.Function, typ string) (name string, keys bool) {
	st := P.structType(pkgGem, "GemHandler")
	if st == nil {
		return
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !P.isLibFn(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					visit(ci.Common().StaticCallee())
				}
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				o := ownerField(fa)
				sl, isSlice := s.Val.Type().Underlying().(*types.Slice)
				if !isSlice || !strings.HasPrefix(o, "gem.GemHandler.") {
					continue
				}
				switch {
				case isString(sl.Elem()):
					name, keys = o[strings.LastIndex(o, ".")+1:], true
				case typeKey(sl.Elem()) == typ:
					name, keys = o[strings.LastIndex(o, ".")+1:], false
				}
			}
		}
	}
	visit(reg)
	return
}
