package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tCEvent = pkgGem + ".CollectionEvent"
	tReport = pkgGem + ".ReportDefinition"
	tSV     = pkgGem + ".StatusVariable"
	tDV     = pkgGem + ".DataVariable"
)

// mapsOf are the fields of the GEM handler (and of the structs it owns) that
// are maps, by the type of their entries.
func (P *Program) gemMapElem(pred func(st *types.Struct) bool) string {
	pk := P.byPkg[pkgGem]
	if pk == nil {
		return ""
	}
	o, ok := pk.Pkg.Scope().Lookup("GemHandler").(*types.TypeName)
	if !ok {
		return ""
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	out := ""
	for i := 0; i < st.NumFields(); i++ {
		m, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		k := typeKey(m.Elem())
		if !strings.HasPrefix(k, pkgGem+".") {
			continue
		}
		t := m.Elem()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if es, ok := t.Underlying().(*types.Struct); ok && pred(es) {
			if out != "" {
				return ""
			}
			out = k
		}
	}
	return out
}

// fieldBy is the one field of a struct whose type satisfies a condition.
func fieldBy(st *types.Struct, pred func(types.Type) bool) string {
	out := ""
	for i := 0; i < st.NumFields(); i++ {
		if pred(st.Field(i).Type()) {
			if out != "" {
				return ""
			}
			out = st.Field(i).Name()
		}
	}
	return out
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func isStrings(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// read is the content of a field of an object at the end of a run.
func (x *gx) read(mem map[memKey]Val, obj Val, field string) Val {
	if obj.K == KStruct {
		return structField(obj, field)
	}
	if obj.K != KAddr {
		return Top
	}
	if v, ok := mem[memKey{x.e.siteID(obj.Site), obj.Path + "." + field}]; ok {
		return v
	}
	o, ok := obj.Site.(*instSite)
	if !ok || o.typ == nil {
		return Top
	}
	if _, pinned := mem[memKey{x.e.siteID(o), "pin"}]; !pinned {
		return Top
	}
	return x.initial(&Ctx{e: x.e, st: &State{mem: mem}}, o, "."+field)
}

// entries lists what a registry holds at the end of a run.
func (x *gx) entries(mem map[memKey]Val, elem string) map[string]Val {
	out := map[string]Val{}
	if m, _, ok := x.registry(mem, elem); ok {
		st := &State{mem: mem}
		for _, k := range x.e.mapKeys(st, m) {
			v, _ := x.e.mapGet(st, x.e.siteID(m.Site), k)
			out[k] = v
		}
	}
	return out
}

// keyed finds the entry whose key stands for a value; had is whether it was
// there at the start.
func (x *gx) keyed(mem map[memKey]Val, elem, val string) (name string, v Val, had, has bool) {
	m, _, ok := x.registry(mem, elem)
	if !ok {
		return
	}
	id := x.e.siteID(m.Site)
	for k, i := range mem {
		if k.site == id && strings.HasPrefix(k.path, "i{") && standsFor(k.path, val) && !isAbsent(i) {
			had = true
			name = m.Site.(*instSite).name + "{" + strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(k.path, "i{"), "~"), "}") + "}"
		}
	}
	for k, w := range x.entries(mem, elem) {
		if standsFor(k, val) {
			v, has = w, true
		}
	}
	return
}

// gone: a registry is known not to hold a key that stands for a value.
func (x *gx) gone(mem map[memKey]Val, elem, val string) bool {
	m, _, ok := x.registry(mem, elem)
	if !ok {
		return false
	}
	if _, sym := x.e.isSym(&State{mem: mem}, m); !sym || x.e.cleared(mem, m) {
		_, _, _, has := x.keyed(mem, elem, val)
		return !has
	}
	id := x.e.siteID(m.Site)
	looked := false
	for k := range mem {
		if k.site == id && (strings.HasPrefix(k.path, "i{") || strings.HasPrefix(k.path, "{")) && standsFor(k.path, val) {
			looked = true
		}
	}
	_, _, _, has := x.keyed(mem, elem, val)
	return looked && !has
}

// standsFor: a registry key made from the value with this name.
func standsFor(key, val string) bool {
	i := strings.Index(key, val)
	if i < 0 {
		return false
	}
	r := key[i+len(val):]
	return r == "" || !strings.HasPrefix(r, "/") && !('0' <= r[0] && r[0] <= '9')
}

func init() {
	register("C33", "The handlers of S2F33, S2F35, S2F37 and S6F15 and the sending of S6F11 are interpreted without merging against symbolic registries of events, links, reports and variables; every report that can be sent and every link that is left at the end of a path is compared with what the registries hold.", func(r *Report) {
		P := r.P
		r.Rule("gated", "a report is put in an S6F11 or S6F16 only when the collection event it names is defined, linked and enabled, and only for reports that exist and are linked to it, each of them once, in the order of the links")
		r.Rule("values", "every listed report carries exactly one entry for each of its variables, in order: that variable's value or an empty item")
		r.Rule("sent", "triggering a defined, linked, enabled event that has an existing report sends S6F11")
		r.Rule("deleted", "after an accepted S2F33 that deletes a report the report is gone and no event is linked to it; after one that deletes all, no report and no link is left")
		r.Rule("defined", "an accepted S2F33 stores every defined report with its variables in order, all of which exist")
		r.Rule("linked", "an accepted S2F35 links every listed event, which is defined, to the listed reports, which exist, or unlinks it when it lists none")
		r.Rule("enabled", "an accepted S2F37 gives every listed event (or, when it lists none, every linked event) the enabled flag it says")
		r.Assume("the items with the ids of registered events and reports are not nil (the registering operations build them from the ids)")
		r.Assume("lists with more than two entries are treated like those with two")
		tLink := P.gemMapElem(func(st *types.Struct) bool {
			return fieldBy(st, isBool) != "" && fieldBy(st, isStrings) != "" && st.NumFields() <= 4
		})
		if !r.Anchor(tLink != "", "the registry of event links (a map of the GEM handler to structs with the linked reports and the enabled flag)") {
			return
		}
		var linkSt, repSt *types.Struct
		for _, n := range []struct {
			k string
			p **types.Struct
		}{{tLink, &linkSt}, {tReport, &repSt}} {
			if o, ok := P.byPkg[pkgGem].Pkg.Scope().Lookup(strings.TrimPrefix(n.k, pkgGem+".")).(*types.TypeName); ok {
				*n.p, _ = o.Type().Underlying().(*types.Struct)
			}
		}
		if !r.Anchor(linkSt != nil && repSt != nil, "the link and report structs") {
			return
		}
		fEn, fRep, fVid := fieldBy(linkSt, isBool), fieldBy(linkSt, isStrings), fieldBy(repSt, isStrings)
		if !r.Anchor(fVid != "", "the variable list of a report definition") {
			return
		}
		slice := func(x *gx, mem map[memKey]Val, v Val) ([]Val, bool) {
			return (&Ctx{e: x.e, st: &State{mem: mem}}).elems(v, types.Typ[types.String])
		}
		// body checks the reports of an S6F11 or S6F16
		sent := 0
		body := func(x *gx, a string, mem map[memKey]Val, tag, what, pos, val string, two bool) (n int, all bool) {
			b := itemArgs(attr(tag, "body"))
			if !r.Check(len(b) == 3 && strings.HasPrefix(b[2], "L("), "gated", what+": form", pos, what+" is "+attr(tag, "body")+", not <DATAID CEID <reports>>") {
				return 0, false
			}
			reps := itemArgs(b[2])
			_, _, evHad, _ := x.keyed(mem, tCEvent, val)
			lname, link, lhad, _ := x.keyed(mem, tLink, val)
			en := known01(a, x.read(mem, link, fEn)) == 1
			if len(reps) > 0 {
				sent++
				r.Check(evHad, "gated", what+": defined events", pos, what+" carries reports for an event that may not be defined")
				r.Check(lhad && en, "gated", what+": enabled links", pos, what+" carries reports for an event that may not be linked and enabled")
				r.Check(strings.Contains(b[1], val), "gated", what+": CEID", pos, what+" carries reports under CEID "+b[1]+", not that of the event")
			}
			// the linked reports that exist
			var want []string
			rn := x.mapName(mem, tReport)
			ks := 2
			if !two {
				ks = 1
			}
			if evHad && lhad && en {
				all = true
			}
			for i := 0; i < ks; i++ {
				key := lname + "." + fRep + "[" + itoa(i) + "]"
				if _, had, _ := x.entryOf(mem, tReport, TagV(key)); had {
					want = append(want, rn+"{"+key+"}")
				} else if !x.decided(mem, tReport, TagV(key)) {
					want = append(want, "(perhaps) "+rn+"{"+key+"}")
				}
			}
			if len(reps) == 0 {
				return 0, all && len(want) > 0
			}
			good := len(reps) == len(want)
			for i := 0; good && i < len(reps); i++ {
				good = strings.HasPrefix(reps[i], "L(id!"+want[i]+".")
			}
			r.Check(good, "gated", what+": the linked reports", pos, what+" lists "+strings.Join(reps, ", ")+" instead of the existing reports linked to the event: "+strings.Join(want, ", "))
			for i := 0; good && i < len(reps); i++ {
				e := itemArgs(reps[i])
				ok := len(e) == 2 && strings.HasPrefix(e[1], "L(")
				var vs []string
				if ok {
					vs = itemArgs(e[1])
				}
				ok = ok && len(vs) == ks
				for j := 0; ok && j < ks; j++ {
					ok = vs[j] == "E()" || strings.Contains(vs[j], want[i]+"."+fVid+"["+itoa(j)+"]")
				}
				r.Check(ok, "values", what+": one per variable", pos, what+" carries the report "+reps[i]+", which has not one entry per variable of the report")
				if ok && !two {
					// a variable that exists and has a value is not left out
					empty := vs[0] == "E()"
					key := TagV(want[i] + "." + fVid + "[0]")
					_, s, _ := x.entryOf(mem, tSV, key)
					_, d, _ := x.entryOf(mem, tDV, key)
					if empty && (s || d) {
						none := strings.Contains(a, "apperr=1")
						for k, v := range parseA(a) {
							if strings.HasPrefix(k, "f:nil(?") && strings.Contains(k, key.Tag) && v == "1" {
								none = true
							}
						}
						r.Check(none, "values", what+": values", pos, what+" leaves out the value of a variable that has one")
					}
				}
			}
			return len(reps), all
		}
		plain := func(c *Ctx, obj *instSite, path string, t types.Type) (Val, bool) {
			switch t.Underlying().(type) {
			case *types.Signature:
				return NilV, true
			case *types.Interface:
				if strings.HasPrefix(obj.name, "g.") && strings.Contains(obj.name, "{") && types.TypeString(t, nil) == tItem && !strings.Contains(path, ".info.") {
					return TagV("item?" + obj.name + path), true
				}
			}
			return Top, false
		}
		have := map[string]bool{}
		for _, h := range P.gemRegs(r) {
			if h.role != "DeviceEquipment" {
				continue
			}
			h := h
			pos := P.pos(h.fn.Pos())
			acc := func(x *gx, o Outcome) bool {
				return !o.Panicked && len(o.Rets) > 0 && ackOf(tagOf(o.Rets[0])) == "0"
			}
			pathVal := func(s *shape, p string) string {
				t := s.at(p)
				if t == nil {
					return "?none"
				}
				if t.as != "" {
					p = t.as
				}
				return "vals(" + p + ")"
			}
			switch h.sf() {
			case "S6F15":
				have[h.sf()] = true
				for _, s := range []*shape{sh("U"), sh("A"), sh("L", sh("I"))} {
					for _, two := range []bool{false, true} {
						n := 1
						if two {
							n = 2
						}
						x := newGX(P, h.role, s, n)
						x.ids = true
						if two {
							x.field = plain
						}
						p := "in"
						if s.kind == "L" {
							p = "in/0"
						}
						for _, o := range x.handle(h) {
							if o.Panicked || len(o.Rets) == 0 {
								continue
							}
							r.Check(len(x.changes(o.Mem)) == 0, "gated", "S6F15 changes nothing", pos, "S6F15 "+strings.Join(x.changes(o.Mem), ", "))
							k, some := body(x, o.A, o.Mem, tagOf(o.Rets[0]), "S6F16 for "+s.String(), pos, "vals("+p+")", two)
							r.Check(k > 0 || !some, "sent", "S6F16 is complete", pos, "S6F15 for an enabled event that has a report is answered without it: "+traceString(o.tr))
						}
						r.SawEngine(x.e)
						r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of S6F15")
					}
				}
			case "S2F33":
				have[h.sf()] = true
				for _, s := range configShapes()["S2F33"] {
					x := newGX(P, h.role, s, 2)
					n := 0
					for _, o := range x.handle(h) {
						if !acc(x, o) {
							continue
						}
						n++
						es, p := s, "in"
						if len(s.sub) > 0 && s.sub[0].kind != "L" {
							es, p = s.sub[1], "in/1"
						}
						if len(es.sub) == 0 {
							for _, t := range []string{tReport, tLink} {
								m, _, ok := x.registry(o.Mem, t)
								sym := false
								if ok {
									_, sym = x.e.isSym(&State{mem: o.Mem}, m)
									sym = sym && !x.e.cleared(o.Mem, m)
								}
								r.Check(ok && !sym && len(x.entries(o.Mem, t)) == 0, "deleted", s.String()+": all "+shortType(t), pos, "after an S2F33 that deletes all reports something is left of the "+shortType(t)+" registry")
							}
							continue
						}
						for i, e := range es.sub {
							q := p + "/" + itoa(i)
							val := pathVal(s, q+"/0")
							_, v, _, has := x.keyed(o.Mem, tReport, val)
							if len(e.sub[1].sub) > 0 {
								ks, ok := slice(x, o.Mem, x.read(o.Mem, v, fVid))
								good := has && ok && len(ks) == len(e.sub[1].sub)
								for j := 0; good && j < len(ks); j++ {
									w := pathVal(s, q+"/1/"+itoa(j))
									_, _, sv, _ := x.keyed(o.Mem, tSV, w)
									_, _, dv, _ := x.keyed(o.Mem, tDV, w)
									good = standsFor(tagOf(ks[j]), w) && (sv || dv)
								}
								r.Check(good, "defined", s.String()+": "+q, pos, "an accepted S2F33 ("+s.String()+") leaves the report at "+q+" undefined or with other variables than the request lists: "+traceString(o.tr))
								continue
							}
							// deleted, unless a later entry defines it again
							again := false
							for j := i + 1; j < len(es.sub); j++ {
								again = again || pathVal(s, p+"/"+itoa(j)+"/0") == val
							}
							if again {
								continue
							}
							r.Check(x.gone(o.Mem, tReport, val), "deleted", s.String()+": "+q+" report", pos, "an accepted S2F33 ("+s.String()+") does not delete the report at "+q)
							for lk, l := range x.entries(o.Mem, tLink) {
								ks, ok := slice(x, o.Mem, x.read(o.Mem, l, fRep))
								good := ok
								for _, k := range ks {
									t := tagOf(k)
									f := 0
									for c, fv := range parseA(o.A) {
										if strings.HasPrefix(c, "f:cmp(") && strings.Contains(c, t) && standsFor(c, val) {
											f = 1
											if fv == "1" {
												f = -1
											}
										}
									}
									good = good && f == 1
								}
								r.Check(good, "deleted", s.String()+": "+q+" links", pos, "after an S2F33 ("+s.String()+") deletes a report the event "+lk+" may still be linked to it: "+traceString(o.tr))
							}
						}
					}
					r.SawEngine(x.e)
					r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of S2F33 "+s.String())
				}
			case "S2F35":
				have[h.sf()] = true
				for _, s := range configShapes()["S2F35"] {
					x := newGX(P, h.role, s, 1)
					for _, o := range x.handle(h) {
						if !acc(x, o) {
							continue
						}
						es, p := s, "in"
						if s.sub[0].kind != "L" {
							es, p = s.sub[1], "in/1"
						}
						last := map[string]int{}
						for i := range es.sub {
							last[pathVal(s, p+"/"+itoa(i)+"/0")] = i
						}
						for i, e := range es.sub {
							q := p + "/" + itoa(i)
							val := pathVal(s, q+"/0")
							_, _, ev, _ := x.keyed(o.Mem, tCEvent, val)
							_, l, _, has := x.keyed(o.Mem, tLink, val)
							r.Check(ev, "linked", s.String()+": "+q+" event", pos, "S2F35 ("+s.String()+") is accepted for an event that may not be defined: "+traceString(o.tr))
							if len(e.sub[1].sub) == 0 {
								r.Check(last[val] != i || x.gone(o.Mem, tLink, val), "linked", s.String()+": "+q+" unlinked", pos, "an accepted S2F35 ("+s.String()+") that lists no report leaves the event linked")
								continue
							}
							ks, ok := slice(x, o.Mem, x.read(o.Mem, l, fRep))
							for j := range e.sub[1].sub {
								w := pathVal(s, q+"/1/"+itoa(j))
								_, _, rp, _ := x.keyed(o.Mem, tReport, w)
								in := 0
								for _, k := range ks {
									if standsFor(tagOf(k), w) {
										in++
									}
								}
								r.Check(rp && has && ok && in > 0, "linked", s.String()+": "+q+"/1/"+itoa(j), pos, "an accepted S2F35 ("+s.String()+") leaves the event without a link to the report at "+q+"/1/"+itoa(j)+", or the report may not exist: "+traceString(o.tr))
							}
						}
					}
					r.SawEngine(x.e)
				}
			case "S2F37":
				have[h.sf()] = true
				for _, s := range configShapes()["S2F37"] {
					if s.sub[0].kind != "T" {
						continue
					}
					x := newGX(P, h.role, s, 1)
					flag := TagV("vals(in/0)[0]")
					for _, o := range x.handle(h) {
						if !acc(x, o) {
							continue
						}
						if len(s.sub[1].sub) == 0 {
							for k, l := range x.entries(o.Mem, tLink) {
								r.Check(agree(o.A, x.read(o.Mem, l, fEn), flag), "enabled", s.String()+": all", pos, "an S2F37 for all events does not set the flag of "+k)
							}
							continue
						}
						for i := range s.sub[1].sub {
							q := "in/1/" + itoa(i)
							_, l, had, has := x.keyed(o.Mem, tLink, pathVal(s, q))
							r.Check(had && has && agree(o.A, x.read(o.Mem, l, fEn), flag), "enabled", s.String()+": "+q, pos, "an accepted S2F37 ("+s.String()+") leaves the event at "+q+" with another enabled flag: "+traceString(o.tr))
						}
					}
					r.SawEngine(x.e)
				}
			}
		}
		for _, k := range []string{"S6F15", "S2F33", "S2F35", "S2F37"} {
			r.Anchor(have[k], "the equipment's handler of "+k)
		}
		// S6F11
		if f := P.method(pkgGem, "GemHandler", "TriggerCollectionEvent"); r.Anchor(f != nil, "GemHandler.TriggerCollectionEvent") {
			for _, two := range []bool{false, true} {
				n := 1
				if two {
					n = 2
				}
				x := newGX(P, "DeviceEquipment", sh("E"), n)
				if two {
					x.field = plain
				}
				x.hm.followGo, x.ids = true, true
				x.setup = func(st *State) []Val {
					o := x.e.symObj(st, f.Params[1], "ids")
					st.mem[memKey{x.e.siteID(o), "[0]"}] = TagV("ids[0]")
					return []Val{{}, {K: KSlice, Site: o, Len: 1}}
				}
				nSend := 0
				x.gm.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
					if s, fu, _, ok := newData(tagOf(msg)); ok && s == "6" && fu == "11" {
						nSend++
						if k, _ := body(x, c.A(), c.st.mem, tagOf(msg), "S6F11", P.ipos(site), "ids[0]", two); k > 0 {
							c.Put("s6f11", "1")
						} else {
							r.Bad("gated", "S6F11: empty", P.ipos(site), "an S6F11 without reports is sent")
						}
					}
				}
				done := func(o Outcome) {
					r.Check(len(x.changes(o.Mem)) == 0, "gated", "S6F11 changes nothing", P.pos(f.Pos()), "TriggerCollectionEvent "+strings.Join(x.changes(o.Mem), ", "))
					lname, link, lhad, _ := x.keyed(o.Mem, tLink, "ids[0]")
					_, _, ev, _ := x.keyed(o.Mem, tCEvent, "ids[0]")
					rep := false
					for i := 0; i < n; i++ {
						k := TagV(lname + "." + fRep + "[" + itoa(i) + "]")
						_, had, _ := x.entryOf(o.Mem, tReport, k)
						rep = rep || had || !x.decided(o.Mem, tReport, k)
					}
					if ev && lhad && rep && known01(o.A, x.read(o.Mem, link, fEn)) == 1 {
						r.Check(parseA(o.A)["s6f11"] != "", "sent", "S6F11 is sent", P.pos(f.Pos()), "triggering an enabled event that has a report does not send S6F11: "+traceString(o.tr))
					}
				}
				x.hm.followed = func(c *Ctx, site ssa.CallInstruction, fn *ssa.Function, os []Outcome) {
					for _, o := range os {
						done(o)
					}
				}
				for _, o := range x.run(f, "", nil, nil) {
					if !o.Panicked && len(o.Rets) == 1 && o.Rets[0].K == KNil && nSend == 0 {
						done(o)
					}
				}
				r.SawEngine(x.e)
				r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of TriggerCollectionEvent")
			}
		}
		r.Check(sent > 0, "gated", "reports are sent", "-", "no report is ever sent")
		r.Floor("gated", 15)
		r.Floor("values", 6)
		r.Floor("sent", 1)
		r.Floor("deleted", 8)
		r.Floor("defined", 6)
		r.Floor("linked", 8)
		r.Floor("enabled", 5)
	})
}
