package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tAlarm      = pkgGem + ".Alarm"
	tAlarmEvent = pkgGem + ".AlarmEvent"
)

// entryOf finds the registry entry stored under a key and whether it was
// there at the start.
func (x *gx) entryOf(mem map[memKey]Val, elem string, key Val) (v Val, had, has bool) {
	m, _, ok := x.registry(mem, elem)
	if !ok {
		return
	}
	id := x.e.siteID(m.Site)
	k := mapKey(key)
	v, has = x.e.mapGet(&State{mem: mem}, id, k)
	if has && isAbsent(v) {
		has = false
	}
	if i, ok := mem[memKey{id, "i" + k}]; ok && !isAbsent(i) {
		had = true
	}
	return
}

// decided: the run has found out whether a registry held a key.
func (x *gx) decided(mem map[memKey]Val, elem string, key Val) bool {
	m, _, ok := x.registry(mem, elem)
	if !ok {
		return false
	}
	_, ok = mem[memKey{x.e.siteID(m.Site), "i" + mapKey(key)}]
	return ok
}

// known01 is what a path knows about a boolean: 1, -1 or 0.
func known01(a string, v Val) int {
	if b, ok := v.IsBool(); ok {
		if b {
			return 1
		}
		return -1
	}
	if v.K == KTag || v.K == KBits {
		t := tagOf(v)
		if strings.HasPrefix(t, "!") {
			return -parseA(a).fact(t[1:])
		}
		return parseA(a).fact(t)
	}
	return 0
}

// agree: two booleans are the same on a path.
func agree(a string, v, w Val) bool {
	if (v.K == KTag || v.K == KBits) && tagOf(v) == tagOf(w) && tagOf(v) != "" {
		return true
	}
	x, y := known01(a, v), known01(a, w)
	return x != 0 && x == y
}

// bitIs: bit n of a code (decimal text of an item) is the boolean on a path.
func bitIs(a, code string, n uint, b Val) bool {
	c := lit0(code)
	if c < 0 || c > 255 {
		return false
	}
	return agree(a, CBool(c&(1<<n) != 0), b)
}

// structField reads a field of a struct value.
func structField(v Val, f string) Val {
	if v.K != KStruct {
		return Top
	}
	if w, ok := v.F["."+f]; ok {
		return w
	}
	return Top
}

func init() {
	register("C26", "The alarm operations and the handlers of S5F1, S5F3, S5F5 and S5F7 are interpreted without merging against a symbolic alarm registry, with the alarm codes followed bit by bit; every S5F1, S5F6 and S5F8 that can be built, every change of the registry and every decoded alarm is compared with the flags it stands for.", func(r *Report) {
		P := r.P
		r.Rule("report", "RaiseAlarm and ClearAlarm send an S5F1 only for an alarm that is registered and enabled, and always for such an alarm; ALCD bit 8 is the new set flag, and ALID and ALTX are the alarm's")
		r.Rule("state", "RaiseAlarm and ClearAlarm record the new set flag and change nothing else; RegisterAlarm stores the alarm under its id, enabled; EnableAlarm and DisableAlarm change exactly the enabled flag of a registered alarm and fail for any other")
		r.Rule("list", "S5F6 lists every registered alarm and S5F8 exactly the enabled ones; in both, bit 8 of ALCD is the set flag and bit 7 the enabled flag of that alarm")
		r.Rule("enable", "an accepted S5F3 gives every listed alarm the enabled flag that bit 8 of ALED says, and only if all of them are registered")
		r.Rule("decode", "the set flag of a received alarm is bit 8 of its ALCD, its id and text are the received ALID and ALTX, and the enabled flag of a listed alarm is bit 7")
		r.Rule("request", "SendEnableAlarm sends ALED with bit 8 set exactly when it is asked to enable, and the ids it was given in order")
		op := func(n string) *ssa.Function {
			f := P.method(pkgGem, "GemHandler", n)
			r.Anchor(f != nil, "GemHandler."+n)
			return f
		}
		set, id := TagV("set"), TagV("id")
		alarm := func(k Val) string { return "g.alarms{" + tagOf(k) + "}" }
		_ = alarm
		// RaiseAlarm, ClearAlarm
		for _, n := range []string{"RaiseAlarm", "ClearAlarm"} {
			f := op(n)
			if f == nil {
				continue
			}
			want := set
			args := []Val{{}, id, set}
			if n == "ClearAlarm" {
				want, args = CBool(false), args[:2]
			}
			x := newGX(P, "DeviceEquipment", sh("E"), 1)
			sent := 0
			x.gm.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
				s, fu, _, ok := newData(tagOf(msg))
				if !ok || s != "5" || fu != "1" {
					return
				}
				sent++
				c.Put("s5f1", "1")
				reg, had, _ := x.entryOf(c.st.mem, tAlarm, id)
				b := itemArgs(attr(tagOf(msg), "body"))
				name := strings.TrimSuffix(tagOf(structField(reg, "Text")), ".Text")
				en := structField(reg, "Enabled")
				r.Check(had && known01(c.A(), en) == 1, "report", n+": only enabled alarms", P.ipos(site), n+" sends S5F1 for an alarm that may be unregistered or disabled")
				r.Check(len(b) == 3 && strings.HasPrefix(b[0], "B(") && bitIs(c.A(), itemArgs(b[0])[0], 7, want), "report", n+": ALCD", P.ipos(site), n+" sends S5F1 whose ALCD ("+strings.Join(b, ", ")+") does not carry the set flag in its top bit")
				r.Check(len(b) == 3 && name != "" && (strings.HasSuffix(b[1], "("+name+".ID)") || strings.HasSuffix(b[1], "(id)")) && b[2] == "A("+name+".Text)", "report", n+": ALID and ALTX", P.ipos(site), n+" sends S5F1 with "+strings.Join(b, ", ")+" instead of the alarm's id and text")
			}
			outs := x.run(f, "", args, nil)
			r.SawEngine(x.e)
			for _, o := range outs {
				if o.Panicked || len(o.Rets) != 1 {
					continue
				}
				m := parseA(o.A)
				pos := P.pos(f.Pos())
				reg, had, _ := x.entryOf(o.Mem, tAlarm, id)
				ch := x.changes(o.Mem)
				ok := o.Rets[0].K == KNil
				if ok {
					r.Check(had, "state", n+": unknown alarms are refused", pos, n+" succeeds for an alarm that is not registered: "+traceString(o.tr))
				}
				if m["s5f1"] != "" || ok {
					r.Check(agree(o.A, structField(reg, "Set"), want), "state", n+": records the set flag", pos, n+" returns without having recorded the new state of the alarm: "+traceString(o.tr))
					en := structField(reg, "Enabled")
					r.Check(m["s5f1"] != "" || known01(o.A, en) == -1, "report", n+": enabled alarms are reported", pos, n+" succeeds without S5F1 for an alarm that may be enabled: "+traceString(o.tr))
				} else if len(ch) > 0 {
					r.Bad("state", n+": failure changes nothing", pos, n+" fails but "+strings.Join(ch, ", ")+": "+traceString(o.tr))
				}
				for k, v := range reg.F {
					if k != ".Set" {
						r.Check(strings.HasSuffix(tagOf(v), k), "state", n+": keeps "+k, pos, n+" changes "+k+" of the alarm")
					}
				}
			}
			r.Check(sent > 0, "report", n+": sends S5F1", P.pos(f.Pos()), n+" never sends S5F1")
		}
		// RegisterAlarm, EnableAlarm, DisableAlarm
		if f := op("RegisterAlarm"); f != nil {
			x := newGX(P, "DeviceEquipment", sh("E"), 1)
			in := x.structOf("new", f.Params[len(f.Params)-1].Type())
			for _, o := range x.run(f, "", []Val{{}, in}, nil) {
				if o.Panicked {
					continue
				}
				reg, _, has := x.entryOf(o.Mem, tAlarm, structField(in, "ID"))
				r.Check(has && known01(o.A, structField(reg, "Enabled")) == 1, "state", "RegisterAlarm: enabled", P.pos(f.Pos()), "RegisterAlarm does not store an enabled alarm under its id")
				for k, v := range in.F {
					if k != ".Enabled" {
						r.Check(has && x.e.key(reg.F[k]) == x.e.key(v), "state", "RegisterAlarm: keeps "+k, P.pos(f.Pos()), "RegisterAlarm does not keep "+k)
					}
				}
			}
			r.SawEngine(x.e)
		}
		for n, want := range map[string]bool{"EnableAlarm": true, "DisableAlarm": false} {
			f := op(n)
			if f == nil {
				continue
			}
			x := newGX(P, "DeviceEquipment", sh("E"), 1)
			for _, o := range x.run(f, "", []Val{{}, id}, nil) {
				if o.Panicked || len(o.Rets) != 1 {
					continue
				}
				reg, had, has := x.entryOf(o.Mem, tAlarm, id)
				pos := P.pos(f.Pos())
				if o.Rets[0].K == KNil {
					r.Check(had && has && agree(o.A, structField(reg, "Enabled"), CBool(want)), "state", n+": sets the flag", pos, n+" succeeds without the alarm being registered and its flag being changed: "+traceString(o.tr))
					for k, v := range reg.F {
						if k != ".Enabled" {
							r.Check(strings.HasSuffix(tagOf(v), k), "state", n+": keeps "+k, pos, n+" changes "+k+" of the alarm")
						}
					}
				} else {
					r.Check(!had && len(x.changes(o.Mem)) == 0, "state", n+": fails only for unknown alarms", pos, n+" fails for a registered alarm or after a change: "+traceString(o.tr))
				}
			}
			r.SawEngine(x.e)
		}
		regs := P.gemRegs(r)
		have := map[string]bool{}
		for _, h := range regs {
			k := h.role + " " + h.sf()
			pos := P.pos(h.fn.Pos())
			switch k {
			case "DeviceEquipment S5F5", "DeviceEquipment S5F7":
				have[k] = true
				x := newGX(P, h.role, sh("E"), 1)
				listed := 0
				for _, o := range x.handle(h) {
					if o.Panicked || len(o.Rets) == 0 || o.Rets[0].K == KNil {
						continue
					}
					key := TagV("other(" + x.mapName(o.Mem, tAlarm) + ")")
					reg, had, _ := x.entryOf(o.Mem, tAlarm, key)
					en := structField(reg, "Enabled")
					body := attr(tagOf(o.Rets[0]), "body")
					es := itemArgs(body)
					r.Check(strings.HasPrefix(body, "L(") && len(es) <= 1, "list", h.sf()+": a list", pos, h.sf()+" is answered with "+body+", not a list of the alarms")
					if h.sf() == "S5F7" {
						r.Check((len(es) == 1) == (had && known01(o.A, en) == 1) && (len(es) == 1 || !had || known01(o.A, en) == -1), "list", h.sf()+": exactly the enabled alarms", pos, h.sf()+" does not list exactly the enabled alarms: "+traceString(o.tr))
					} else {
						r.Check((len(es) == 1) == had, "list", h.sf()+": every alarm", pos, h.sf()+" does not list exactly the registered alarms: "+traceString(o.tr))
					}
					if len(es) != 1 {
						continue
					}
					listed++
					b := itemArgs(es[0])
					good := len(b) == 3 && strings.HasPrefix(b[0], "B(") && len(itemArgs(b[0])) == 1
					r.Check(good && bitIs(o.A, itemArgs(b[0])[0], 7, structField(reg, "Set")), "list", h.sf()+": set flag", pos, h.sf()+" lists an alarm with ALCD "+body+", whose top bit is not its set flag: "+traceString(o.tr))
					r.Check(good && bitIs(o.A, itemArgs(b[0])[0], 6, en), "list", h.sf()+": enabled flag", pos, h.sf()+" lists an alarm with ALCD "+body+", whose bit 7 is not its enabled flag: "+traceString(o.tr))
					r.Check(good && b[1] == "U4("+tagOf(structField(reg, "ID"))+")" && b[2] == "A("+tagOf(structField(reg, "Text"))+")", "list", h.sf()+": id and text", pos, h.sf()+" lists an alarm as "+body)
				}
				r.SawEngine(x.e)
				r.Check(listed > 0, "list", h.sf()+": lists alarms", pos, h.sf()+" never lists an alarm")
			case "DeviceEquipment S5F3":
				have[k] = true
				for _, s := range configShapes()["S5F3"] {
					x := newGX(P, h.role, s, 1)
					n := 0
					for _, o := range x.handle(h) {
						if o.Panicked || len(o.Rets) == 0 || ackOf(tagOf(o.Rets[0])) != "0" {
							continue
						}
						n++
						bit := TagV("bit(vals(in/0)[0],7)")
						for i, e := range s.sub[1].sub {
							p := "in/1/" + itoa(i)
							if e.as != "" {
								p = e.as
							}
							reg, had, has := x.entryOf(o.Mem, tAlarm, TagV("vals("+p+")[0]"))
							r.Check(had, "enable", s.String()+": only registered alarms", pos, "S5F3 is accepted although an alarm it lists may not be registered: "+traceString(o.tr))
							r.Check(has && agree(o.A, structField(reg, "Enabled"), bit), "enable", s.String()+": the flag", pos, "an accepted S5F3 leaves a listed alarm with the enabled flag "+x.e.key(structField(reg, "Enabled"))+", not the top bit of ALED: "+traceString(o.tr))
							for f, v := range reg.F {
								if f != ".Enabled" {
									r.Check(strings.HasSuffix(tagOf(v), f), "enable", s.String()+": keeps "+f, pos, "S5F3 changes "+f+" of an alarm")
								}
							}
						}
						if len(s.sub[1].sub) == 0 {
							r.Check(len(x.changes(o.Mem)) == 0, "enable", s.String()+": nothing else", pos, "an S5F3 that lists nothing changes something")
						}
					}
					r.SawEngine(x.e)
					r.Check(n > 0, "enable", s.String()+": accepted", pos, "S5F3 is never accepted")
				}
			case "DeviceHost S5F1":
				have[k] = true
				for _, s := range []*shape{sh("L", sh("B"), sh("U"), sh("A")), sh("L", sh("B"), sh("I"), sh("A"))} {
					x := newGX(P, h.role, s, 1)
					n := 0
					x.fired = func(c *Ctx, site ssa.CallInstruction, data Val) {
						for _, v := range c.dataStructs(data, ".Set") {
							n++
							r.checkAlarm(c.A(), "S5F1", P.ipos(site), v, "in", false)
						}
					}
					x.handle(h)
					r.SawEngine(x.e)
					r.Check(n > 0, "decode", "S5F1 "+s.String()+" is reported", pos, "a received S5F1 is never reported to the application")
				}
			}
		}
		var miss []string
		for _, k := range []string{"DeviceEquipment S5F3", "DeviceEquipment S5F5", "DeviceEquipment S5F7", "DeviceHost S5F1"} {
			if !have[k] {
				miss = append(miss, k)
			}
		}
		r.Anchor(len(miss) == 0, "the registered handlers of S5F1, S5F3, S5F5 and S5F7 "+strings.Join(miss, ", "))
		// the host's requests
		for _, n := range []string{"RequestAlarmList", "RequestEnabledAlarmList"} {
			f := op(n)
			if f == nil {
				continue
			}
			for _, k := range []string{"U", "I"} {
				x := newGX(P, "DeviceHost", sh("E"), 1)
				x.reply = sh("L", sh("L", sh("B"), sh(k), sh("A")))
				got := 0
				for _, o := range x.run(f, "", []Val{{}}, nil) {
					if o.Panicked || len(o.Rets) != 2 || o.Rets[1].K != KNil || o.Rets[0].K != KSlice {
						continue
					}
					c := &Ctx{e: x.e, st: &State{mem: o.Mem}}
					es, ok := c.elems(o.Rets[0], f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem())
					r.Check(ok && len(es) == 1, "decode", n+": every alarm", P.pos(f.Pos()), n+" does not return the alarm that the reply lists: "+traceString(o.tr))
					if ok && len(es) == 1 {
						got++
						r.checkAlarm(o.A, n, P.pos(f.Pos()), es[0], "reply/0", true)
					}
				}
				r.SawEngine(x.e)
				r.Check(got > 0, "decode", n+" returns alarms ("+k+")", P.pos(f.Pos()), n+" never returns an alarm")
			}
		}
		if f := op("SendEnableAlarm"); f != nil {
			for _, en := range []bool{true, false} {
				x := newGX(P, "DeviceHost", sh("E"), 1)
				x.reply = sh("B")
				n := 0
				x.gm.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
					n++
					b := itemArgs(attr(tagOf(msg), "body"))
					name := "SendEnableAlarm(" + map[bool]string{true: "enable", false: "disable"}[en] + ")"
					r.Check(len(b) == 2 && strings.HasPrefix(b[0], "B(") && bitIs(c.A(), itemArgs(b[0])[0], 7, CBool(en)), "request", name+": ALED", P.ipos(site), name+" sends S5F3 with "+strings.Join(b, ", ")+", whose ALED does not say so in its top bit")
					r.Check(len(b) == 2 && b[1] == "L(U4(ids[0]),U4(ids[1]))", "request", name+": the ids", P.ipos(site), name+" sends "+strings.Join(b, ", ")+" instead of the given ids")
				}
				x.setup = func(st *State) []Val {
					o := x.e.symObj(st, f.Params[1], "ids")
					o.typ = f.Params[1].Type()
					for i := 0; i < 2; i++ {
						st.mem[memKey{x.e.siteID(o), "[" + itoa(i) + "]"}] = TagV("ids[" + itoa(i) + "]")
					}
					return []Val{{}, {K: KSlice, Site: o, Len: 2}, CBool(en)}
				}
				x.run(f, "", nil, nil)
				r.SawEngine(x.e)
				r.Check(n > 0, "request", "SendEnableAlarm sends S5F3", P.pos(f.Pos()), "SendEnableAlarm sends nothing")
			}
		}
		r.Floor("report", 8)
		r.Floor("state", 12)
		r.Floor("list", 10)
		r.Floor("enable", 20)
		r.Floor("decode", 12)
		r.Floor("request", 4)
	})
}

// mapName is the name of a registry's map.
func (x *gx) mapName(mem map[memKey]Val, elem string) string {
	if m, _, ok := x.registry(mem, elem); ok {
		return m.Site.(*instSite).name
	}
	return "?"
}

// dataStructs are the structs among the values of a map literal.
func (c *Ctx) dataStructs(m Val, field string) []Val {
	var out []Val
	if m.K != KMap {
		return nil
	}
	id := c.e.siteID(m.Site)
	ks := c.e.mapKeys(c.st, m)
	sort.Strings(ks)
	for _, k := range ks {
		if v, ok := c.e.mapGet(c.st, id, k); ok && v.K == KStruct {
			if _, has := v.F[field]; has {
				out = append(out, v)
			}
		}
	}
	return out
}

// checkAlarm compares a decoded alarm with the items at a path.
func (r *Report) checkAlarm(a, n, pos string, v Val, p string, listed bool) {
	r.Check(agree(a, structField(v, "Set"), TagV("bit(vals("+p+"/0)[0],7)")), "decode", n+": set flag", pos, n+": the set flag of a received alarm is "+tagOf(structField(v, "Set"))+", not the top bit of its ALCD")
	if listed {
		r.Check(agree(a, structField(v, "Enabled"), TagV("bit(vals("+p+"/0)[0],6)")), "decode", n+": enabled flag", pos, n+": the enabled flag of a received alarm is "+tagOf(structField(v, "Enabled"))+", not bit 7 of its ALCD")
	}
	r.Check(tagOf(structField(v, "ID")) == "vals("+p+"/1)[0]", "decode", n+": id", pos, n+": the id of a received alarm is "+tagOf(structField(v, "ID"))+", not its ALID")
	r.Check(tagOf(structField(v, "Text")) == "vals("+p+"/2)", "decode", n+": text", pos, n+": the text of a received alarm is "+tagOf(structField(v, "Text"))+", not its ALTX")
}
