package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tCSMach = pkgGem + ".ControlStateMachine"

// ctlField finds the fields that State() and OnlineMode() report.
func (P *Program) reportedField(f *ssa.Function, typ string) string {
	out := ""
	if f == nil {
		return ""
	}
	h := newHM(P)
	h.load = func(c *Ctx, ld *ssa.UnOp) (Val, bool) {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok && typeKey(ld.Type()) == typ {
			return TagV("=fld:" + ownerField(fa)), true
		}
		return Top, false
	}
	for _, o := range newHMEngine(P, h).Run(f, "") {
		if len(o.Rets) == 1 {
			t := strings.TrimPrefix(tagOf(o.Rets[0]), "=fld:")
			if t == tagOf(o.Rets[0]) || out != "" && out != t {
				return ""
			}
			out = t
		}
	}
	return out
}

// ctlModel tracks the control state machine's state ("cs") and mode ("cm").
type ctlModel struct {
	*gm
	state, mode string
	onStore     func(c *Ctx, x *ssa.Store, from, to string)
}

func newCtlModel(P *Program, role, state, mode string) *ctlModel {
	x := &ctlModel{gm: newGM(P, role).withItems(), state: state, mode: mode}
	x.factOK = func(string) bool { return false }
	ld := x.hm.load
	x.hm.load = func(c *Ctx, l *ssa.UnOp) (Val, bool) {
		if fa, ok := l.X.(*ssa.FieldAddr); ok {
			k := ""
			switch ownerField(fa) {
			case state:
				k = "cs"
			case mode:
				k = "cm"
			}
			if k != "" {
				if v := c.Get(k); v != "" && v != "?" {
					return CStr(v), true
				}
				return Top, true
			}
		}
		if typeKey(l.Type()) == tCSMach {
			if _, ptr := l.Type().Underlying().(*types.Pointer); ptr {
				return NonNil, true
			}
		}
		return ld(c, l)
	}
	x.hm.instr = func(c *Ctx, ins ssa.Instruction) {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		k := ""
		switch ownerField(fa) {
		case state:
			k = "cs"
		case mode:
			k = "cm"
		default:
			return
		}
		v, ok := c.Val(st.Val).IsStr()
		if !ok {
			v = "?"
		}
		from := c.Get(k)
		c.Put(k, v)
		if k == "cs" && x.onStore != nil {
			x.onStore(c, st, from, v)
		}
	}
	return x
}

func init() {
	register("C23", "Every exported operation of the control state machine is interpreted abstractly from each of its reachable states and both modes, the state and mode being constants of the run, and the resulting state, mode and error are compared with the E30 table; the S1F15 and S1F17 handlers, the constructor and the online attempt are interpreted the same way.", func(r *Report) {
		P := r.P
		r.Rule("transition", "each operation leads from each state and mode to exactly the state and mode of the E30 table; where the table has no transition it returns an error wrapping ErrInvalidControlTransition (or nil when already in the target state) and changes neither state nor mode")
		r.Rule("initial", "a new machine is in the configured initial state (ATTEMPT_ONLINE when none is configured), with the configured mode (REMOTE when none is)")
		r.Rule("query", "State, OnlineMode, IsOnlineState and Start change nothing once the machine is running, and IsOnlineState is true exactly in ONLINE_LOCAL and ONLINE_REMOTE")
		r.Rule("acknowledge", "S1F15 leaves the equipment offline when it answers 0 and unchanged otherwise; S1F17 answers 0 exactly when it went online, 2 when it already was, and anything else with the state unchanged")
		r.Rule("encapsulated", "state and mode are written only by the machine's own operations")
		r.Rule("attempt", "the online attempt succeeds only after the peer answered S1F1 with S1F2")
		stM := P.method(pkgGem, "ControlStateMachine", "State")
		moM := P.method(pkgGem, "ControlStateMachine", "OnlineMode")
		state, mode := P.reportedField(stM, pkgGem+".ControlState"), P.reportedField(moM, pkgGem+".OnlineControlMode")
		if !r.Anchor(state != "" && mode != "", "the fields that State() and OnlineMode() report") {
			return
		}
		inv := P.sentinel(pkgGem, "ErrInvalidControlTransition")
		cst := map[string]string{}
		for n, v := range P.constsOf(pkgGem, "ControlState") {
			s, _ := v.IsStr()
			cst[strings.TrimPrefix(n, "ControlState")] = s
		}
		cmo := map[string]string{}
		for n, v := range P.constsOf(pkgGem, "OnlineControlMode") {
			s, _ := v.IsStr()
			cmo[strings.TrimPrefix(n, "OnlineMode")] = s
		}
		EO, AO, HO, OL, OR := cst["EquipmentOffline"], cst["AttemptOnline"], cst["HostOffline"], cst["OnlineLocal"], cst["OnlineRemote"]
		L, R := cmo["Local"], cmo["Remote"]
		if !r.Anchor(inv != "" && EO != "" && AO != "" && HO != "" && OL != "" && OR != "" && L != "" && R != "", "the control states, modes and ErrInvalidControlTransition") {
			return
		}
		type sm struct{ s, m string }
		reach := []sm{{EO, L}, {EO, R}, {AO, L}, {AO, R}, {HO, L}, {HO, R}, {OL, L}, {OR, R}}
		online := func(x sm) bool { return x.s == OL || x.s == OR }
		byMode := func(m string) string {
			if m == L {
				return OL
			}
			return OR
		}
		// want: target state and mode; ok = a transition (or a no-op the
		// table allows); both: nil and the error are acceptable
		type cell struct {
			to     sm
			ok, no bool // ok: transition; no: already there, either answer
		}
		ops := map[string]func(x sm) cell{
			"SwitchOnline": func(x sm) cell {
				return cell{to: sm{AO, x.m}, ok: x.s == EO, no: x.s == AO}
			},
			"SwitchOffline": func(x sm) cell { return cell{to: sm{EO, x.m}, ok: online(x), no: x.s == EO} },
			"SwitchOnlineLocal": func(x sm) cell {
				return cell{to: sm{OL, L}, ok: x.s == OR, no: x.s == OL}
			},
			"SwitchOnlineRemote": func(x sm) cell {
				return cell{to: sm{OR, R}, ok: x.s == OL, no: x.s == OR}
			},
			"AttemptOnlineFailEquipmentOffline": func(x sm) cell { return cell{to: sm{EO, x.m}, ok: x.s == AO, no: x.s == EO} },
			"AttemptOnlineFailHostOffline":      func(x sm) cell { return cell{to: sm{HO, x.m}, ok: x.s == AO, no: x.s == HO} },
			"AttemptOnlineSuccess":              func(x sm) cell { return cell{to: sm{byMode(x.m), x.m}, ok: x.s == AO, no: online(x)} },
			"RemoteOffline":                     func(x sm) cell { return cell{to: sm{HO, x.m}, ok: online(x), no: x.s == HO} },
			"RemoteOnline":                      func(x sm) cell { return cell{to: sm{byMode(x.m), x.m}, ok: x.s == HO, no: online(x)} },
		}
		runFrom := func(f *ssa.Function, x sm, args ...Val) []Outcome {
			m := newCtlModel(P, "DeviceEquipment", state, mode)
			e := newGMEngine(P, m.gm)
			os := e.Run(f, avars{"cs": x.s, "cm": x.m}.String(), args...)
			r.SawEngine(e)
			return os
		}
		var names []string
		for n := range ops {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			f := P.method(pkgGem, "ControlStateMachine", n)
			if !r.Anchor(f != nil, "ControlStateMachine."+n) {
				continue
			}
			for _, x := range reach {
				w := ops[n](x)
				key := n + " in " + x.s + "/" + x.m
				got := 0
				for _, o := range runFrom(f, x) {
					if o.Panicked || len(o.Rets) != 1 {
						continue
					}
					got++
					m := parseA(o.A)
					y := sm{m["cs"], m["cm"]}
					pos := P.pos(f.Pos())
					if o.ret != nil {
						pos = P.ipos(o.ret)
					}
					isNil, isInv := o.Rets[0].K == KNil, tagOf(o.Rets[0]) == inv
					at := y.s + "/" + y.m
					switch {
					case w.ok:
						r.Check(isNil && y == w.to, "transition", key, pos, n+" in "+x.s+" with mode "+x.m+" ends in "+at+answer(isNil, isInv)+", not in "+w.to.s+"/"+w.to.m+" without error")
					case w.no:
						r.Check((isNil || isInv) && y == x, "transition", key, pos, n+" when already in "+x.s+" with mode "+x.m+" ends in "+at+answer(isNil, isInv))
					default:
						r.Check(isInv && y == x, "transition", key, pos, n+" in "+x.s+" with mode "+x.m+" ends in "+at+answer(isNil, isInv)+" instead of ErrInvalidControlTransition with nothing changed")
					}
				}
				r.Check(got > 0, "transition", key, P.pos(f.Pos()), n+" does not return from "+x.s)
			}
		}
		// queries
		for _, f := range P.methodsOf(pkgGem, "ControlStateMachine") {
			if f.Object() == nil || !f.Object().Exported() || ops[f.Name()] != nil {
				continue
			}
			for _, x := range reach {
				for _, o := range runFrom(f, x) {
					m := parseA(o.A)
					key := f.Name() + " in " + x.s + "/" + x.m
					r.Check(m["cs"] == x.s && m["cm"] == x.m, "query", key, P.pos(f.Pos()), f.Name()+" changes "+x.s+"/"+x.m+" to "+m["cs"]+"/"+m["cm"])
					if f.Name() == "IsOnlineState" && len(o.Rets) == 1 {
						b, ok := o.Rets[0].IsBool()
						r.Check(ok && b == online(x), "query", key+": result", P.pos(f.Pos()), "IsOnlineState is wrong in "+x.s)
					}
				}
			}
		}
		// the constructor
		if f := P.fn(pkgGem, "NewControlStateMachine"); r.Anchor(f != nil && len(f.Params) == 1, "NewControlStateMachine") {
			for _, in := range []string{"", EO, AO, HO, cst["Online"]} {
				for _, im := range []string{"", L, R} {
					m := newCtlModel(P, "DeviceEquipment", state, mode)
					ld := m.hm.load
					opt := func(t types.Type) (Val, bool) {
						switch typeKey(t) {
						case pkgGem + ".ControlState":
							return CStr(in), true
						case pkgGem + ".OnlineControlMode":
							return CStr(im), true
						}
						return Top, false
					}
					m.hm.load = func(c *Ctx, l *ssa.UnOp) (Val, bool) {
						if fa, ok := l.X.(*ssa.FieldAddr); ok && typeKey(fa.X.Type()) == pkgGem+".ControlStateMachineOptions" {
							if v, ok := opt(l.Type()); ok {
								return v, true
							}
						}
						return ld(c, l)
					}
					st := Val{K: KStruct, F: map[string]Val{}, Len: 1}
					if s, ok := f.Params[0].Type().Underlying().(*types.Struct); ok {
						for i := 0; i < s.NumFields(); i++ {
							if v, ok := opt(s.Field(i).Type()); ok {
								st.F["."+s.Field(i).Name()] = v
							}
						}
					}
					e := newGMEngine(P, m.gm)
					wm := im
					if wm == "" {
						wm = R
					}
					w := sm{in, wm}
					switch in {
					case "":
						w.s = AO
					case cst["Online"]:
						w.s = byMode(wm)
					}
					for _, o := range e.Run(f, "", st) {
						if o.Panicked {
							continue
						}
						a := parseA(o.A)
						r.Check(a["cs"] == w.s && a["cm"] == w.m, "initial", "initial "+in+"/"+im, P.pos(f.Pos()), "a machine configured with initial state \""+in+"\" and mode \""+im+"\" starts in "+a["cs"]+"/"+a["cm"]+", not in "+w.s+"/"+w.m)
					}
					r.SawEngine(e)
				}
			}
		}
		// writes outside the machine
		mach := map[*ssa.Function]bool{}
		for _, f := range P.methodsOf(pkgGem, "ControlStateMachine") {
			if f.Object() != nil && f.Object().Exported() {
				mach[f] = true
			}
		}
		inMachine := func(c *Ctx) bool {
			for _, f := range c.StackFns() {
				if mach[f] {
					return true
				}
			}
			return false
		}
		regs := P.gemRegs(r)
		runGem := func(f *ssa.Function, bind []Val, role string, x sm, on func(c *Ctx, st *ssa.Store, from, to string)) []Outcome {
			m := newCtlModel(P, role, state, mode)
			m.followGo = true
			m.onStore = func(c *Ctx, st *ssa.Store, from, to string) {
				if f.Name() != "NewControlStateMachine" {
					r.Check(inMachine(c), "encapsulated", P.fname(c.fn), P.ipos(st), "writes the control state from outside the machine's operations")
				}
				if on != nil {
					on(c, st, from, to)
				}
			}
			e := newGMEngine(P, m.gm)
			e.LoopArith = 0
			os := e.run(f, nil, nil, avars{"cs": x.s, "cm": x.m}.String(), gemHandlerArgs(f, TagV("m:in.data")), bind, nil, nil)
			r.SawEngine(e)
			return os
		}
		// the online attempt and everything else that moves the state
		nA := 0
		attempt := func(c *Ctx, st *ssa.Store, from, to string) {
			if from != AO || to != OL && to != OR && to != cst["Online"] {
				return
			}
			nA++
			m := parseA(c.A())
			ok := m["reqS"] == "1" && m["reqF"] == "1" && m["code:m:reply.data:StreamCode"] == "1" && m["code:m:reply.data:FunctionCode"] == "2" && m["failed"] == ""
			r.Check(ok, "attempt", P.fname(c.fn), P.ipos(st), "the equipment goes online from ATTEMPT_ONLINE without an S1F2 answer to its S1F1 (via "+strings.Join(c.Stack(), " < ")+")")
		}
		for _, f := range P.gemOps() {
			for _, role := range roles {
				runGem(f, nil, role, sm{AO, R}, attempt)
				runGem(f, nil, role, sm{EO, R}, attempt)
			}
		}
		for _, g := range regs {
			for _, x := range []sm{{AO, R}, {OR, R}} {
				runGem(g.fn, g.bind, g.role, x, attempt)
			}
		}
		r.Check(nA > 0, "attempt", "the attempt", P.pos(stM.Pos()), "no online attempt goes online")
		// S1F15 and S1F17
		for _, g := range regs {
			if g.role != "DeviceEquipment" || g.sf() != "S1F15" && g.sf() != "S1F17" {
				continue
			}
			for _, x := range reach {
				n := 0
				for _, o := range runGem(g.fn, g.bind, g.role, x, nil) {
					if o.Panicked || len(o.Rets) != 2 {
						continue
					}
					n++
					m := parseA(o.A)
					y := sm{m["cs"], m["cm"]}
					ack := ackOf(tagOf(o.Rets[0]))
					key := g.sf() + " in " + x.s + "/" + x.m
					pos := P.pos(g.fn.Pos())
					if o.ret != nil {
						pos = P.ipos(o.ret)
					}
					good := false
					switch {
					case g.sf() == "S1F15" && ack == "0":
						good = y == x && !online(x) || online(x) && y == sm{HO, x.m}
					case g.sf() == "S1F17" && ack == "0":
						good = x.s == HO && y == sm{byMode(x.m), x.m}
					case g.sf() == "S1F17" && ack == "2":
						good = online(x) && y == x
					case ack != "" && ack != "?":
						good = y == x
						if g.sf() == "S1F17" && online(x) || g.sf() == "S1F15" && online(x) {
							good = false // the transition was possible
						}
					}
					if g.sf() == "S1F17" && x.s == HO && ack != "0" {
						good = false
					}
					r.Check(good, "acknowledge", key, pos, g.sf()+" in "+x.s+" is answered with "+ack+" and leads to "+y.s)
				}
				r.Check(n > 0, "acknowledge", g.sf()+" in "+x.s+"/"+x.m, P.pos(g.fn.Pos()), "no answer")
			}
		}
		r.Floor("transition", 72)
		r.Floor("initial", 15)
		r.Floor("query", 32)
		r.Floor("acknowledge", 16)
		r.Floor("encapsulated", 3)
		r.Floor("attempt", 2)
	})
}

func answer(isNil, isInv bool) string {
	switch {
	case isNil:
		return " without error"
	case isInv:
		return " with ErrInvalidControlTransition"
	}
	return " with another error"
}

// ackOf reads the acknowledge code of a reply built by the library: the body
// is B(k) or a list whose first item is B(k).
func ackOf(tag string) string {
	b := attr(tag, "body")
	if strings.HasPrefix(b, "L(") {
		as := itemArgs(b)
		if len(as) == 0 {
			return ""
		}
		b = as[0]
	}
	if strings.HasPrefix(b, "B(") || strings.HasPrefix(b, "U1(") {
		as := itemArgs(b)
		if len(as) == 1 {
			return as[0]
		}
	}
	return ""
}
