package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tCommState = pkgGem + ".CommunicationState"

// constsOf lists the exported constants of a type of a package.
func (P *Program) constsOf(pkg, typ string) map[string]Val {
	out := map[string]Val{}
	pk := P.byPkg[pkg]
	if pk == nil {
		return out
	}
	for _, n := range pk.Pkg.Scope().Names() {
		if c, ok := pk.Pkg.Scope().Lookup(n).(*types.Const); ok && typeKey(c.Type()) == pkg+"."+typ && c.Exported() {
			v := c.Val()
			if v.Kind() != constant.String {
				v = constant.ToInt(v)
			}
			out[n] = Val{K: KConst, C: v}
		}
	}
	return out
}

// sentinel is the abstract value of an exported error variable.
func (P *Program) sentinel(pkg, name string) string {
	pk := P.byPkg[pkg]
	if pk == nil {
		return ""
	}
	if g, ok := pk.Members[name].(*ssa.Global); ok {
		return tagOf(P.globals[g])
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func init() {
	register("C22", "Every exported operation of the GEM handler (with the goroutines and timers it starts) is interpreted abstractly for each role and each communication state; the role and the state are constants of the run, so a missing or wrong test shows as a message sent, or an error not returned, in a run where it must not be.", func(r *Report) {
		P := r.P
		r.Rule("role", "an operation that sends a message sends it as one role only - the one whose peer serves that message - and returns a non-nil error, ErrOperationNotSupported once its arguments are valid, as the other")
		r.Rule("communicating", "an operation sends nothing in any state other than COMMUNICATING and returns a non-nil error, ErrNotCommunicating once its arguments are valid; only S1F13, which establishes communication, is exempt")
		r.Rule("registration", "RegisterStatusVariable, RegisterEquipmentConstant, RegisterDataVariable, RegisterCollectionEvent and RegisterProcessProgram return ErrOperationNotSupported on a host and can succeed on equipment")
		states := P.constsOf(pkgGem, "CommunicationState")
		comm, ok := states["CommunicationStateCommunicating"]
		if !r.Anchor(ok && len(states) >= 4, "the communication states") {
			return
		}
		errRole, errComm := P.sentinel(pkgGem, "ErrOperationNotSupported"), P.sentinel(pkgGem, "ErrNotCommunicating")
		if !r.Anchor(strings.HasPrefix(errRole, "=err:") && strings.HasPrefix(errComm, "=err:"), "ErrOperationNotSupported and ErrNotCommunicating") {
			return
		}
		served := map[string]bool{}
		for _, g := range P.gemRegs(r) {
			served[g.role+g.sf()] = true
		}
		type res struct {
			sent map[string]string // message -> position
			out  []Outcome
		}
		run := func(f *ssa.Function, role string, st Val) res {
			m := newGM(P, role)
			m.followGo = true
			out := res{sent: map[string]string{}}
			ld := m.hm.load
			m.hm.load = func(c *Ctx, x *ssa.UnOp) (Val, bool) {
				if typeKey(x.Type()) == tCommState && isFieldLoad(x) {
					return st, true
				}
				return ld(c, x)
			}
			m.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
				c.Put("sent", "1")
				s, fn, _, ok := newData(tagOf(msg))
				n := "S" + s + "F" + fn
				if !ok {
					n = "?" + tagOf(msg)
				}
				out.sent[n] = P.ipos(site)
			}
			e := newHMEngine(P, m.hm)
			out.out = e.Run(f, "")
			r.SawEngine(e)
			return out
		}
		lastErr := func(f *ssa.Function) bool {
			rs := f.Signature.Results()
			return rs.Len() > 0 && types.Identical(rs.At(rs.Len()-1).Type(), types.Universe.Lookup("error").Type())
		}
		// idle: returns that report success without anything to send even
		// when everything is right
		idle := func(os []Outcome) map[*ssa.Return]bool {
			m := map[*ssa.Return]bool{}
			for _, o := range os {
				if !o.Panicked && len(o.Rets) > 0 && !o.Rets[len(o.Rets)-1].nonnil() && parseA(o.A)["sent"] == "" {
					m[o.ret] = true
				}
			}
			return m
		}
		refuses := func(rule, key string, f *ssa.Function, os []Outcome, sentinel, what string, except map[*ssa.Return]bool) {
			seen := false
			for _, o := range os {
				if o.Panicked || len(o.Rets) == 0 {
					continue
				}
				pos := P.pos(f.Pos())
				if o.ret != nil {
					pos = P.ipos(o.ret)
				}
				v := o.Rets[len(o.Rets)-1]
				if tagOf(v) == sentinel {
					seen = true
				}
				r.Check(v.nonnil() || except[o.ret], rule, key+": error", pos, what+" can return without an error")
			}
			r.Check(seen, rule, key+": error value", P.pos(f.Pos()), what+" never returns the documented error")
		}
		nops := 0
		for _, f := range P.gemOps() {
			name := f.Name()
			by := map[string]res{}
			sends := map[string]bool{}
			for _, role := range roles {
				by[role] = run(f, role, comm)
				for _, m := range sortedKeys(by[role].sent) {
					if m == "S1F13" {
						continue
					}
					sends[role] = true
				}
			}
			if len(sends) == 0 {
				continue
			}
			nops++
			for i, role := range roles {
				other := roles[1-i]
				for _, m := range sortedKeys(by[role].sent) {
					if m == "S1F13" || m == "S1F1" {
						continue // both roles send and serve them
					}
					r.Check(served[other+m], "role", name+" "+m, by[role].sent[m], name+" sends "+m+" as "+shortRole(role)+", which "+shortRole(other)+" does not serve: the role is not checked")
				}
				if !sends[role] && lastErr(f) {
					refuses("role", name, f, by[role].out, errRole, name+" called on a "+shortRole(role)+" handler", nil)
				}
			}
			for _, sn := range sortedKeys(states) {
				if sn == "CommunicationStateCommunicating" {
					continue
				}
				for _, role := range roles {
					if !sends[role] {
						continue
					}
					x := run(f, role, states[sn])
					key := name + " in " + strings.TrimPrefix(sn, "CommunicationState")
					bad := false
					for _, m := range sortedKeys(x.sent) {
						if m != "S1F13" {
							bad = true
							r.Bad("communicating", key, x.sent[m], name+" sends "+m+" as "+shortRole(role)+" in state "+sn)
						}
					}
					if !bad {
						r.Good("communicating", key, P.pos(f.Pos()))
					}
					only := true
					for m := range by[role].sent {
						if m != "S1F1" && m != "S1F13" {
							only = false
						}
					}
					if lastErr(f) && !only {
						refuses("communicating", key, f, x.out, errComm, name+" called in state "+sn, idle(by[role].out))
					}
				}
			}
		}
		for _, n := range []string{"RegisterStatusVariable", "RegisterEquipmentConstant", "RegisterDataVariable", "RegisterCollectionEvent", "RegisterProcessProgram"} {
			f := P.method(pkgGem, "GemHandler", n)
			if !r.Anchor(f != nil && lastErr(f), "GemHandler."+n) {
				continue
			}
			h := run(f, "DeviceHost", comm)
			refuses("registration", n, f, h.out, errRole, n+" called on a host handler", nil)
			can := false
			for _, o := range run(f, "DeviceEquipment", comm).out {
				if !o.Panicked && len(o.Rets) > 0 && o.Rets[len(o.Rets)-1].K == KNil {
					can = true
				}
			}
			r.Check(can, "registration", n+" on equipment", P.pos(f.Pos()), n+" cannot succeed on equipment")
		}
		r.Count("operations that send", nops)
		r.Floor("role", 15)
		r.Floor("communicating", 30)
		r.Floor("registration", 10)
	})
}
