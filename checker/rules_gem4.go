package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// handle follows a registered handler on a request of the form.
func (x *gx) handle(h gemReg) []Outcome {
	return x.run(h.fn, "", gemHandlerArgs(h.fn, TagV("m:in.data")), h.bind)
}

// configShapes: the requests that change the equipment's configuration, as
// small well-formed examples that cover every identifier kind, empty lists,
// several entries and entries that name the same thing twice.
func configShapes() map[string][]*shape {
	L := func(sub ...*shape) *shape { return sh("L", sub...) }
	U, A, I, B, T, F := sh("U"), sh("A"), sh("I"), sh("B"), sh("T"), sh("F")
	return map[string][]*shape{
		"S2F15": {
			L(L(U, F)), L(L(I, U), L(A, A)), L(L(A, B), L(U, T)), L(L(U, U), L(same("U", "in/0/0"), A)), L(),
			L(L(U, U), L(A, A), L(U, T)),
		},
		"S2F33": {
			L(U, L(L(U, L(U)))), L(U, L(L(A, L(U, A)), L(U, L()))), L(U, L(L(I, L(I)), L(U, L(U)))),
			L(U, L(L(U, L()), L(A, L(A)))), L(U, L(L(U, L(U)), L(same("U", "in/1/0/0"), L(A)))),
			L(U, L(L(U, L()), L(same("U", "in/1/0/0"), L(A)))),
			L(L(U, L(U)), L(A, L())), L(U, L()), L(),
			L(U, L(L(A, L(A)), L(U, L(A, U, A)))),
		},
		"S2F35": {
			L(U, L(L(U, L(U)))), L(U, L(L(A, L(U, A)), L(U, L()))), L(U, L(L(I, L(I)), L(U, L(U)))),
			L(U, L(L(U, L(U)), L(same("U", "in/1/0/0"), L(A)))), L(U, L(L(U, L()), L(same("U", "in/1/0/0"), L(A)))),
			L(L(U, L(U)), L(A, L())), L(U, L()),
			L(U, L(L(A, L(A)), L(U, L(A, U, A)))),
		},
		"S2F37": {
			L(T, L(U)), L(T, L(A, U)), L(T, L(I, U)), L(T, L(U, same("U", "in/1/0"))), L(T, L()), L(B, L(U)), L(T, L(A, U, A)),
		},
		"S5F3": {
			L(B, L(U)), L(B, L(U, I)), L(B, L(I, U)), L(B, L(U, same("U", "in/1/0"))), L(B, L()), L(B, L(U, U, I)),
		},
	}
}

// appKind says what kind of application callback is called: by the name of
// its type.
func appKind(site ssa.CallInstruction) string {
	if n, ok := types.Unalias(site.Common().Value.Type()).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func init() {
	register("C21", "Each handler of a configuration request is interpreted without merging on small requests (every identifier kind, several entries, repeated entries, and each item in turn replaced by others) against a symbolic equipment whose registries may or may not hold what the request names; the registries at the end of every path are compared with those it started from.", func(r *Report) {
		P := r.P
		r.Rule("refused", "on every path that answers with a refusal, and on every path that fails, the equipment's registries and the objects in them are what they were (unless an application's updater failed)")
		r.Rule("applied", "on every path that answers with an acceptance, every entry of the request has changed the equipment or has been handed to the application's updater")
		r.Assume("requests with more entries than the examples behave like those with two: loops over entries treat them alike")
		n := 0
		for _, h := range P.gemRegs(r) {
			shapes := configShapes()[h.sf()]
			if h.role != "DeviceEquipment" || shapes == nil {
				continue
			}
			n++
			pos := P.pos(h.fn.Pos())
			var all []*shape
			seen := map[string]bool{}
			add := func(s *shape) {
				if !seen[s.String()] {
					seen[s.String()] = true
					all = append(all, s)
				}
			}
			for i, s := range shapes {
				add(s)
				if i < 3 {
					for _, f := range s.variants() {
						add(f)
					}
				}
			}
			for _, s := range all {
				x := newGX(P, h.role, s, 1)
				x.app = func(c *Ctx, site ssa.CallInstruction, tag string, args []Val) ([]CallRes, bool) {
					if appKind(site) == "EquipmentConstantValueUpdater" {
						var out []CallRes
						for _, v := range args {
							if p := itemPath(v); p != "" {
								c.Put("upd:"+p, "1")
							}
						}
						for _, rs := range x.appResults(c, site, tag) {
							if strings.HasPrefix(tagOf(rs.Ret), "=err:") {
								rs.A = withA(rs.A, "upderr", "1")
							}
							out = append(out, rs)
						}
						return out, true
					}
					return nil, false
				}
				name := h.sf() + " " + s.String()
				outs := x.handle(h)
				r.SawEngine(x.e)
				r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of "+name)
				var bad, half string
				for _, o := range outs {
					if o.Panicked {
						continue // C27
					}
					m := parseA(o.A)
					ack := ""
					if len(o.Rets) > 0 {
						ack = ackOf(tagOf(o.Rets[0]))
					}
					ch := x.changes(o.Mem)
					if ack != "0" {
						if m["upderr"] == "" && len(ch) > 0 && bad == "" {
							a := "an error"
							if ack != "" {
								a = "the refusal " + ack
							}
							bad = "a path that answers " + h.sf() + " with " + a + " " + strings.Join(ch, ", ") + " (request " + s.String() + ")" + ": " + traceString(o.tr)
						}
						continue
					}
					// entries that name something
					for _, p := range entryIDs(h.sf(), s) {
						if half != "" {
							break
						}
						done := m["upd:"+strings.TrimSuffix(p, "/0")+"/1"] != ""
						v := p
						if t := s.at(p); t != nil && t.as != "" {
							v = t.as
						}
						for _, c := range ch {
							if strings.Contains(c, "vals("+v+")") {
								done = true
							}
						}
						if h.sf() == "S2F15" && !done {
							// the application provides the value itself
							for t, n := range x.types {
								if is, known := x.isNil(o.A, t); n == "EquipmentConstantValueProvider" && known && !is && strings.Contains(t, "vals("+v+")") {
									done = true
								}
							}
						}
						if !done && x.already(o.Mem, h.sf(), s, p, v) {
							done = true
						}
						if !done {
							half = "a path accepts " + h.sf() + " without applying the entry at " + p + " (request " + s.String() + ")" + ": " + traceString(o.tr)
						}
					}
				}
				r.Check(bad == "", "refused", name, pos, bad)
				if len(entryIDs(h.sf(), s)) > 0 {
					r.Check(half == "", "applied", name, pos, half)
				}
			}
		}
		r.Anchor(n == 5, "the registered handlers of S2F15, S2F33, S2F35, S2F37 and S5F3")
		r.Floor("refused", 60)
		r.Floor("applied", 20)
	})
}

// entryIDs: the paths of the identifiers of a well-formed request's entries.
func entryIDs(sf string, s *shape) []string {
	var out []string
	entries, p := s, "in"
	if sf != "S2F15" && len(s.sub) > 0 && s.sub[0].kind != "L" {
		if len(s.sub) < 2 {
			return nil
		}
		entries, p = s.sub[1], "in/1"
	}
	for i, e := range entries.sub {
		q := p + "/" + itoa(i)
		if sf == "S2F37" || sf == "S5F3" {
			if e.kind != "" && e.kind != "L" {
				out = append(out, q)
			}
			continue
		}
		if e.kind == "L" && len(e.sub) == 2 && e.sub[0].kind != "" && e.sub[0].kind != "L" {
			out = append(out, q+"/0")
		}
	}
	return out
}

// already: the entry asks for what is already so - the deletion of something
// that was not there.
func (x *gx) already(mem map[memKey]Val, sf string, s *shape, p, v string) bool {
	if sf != "S2F33" && sf != "S2F35" {
		return false
	}
	if e := s.at(strings.TrimSuffix(p, "/0") + "/1"); e == nil || e.kind == "L" && len(e.sub) > 0 {
		return false
	}
	return true
}
