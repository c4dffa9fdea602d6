package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// given makes the argument of an operation from a description: a list of
// structs and lists.
type given struct {
	tag    string           // a value
	list   []given          // or a list
	isList bool             //
	fields map[string]given // or a struct
}

func (x *gx) give(st *State, v ssa.Value, name string, g given, t types.Type) Val {
	switch {
	case g.isList:
		o := x.e.symObj(st, v, name)
		o.typ = t
		el := t.Underlying().(*types.Slice).Elem()
		for i, e := range g.list {
			x.e.store(st, Val{K: KAddr, Site: o, Path: "[" + itoa(i) + "]"}, x.give(st, v, name+"["+itoa(i)+"]", e, el))
		}
		return Val{K: KSlice, Site: o, Len: len(g.list)}
	case g.fields != nil:
		out := Val{K: KStruct, F: map[string]Val{}, Len: 1}
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if e, ok := g.fields[f.Name()]; ok {
				out.F["."+f.Name()] = x.give(st, v, name+"."+f.Name(), e, f.Type())
			}
		}
		return out
	}
	return TagV(g.tag)
}

var numberItem = regexp.MustCompile(`\b([UI])[1248]\(`)

func init() {
	register("C66", "The host's operations are interpreted without merging with symbolic identifiers, values, texts and replies, and so is its handler of S6F11; each request that is sent, each acknowledge code that is returned and each event report that is handed over is compared with what it stands for.", func(r *Report) {
		P := r.P
		r.Rule("request", "each operation sends the one request it is named after, with exactly the identifiers, values and texts it is given, in order")
		r.Rule("code", "an operation that returns an acknowledge code returns the one in the reply")
		r.Rule("report", "an event report (S6F16, or S6F11 as it is handed to the application) has the data id, event id and reports of the message, each with its id and its values, all in order; S6F11 is answered with 0 and handed over once, or refused and not handed over")
		r.Assume("requests and reports with more entries than the examples behave like those")
		id := func(t string) given { return given{tag: t} }
		list := func(g ...given) given { return given{isList: true, list: g} }
		rec := func(kv ...interface{}) given {
			f := map[string]given{}
			for i := 0; i < len(kv); i += 2 {
				f[kv[i].(string)] = kv[i+1].(given)
			}
			return given{fields: f}
		}
		B, A, U, I := sh("B"), sh("A"), sh("U"), sh("I")
		L := func(s ...*shape) *shape { return sh("L", s...) }
		reports := L(U, U, L(L(U, L(A, L(U, L()))), L(A, L()), L(U, L(B, A))))
		type ask struct {
			op, sf string
			args   []given
			ids    []string // identifiers
			body   string   // N(x) is the identifier x
			reply  *shape
			code   bool
		}
		enable := func(en bool) []given {
			return []given{{tag: map[bool]string{true: "true", false: "false"}[en]}, list(id("c0"), id("c1"))}
		}
		asks := []ask{
			{"DefineReports", "S2F33", []given{list(rec("ReportID", id("r0"), "VIDs", list(id("v0"), id("v1"))), rec("ReportID", id("r1"), "VIDs", list()))}, []string{"r0", "r1", "v0", "v1"}, "L(*,L(L(N(r0),L(N(v0),N(v1))),L(N(r1),L())))", B, true},
			{"DefineReports", "S2F33", []given{list()}, nil, "L(*,L())", B, true},
			{"DefineReports", "S2F33", []given{list(rec("ReportID", id("r0"), "VIDs", list(id("v0"))), rec("ReportID", id("r0"), "VIDs", list(id("v0"), id("v0"))))}, []string{"r0", "v0"}, "L(*,L(L(N(r0),L(N(v0))),L(N(r0),L(N(v0),N(v0)))))", B, true},
			{"LinkEventReports", "S2F35", []given{list(rec("CEID", id("c0"), "ReportIDs", list(id("r0"), id("r1"))), rec("CEID", id("c1"), "ReportIDs", list()))}, []string{"c0", "c1", "r0", "r1"}, "L(*,L(L(N(c0),L(N(r0),N(r1))),L(N(c1),L())))", B, true},
			{"LinkEventReports", "S2F35", []given{list()}, nil, "L(*,L())", B, true},
			{"EnableEventReports", "S2F37", enable(true), []string{"c0", "c1"}, "L(BOOL(true),L(N(c0),N(c1)))", B, true},
			{"EnableEventReports", "S2F37", enable(false), []string{"c0", "c1"}, "L(BOOL(false),L(N(c0),N(c1)))", L(B), true},
			{"EnableEventReports", "S2F37", []given{{tag: "en"}, list()}, nil, "L(BOOL(en),L())", B, true},
			{"SendEquipmentConstantValues", "S2F15", []given{list(rec("ID", id("e0"), "Value", id("?x0")), rec("ID", id("e1"), "Value", id("?x1")))}, []string{"e0", "e1"}, "L(L(N(e0),?x0),L(N(e1),?x1))", B, true},
			{"RequestCollectionEventReport", "S6F15", []given{id("c0")}, []string{"c0"}, "N(c0)", reports, false},
			{"RequestCollectionEventReport", "S6F15", []given{id("c0")}, []string{"c0"}, "N(c0)", L(B, A, L(L(A, L(U)))), false},
			{"RequestCollectionEventReport", "S6F15", []given{id("c0")}, []string{"c0"}, "N(c0)", L(I, A, L()), false},
			{"UploadProcessProgram", "S7F3", []given{id("p0"), id("text")}, []string{"p0"}, "L(N(p0),A(text))", B, true},
			{"RequestProcessProgram", "S7F5", []given{id("p0")}, []string{"p0"}, "N(p0)", L(A, A), false},
			{"SendRemoteCommand", "S2F41", []given{id("k0"), list(rec("Name", id("n0"), "Value", id("y0")), rec("Name", id("n1"), "Value", id("y1")))}, []string{"k0", "n0", "n1"}, "L(N(k0),L(L(N(n0),V(y0)),L(N(n1),V(y1))))", L(B, L()), false},
		}
		report := func(x *gx, o Outcome, what, pos string, v Val, s *shape, p string) {
			got := tagOf(structField(v, "DATAID"))
			r.Check(got == "vals("+p+"/0)[0]", "report", what+" data id", pos, what+" gives the data id "+got+": "+traceString(o.tr))
			raw := func(v Val, s *shape, p string) bool {
				want := "vals(" + p + ")"
				if s.kind != "A" {
					want += "[0]"
				}
				return tagOf(v) == want
			}
			r.Check(raw(structField(v, "CEID"), s.sub[1], p+"/1"), "report", what+" event", pos, what+" gives the event id "+tagOf(structField(v, "CEID"))+": "+traceString(o.tr))
			c := &Ctx{e: x.e, st: &State{mem: o.Mem}}
			rt := P.structType(pkgGem, "EventReport")
			vt := P.structType(pkgGem, "ReportValue")
			if !r.Anchor(rt != nil && vt != nil, "gem.EventReport and ReportValue") {
				return
			}
			elem := func(st *types.Struct, f string) types.Type {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == f {
						return st.Field(i).Type().Underlying().(*types.Slice).Elem()
					}
				}
				return nil
			}
			es, ok := c.elems(structField(v, "Reports"), elem(rt, "Reports"))
			if !r.Check(ok && len(es) == len(s.sub[2].sub), "report", what+" reports", pos, what+" does not give one report for each of the message "+s.String()+": "+traceString(o.tr)) {
				return
			}
			for i, e := range es {
				q := p + "/2/" + itoa(i)
				r.Check(raw(structField(e, "RPTID"), s.at("in/2/"+itoa(i)+"/0"), q+"/0"), "report", what+" report id", pos, what+" gives report "+itoa(i)+" the id "+tagOf(structField(e, "RPTID"))+": "+traceString(o.tr))
				vs, ok := c.elems(structField(e, "Values"), elem(vt, "Values"))
				good := ok && len(vs) == len(s.sub[2].sub[i].sub[1].sub)
				for j := range vs {
					good = good && tagOf(vs[j]) == "item("+q+"/1/"+itoa(j)+")"
				}
				r.Check(good, "report", what+" values", pos, what+" does not give the values of report "+itoa(i)+" in order: "+traceString(o.tr))
			}
		}
		for _, a := range asks {
			f := P.method(pkgGem, "GemHandler", a.op)
			if !r.Anchor(f != nil && len(f.Params) == len(a.args)+1, "GemHandler."+a.op) {
				continue
			}
			pos := P.pos(f.Pos())
			kinds := []string{"string", "int", "uint32"}
			if len(a.ids) == 0 {
				kinds = kinds[:1]
			}
			// how a value of each type is encoded
			values := []string{"A string"}
			if strings.Contains(a.body, "V(") {
				values = []string{"A string", "BOOL bool", "F8 float64", "I int", "I int64", "U uint64", "U uint8"}
			}
			for i := 0; i < len(kinds)*len(values); i++ {
				kind := kinds[i%len(kinds)]
				item, vkind, _ := strings.Cut(values[i/len(kinds)], " ")
				x := newGX(P, "DeviceHost", sh("E"), 1)
				x.reply = a.reply
				facts := "f:is(y0|" + vkind + ")=1;f:is(y1|" + vkind + ")=1;"
				for _, n := range a.ids {
					facts += "f:is(" + n + "|" + kind + ")=1;"
				}
				what := a.op + " " + kind
				sent, answered := 0, 0
				x.gm.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
					sent++
					c.Put("asked", itoa(int(lit0("0"+c.Get("asked"))+1)))
					s, fu, _, ok := newData(tagOf(msg))
					b := attr(tagOf(msg), "body")
					got := numberItem.ReplaceAllString(b, "$1(")
					want := a.body
					want = strings.ReplaceAll(want, "V(", item+"(")
					if kind == "string" {
						want = strings.ReplaceAll(want, "N(", "A(")
					} else {
						want = strings.ReplaceAll(want, "N(", "U(")
						for _, n := range a.ids {
							got = strings.ReplaceAll(got, "I("+n+")", "U("+n+")")
						}
					}
					if len(b) > 300 {
						b = b[:300] + "..."
					}
					r.Check(ok && "S"+s+"F"+fu == a.sf && matches(want, got), "request", what, P.ipos(site), a.op+" sends S"+s+"F"+fu+" "+b+" instead of "+a.sf+" "+want+": "+c.Trace())
				}
				x.setup = func(st *State) []Val {
					out := []Val{{}}
					for i, g := range a.args {
						v := x.give(st, f.Params[i+1], "arg"+itoa(i), g, f.Params[i+1].Type())
						if g.tag == "true" || g.tag == "false" {
							v = CBool(g.tag == "true")
						}
						out = append(out, v)
					}
					return out
				}
				for _, o := range x.run(f, facts, nil, nil) {
					if o.Panicked || len(o.Rets) < 2 || o.Rets[len(o.Rets)-1].K != KNil {
						continue
					}
					answered++
					r.Check(parseA(o.A)["asked"] == "1", "request", what+" once", pos, a.op+" reports success without having sent its request once: "+traceString(o.tr))
					if a.code {
						p := "reply"
						if a.reply.kind == "L" {
							p = "reply/0"
						}
						got := tagOf(o.Rets[0])
						r.Check(got == "vals("+p+")[0]", "code", what, pos, a.op+" returns "+got+" instead of the code of the reply: "+traceString(o.tr))
					}
					if a.sf == "S6F15" {
						report(x, o, a.op, pos, o.Rets[0], a.reply, "reply")
					}
				}
				r.SawEngine(x.e)
				r.Check(sent > 0 && answered > 0, "request", what+" sends", pos, a.op+" never sends its request or never succeeds")
				r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of "+a.op)
			}
		}
		n := 0
		for _, h := range P.gemRegs(r) {
			if h.role != "DeviceHost" || h.sf() != "S6F11" {
				continue
			}
			n++
			pos := P.pos(h.fn.Pos())
			forms := []*shape{reports, L(U, A, L()), L(U, L(), L()), L(U, U, U), L(U, U, L(U)), L(U, U, L(L(L(), L()))), L(U, U, L(L(U))), L(U, U), U}
			for fi, s := range forms {
				x := newGX(P, h.role, s, 1)
				var seen []Val
				x.fired = func(c *Ctx, site ssa.CallInstruction, data Val) {
					c.Put("fired", itoa(int(lit0("0"+c.Get("fired"))+1)))
					ds := c.dataStructs(data, ".CEID")
					if data.K == KStruct {
						ds = append(ds, data)
					}
					if fi < 2 && r.Check(len(ds) == 1, "report", "S6F11 data", P.ipos(site), "the event report is handed over in a form that does not hold it") {
						report(x, Outcome{A: c.A(), Mem: c.st.mem}, "S6F11", P.ipos(site), ds[0], s, "in")
						seen = append(seen, ds[0])
					}
				}
				for _, o := range x.handle(h) {
					if o.Panicked || len(o.Rets) == 0 || o.Rets[0].K == KNil {
						continue
					}
					ack := ackOf(tagOf(o.Rets[0]))
					fired := parseA(o.A)["fired"]
					switch {
					case ack != "0":
						r.Check(fired == "" && fi > 1, "report", "S6F11 refused "+s.String(), pos, "the S6F11 "+s.String()+" is refused, or handed over and refused: "+traceString(o.tr))
					case fi > 1:
						r.Bad("report", "S6F11 accepted "+s.String(), pos, "the S6F11 "+s.String()+" is accepted: "+traceString(o.tr))
					default:
						r.Check(fired == "1" || fired == "", "report", "S6F11 once", pos, "an S6F11 is handed over "+fired+" times: "+traceString(o.tr))
					}
				}
				r.Check(len(seen) > 0 || fi > 1, "report", "S6F11 handed over", pos, "S6F11 is never handed to the application")
				r.SawEngine(x.e)
			}
		}
		r.Anchor(n == 1, "the host's handler of S6F11")
		r.Floor("request", 20)
		r.Floor("code", 8)
		r.Floor("report", 12)
	})
}

// matches compares a text with one in which * stands for any one item.
func matches(want, got string) bool {
	parts := strings.Split(want, "*")
	for i, p := range parts {
		if !strings.HasPrefix(got, p) {
			return false
		}
		got = got[len(p):]
		if i == len(parts)-1 {
			break
		}
		d, j := 0, 0
		for ; j < len(got); j++ {
			switch got[j] {
			case '(':
				d++
			case ')':
				d--
			}
			if d < 0 || d == 0 && got[j] == ',' {
				break
			}
		}
		got = got[j:]
	}
	return got == ""
}
