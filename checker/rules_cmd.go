package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tProgram = pkgGem + ".ProcessProgram"
	tResult  = pkgGem + ".RemoteCommandResult"
)

// is0 is what a path knows about a number being 0: 1, -1 or 0.
func is0(a string, tag string) int {
	for {
		switch {
		case strings.HasPrefix(tag, `"0b`):
			if strings.Trim(tag[3:], `0"`) == "" {
				return 1
			}
			return -1
		case strings.HasPrefix(tag, "fmt(0b%b|"):
			tag = strings.TrimSuffix(strings.TrimPrefix(tag, "fmt(0b%b|"), ")")
			continue
		}
		break
	}
	if n, err := strconv.Atoi(tag); err == nil {
		if n == 0 {
			return 1
		}
		return -1
	}
	m := parseA(a)
	if f := m.fact("cmp(" + tag + " eq 0)"); f != 0 {
		return f
	}
	for _, f := range []string{"lt 0", "lt 1", "le 0"} {
		if v := m.fact("cmp(" + tag + " " + f + ")"); v == 1 && f == "lt 0" || v == -1 && f != "lt 0" {
			return -1
		}
	}
	for k, v := range m {
		// equal to another number
		if rest, ok := strings.CutPrefix(k, "f:cmp("+tag+" eq "); ok && v == "1" {
			if n, err := strconv.Atoi(strings.TrimSuffix(rest, ")")); err == nil && n != 0 {
				return -1
			}
		}
	}
	return 0
}

// above: the path knows that a number is larger than another.
func above(a, tag string, n int) bool {
	m := parseA(a)
	if m.fact("cmp("+tag+" le "+itoa(n)+")") == -1 || m.fact("cmp("+tag+" lt "+itoa(n+1)+")") == -1 {
		return true
	}
	return false
}

func init() {
	register("C35", "The handler of S2F41 and SendRemoteCommand are interpreted without merging, the handler on requests in which each item in turn is replaced by others and with a symbolic application handler, SendRemoteCommand on every form of reply; the acknowledgement of every path is compared with what the application returned, the returned code with the received one.", func(r *Report) {
		P := r.P
		r.Rule("accepted", "S2F42 carries HCACK 0 only on paths on which the application's command handler was called and returned no error and HCACK 0")
		r.Rule("reported", "when the handler returns no error, a code that E30 defines is the one S2F42 carries")
		r.Rule("called", "the handler is called at most once, with the command the request names and its well-formed parameters in order")
		r.Rule("host", "SendRemoteCommand returns without an error only the code that was received, or invalid command for a code that E30 does not define, and never HCACK 0 for another")
		r.Assume("the parameter acknowledgements of the application are named by strings")
		U, A, I := sh("U"), sh("A"), sh("I")
		L := func(sub ...*shape) *shape { return sh("L", sub...) }
		var parT types.Type
		if st := P.structType(pkgGem, "RemoteCommandRequest"); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && st.Field(i).Name() == "Parameters" {
					parT = s.Elem()
				}
			}
		}
		if !r.Anchor(parT != nil, "the parameters of RemoteCommandRequest") {
			return
		}
		n := 0
		for _, h := range P.gemRegs(r) {
			if h.role != "DeviceEquipment" || h.sf() != "S2F41" {
				continue
			}
			n++
			pos := P.pos(h.fn.Pos())
			seen := map[string]bool{}
			for i, s := range []*shape{L(A, L()), L(A, L(L(A, U))), L(U, L(L(A, A), L(U, I))), L(I, L(L(A, U), L(same("A", "in/1/0/0"), A)))} {
				all := []*shape{s}
				if i < 2 {
					all = append(all, s.variants()...)
				}
				for _, s := range all {
					if seen[s.String()] {
						continue
					}
					seen[s.String()] = true
					s := s
					x := newGX(P, h.role, s, 1)
					x.app = func(c *Ctx, site ssa.CallInstruction, tag string, args []Val) ([]CallRes, bool) {
						if appKind(site) != "RemoteCommandHandler" {
							return nil, false
						}
						r.Check(c.Get("cmd") == "", "called", "once", P.ipos(site), "the command handler can be called twice for one request")
						// what it is given
						good := len(args) == 1 && args[0].K == KStruct && len(s.sub) > 0
						if good {
							id := tagOf(structField(args[0], "CommandID"))
							good = id == "vals(in/0)" || id == "vals(in/0)[0]"
							name := tagOf(structField(args[0], "Command"))
							good = good && standsFor(name, "vals(in/0)")
						}
						r.Check(good, "called", s.String()+": command", P.ipos(site), "the command handler is called for "+s.String()+" with another command than the request names: "+c.e.key(args[0]))
						if good {
							ps, ok := c.elems(structField(args[0], "Parameters"), parT)
							var want []string
							if len(s.sub) > 1 && s.sub[1].kind == "L" {
								for j, e := range s.sub[1].sub {
									if e.kind == "L" && len(e.sub) == 2 && (strings.Contains("AU", e.sub[0].kind) && !e.sub[0].none) {
										want = append(want, "in/1/"+itoa(j))
									}
								}
							}
							good = ok
							j := 0
							for _, w := range want {
								for ; good && j < len(ps); j++ {
									nm := "vals(" + w + "/0)"
									if t := s.at(w + "/0"); t.as != "" {
										nm = "vals(" + t.as + ")"
									}
									if standsFor(tagOf(structField(ps[j], "Identifier")), nm) && tagOf(structField(ps[j], "Value")) == "item("+w+"/1)" {
										break
									}
								}
								good = good && j < len(ps)
								j++
							}
							r.Check(good, "called", s.String()+": parameters", P.ipos(site), "the command handler is called for "+s.String()+" without the parameters "+strings.Join(want, ", ")+" in order: "+c.e.key(args[0]))
						}
						t := "ret(" + strings.TrimPrefix(tag, "?") + ")"
						acks := c.e.symObj(c.st, x.root.Value, t+".acks")
						an := TagV(t + ".ackname")
						ack := Val{K: KStruct, F: map[string]Val{".Name": an, ".Ack": TagV(t + ".ack")}, Len: 1}
						c.st.mem[memKey{c.e.siteID(acks), "[0]"}] = ack
						// an acknowledgement that cannot be encoded
						bad := c.e.symObj(c.st, x.root.Value, t+".badacks")
						c.st.mem[memKey{c.e.siteID(bad), "[0]"}] = Val{K: KStruct, F: map[string]Val{".Name": NilV, ".Ack": TagV(t + ".ack")}, Len: 1}
						c.learn("is("+an.Tag+"|string)", true)
						c.Put("cmd", "1")
						var out []CallRes
						for _, e := range []bool{false, true} {
							for k := 0; k < 3; k++ {
								res := Val{K: KStruct, Len: 1, F: map[string]Val{".HCACK": TagV(t + ".HCACK"), ".ParameterAcks": {K: KSlice, Site: acks, Len: k}}}
								err := NilV
								a := c.A()
								switch k {
								case 0:
									res.F[".ParameterAcks"] = NilV
								case 2:
									res.F[".ParameterAcks"] = Val{K: KSlice, Site: bad, Len: 1}
									a = withA(a, "badack", "1")
								}
								if e {
									err = TagV("=err:app")
									a = withA(a, "apperr", "1")
								}
								out = append(out, CallRes{A: a, Ret: TupleV(res, err)})
							}
						}
						return out, true
					}
					for _, o := range x.handle(h) {
						if o.Panicked {
							continue // C27
						}
						m := parseA(o.A)
						b := []string{}
						if len(o.Rets) > 0 {
							b = itemArgs(attr(tagOf(o.Rets[0]), "body"))
						}
						if !r.Check(len(b) == 2 && strings.HasPrefix(b[0], "B("), "reported", "S2F42 form", pos, "S2F41 "+s.String()+" is not answered with an HCACK: "+traceString(o.tr)) {
							continue
						}
						ack := itemArgs(b[0])[0]
						ret := "ret(g.remoteCommandHandler).HCACK"
						for k := range x.types {
							if x.types[k] == "RemoteCommandHandler" {
								ret = "ret(" + strings.TrimPrefix(k, "?") + ").HCACK"
							}
						}
						zero := is0(o.A, ack)
						if ack != ret && zero != -1 && strings.Contains(ack, ret) {
							zero = is0(o.A, ret)
						}
						if zero != -1 {
							r.Check(m["cmd"] != "" && m["apperr"] == "" && (is0(o.A, ret) == 1 || strings.Contains(ack, ret)), "accepted", "S2F42 HCACK 0", pos, "S2F41 "+s.String()+" may be answered with HCACK 0 ("+ack+") although the handler did not run, failed or refused: "+traceString(o.tr))
						}
						if m["cmd"] != "" && m["apperr"] == "" && m["badack"] == "" && !aboveAny(o.A, ret, 6) {
							r.Check(strings.Contains(ack, ret) || is0(o.A, ret) == 1 && zero == 1, "reported", "S2F42 code", pos, "the handler's code is answered with "+ack+": "+traceString(o.tr))
						}
					}
					r.SawEngine(x.e)
					r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of S2F41 "+s.String())
				}
			}
		}
		r.Anchor(n == 1, "the equipment's handler of S2F41")
		if f := P.method(pkgGem, "GemHandler", "SendRemoteCommand"); r.Anchor(f != nil, "GemHandler.SendRemoteCommand") {
			pos := P.pos(f.Pos())
			B := sh("B")
			base := L(B, L(L(A, B)))
			for _, s := range append([]*shape{base, L(B, L()), L(B), L(L(B), L())}, base.variants()...) {
				x := newGX(P, "DeviceHost", sh("E"), 1)
				x.reply = s
				x.setup = func(st *State) []Val { return []Val{{}, TagV("cmd"), NilV} }
				sent := ""
				x.gm.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
					if s, fu, _, ok := newData(tagOf(msg)); ok && s == "2" && fu == "41" {
						sent = attr(tagOf(msg), "body")
						r.Check(strings.Contains(sent, "(cmd)") || strings.Contains(sent, "cmd"), "host", "S2F41 names the command", P.ipos(site), "SendRemoteCommand sends "+sent)
					}
				}
				for _, o := range x.run(f, "f:is(cmd|string)=1;", nil, nil) {
					if o.Panicked || len(o.Rets) != 2 || o.Rets[1].K != KNil {
						continue
					}
					c := tagOf(structField(o.Rets[0], "HCACK"))
					m := parseA(o.A)
					if !r.Check(m["failed"] == "", "host", "failed sends", pos, "SendRemoteCommand reports success after a failed send: "+traceString(o.tr)) {
						continue
					}
					src := ""
					for _, p := range []string{"reply/0", "reply/0/0", "reply/0/0/0"} {
						if t := s.at(strings.Replace(p, "reply", "in", 1)); t != nil && t.kind == "B" && !t.none {
							src = "vals(" + p + ")[0]"
						}
					}
					if !r.Check(src != "", "host", "malformed S2F42", pos, "SendRemoteCommand takes the reply "+s.String()+", which has no HCACK, for a success: "+traceString(o.tr)) {
						continue
					}
					good := strings.Contains(c, src)
					if !good {
						// a code outside of those E30 defines
						good = is0(o.A, c) == -1 && aboveAny(o.A, src, 6)
					}
					r.Check(good, "host", "the received HCACK", pos, "SendRemoteCommand returns "+c+" for the reply "+s.String()+": "+traceString(o.tr))
				}
				r.SawEngine(x.e)
			}
		}
		r.Floor("accepted", 1)
		r.Floor("reported", 2)
		r.Floor("called", 6)
		r.Floor("host", 4)
	})

	register("C36", "The handlers of S7F3 and S7F5 and the host's upload and request operations are interpreted without merging against a symbolic store, with each item of the request or reply in turn replaced by others and symbolic application handlers; acknowledgements, what is stored and what is returned are compared path by path.", func(r *Report) {
		P := r.P
		r.Rule("stored", "S7F3 is answered with ACKC7 0 only if the upload handler, when there is one, returned 0 for this program, and the body received is then what the store holds under the identifier received")
		r.Rule("refused", "when S7F3 is answered with another code the store is what it was; a code of the handler from 0 to 255 is the one sent")
		r.Rule("served", "a body that S7F6 carries is the one stored under the requested identifier or the one that the request handler returned for it; a stored program is served with code 0, an unknown one with no body and another code")
		r.Rule("host", "UploadProcessProgram and RequestProcessProgram send the identifier and body they are given and return without an error only the code and body received")
		L := func(sub ...*shape) *shape { return sh("L", sub...) }
		U, A, I, B := sh("U"), sh("A"), sh("I"), sh("B")
		isVal := func(tag, p string) bool { return tag == "vals("+p+")" || tag == "vals("+p+")[0]" }
		handler := func(x *gx, kind string) string {
			for k, t := range x.types {
				if t == kind {
					return k
				}
			}
			return "?"
		}
		n := 0
		for _, h := range P.gemRegs(r) {
			if h.role != "DeviceEquipment" {
				continue
			}
			pos := P.pos(h.fn.Pos())
			switch h.sf() {
			case "S7F3":
				n++
				var all []*shape
				seen := map[string]bool{}
				for _, s := range []*shape{L(A, A), L(U, A), L(I, A)} {
					for _, s := range append([]*shape{s}, s.variants()...) {
						if !seen[s.String()] {
							seen[s.String()] = true
							all = append(all, s)
						}
					}
				}
				for _, s := range all {
					s := s
					x := newGX(P, h.role, s, 1)
					x.app = func(c *Ctx, site ssa.CallInstruction, tag string, args []Val) ([]CallRes, bool) {
						if appKind(site) == "ProcessProgramUploadHandler" {
							r.Check(len(args) == 2 && isVal(tagOf(args[0]), "in/0") && tagOf(args[1]) == "vals(in/1)", "stored", s.String()+": handler", P.ipos(site), "the upload handler is called for "+s.String()+" with other values than the identifier and the body received")
							c.Put("up", c.Get("up")+"1")
						}
						return nil, false
					}
					for _, o := range x.handle(h) {
						if o.Panicked || len(o.Rets) == 0 {
							continue
						}
						b := attr(tagOf(o.Rets[0]), "body")
						if !r.Check(strings.HasPrefix(b, "B(") && len(itemArgs(b)) == 1, "refused", "S7F4 form", pos, "S7F3 is answered with "+b) {
							continue
						}
						ack := itemArgs(b)[0]
						hn := handler(x, "ProcessProgramUploadHandler")
						ret := "ret(" + strings.TrimPrefix(hn, "?") + ")"
						isN, known := x.isNil(o.A, hn)
						if is0(o.A, ack) != -1 {
							ok := known && isN || parseA(o.A)["up"] == "1" && is0(o.A, ret) == 1
							r.Check(ok, "stored", "S7F4 ACKC7 0", pos, "S7F3 "+s.String()+" may be answered with ACKC7 0 although the upload handler did not accept the program: "+traceString(o.tr))
							_, v, _, has := x.keyed(o.Mem, tProgram, "vals(in/0)")
							r.Check(has && tagOf(x.read(o.Mem, v, "Body")) == "vals(in/1)", "stored", "S7F3 "+s.String()+" stored", pos, "S7F3 "+s.String()+" is accepted, but the body received is not what is stored under the identifier received: "+traceString(o.tr))
							for _, ch := range x.changes(o.Mem) {
								r.Check(strings.Contains(ch, "vals(in/0)"), "stored", "S7F3 other programs", pos, "S7F3 "+ch)
							}
							continue
						}
						r.Check(len(x.changes(o.Mem)) == 0, "refused", "S7F3 "+s.String()+" not stored", pos, "S7F3 "+s.String()+" is refused with "+ack+", but it "+strings.Join(x.changes(o.Mem), ", ")+": "+traceString(o.tr))
						if parseA(o.A)["up"] == "1" && is0(o.A, ret) == -1 && parseA(o.A).fact("cmp("+ret+" lt 0)") == -1 && !aboveAny(o.A, ret, 255) {
							r.Check(strings.Contains(ack, ret), "refused", "S7F4 code", pos, "the upload handler's code is answered with "+ack+": "+traceString(o.tr))
						}
					}
					r.SawEngine(x.e)
					r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of S7F3 "+s.String())
				}
			case "S7F5":
				n++
				var all []*shape
				seen := map[string]bool{}
				for _, s := range []*shape{A, U, I, L(A), L(U)} {
					for _, s := range append([]*shape{s}, s.variants()...) {
						if !seen[s.String()] {
							seen[s.String()] = true
							all = append(all, s)
						}
					}
				}
				for _, s := range all {
					p := "in"
					if s.kind == "L" {
						p = "in/0"
					}
					x := newGX(P, h.role, s, 1)
					x.app = func(c *Ctx, site ssa.CallInstruction, tag string, args []Val) ([]CallRes, bool) {
						if appKind(site) == "ProcessProgramRequestHandler" {
							r.Check(len(args) == 1 && isVal(tagOf(args[0]), p), "served", s.String()+": handler", P.ipos(site), "the request handler is called for "+s.String()+" with another identifier than the one received")
							c.Put("rq", c.Get("rq")+"1")
						}
						return nil, false
					}
					for _, o := range x.handle(h) {
						if o.Panicked || len(o.Rets) == 0 {
							continue
						}
						b := itemArgs(attr(tagOf(o.Rets[0]), "body"))
						if !r.Check(len(b) == 3 && strings.HasPrefix(b[1], "A(") && strings.HasPrefix(b[2], "B("), "served", "S7F6 form", pos, "S7F5 is answered with "+strings.Join(b, ", ")) {
							continue
						}
						r.Check(len(x.changes(o.Mem)) == 0, "served", "S7F5 changes nothing", pos, "S7F5 "+strings.Join(x.changes(o.Mem), ", "))
						body, ack := itemArgs(b[1])[0], itemArgs(b[2])[0]
						hn := handler(x, "ProcessProgramRequestHandler")
						ret := "ret(" + strings.TrimPrefix(hn, "?") + ")"
						ret1 := strings.TrimSuffix(ret, ")") + "#1)"
						isN, known := x.isNil(o.A, hn)
						name, _, had, _ := x.keyed(o.Mem, tProgram, "vals("+p+")")
						empty := body == `""` || body == ""
						if !empty {
							ok := parseA(o.A)["rq"] == "1" && body == ret || had && body == name+".Body" && (known && isN || parseA(o.A)["rq"] == "")
							r.Check(ok, "served", "S7F6 body", pos, "S7F5 "+s.String()+" is answered with the body "+body+", which is neither the stored program's nor the request handler's: "+traceString(o.tr))
							r.Check(strings.Contains(b[0], p), "served", "S7F6 identifier", pos, "S7F5 "+s.String()+" is answered with a body under the identifier "+b[0])
							if body == ret {
								r.Check(is0(o.A, ret1) == 1 && is0(o.A, ack) != -1, "served", "S7F6 handler's code", pos, "the request handler's body is answered although its code is another than 0, or under the code "+ack)
							} else {
								r.Check(is0(o.A, ack) == 1, "served", "S7F6 code of a stored program", pos, "S7F5 "+s.String()+" is answered with a stored program under the code "+ack)
							}
							continue
						}
						r.Check(!(known && isN && had), "served", "S7F6 stored", pos, "S7F5 "+s.String()+" is answered without the body of the program that is stored: "+traceString(o.tr))
						if parseA(o.A)["rq"] != "" {
							r.Check(is0(o.A, ret1) != 1 && is0(o.A, ack) == -1 || is0(o.A, ret1) == 0 && strings.Contains(ack, ret1), "served", "S7F6 refusal", pos, "the request handler's refusal is answered with the code "+ack+", or its body is dropped: "+traceString(o.tr))
						} else {
							r.Check(is0(o.A, ack) == -1, "served", "S7F6 unknown", pos, "S7F5 "+s.String()+" for an unknown program is answered with the code "+ack+": "+traceString(o.tr))
						}
					}
					r.SawEngine(x.e)
					r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of S7F5 "+s.String())
				}
			}
		}
		r.Anchor(n == 2, "the equipment's handlers of S7F3 and S7F5")
		for _, op := range []string{"UploadProcessProgram", "RequestProcessProgram"} {
			f := P.method(pkgGem, "GemHandler", op)
			if !r.Anchor(f != nil, "GemHandler."+op) {
				continue
			}
			pos := P.pos(f.Pos())
			bases := []*shape{B, L(B)}
			if op == "RequestProcessProgram" {
				bases = []*shape{L(A, A), L(A, A, B), L(U, B, B)}
			}
			seen := map[string]bool{}
			for _, s := range bases {
				for _, s := range append([]*shape{s}, s.variants()...) {
					if seen[s.String()] {
						continue
					}
					seen[s.String()] = true
					x := newGX(P, "DeviceHost", sh("E"), 1)
					x.reply = s
					x.setup = func(st *State) []Val { return []Val{{}, TagV("ppid"), TagV("body")}[:len(f.Params)] }
					x.gm.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
						s, fu, _, ok := newData(tagOf(msg))
						b := attr(tagOf(msg), "body")
						if ok && s == "7" && fu == "3" {
							r.Check(b == "L(A(ppid),A(body))", "host", "S7F3 content", P.ipos(site), op+" sends "+b)
						} else if ok && s == "7" && fu == "5" {
							r.Check(b == "A(ppid)" || b == "L(A(ppid))", "host", "S7F5 content", P.ipos(site), op+" sends "+b)
						}
					}
					for _, o := range x.run(f, "f:is(ppid|string)=1;", nil, nil) {
						if o.Panicked || len(o.Rets) < 2 || o.Rets[len(o.Rets)-1].K != KNil {
							continue
						}
						if !r.Check(parseA(o.A)["failed"] == "", "host", op+" failed sends", pos, op+" reports success after a failed send: "+traceString(o.tr)) {
							continue
						}
						at := func(p string) *shape { return s.at(strings.Replace(p, "reply", "in", 1)) }
						binary := func(p string) bool { t := at(p); return t != nil && t.kind == "B" && !t.none }
						ack := tagOf(o.Rets[len(o.Rets)-2])
						if op == "UploadProcessProgram" {
							src := ""
							if binary("reply") {
								src = "vals(reply)[0]"
							} else if binary("reply/0") {
								src = "vals(reply/0)[0]"
							}
							r.Check(src != "" && ack == src, "host", op+" code", pos, op+" returns the code "+ack+" for the reply "+s.String()+": "+traceString(o.tr))
							continue
						}
						body := tagOf(o.Rets[0])
						bs := at("reply/1")
						okBody := bs != nil && (bs.kind == "A" && body == "vals(reply/1)" || bs.kind == "B")
						r.Check(okBody, "host", op+" body", pos, op+" returns the body "+body+" for the reply "+s.String()+": "+traceString(o.tr))
						if at("reply/2") == nil {
							r.Check(ack == "0", "host", op+" no code", pos, op+" returns the code "+ack+" for the reply "+s.String()+", which has none")
						} else {
							r.Check(binary("reply/2") && ack == "vals(reply/2)[0]", "host", op+" code", pos, op+" returns the code "+ack+" for the reply "+s.String()+": "+traceString(o.tr))
						}
					}
					r.SawEngine(x.e)
				}
			}
		}
		r.Floor("stored", 6)
		r.Floor("refused", 10)
		r.Floor("served", 10)
		r.Floor("host", 5)
	})
}

// aboveAny: the path knows that a number, or a conversion of it, is larger
// than another.
func aboveAny(a, src string, n int) bool {
	if above(a, src, n) {
		return true
	}
	not := map[string]bool{}
	for k, v := range parseA(a) {
		if v != "0" || !strings.HasPrefix(k, "f:cmp(") || !strings.Contains(k, src) {
			continue
		}
		if strings.HasSuffix(k, " le "+itoa(n)+")") || strings.HasSuffix(k, " lt "+itoa(n+1)+")") {
			return true
		}
		if i := strings.LastIndex(k, " eq "); i >= 0 {
			not[strings.TrimSuffix(k[i+4:], ")")] = true
		}
	}
	// none of 0 to n
	for i := 0; i <= n; i++ {
		if !not[itoa(i)] {
			return false
		}
	}
	return true
}
