package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const hsmsParsePkg = "github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"

// astRun evaluates scenarios on package ast and the decoder.
type astRun struct {
	P *Program
	r *Report
}

func (a *astRun) fn(name string) *ssa.Function {
	f := a.P.fn(immPkg, name)
	a.r.Anchor(f != nil, "ast."+name)
	return f
}

// each evaluates a scenario on all its paths.
func (a *astRun) each(rule, key string, at *ssa.Function, body func(x *xrun)) {
	pos := ""
	if at != nil {
		pos = a.P.pos(at.Pos())
	}
	seen := map[*ssa.Function]bool{}
	n, over := a.P.explore(20000, func(x *xrun) {
		x.seen = seen
		body(x)
	})
	for f := range seen {
		a.r.Saw(f)
	}
	a.r.Count("paths", n)
	a.r.Check(over == "", rule, key+":followed", pos, "the analysis cannot follow this: "+over)
}

// facts renders what a path assumes.
func (x *xrun) facts() string {
	var out []string
	for k, iv := range x.iv {
		if iv.lo.Cmp(iv.hi) == 0 {
			out = append(out, k+"="+iv.lo.String())
		} else {
			out = append(out, fmt.Sprintf("%s in [%s,%s]", k, iv.lo, iv.hi))
		}
	}
	for k, v := range x.bf {
		out = append(out, fmt.Sprintf("%s=%v", k, v))
	}
	for k, f := range x.fv {
		out = append(out, fmt.Sprintf("%s in [%g,%g] nan=%v", k, f.lo, f.hi, f.nan))
	}
	sortStrings(out)
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, ", ")
}

// m calls a method of an interface value or pointer by name.
func (x *xrun) m(recv xv, name string, args ...xv) (xv, *xPanic) {
	f, ok := recv.(xIface)
	if !ok {
		x.giveUp("method %s of %T", name, recv)
	}
	fn := x.lookup(f.t, x.P.byPkg[immPkg].Pkg, name)
	if fn == nil {
		x.giveUp("no method %s on %s", name, f.t)
	}
	return x.Call(fn, append([]xv{f.v}, args...)...)
}

// iface boxes a result if the function returns a concrete type.
func (x *xrun) iface(v xv, fn *ssa.Function, i int) xv {
	if _, ok := v.(xIface); ok {
		return v
	}
	t := fn.Signature.Results().At(i).Type()
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return xIface{t, v}
}

func (x *xrun) showBytes(b []xInt) string {
	var out []string
	for _, c := range b {
		c = x.simpKeep(c)
		if c.con {
			out = append(out, fmt.Sprintf("%02X", c.u))
		} else {
			out = append(out, strings.TrimSpace(x.ikey(c)))
		}
	}
	return "[" + strings.Join(out, " | ") + "]"
}

// sameBytes compares a byte slice with what it should be, bit by bit.
func (x *xrun) sameBytes(v xv, want []xInt) (bool, string) {
	got, ok := x.byteElems(v)
	if !ok {
		return false, "not bytes"
	}
	if len(got) != len(want) {
		return false, fmt.Sprintf("%d bytes %s, expected %d %s", len(got), x.showShort(got), len(want), x.showShort(want))
	}
	for i := range got {
		g, w := x.bitsOf(got[i]), x.bitsOf(want[i])
		for k := range g {
			if g[k] != w[k] {
				return false, fmt.Sprintf("byte %d is %s, expected %s", i, x.showBytes(got[i:i+1]), x.showBytes(want[i:i+1]))
			}
		}
	}
	return true, ""
}

func (x *xrun) showShort(b []xInt) string {
	if len(b) > 20 {
		return x.showBytes(b[:20]) + "..."
	}
	return x.showBytes(b)
}

func (x *xrun) symBytes(name string, n int) []xInt {
	var out []xInt
	for i := 0; i < n; i++ {
		out = append(out, x.symByte(fmt.Sprintf("%s[%d]", name, i)))
	}
	return out
}

// byteOf is byte k (0 = least significant) of an integer.
func (x *xrun) byteOf(a xInt, k int) xInt {
	b := x.bitsOf(x.convInt(a, 64, a.sg))
	return mkInt(append([]Bit{}, b[8*k:8*k+8]...), false)
}

func lenPrefix(n int) []xInt {
	return []xInt{xbyte(n >> 24), xbyte(n >> 16), xbyte(n >> 8), xbyte(n)}
}

// e37 names the SType codes of SEMI E37.
var e37 = map[int]string{0: "data message", 1: "select.req", 2: "select.rsp", 3: "deselect.req", 4: "deselect.rsp", 5: "linktest.req", 6: "linktest.rsp", 7: "reject.req", 9: "separate.req"}

// parse runs the decoder; frame includes the length prefix.
func (a *astRun) parse(x *xrun, frame []xInt) (msg xv, ok bool, pan *xPanic) {
	f := a.P.fn(hsmsParsePkg, "Parse")
	r, p := x.Call(f, x.bytesVal(frame))
	if p != nil {
		return nil, false, p
	}
	t, is := r.(xTuple)
	if !is || len(t) != 2 {
		x.giveUp("the decoder's results")
	}
	return t[0], x.decide(t[1].(xBool)), nil
}

// received is a message of a given SType as the decoder makes it.
func (a *astRun) received(x *xrun, stype int, name string) (xv, []xInt) {
	h := x.symBytes(name, 10)
	h[4] = xbyte(0)
	h[5] = xbyte(stype)
	m, ok, pan := a.parse(x, append(lenPrefix(10), h...))
	if pan != nil || !ok {
		panic(xInfeasible{})
	}
	return m, h
}

func init() {
	register("C11", "Message builders and the decoder are evaluated with every header byte, status, session and system byte symbolic; the resulting bytes are compared bit by bit with the E37 layout.", func(r *Report) {
		P := r.P
		r.Rule("build", "each control-message builder yields 00 00 00 0A, session id (FFFF for link tests), byte 2 and status or reason, PType 0, the SType of its kind and the system bytes of the message it answers, for every argument")
		r.Rule("reject", "a reject can be built for every message the decoder returns, and carries its session id, the rejected SType (or PType for reason 2), the reason and its system bytes")
		r.Rule("kind", "Type() of a control message and the decoder's result name the kind that SType and PType stand for; other headers have no kind or are refused")
		r.Rule("data", "a data message's bytes are length, session id, wait bit and stream, function, PType 0, SType 0, system bytes, text; a message whose wait bit or session is not set has none")
		r.Rule("decode-data", "the decoder gives a data message the stream, function, wait bit, session id and system bytes of its header")
		r.Assume("the standard library behaves as documented; messages are decoded from frames whose length prefix matches (C13, C14)")
		a := &astRun{P, r}
		if !r.Anchor(P.fn(hsmsParsePkg, "Parse") != nil, "the decoder's Parse") {
			return
		}
		u16, u8 := types.Typ[types.Uint16], types.Typ[types.Uint8]
		head := func(sid []xInt, b2, b3 xInt, st int, sys []xInt) []xInt {
			out := append(lenPrefix(10), sid...)
			out = append(out, b2, b3, xbyte(0), xbyte(st))
			return append(out, sys...)
		}
		ffff := []xInt{xbyte(255), xbyte(255)}
		check := func(x *xrun, rule, key string, fn *ssa.Function, v xv, pan *xPanic, want []xInt) {
			pos := P.pos(fn.Pos())
			if pan != nil {
				r.Bad(rule, key, pos, fmt.Sprintf("%s panics (%s at %s) for %s", fn.Name(), pan.why, pan.pos, x.facts()))
				return
			}
			b, pan := x.m(x.iface(v, fn, 0), "ToBytes")
			if pan != nil {
				r.Bad(rule, key, pos, "ToBytes panics: "+pan.why)
				return
			}
			ok, why := x.sameBytes(b, want)
			r.Check(ok, rule, key, pos, fmt.Sprintf("%s: %s (%s)", fn.Name(), why, x.facts()))
		}
		// requests
		for _, c := range []struct {
			name  string
			st    int
			hasID bool
		}{{"NewHSMSMessageSelectReq", 1, true}, {"NewHSMSMessageDeselectReq", 3, true}, {"NewHSMSMessageLinktestReq", 5, false}, {"NewHSMSMessageSeparateReq", 9, true}} {
			fn := a.fn(c.name)
			if fn == nil {
				continue
			}
			a.each("build", c.name, fn, func(x *xrun) {
				sys := x.symBytes("system", 4)
				args := []xv{x.bytesVal(sys)}
				sid := ffff
				if c.hasID {
					id := x.sym("session", u16)
					args = append([]xv{id}, args...)
					sid = []xInt{x.byteOf(id, 1), x.byteOf(id, 0)}
				}
				v, pan := x.Call(fn, args...)
				check(x, "build", c.name, fn, v, pan, head(sid, xbyte(0), xbyte(0), c.st, sys))
			})
		}
		// responses
		for _, c := range []struct {
			name   string
			of, st int
			status bool
		}{{"NewHSMSMessageSelectRsp", 1, 2, true}, {"NewHSMSMessageDeselectRsp", 3, 4, true}, {"NewHSMSMessageLinktestRsp", 5, 6, false}} {
			fn := a.fn(c.name)
			if fn == nil {
				continue
			}
			a.each("build", c.name, fn, func(x *xrun) {
				req, h := a.received(x, c.of, "request")
				args := []xv{req}
				b3 := xbyte(0)
				sid := ffff
				if c.status {
					b3 = x.sym("status", u8)
					args = append(args, b3)
					sid = h[:2]
				}
				v, pan := x.Call(fn, args...)
				check(x, "build", c.name, fn, v, pan, head(sid, xbyte(0), b3, c.st, h[6:]))
			})
		}
		// rejects
		if fn := a.fn("NewHSMSMessageRejectReq"); fn != nil {
			a.each("build", fn.Name(), fn, func(x *xrun) {
				sys := x.symBytes("system", 4)
				id, pt, st, re := x.sym("session", u16), x.sym("ptype", u8), x.sym("stype", u8), x.sym("reason", u8)
				v, pan := x.Call(fn, id, pt, st, x.bytesVal(sys), re)
				b2 := st
				if x.decide(x.compareInt(tokEQL, re, xbyte(2))) {
					b2 = pt
				}
				check(x, "build", fn.Name(), fn, v, pan, head([]xInt{x.byteOf(id, 1), x.byteOf(id, 0)}, b2, re, 7, sys))
			})
		}
		if fn := a.fn("NewHSMSMessageRejectReqFromMsg"); fn != nil {
			for st := range e37 {
				key := fmt.Sprintf("%s:%s", fn.Name(), e37[st])
				a.each("reject", key, fn, func(x *xrun) {
					m, h := a.received(x, st, "rejected")
					re := x.sym("reason", u8)
					v, pan := x.Call(fn, m, re)
					b2 := xbyte(st)
					if x.decide(x.compareInt(tokEQL, re, xbyte(2))) {
						b2 = xbyte(0)
					}
					check(x, "reject", key, fn, v, pan, head(h[:2], b2, re, 7, h[6:]))
				})
			}
			// a data message with text, and one built by the library
			a.each("reject", fn.Name()+":with text", fn, func(x *xrun) {
				h := x.symBytes("rejected", 10)
				h[4], h[5] = xbyte(0), xbyte(0)
				f := append(append(lenPrefix(13), h...), xbyte(0o10<<2|1), xbyte(1), x.symByte("value"))
				m, ok, pan := a.parse(x, f)
				if pan != nil || !ok {
					return
				}
				re := x.sym("reason", u8)
				v, pan := x.Call(fn, m, re)
				check(x, "reject", fn.Name()+":with text", fn, v, pan, head(h[:2], xbyte(0), re, 7, h[6:]))
			})
		}
		// kinds
		if fn := a.fn("NewHSMSControlMessage"); fn != nil {
			a.each("kind", "Type", fn, func(x *xrun) {
				h := x.symBytes("header", 10)
				v, pan := x.Call(fn, x.bytesVal(h))
				if pan != nil {
					r.Bad("kind", "Type", P.pos(fn.Pos()), fn.Name()+" panics: "+pan.why)
					return
				}
				t, pan := x.m(x.iface(v, fn, 0), "Type")
				if pan != nil {
					r.Bad("kind", "Type", P.pos(fn.Pos()), "Type panics: "+pan.why)
					return
				}
				name, _ := t.(xStr)
				s, _ := name.concrete()
				for st, want := range e37 {
					if st == 0 {
						continue
					}
					is := x.decide(x.compareInt(tokEQL, h[4], xbyte(0))) && x.decide(x.compareInt(tokEQL, h[5], xbyte(st)))
					r.Check(is == (s == want), "kind", "Type:"+want, P.pos(fn.Pos()), fmt.Sprintf("a header is called %q where %s", s, x.facts()))
				}
			})
		}
		parse := P.fn(hsmsParsePkg, "Parse")
		a.each("kind", "Parse", parse, func(x *xrun) {
			h := x.symBytes("header", 10)
			m, ok, pan := a.parse(x, append(lenPrefix(10), h...))
			if pan != nil {
				r.Bad("kind", "Parse", P.pos(parse.Pos()), "the decoder panics: "+pan.why)
				return
			}
			pt := x.decide(x.compareInt(tokEQL, h[4], xbyte(0)))
			kind := ""
			for st := 0; st < 10; st++ {
				if want, is := e37[st]; is && x.decide(x.compareInt(tokEQL, h[5], xbyte(st))) {
					kind = want
				}
			}
			if !pt {
				kind = ""
			}
			if !ok {
				// a reply with its wait bit set is refused as well
				odd := kind == "data message" && x.decide(x.compareInt(tokGEQ, h[2], xbyte(128))) && x.decide(x.compareInt(tokEQL, x.binInt(tokAND, h[3], xbyte(1), nil), xbyte(0)))
				r.Check(kind == "" || odd, "kind", "Parse:accepts "+kind, P.pos(parse.Pos()), fmt.Sprintf("a %s header is refused where %s", kind, x.facts()))
				return
			}
			if !r.Check(kind != "", "kind", "Parse:refuses others", P.pos(parse.Pos()), fmt.Sprintf("a header of no known kind is accepted where %s", x.facts())) {
				return
			}
			t, pan := x.m(m, "Type")
			s, _ := t.(xStr)
			r.Check(pan == nil && s.s == kind, "kind", "Parse:"+kind, P.pos(parse.Pos()), fmt.Sprintf("a %s header becomes %q where %s", kind, s.s, x.facts()))
			if kind != "data message" {
				b, pan := x.m(m, "ToBytes")
				good, why := false, "it panics"
				if pan == nil {
					good, why = x.sameBytes(b, append(lenPrefix(10), h...))
				}
				r.Check(good, "kind", "Parse:keeps "+kind, P.pos(parse.Pos()), "the decoded "+kind+" has other header bytes: "+why)
				return
			}
			a.header(x, "decode-data", "header", parse, m, h)
		})
		a.each("decode-data", "text", parse, func(x *xrun) {
			h := x.symBytes("header", 10)
			h[4], h[5] = xbyte(0), xbyte(0)
			f := append(append(lenPrefix(13), h...), xbyte(0o10<<2|1), xbyte(1), x.symByte("value"))
			m, ok, pan := a.parse(x, f)
			if pan == nil && ok {
				a.header(x, "decode-data", "text", parse, m, h)
			}
		})
		// data messages
		intT := types.Typ[types.Int]
		type maker struct {
			key  string
			make func(x *xrun, name xStr, s, f, w, sid xInt, item xv, sys []xInt) (xv, *xPanic)
		}
		newH, newD := a.fn("NewHSMSDataMessage"), a.fn("NewDataMessage")
		item := a.fn("NewBinaryNode")
		empty := a.fn("NewEmptyItemNode")
		if newH == nil || newD == nil || item == nil || empty == nil {
			return
		}
		dir := xStr{s: "H->E"}
		makers := []maker{
			{"NewHSMSDataMessage", func(x *xrun, n xStr, s, f, w, sid xInt, it xv, sys []xInt) (xv, *xPanic) {
				v, p := x.Call(newH, n, s, f, w, dir, it, sid, x.bytesVal(sys))
				return x.iface(v, newH, 0), p
			}},
			{"NewDataMessage+SetSessionIDAndSystemBytes", func(x *xrun, n xStr, s, f, w, sid xInt, it xv, sys []xInt) (xv, *xPanic) {
				v, p := x.Call(newD, n, s, f, w, dir, it)
				if p != nil {
					return nil, p
				}
				v = x.iface(v, newD, 0)
				t := v.(xIface).t
				v, p = x.m(v, "SetSessionIDAndSystemBytes", sid, x.bytesVal(sys))
				return xIface{t, v}, p
			}},
		}
		for _, mk := range makers {
			for _, text := range []int{-1, 0, 1, 300, 65536} {
				key := fmt.Sprintf("%s:text %d", mk.key, text)
				a.each("data", key, newH, func(x *xrun) {
					x.max = 40000000
					s, f, w, sid := x.sym("stream", intT), x.sym("function", intT), x.sym("wait", intT), x.sym("session", intT)
					sys := x.symBytes("system", 4)
					var it xv
					var pan *xPanic
					var body []xInt
					if text < 0 {
						it, pan = x.Call(empty)
					} else {
						var vs []xv
						if text == 1 {
							body = append(body, xbyte(0o10<<2|1), xbyte(1))
						} else if text == 0 {
							body = append(body, xbyte(0o10<<2|1), xbyte(0))
						} else if text < 65536 {
							body = append(body, xbyte(0o10<<2|2), xbyte(text>>8), xbyte(text))
						} else {
							body = append(body, xbyte(0o10<<2|3), xbyte(text>>16), xbyte(text>>8), xbyte(text))
						}
						for i := 0; i < text; i++ {
							b := xbyte(i)
							if i < 3 {
								b = x.symByte(fmt.Sprintf("value[%d]", i))
							}
							vs = append(vs, xIface{u8, b})
							body = append(body, b)
						}
						it, pan = x.Call(item, x.sliceOf(vs...))
					}
					if pan != nil {
						x.giveUp("an item of %d bytes cannot be made: %s", text, pan.why)
					}
					m, pan := mk.make(x, xStr{}, s, f, w, sid, it, sys)
					if pan != nil {
						return // refused; C16's subject
					}
					out, pan := x.m(m, "ToBytes")
					if pan != nil {
						r.Bad("data", key, P.pos(newH.Pos()), "ToBytes panics: "+pan.why+" where "+x.facts())
						return
					}
					if x.decide(x.compareInt(tokEQL, sid, xint(-1))) || x.decide(x.compareInt(tokEQL, w, xint(2))) {
						r.Check(len(x.elems(out)) == 0, "data", key+":incomplete", P.pos(newH.Pos()), "a message whose session or wait bit is not set yields bytes where "+x.facts())
						return
					}
					b2 := x.bitsOf(x.byteOf(s, 0))
					wb := Bit{}
					if x.decide(x.compareInt(tokEQL, w, xint(1))) {
						wb = Bit{"", 1}
					}
					top := b2[7]
					b2[7] = wb
					want := append(lenPrefix(10+len(body)), x.byteOf(sid, 1), x.byteOf(sid, 0), mkInt(b2, false), x.byteOf(f, 0), xbyte(0), xbyte(0))
					want = append(append(want, sys...), body...)
					ok, why := x.sameBytes(out, want)
					r.Check(ok && top == (Bit{}), "data", key, P.pos(newH.Pos()), "the header of a data message: "+why+" where "+x.facts())
				})
			}
		}
		for _, c := range []bool{true, false} {
			key := fmt.Sprintf("SetWaitBit(%v)", c)
			a.each("data", key, newD, func(x *xrun) {
				sys := x.symBytes("system", 4)
				sid := x.sym("session", u16)
				e, _ := x.Call(empty)
				v, pan := x.Call(newD, xStr{}, xint(1), xint(1), xint(2), dir, e)
				if pan != nil {
					x.giveUp("an optional wait bit")
				}
				m := x.iface(v, newD, 0)
				t := m.(xIface).t
				v, pan = x.m(m, "SetWaitBit", xbool(c))
				if pan == nil {
					v, pan = x.m(xIface{t, v}, "SetSessionIDAndSystemBytes", x.convInt(sid, 64, true), x.bytesVal(sys))
				}
				if pan != nil {
					r.Bad("data", key, P.pos(newD.Pos()), "panics: "+pan.why)
					return
				}
				out, pan := x.m(xIface{t, v}, "ToBytes")
				b2 := 1
				if c {
					b2 = 129
				}
				ok, why := false, "panics"
				if pan == nil {
					ok, why = x.sameBytes(out, append(append(lenPrefix(10), x.byteOf(sid, 1), x.byteOf(sid, 0), xbyte(b2), xbyte(1), xbyte(0), xbyte(0)), sys...))
				}
				r.Check(ok, "data", key, P.pos(newD.Pos()), "the header of a message after "+key+": "+why)
			})
		}
		r.Floor("build", 16)
		r.Floor("reject", 20)
		r.Floor("kind", 20)
		r.Floor("data", 20)
		r.Floor("decode-data", 8)
	})
}

// header compares a decoded data message with its header bytes.
func (a *astRun) header(x *xrun, rule, key string, fn *ssa.Function, m xv, h []xInt) {
	r, pos := a.r, a.P.pos(fn.Pos())
	ints := []struct {
		name string
		want []Bit
	}{
		{"StreamCode", x.bitsOf(h[2])[:7]},
		{"FunctionCode", x.bitsOf(h[3])},
		{"SessionID", append(append([]Bit{}, x.bitsOf(h[1])...), x.bitsOf(h[0])...)},
	}
	for _, c := range ints {
		v, pan := x.m(m, c.name)
		n, is := v.(xInt)
		ok := pan == nil && is
		if ok {
			g := x.bitsOf(n)
			for k := range g {
				w := Bit{}
				if k < len(c.want) {
					w = x.norm(c.want[k])
				}
				ok = ok && g[k] == w
			}
		}
		r.Check(ok, rule, key+":"+c.name, pos, fmt.Sprintf("%s of a decoded message is not its header's where %s", c.name, x.facts()))
	}
	v, pan := x.m(m, "WaitBit")
	s, _ := v.(xStr)
	want := "false"
	if x.decide(x.compareInt(tokGEQ, h[2], xbyte(128))) {
		want = "true"
	}
	r.Check(pan == nil && s.s == want, rule, key+":WaitBit", pos, fmt.Sprintf("WaitBit of a decoded message is %q where %s", s.s, x.facts()))
	v, pan = x.m(m, "SystemBytes")
	ok := pan == nil
	if ok {
		ok, _ = x.sameBytes(v, h[6:10])
	}
	r.Check(ok, rule, key+":SystemBytes", pos, "the system bytes of a decoded message are not its header's")
}

const (
	tokEQL = token.EQL
	tokGEQ = token.GEQ
	tokAND = token.AND
)

func sortStrings(s []string) { sort.Strings(s) }
