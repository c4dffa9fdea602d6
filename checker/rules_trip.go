package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// equalItems compares two items by what their methods say.
func (a *astRun) equalItems(x *xrun, l, r xv, at string) (bool, string) {
	get := func(it xv, m string) xv {
		v, pan := x.m(it, m)
		if pan != nil {
			x.giveUp("%s panics: %s", m, pan.why)
		}
		if b, ok := v.(xIface); ok && m == "Values" {
			v = b.v
		}
		return v
	}
	if li, ok := l.(xIface); !ok || li.v == nil {
		return false, at + " is missing"
	}
	if ri, ok := r.(xIface); !ok || ri.v == nil {
		return false, at + " is missing after decoding"
	}
	lt, _ := get(l, "Type").(xStr)
	rt, _ := get(r, "Type").(xStr)
	if lc, ok := lt.concrete(); !ok || lc != rt.s || rt.b != nil || rt.sym != "" {
		return false, fmt.Sprintf("%s of type %s becomes one of type %s", at, x.skey(lt), x.skey(rt))
	}
	ln, _ := get(l, "Size").(xInt)
	rn, _ := get(r, "Size").(xInt)
	if !ln.con || !rn.con || ln.u != rn.u {
		return false, fmt.Sprintf("%s of size %s gets the size %s", at, x.ikey(ln), x.ikey(rn))
	}
	lv, rv := get(l, "Values"), get(r, "Values")
	switch lv.(type) {
	case xNil, nil:
		// an item without values
		if ln.u != 0 {
			return false, at + " has no values"
		}
		return true, ""
	}
	if ls, ok := lv.(xStr); ok {
		rs, ok := rv.(xStr)
		if !ok || ls.sym != "" || rs.sym != "" {
			return false, at + ": its text is not known"
		}
		same, why := x.sameBytes(x.bytesVal(x.strBytes(rs)), x.strBytes(ls))
		return same, at + ": " + why
	}
	le, re := x.elems(lv), x.elems(rv)
	if len(le) != len(re) {
		return false, fmt.Sprintf("%s: %d values become %d", at, len(le), len(re))
	}
	for i := range le {
		here := fmt.Sprintf("%s, value %d", at, i)
		switch p := le[i].(type) {
		case xInt:
			q, ok := re[i].(xInt)
			if !ok || bitsKey(x.bitsOf(x.convInt(p, 64, p.sg))) != bitsKey(x.bitsOf(x.convInt(q, 64, q.sg))) {
				return false, fmt.Sprintf("%s: %s becomes %s", here, x.ikey(p), x.ikey(q))
			}
		case xFlt:
			q, ok := re[i].(xFlt)
			if lt.s == "f4" {
				// an F4 value is one of single precision
				p, _ = x.convert(p, types.Typ[types.Float64], types.Typ[types.Float32]).(xFlt)
			}
			same := ok && x.fkey(p) == x.fkey(q)
			if ok && !same && !p.con && q.con && q.f == 0 {
				// a value known to be zero
				fv := x.frange(p.sym)
				same = fv.lo == 0 && fv.hi == 0 && !fv.nan
			}
			if !same {
				return false, fmt.Sprintf("%s: %s becomes %s", here, x.fkey(p), x.fkey(q))
			}
		case xBool:
			q, ok := re[i].(xBool)
			if !ok || x.decide(p) != x.decide(q) {
				return false, here + ": the truth value changes"
			}
		case xIface:
			ok, why := a.equalItems(x, p, re[i], fmt.Sprintf("%s[%d]", at, i))
			if !ok {
				return false, why
			}
		default:
			return false, here + " is not known"
		}
	}
	return true, ""
}

// whole is the item of a message.
func (a *astRun) whole(x *xrun, m xv) xv {
	it, pan := x.m(m, "Get", xNil{})
	if t, ok := it.(xTuple); ok && pan == nil {
		return t[0]
	}
	return nil
}

// trip encodes a data message and decodes the bytes.
func (a *astRun) trip(x *xrun, rule, key string, at *ssa.Function, m, it xv) {
	r, pos := a.r, a.P.pos(at.Pos())
	b, pan := x.m(m, "ToBytes")
	if pan != nil {
		r.Bad(rule, key, pos, fmt.Sprintf("%s: ToBytes panics: %s (%s)", key, pan.why, x.facts()))
		return
	}
	f, ok := x.byteElems(b)
	if !ok {
		x.giveUp("the encoding is not bytes")
	}
	got, ok, pan := a.parse(x, f)
	if pan != nil || !ok {
		why := "is refused by the decoder"
		if pan != nil {
			why = "makes the decoder panic: " + pan.why
		}
		r.Bad(rule, key, pos, fmt.Sprintf("the encoding of %s %s (%s)", key, why, x.facts()))
		return
	}
	t, pan := x.m(got, "Type")
	s, _ := t.(xStr)
	if !r.Check(pan == nil && s.s == "data message", rule, key+":kind", pos, fmt.Sprintf("%s becomes a %q", key, s.s)) {
		return
	}
	for _, name := range []string{"StreamCode", "FunctionCode", "SessionID", "WaitBit", "SystemBytes"} {
		l, p1 := x.m(m, name)
		g, p2 := x.m(got, name)
		same := p1 == nil && p2 == nil
		why := ""
		switch p := l.(type) {
		case xInt:
			q, ok := g.(xInt)
			same = same && ok && bitsKey(x.bitsOf(p)) == bitsKey(x.bitsOf(q))
			why = fmt.Sprintf("%s becomes %s", x.ikey(p), x.ikey(q))
		case xStr:
			q, ok := g.(xStr)
			same = same && ok && x.skey(p) == x.skey(q)
			why = fmt.Sprintf("%s becomes %s", x.skey(p), x.skey(q))
		default:
			w, ok := x.byteElems(l)
			same = same && ok
			if same {
				same, why = x.sameBytes(g, w)
			}
		}
		r.Check(same, rule, key+":"+name, pos, fmt.Sprintf("%s of %s changes in a round trip: %s (%s)", name, key, why, x.facts()))
	}
	ok, why := a.equalItems(x, it, a.whole(x, got), "the item")
	r.Check(ok, rule, key, pos, fmt.Sprintf("%s: %s (%s)", key, why, x.facts()))
}

func init() {
	register("C60", "Messages with unknown header fields and item values are encoded, the bytes decoded, and the result compared with the message field by field and value by value.", func(r *Report) {
		P := r.P
		r.Rule("item", "for every item format and unknown values of every Go type a factory takes them as, decoding the encoding gives an item of the same type, size and values; 0 to 3 values and numbers of values at each side of a length-byte boundary")
		r.Rule("nested", "lists of lists with items of every format come back with the same structure and values")
		r.Rule("header", "stream, function, wait bit, session id and system bytes come back for all their values")
		r.Rule("control", "every control message built by the library comes back with its kind and all its header bytes")
		r.Assume("the numbers of values between those evaluated behave alike: they use the same loops")
		r.Assume("math.Float64bits and Float32bits are inverted by their counterparts for numbers")
		a := &astRun{P, r}
		if !r.Anchor(P.fn(hsmsParsePkg, "Parse") != nil, "the decoder's Parse") {
			return
		}
		newH, empty, list := a.fn("NewHSMSDataMessage"), a.fn("NewEmptyItemNode"), a.fn("NewListNode")
		if newH == nil || empty == nil || list == nil {
			return
		}
		dir := xStr{s: "H->E"}
		message := func(x *xrun, s, f, w xInt, it xv, sid xInt, sys []xInt) (xv, *xPanic) {
			v, pan := x.Call(newH, xStr{}, s, f, w, dir, it, sid, x.bytesVal(sys))
			if pan != nil {
				return nil, pan
			}
			return x.iface(v, newH, 0), nil
		}
		plain := func(x *xrun, it xv) xv {
			m, pan := message(x, xint(99), xint(1), xint(0), it, xint(0x1234), []xInt{xbyte(0x80), xbyte(1), xbyte(0), xbyte(255)})
			if pan != nil {
				x.giveUp("a message with a well-formed item is refused: %s", pan.why)
			}
			return m
		}
		for _, f := range e5 {
			fn := a.fn(f.make)
			if fn == nil {
				return
			}
			for _, n := range []int{0, 1, 2, 3, 255 / f.width, 255/f.width + 1, 65535 / f.width, 65535/f.width + 1} {
				if n > 10000 && (f.name == "list" || f.name == "ascii") {
					continue
				}
				key := fmt.Sprintf("%s[%d]", f.name, n)
				a.each("item", key, fn, func(x *xrun) {
					x.max = 40000000
					it, _, _, pan := a.item(x, f, n, "")
					if pan != nil {
						r.Bad("item", key, P.pos(fn.Pos()), fmt.Sprintf("%s refuses %d values: %s (%s)", fn.Name(), n, pan.why, x.facts()))
						return
					}
					it = x.iface(it, fn, 0)
					a.trip(x, "item", key, fn, plain(x, it), it)
				})
			}
			// values supplied as other Go types
			if fc := factoryOf(f.make); fc != nil {
				for _, k := range basicKinds {
					t := types.Typ[k]
					key := fmt.Sprintf("%s of a %s", f.name, t)
					a.each("item", key, fn, func(x *xrun) {
						v := x.symVal("value", t)
						it, pan := x.Call(fn, fc.args(f.width, x.sliceOf(xIface{t, v}))...)
						if pan != nil {
							return // C16's subject
						}
						it = x.iface(it, fn, 0)
						a.trip(x, "item", key, fn, plain(x, it), it)
					})
				}
			}
		}
		for i := 1; i < len(e5); i++ {
			f, g := e5[i], e5[1+i%(len(e5)-1)]
			key := fmt.Sprintf("nested %s, %s", f.name, g.name)
			a.each("nested", key, list, func(x *xrun) {
				mk := func(vs ...xv) xv {
					v, pan := x.Call(list, x.sliceOf(vs...))
					if pan != nil {
						x.giveUp("a list of items is refused: %s", pan.why)
					}
					return x.iface(v, list, 0)
				}
				el := func(f e5fmt, n int, prefix string) xv {
					v, fn, _, pan := a.item(x, f, n, prefix)
					if pan != nil {
						x.giveUp("an item is refused: %s", pan.why)
					}
					return x.iface(v, fn, 0)
				}
				// <L <L <L f> f g[0]> <L> g <L f>>
				it := mk(mk(mk(el(f, 2, "a.")), el(f, 0, "b."), el(g, 1, "c.")), mk(), el(g, 2, "d."), mk(el(f, 1, "e.")))
				a.trip(x, "nested", key, list, plain(x, it), it)
			})
		}
		// chains of lists
		for _, depth := range []int{2, 3, 4, 5, 6, 9, 17, 64, 255, 256} {
			key := fmt.Sprintf("%d lists deep", depth)
			a.each("nested", key, list, func(x *xrun) {
				x.max = 40000000
				var in []xv
				for i, f := range e5 {
					if i > 0 && depth > 6 {
						break
					}
					v, fn, _, pan := a.item(x, f, i%2, "a.")
					if pan != nil {
						x.giveUp("an item is refused: %s", pan.why)
					}
					in = append(in, x.iface(v, fn, 0))
				}
				if depth == 256 {
					in = nil
				}
				var it xv
				for i := 0; i < depth; i++ {
					v, pan := x.Call(list, x.sliceOf(in...))
					if pan != nil {
						x.giveUp("a list of items is refused: %s", pan.why)
					}
					it = x.iface(v, list, 0)
					in = []xv{it}
					if depth <= 9 {
						e, _ := x.Call(list, x.sliceOf())
						in = append(in, x.iface(e, list, 0))
					}
				}
				a.trip(x, "nested", key, list, plain(x, it), it)
			})
		}
		intT := types.Typ[types.Int]
		for _, text := range []bool{false, true} {
			key := fmt.Sprintf("header, text: %v", text)
			a.each("header", key, newH, func(x *xrun) {
				s, f, w, sid := x.sym("stream", intT), x.sym("function", intT), x.sym("wait", intT), x.sym("session", intT)
				sys := x.symBytes("system", 4)
				v, pan := x.Call(empty)
				it := x.iface(v, empty, 0)
				if text {
					bin := a.fn("NewBinaryNode")
					v, pan = x.Call(bin, x.sliceOf(xIface{types.Typ[types.Uint8], x.symByte("value")}))
					it = x.iface(v, bin, 0)
				}
				if pan != nil {
					x.giveUp("an item")
				}
				m, pan := message(x, s, f, w, it, sid, sys)
				if pan != nil {
					return // C16's subject
				}
				// without a session or a wait bit there is no encoding (C11)
				if x.decide(x.compareInt(tokEQL, sid, xint(-1))) || x.decide(x.compareInt(tokEQL, w, xint(2))) {
					return
				}
				a.trip(x, "header", key, newH, m, it)
			})
		}
		a.controls()
		r.Floor("item", 400)
		r.Floor("nested", 60)
		r.Floor("header", 14)
		r.Floor("control", 16)
	})
}

func factoryOf(name string) *factory {
	for i := range factories {
		if f := &factories[i]; f.name == name && f.kind != "list" && f.kind != "boolean" {
			return f
		}
	}
	return nil
}

func (a *astRun) controls() {
	r, P := a.r, a.P
	u16, u8 := types.Typ[types.Uint16], types.Typ[types.Uint8]
	sys := func(x *xrun) xv { return x.bytesVal(x.symBytes("system", 4)) }
	for _, c := range []struct {
		name string
		args func(x *xrun) []xv
	}{
		{"NewHSMSMessageSelectReq", func(x *xrun) []xv { return []xv{x.sym("session", u16), sys(x)} }},
		{"NewHSMSMessageDeselectReq", func(x *xrun) []xv { return []xv{x.sym("session", u16), sys(x)} }},
		{"NewHSMSMessageSeparateReq", func(x *xrun) []xv { return []xv{x.sym("session", u16), sys(x)} }},
		{"NewHSMSMessageLinktestReq", func(x *xrun) []xv { return []xv{sys(x)} }},
		{"NewHSMSMessageSelectRsp", func(x *xrun) []xv { m, _ := a.received(x, 1, "request"); return []xv{m, x.sym("status", u8)} }},
		{"NewHSMSMessageDeselectRsp", func(x *xrun) []xv { m, _ := a.received(x, 3, "request"); return []xv{m, x.sym("status", u8)} }},
		{"NewHSMSMessageLinktestRsp", func(x *xrun) []xv { m, _ := a.received(x, 5, "request"); return []xv{m} }},
		{"NewHSMSMessageRejectReq", func(x *xrun) []xv {
			return []xv{x.sym("session", u16), x.sym("ptype", u8), x.sym("stype", u8), sys(x), x.sym("reason", u8)}
		}},
	} {
		fn := a.fn(c.name)
		if fn == nil {
			continue
		}
		pos := P.pos(fn.Pos())
		a.each("control", c.name, fn, func(x *xrun) {
			v, pan := x.Call(fn, c.args(x)...)
			if pan != nil {
				r.Bad("control", c.name, pos, c.name+" panics: "+pan.why)
				return
			}
			m := x.iface(v, fn, 0)
			b, p1 := x.m(m, "ToBytes")
			t, p2 := x.m(m, "Type")
			if p1 != nil || p2 != nil {
				r.Bad("control", c.name, pos, "ToBytes or Type panics")
				return
			}
			f, ok := x.byteElems(b)
			if !ok {
				x.giveUp("the encoding is not bytes")
			}
			got, ok, pan := a.parse(x, f)
			if !r.Check(pan == nil && ok, "control", c.name+":accepted", pos, fmt.Sprintf("the encoding of a message of %s is refused (%s)", c.name, x.facts())) {
				return
			}
			g, p1 := x.m(got, "Type")
			ls, _ := t.(xStr)
			gs, _ := g.(xStr)
			r.Check(p1 == nil && ls.s == gs.s && ls.s != "", "control", c.name+":kind", pos, fmt.Sprintf("a %q becomes a %q", ls.s, gs.s))
			o, p2 := x.m(got, "ToBytes")
			same, why := false, "it panics"
			if p2 == nil {
				same, why = x.sameBytes(o, f)
			}
			r.Check(same, "control", c.name, pos, "the decoded message has another header: "+why)
		})
	}
}
