package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const smlParsePkg = "github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"

// sml evaluates the SML parser on a text.
func (a *astRun) sml(x *xrun, text xStr) (msgs []xv, errs int, pan *xPanic) {
	fn := a.P.fn(smlParsePkg, "Parse")
	v, pan := x.Call(fn, text)
	if pan != nil {
		return nil, 0, pan
	}
	t, ok := v.(xTuple)
	if !ok || len(t) < 2 {
		x.giveUp("the result of Parse")
	}
	for _, m := range x.elems(t[0]) {
		msgs = append(msgs, x.ifaceOf(m, fn))
	}
	n, ok := x.builtinLen(t[1])
	if !ok {
		x.giveUp("the number of errors")
	}
	return msgs, n, nil
}

// ifaceOf boxes an element of the first result of a function.
func (x *xrun) ifaceOf(v xv, fn *ssa.Function) xv {
	if _, ok := v.(xIface); ok {
		return v
	}
	s, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return v
	}
	return xIface{s.Elem(), v}
}

func (x *xrun) builtinLen(v xv) (int, bool) {
	switch s := v.(type) {
	case xNil:
		return 0, true
	case xSlice:
		return s.n, s.sym == ""
	}
	return 0, false
}

// retell renders a message and parses the rendering.
func (a *astRun) retell(x *xrun, rule, key string, at *ssa.Function, m, it xv) {
	r, pos := a.r, a.P.pos(at.Pos())
	x.text = true
	v, pan := x.m(m, "String")
	if pan != nil {
		r.Bad(rule, key, pos, fmt.Sprintf("%s: String panics: %s (%s)", key, pan.why, x.facts()))
		return
	}
	s, ok := v.(xStr)
	if !ok || s.sym != "" {
		x.giveUp("the text of a message is not known")
	}
	show := x.skey(s)
	if len(show) > 300 {
		show = show[:300] + "..."
	}
	msgs, errs, pan := a.sml(x, s)
	if pan != nil {
		r.Bad(rule, key, pos, fmt.Sprintf("%s: the parser panics on %s: %s", key, show, pan.why))
		return
	}
	if !r.Check(errs == 0 && len(msgs) == 1, rule, key+":accepted", pos, fmt.Sprintf("%s: the rendering %s gives %d errors and %d messages (%s)", key, show, errs, len(msgs), x.facts())) {
		return
	}
	got := msgs[0]
	for _, name := range []string{"Name", "StreamCode", "FunctionCode", "WaitBit", "Direction"} {
		l, p1 := x.m(m, name)
		g, p2 := x.m(got, name)
		same := p1 == nil && p2 == nil
		why := ""
		switch p := l.(type) {
		case xInt:
			q, ok := g.(xInt)
			same = same && ok && bitsKey(x.bitsOf(p)) == bitsKey(x.bitsOf(q))
			if ok {
				why = fmt.Sprintf("%s becomes %s", x.ikey(p), x.ikey(q))
			}
		case xStr:
			q, ok := g.(xStr)
			same = same && ok && x.skey(p) == x.skey(q)
			why = fmt.Sprintf("%s becomes %s", x.skey(p), x.skey(q))
		default:
			same = false
		}
		r.Check(same, rule, key+":"+name, pos, fmt.Sprintf("%s of %s changes when its text %s is parsed: %s (%s)", name, key, show, why, x.facts()))
	}
	ok, why := a.equalItems(x, it, a.whole(x, got), "the item")
	r.Check(ok, rule, key, pos, fmt.Sprintf("%s, written as %s: %s (%s)", key, show, why, x.facts()))
}

func init() {
	register("C61", "Messages with unknown header fields and item values are written as SML, the text parsed, and the result compared with the message field by field and value by value.", func(r *Report) {
		P := r.P
		r.Rule("value", "for every item format and unknown values, the text of the item is parsed to an item of the same type, size and values; 0 to 3 values")
		r.Rule("text", "ASCII items come back for every character, alone and next to every other kind of character")
		r.Rule("nested", "lists of lists with items of every format come back with the same structure and values")
		r.Rule("header", "stream, function, wait bit (also an optional one), direction and name come back")
		r.Assume("strconv.Parse* gives back the number that strconv.Format* wrote, at the same base and precision")
		r.Assume("the forms of a formatted float differ only in the number of digits of each part; one, two and many are evaluated")
		a := &astRun{P, r}
		if !r.Anchor(P.fn(smlParsePkg, "Parse") != nil, "the SML parser's Parse") {
			return
		}
		newM, empty, list, ascii := a.fn("NewDataMessage"), a.fn("NewEmptyItemNode"), a.fn("NewListNode"), a.fn("NewASCIINode")
		if newM == nil || empty == nil || list == nil || ascii == nil {
			return
		}
		plain := func(x *xrun, it xv) xv {
			v, pan := x.Call(newM, xStr{s: "Name"}, xint(99), xint(1), xint(1), xStr{s: "H<-E"}, it)
			if pan != nil {
				x.giveUp("a message with a well-formed item is refused: %s", pan.why)
			}
			return x.iface(v, newM, 0)
		}
		for _, f := range e5 {
			fn := a.fn(f.make)
			if fn == nil {
				return
			}
			for _, n := range []int{0, 1, 2, 3} {
				if f.name == "ascii" || n == 3 && f.width > 1 {
					continue
				}
				key := fmt.Sprintf("%s[%d]", f.name, n)
				a.each("value", key, fn, func(x *xrun) {
					it, _, _, pan := a.item(x, f, n, "")
					if pan != nil {
						return // C16's subject
					}
					it = x.iface(it, fn, 0)
					a.retell(x, "value", key, fn, plain(x, it), it)
				})
			}
		}
		// values at the ends of their ranges
		for _, f := range e5 {
			fn := a.fn(f.make)
			for i, v := range extremes(f) {
				key := fmt.Sprintf("%s, extreme %d", f.name, i)
				a.each("value", key, fn, func(x *xrun) {
					v, pan := x.Call(fn, factoryOf(f.make).args(f.width, x.sliceOf(v, v))...)
					if pan != nil {
						return // C16's subject
					}
					it := x.iface(v, fn, 0)
					a.retell(x, "value", key, fn, plain(x, it), it)
				})
			}
		}
		chars := func(key string, text func(x *xrun) []xInt) {
			a.each("text", key, ascii, func(x *xrun) {
				v, pan := x.Call(ascii, x.mkStr(text(x)))
				if pan != nil {
					return // C16's subject
				}
				it := x.iface(v, ascii, 0)
				a.retell(x, "text", key, ascii, plain(x, it), it)
			})
		}
		char := func(x *xrun, name string) xInt {
			c := x.symByte(name)
			x.iv[name] = ival{big.NewInt(0), big.NewInt(127)}
			return c
		}
		chars("the empty text", func(x *xrun) []xInt { return nil })
		for _, s := range []string{"S1F1 W <A \"x\"> // no", "a\\b", "say \"no\"", "\\\\", "\"", "\x00\x7f", "line\r\nline\r\n", "[3]", "0x41 T F", " ", ">.", "'", "%d %s", "\t\"\\\n"} {
			chars(fmt.Sprintf("%q", s), func(x *xrun) []xInt { return x.strBytes(xStr{s: s}) })
		}
		for _, pre := range []string{"", "a", "\x01", "\\", "\"", " ", "n\x7f"} {
			for _, post := range []string{"", "b", "\n", "\"", "0", " "} {
				chars(fmt.Sprintf("an unknown character between %q and %q", pre, post), func(x *xrun) []xInt {
					return append(append(x.strBytes(xStr{s: pre}), char(x, "c")), x.strBytes(xStr{s: post})...)
				})
			}
		}
		chars("two unknown characters", func(x *xrun) []xInt { return []xInt{char(x, "c"), char(x, "d")} })

		mk := func(x *xrun, vs ...xv) xv {
			v, pan := x.Call(list, x.sliceOf(vs...))
			if pan != nil {
				x.giveUp("a list of items is refused: %s", pan.why)
			}
			return x.iface(v, list, 0)
		}
		// one digit is as good as many here
		el := func(x *xrun, f e5fmt, n int, prefix string) xv {
			fn := a.fn(f.make)
			if n == 0 {
				v, fn, _, pan := a.item(x, f, 0, prefix)
				if pan != nil {
					x.giveUp("an item is refused: %s", pan.why)
				}
				return x.iface(v, fn, 0)
			}
			var v xv
			var pan *xPanic
			fc := factoryOf(f.make)
			switch {
			case f.name == "list":
				return mk(x, mk(x))
			case f.name == "ascii":
				v, pan = x.Call(fn, xStr{s: "<" + prefix + ">\n"[:n]})
			case f.name == "boolean":
				v, pan = x.Call(fn, x.sliceOf(xIface{types.Typ[types.Bool], xBool{key: prefix}}))
			default:
				var vs []xv
				for i := 0; i < n; i++ {
					var e xv
					t := types.Typ[f.elem]
					if f.name[0] == 'f' {
						e = xFlt{con: true, f: float64(i) - 0.5, f32: f.width == 4}
					} else {
						name := fmt.Sprintf("%s%d", prefix, i)
						e = x.sym(name, t)
						x.iv[name] = ival{big.NewInt(1), big.NewInt(1 + int64(i))}
					}
					vs = append(vs, xIface{t, e})
				}
				v, pan = x.Call(fn, fc.args(f.width, x.sliceOf(vs...))...)
			}
			if pan != nil {
				x.giveUp("an item is refused: %s", pan.why)
			}
			return x.iface(v, fn, 0)
		}
		for i := range e5 {
			f, g := e5[i], e5[(i+5)%len(e5)]
			key := fmt.Sprintf("nested %s, %s", f.name, g.name)
			a.each("nested", key, list, func(x *xrun) {
				// <L <L <L f> f[0] g> <L> g <L f>>
				it := mk(x, mk(x, mk(x, el(x, f, 2, "a")), el(x, f, 0, "b"), el(x, g, 1, "c")), mk(x), el(x, g, 2, "d"), mk(x, el(x, f, 1, "e")))
				a.retell(x, "nested", key, list, plain(x, it), it)
			})
		}
		for _, depth := range []int{2, 3, 4, 5, 9, 17, 64, 256} {
			key := fmt.Sprintf("%d lists deep", depth)
			a.each("nested", key, list, func(x *xrun) {
				x.max = 40000000
				it := mk(x)
				for i := 1; i < depth; i++ {
					if depth <= 17 {
						it = mk(x, it, el(x, e5[1+i%(len(e5)-1)], 1, fmt.Sprintf("v%d.", i)))
					} else {
						it = mk(x, it)
					}
				}
				a.retell(x, "nested", key, list, plain(x, it), it)
			})
		}
		many := []int{10, 100}
		for _, f := range []e5fmt{e5[0], e5[1], e5[11]} {
			for _, n := range many {
				fn := a.fn(f.make)
				key := fmt.Sprintf("%s[%d]", f.name, n)
				a.each("value", key, fn, func(x *xrun) {
					x.max = 40000000
					var vs []xv
					for i := 0; i < n; i++ {
						if f.name == "list" {
							vs = append(vs, mk(x))
						} else {
							vs = append(vs, xIface{types.Typ[types.Int], xint(int64(i))})
						}
					}
					var it xv
					if f.name == "list" {
						it = mk(x, vs...)
					} else {
						v, pan := x.Call(fn, factoryOf(f.make).args(f.width, x.sliceOf(vs...))...)
						if pan != nil {
							return // C16's subject
						}
						it = x.iface(v, fn, 0)
					}
					a.retell(x, "value", key, fn, plain(x, it), it)
				})
			}
		}

		intT := types.Typ[types.Int]
		for _, dir := range []string{"H->E", "H<-E", "H<->E"} {
			for _, name := range []string{"", "Name", "e", "T", "Are_You-There?", "f->g", "x[1]", "Σ"} {
				for _, text := range []bool{false, true} {
					key := fmt.Sprintf("a message %q %s, text: %v", name, dir, text)
					a.each("header", key, newM, func(x *xrun) {
						s, f, w := x.sym("stream", intT), x.sym("function", intT), x.sym("wait", intT)
						v, pan := x.Call(empty)
						it := x.iface(v, empty, 0)
						if text {
							v, pan = x.Call(list, x.sliceOf())
							it = x.iface(v, list, 0)
						}
						if pan != nil {
							x.giveUp("an item")
						}
						m, pan := x.Call(newM, xStr{s: name}, s, f, w, xStr{s: dir}, it)
						if pan != nil {
							return // C16's subject
						}
						a.retell(x, "header", key, newM, x.iface(m, newM, 0), it)
					})
				}
			}
		}
		r.Floor("value", 300)
		r.Floor("text", 300)
		r.Floor("nested", 100)
		r.Floor("header", 200)
	})
}

// extremes are the values at the ends of a format's range.
func extremes(f e5fmt) []xv {
	var out []xv
	t := types.Typ[f.elem]
	switch {
	case f.name == "list" || f.name == "ascii" || f.name == "boolean":
	case f.name[0] == 'f':
		vs := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e21, 1e-7, 123456.789, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32}
		if f.width == 8 {
			vs = append(vs, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e100, 1.7976931348623155e308)
		}
		for _, v := range vs {
			if f.width == 4 {
				v = float64(float32(v))
			}
			out = append(out, xIface{t, xFlt{con: true, f: v, f32: f.width == 4}})
		}
	default:
		w, sg := 8*f.width, f.name[0] == 'i'
		lo, hi := tsrc(w, sg)
		for _, n := range []*big.Int{lo, hi, big.NewInt(0), big.NewInt(8), big.NewInt(10)} {
			u := new(big.Int).And(n, new(big.Int).SetUint64(math.MaxUint64)).Uint64() & mask(w)
			out = append(out, xIface{t, xInt{con: true, u: u, w: w, sg: sg}})
		}
	}
	return out
}
