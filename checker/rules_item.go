package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// e5 lists the item formats of SEMI E5.
type e5fmt struct {
	name  string // Type() of the item
	code  int
	width int
	make  string // factory
	elem  types.BasicKind
	pre   string // prefix of the names of its bytes
}

var e5 = []e5fmt{
	{"list", 0o00, 1, "NewListNode", types.Invalid, ""},
	{"binary", 0o10, 1, "NewBinaryNode", types.Uint8, ""},
	{"boolean", 0o11, 1, "NewBooleanNode", types.Bool, ""},
	{"ascii", 0o20, 1, "NewASCIINode", types.String, ""},
	{"i8", 0o30, 8, "NewIntNode", types.Int64, ""},
	{"i1", 0o31, 1, "NewIntNode", types.Int8, ""},
	{"i2", 0o32, 2, "NewIntNode", types.Int16, ""},
	{"i4", 0o34, 4, "NewIntNode", types.Int32, ""},
	{"f8", 0o40, 8, "NewFloatNode", types.Float64, ""},
	{"f4", 0o44, 4, "NewFloatNode", types.Float32, ""},
	{"u8", 0o50, 8, "NewUintNode", types.Uint64, ""},
	{"u1", 0o51, 1, "NewUintNode", types.Uint8, ""},
	{"u2", 0o52, 2, "NewUintNode", types.Uint16, ""},
	{"u4", 0o54, 4, "NewUintNode", types.Uint32, ""},
}

// itemHead is the format byte and n length bytes (0: as few as possible).
func itemHead(code, length, n int) []xInt {
	if n == 0 {
		n = 1
		if length > 255 {
			n = 2
		}
		if length > 65535 {
			n = 3
		}
	}
	out := []xInt{xbyte(code<<2 | n)}
	for k := n - 1; k >= 0; k-- {
		out = append(out, xbyte(length>>(8*k)))
	}
	return out
}

// item builds an item of symbolic values through its factory; want is its
// encoding.
func (a *astRun) item(x *xrun, f e5fmt, n int, prefix string) (it xv, fn *ssa.Function, want []xInt, pan *xPanic) {
	fn = a.fn(f.make)
	if fn == nil {
		x.giveUp("no factory %s", f.make)
	}
	want = itemHead(f.code, n*f.width, 0)
	var vs []xv
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s%s[%d]", prefix, f.name, i)
		t := types.Typ[f.elem]
		// the middle of a long item is constant
		if mid := i > 2 && i < n-1; mid && f.elem != types.Invalid && f.elem != types.Bool {
			c := i % 127
			switch {
			case f.name == "ascii":
				vs = append(vs, xbyte(c))
				want = append(want, xbyte(c))
			case f.name[0] == 'f':
				var bits uint64
				if f.elem == types.Float32 {
					bits = uint64(math.Float32bits(float32(c)))
				} else {
					bits = math.Float64bits(float64(c))
				}
				vs = append(vs, xIface{t, xFlt{con: true, f: float64(c), f32: f.elem == types.Float32}})
				for k := f.width - 1; k >= 0; k-- {
					want = append(want, xbyte(int(bits>>(8*k))&255))
				}
			default:
				w, sg := 8*f.width, f.name[0] == 'i'
				vs = append(vs, xIface{t, xInt{con: true, u: uint64(c), w: w, sg: sg}})
				for k := f.width - 1; k >= 0; k-- {
					want = append(want, xbyte(c>>(8*k)&255))
				}
			}
			continue
		}
		switch {
		case f.name == "list":
			u := a.fn("NewUintNode")
			b := x.symByte(name)
			v, p := x.Call(u, xint(1), x.sliceOf(xIface{types.Typ[types.Uint8], b}))
			if p != nil {
				return nil, fn, nil, p
			}
			vs = append(vs, v)
			want = append(want, xbyte(0o51<<2|1), xbyte(1), b)
		case f.name == "ascii":
			b := x.symByte(name)
			x.iv[name] = ival{big.NewInt(0), big.NewInt(127)}
			vs = append(vs, b)
			want = append(want, b)
		case f.name == "boolean":
			b := i%2 == 0
			if i < 3 {
				b = x.choose(2) == 0
			}
			vs = append(vs, xIface{t, xbool(b)})
			k := 0
			if b {
				k = 1
			}
			want = append(want, xbyte(k))
		case f.elem == types.Float32 || f.elem == types.Float64:
			v := xFlt{sym: name, f32: f.elem == types.Float32}
			// finite, so that it can be transferred
			m := math.MaxFloat64
			if v.f32 {
				m = math.MaxFloat32
			}
			x.fv[name] = fival{lo: -m, hi: m}
			vs = append(vs, xIface{t, v})
			bits := x.sym(fmt.Sprintf("f%dbits(%s)", f.width*8, name), map[int]types.Type{4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[f.width])
			for k := f.width - 1; k >= 0; k-- {
				want = append(want, x.byteOf(bits, k))
			}
		default:
			v := x.sym(name, t)
			vs = append(vs, xIface{t, v})
			for k := f.width - 1; k >= 0; k-- {
				want = append(want, x.byteOf(v, k))
			}
		}
	}
	var args []xv
	switch f.make {
	case "NewASCIINode":
		var b []xInt
		for _, v := range vs {
			b = append(b, v.(xInt))
		}
		args = []xv{x.mkStr(b)}
	case "NewIntNode", "NewUintNode", "NewFloatNode":
		args = []xv{xint(int64(f.width)), x.sliceOf(vs...)}
	default:
		args = []xv{x.sliceOf(vs...)}
	}
	it, pan = x.Call(fn, args...)
	return
}

// payload is n symbolic elements as bytes, and what Values() should hold.
func (a *astRun) payload(x *xrun, f e5fmt, n int, free bool) (b []xInt, vals []xv) {
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s%s[%d]", f.pre, f.name, i)
		if f.name == "list" {
			c := x.symByte(name)
			b = append(b, xbyte(0o51<<2|1), xbyte(1), c)
			vals = append(vals, c)
			continue
		}
		var e []xInt
		mid := i > 2 && i < n-1
		for k := 0; k < f.width; k++ {
			if mid {
				e = append(e, xbyte((i*f.width+k)%125))
			} else {
				e = append(e, x.symByte(fmt.Sprintf("%s.%d", name, k)))
			}
		}
		b = append(b, e...)
		var bits []Bit
		for k := f.width - 1; k >= 0; k-- {
			bits = append(bits, x.bitsOf(e[k])...)
		}
		switch {
		case f.name == "ascii":
			if !free && !mid {
				x.iv[fmt.Sprintf("%s.0", name)] = ival{big.NewInt(0), big.NewInt(127)}
			}
			vals = append(vals, e[0])
		case f.name == "boolean":
			if !free && !mid {
				x.iv[fmt.Sprintf("%s.0", name)] = ival{big.NewInt(int64(i % 2)), big.NewInt(int64(i % 2 * 255))}
			}
			vals = append(vals, e[0])
		case f.name[0] == 'f':
			v := mkInt(bits, false)
			if c := x.simp(v); mid && c.con {
				g := math.Float64frombits(c.u)
				if f.width == 4 {
					g = float64(math.Float32frombits(uint32(c.u)))
				}
				vals = append(vals, xFlt{con: true, f: g, f32: f.width == 4})
				continue
			}
			n := fmt.Sprintf("from%d(%s)", f.width*8, x.ikey(v))
			if !free {
				m := math.MaxFloat64
				if f.width == 4 {
					m = math.MaxFloat32
				}
				x.fv[n] = fival{lo: -m, hi: m}
			}
			vals = append(vals, xFlt{sym: n, f32: f.width == 4})
		case f.name[0] == 'i':
			vals = append(vals, x.convInt(mkInt(bits, true), 64, true))
		default:
			vals = append(vals, x.convInt(mkInt(bits, false), 64, f.name == "binary"))
		}
	}
	return
}

// sameItem compares a decoded item with what its bytes mean.
func (a *astRun) sameItem(x *xrun, it xv, f e5fmt, vals []xv) (bool, string) {
	t, pan := x.m(it, "Type")
	if pan != nil {
		return false, "Type panics: " + pan.why
	}
	if s, _ := t.(xStr); s.s != f.name {
		return false, fmt.Sprintf("it becomes an item of type %q", s.s)
	}
	v, pan := x.m(it, "Values")
	if pan != nil {
		return false, "Values panics: " + pan.why
	}
	if i, ok := v.(xIface); ok {
		v = i.v
	}
	if f.name == "ascii" {
		s, ok := v.(xStr)
		if !ok || s.sym != "" {
			return false, "its value is not a known string"
		}
		var w []xInt
		for _, c := range vals {
			w = append(w, c.(xInt))
		}
		return x.sameBytes(x.bytesVal(x.strBytes(s)), w)
	}
	es := x.elems(v)
	if len(es) != len(vals) {
		return false, fmt.Sprintf("it has %d values instead of %d", len(es), len(vals))
	}
	for i, e := range es {
		switch g := e.(type) {
		case xInt:
			w, ok := vals[i].(xInt)
			if !ok || bitsKey(x.bitsOf(x.convInt(g, 64, g.sg))) != bitsKey(x.bitsOf(w)) {
				return false, fmt.Sprintf("value %d is %s", i, x.ikey(g))
			}
		case xFlt:
			w, ok := vals[i].(xFlt)
			if !ok || x.fkey(g) != x.fkey(w) {
				return false, fmt.Sprintf("value %d is %s", i, x.fkey(g))
			}
		case xBool:
			w, ok := vals[i].(xInt)
			if !ok || x.decide(g) != x.decide(x.compareInt(tokNEQ, w, xbyte(0))) {
				return false, fmt.Sprintf("value %d has the wrong truth value", i)
			}
		case xIface:
			ok, why := a.sameItem(x, g, e5[11], []xv{x.convInt(vals[i].(xInt), 64, false)})
			if !ok {
				return false, fmt.Sprintf("element %d: %s", i, why)
			}
		default:
			return false, fmt.Sprintf("value %d is not known", i)
		}
	}
	return true, ""
}

// nested encodes and decodes lists of items of every type in lists.
func (a *astRun) nested(parse *ssa.Function) {
	r, P := a.r, a.P
	list := a.fn("NewListNode")
	if list == nil {
		return
	}
	for i := 1; i < len(e5); i++ {
		f, g := e5[i], e5[1+i%(len(e5)-1)]
		// <L <L f f> <L> g>
		key := fmt.Sprintf("nested %s, %s", f.name, g.name)
		a.each("encode", key, list, func(x *xrun) {
			f1, _, w1, p1 := a.item(x, f, 1, "a.")
			f2, _, w2, p2 := a.item(x, f, 0, "b.")
			g3, _, w3, p3 := a.item(x, g, 2, "c.")
			if p1 != nil || p2 != nil || p3 != nil {
				return // reported above
			}
			in, p4 := x.Call(list, x.sliceOf(f1, f2))
			none, p5 := x.Call(list, x.sliceOf())
			var all xv
			p6 := p4
			if p4 == nil && p5 == nil {
				all, p6 = x.Call(list, x.sliceOf(in, none, g3))
			}
			if p4 != nil || p5 != nil || p6 != nil {
				r.Bad("encode", key, P.pos(list.Pos()), "a list of items is refused")
				return
			}
			want := itemHead(0, 3, 0)
			want = append(append(append(want, itemHead(0, 2, 0)...), w1...), w2...)
			want = append(append(want, itemHead(0, 0, 0)...), w3...)
			b, pan := x.m(all, "ToBytes")
			if pan != nil {
				r.Bad("encode", key, P.pos(list.Pos()), "ToBytes panics: "+pan.why)
				return
			}
			ok, why := x.sameBytes(b, want)
			r.Check(ok, "encode", key, P.pos(list.Pos()), fmt.Sprintf("%s: %s", key, why))
		})
		a.each("decode", key, parse, func(x *xrun) {
			b1, v1 := a.payload(x, f, 2, false)
			b3, v3 := a.named(x, g, 1, "c.")
			text := itemHead(0, 3, 2)
			text = append(append(text, itemHead(0, 2, 1)...), itemHead(f.code, 2*f.width, 1)...)
			text = append(append(text, b1...), itemHead(f.code, 0, 1)...)
			text = append(append(text, itemHead(0, 0, 1)...), itemHead(g.code, g.width, 3)...)
			text = append(text, b3...)
			m, ok, pan := a.parse(x, itemFrame(text))
			if pan != nil || !ok {
				r.Bad("decode", key, P.pos(parse.Pos()), "a well-formed nested list is refused where "+x.facts())
				return
			}
			at := func(ix ...int) xv {
				var is []xv
				for _, i := range ix {
					is = append(is, xint(int64(i)))
				}
				it, pan := x.m(m, "Get", x.sliceOf(is...))
				t, is2 := it.(xTuple)
				if pan != nil || !is2 {
					return nil
				}
				i, _ := t[0].(xIface)
				if i.v == nil {
					return nil
				}
				return i
			}
			for _, c := range []struct {
				at   []int
				f    e5fmt
				vals []xv
			}{{[]int{0, 0}, f, v1}, {[]int{0, 1}, f, nil}, {[]int{1}, e5[0], nil}, {[]int{2}, g, v3}} {
				it := at(c.at...)
				if it == nil {
					r.Bad("decode", key, P.pos(parse.Pos()), fmt.Sprintf("there is no element %v", c.at))
					continue
				}
				ok, why := a.sameItem(x, it, c.f, c.vals)
				r.Check(ok, "decode", key, P.pos(parse.Pos()), fmt.Sprintf("%s, element %v: %s", key, c.at, why))
			}
		})
	}
}

// named is a payload whose bytes have names of their own.
func (a *astRun) named(x *xrun, f e5fmt, n int, prefix string) (b []xInt, vals []xv) {
	f.pre = prefix
	return a.payload(x, f, n, false)
}

// frame is a data message around text.
func itemFrame(text []xInt) []xInt {
	out := lenPrefix(10 + len(text))
	for _, b := range []int{0, 1, 1, 1, 0, 0, 1, 2, 3, 4} {
		out = append(out, xbyte(b))
	}
	return append(out, text...)
}

func init() {
	register("C12", "Items of every type are encoded from and decoded to symbolic values; format codes, widths, byte order and item lengths are compared bit by bit with SEMI E5.", func(r *Report) {
		P := r.P
		r.Rule("encode", "for every item type and symbolic values, ToBytes is the E5 format code, the fewest big-endian length bytes, and the values most significant byte first; 0, 1, 2 and 3 values and numbers of values that need one, two and three length bytes")
		r.Rule("decode", "the decoder turns a format code, a length of one, two or three bytes and a payload of symbolic bytes into an item of that type with exactly those values, and refuses only what the item types exclude (non-ASCII characters, NaN and infinities)")
		r.Rule("refuse", "a format code that E5 does not define, no length bytes, or a payload that is not a whole number of values is refused")
		r.Assume("the numbers of values between those evaluated behave alike: they use the same loops")
		a := &astRun{P, r}
		parse := P.fn(hsmsParsePkg, "Parse")
		if !r.Anchor(parse != nil, "the decoder's Parse") {
			return
		}
		for _, f := range e5 {
			fn := a.fn(f.make)
			if fn == nil {
				continue
			}
			pos := P.pos(fn.Pos())
			counts := []int{0, 1, 2, 3, 255 / f.width, 255/f.width + 1, 65535 / f.width, 65535/f.width + 1}
			for _, n := range counts {
				if n > 10000 && f.name == "list" {
					continue
				}
				key := fmt.Sprintf("%s[%d]", f.name, n)
				a.each("encode", key, fn, func(x *xrun) {
					x.max = 40000000
					it, _, want, pan := a.item(x, f, n, "")
					if pan != nil {
						r.Bad("encode", key, pos, fmt.Sprintf("%s refuses %d values: %s (%s)", fn.Name(), n, pan.why, x.facts()))
						return
					}
					t, pan := x.m(it, "Type")
					s, _ := t.(xStr)
					r.Check(pan == nil && s.s == f.name, "encode", f.name+":type", pos, fmt.Sprintf("an item of type %s calls itself %q", f.name, s.s))
					b, pan := x.m(it, "ToBytes")
					if pan != nil {
						r.Bad("encode", key, pos, "ToBytes panics: "+pan.why)
						return
					}
					ok, why := x.sameBytes(b, want)
					r.Check(ok, "encode", key, pos, fmt.Sprintf("%s with %d values: %s", f.name, n, why))
				})
			}
			for _, lb := range []int{1, 2, 3} {
				for _, n := range []int{0, 1, 2, 3, 255/f.width + 1, 65535/f.width + 1} {
					length := n * f.width
					if length >= 1<<(8*lb) || n > 1000 && (f.name == "list" || f.name == "ascii") {
						continue
					}
					key := fmt.Sprintf("%s[%d] with %d length bytes", f.name, n, lb)
					free := n <= 3
					a.each("decode", key, parse, func(x *xrun) {
						x.max = 40000000
						b, vals := a.payload(x, f, n, free)
						m, ok, pan := a.parse(x, itemFrame(append(itemHead(f.code, length, lb), b...)))
						if pan != nil {
							r.Bad("decode", key, P.pos(parse.Pos()), "the decoder panics: "+pan.why)
							return
						}
						if !ok {
							legit := false
							for _, v := range vals {
								switch w := v.(type) {
								case xInt:
									if f.name == "ascii" {
										lo, _, _ := x.rangeOf(w)
										legit = legit || lo.Int64() >= 128
									}
								case xFlt:
									g := x.frange(w.sym)
									m := math.MaxFloat64
									if f.width == 4 {
										m = math.MaxFloat32
									}
									legit = legit || g.nan || g.lo > m || g.hi < -m
								}
							}
							r.Check(legit, "decode", key+":accepts", P.pos(parse.Pos()), "a well-formed item is refused where "+x.facts())
							return
						}
						it, pan := x.m(m, "Get", xNil{})
						if t, is := it.(xTuple); is && pan == nil {
							ok, why := a.sameItem(x, t[0], f, vals)
							r.Check(ok, "decode", key, P.pos(parse.Pos()), fmt.Sprintf("%s: %s, where %s", key, why, x.facts()))
						} else {
							r.Bad("decode", key, P.pos(parse.Pos()), "the message has no item")
						}
					})
				}
			}
			if f.width > 1 {
				for _, d := range []int{1, f.width - 1, f.width + 1} {
					key := fmt.Sprintf("%s of %d bytes", f.name, d)
					a.each("refuse", key, parse, func(x *xrun) {
						_, ok, pan := a.parse(x, itemFrame(append(itemHead(f.code, d, 1), x.symBytes("payload", d)...)))
						r.Check(pan == nil && !ok, "refuse", key, P.pos(parse.Pos()), "a payload that is not a whole number of values is accepted: "+key)
					})
				}
			}
		}
		a.nested(parse)
		known := map[int]bool{}
		for _, f := range e5 {
			known[f.code] = true
		}
		for code := 0; code < 64; code++ {
			for _, n := range []int{0, 1, 8} {
				key := fmt.Sprintf("code %o, %d bytes", code, n)
				if !known[code] {
					a.each("refuse", key, parse, func(x *xrun) {
						_, ok, pan := a.parse(x, itemFrame(append(itemHead(code, n, 1), x.symBytes("payload", n)...)))
						r.Check(pan == nil && !ok, "refuse", key, P.pos(parse.Pos()), fmt.Sprintf("the undefined format code %o is accepted", code))
					})
				}
			}
			key := fmt.Sprintf("code %o, no length bytes", code)
			for _, n := range []int{0, 1, 2, 9} {
				a.each("refuse", key, parse, func(x *xrun) {
					_, ok, pan := a.parse(x, itemFrame(append([]xInt{xbyte(code << 2)}, x.symBytes("rest", n)...)))
					r.Check(pan == nil && !ok, "refuse", key, P.pos(parse.Pos()), fmt.Sprintf("an item without length bytes is accepted where %s", x.facts()))
				})
			}
		}
		r.Floor("encode", 200)
		r.Floor("decode", 250)
		r.Floor("refuse", 200)
	})
}

const tokNEQ = token.NEQ
