package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const (
	tokLEQ = token.LEQ
	tokLSS = token.LSS
)

// names the documentation of package ast allows.
var (
	varName  = regexp.MustCompile(`^[A-Za-z_][0-9A-Za-z_]*(\[[0-9]+\])*\z`)
	ellipsis = regexp.MustCompile(`^\.\.\.(\[[0-9]+\])?\z`)
)

const itemLimit = 1<<24 - 1

// factory is a factory of items with a number of values.
type factory struct {
	name   string
	widths []int // valid byte sizes; nil: the factory has no byte size
	kind   string
}

var factories = []factory{
	{"NewBinaryNode", nil, "binary"},
	{"NewBooleanNode", nil, "boolean"},
	{"NewIntNode", []int{1, 2, 4, 8}, "int"},
	{"NewUintNode", []int{1, 2, 4, 8}, "uint"},
	{"NewFloatNode", []int{4, 8}, "float"},
	{"NewListNode", nil, "list"},
}

func (f factory) args(w int, vs xv) []xv {
	if f.widths == nil {
		return []xv{vs}
	}
	return []xv{xint(int64(w)), vs}
}

func (f factory) sizes() []int {
	if f.widths == nil {
		return []int{1}
	}
	return f.widths
}

// bounds of an integer item of width w.
func (f factory) bounds(w int) (lo, hi *big.Int) {
	one := big.NewInt(1)
	switch f.kind {
	case "binary":
		return big.NewInt(0), big.NewInt(255)
	case "int":
		hi = new(big.Int).Lsh(one, uint(8*w-1))
		return new(big.Int).Neg(hi), new(big.Int).Sub(hi, one)
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(8*w)), one)
}

// symVal is an unknown value of a basic type.
func (x *xrun) symVal(name string, t types.Type) xv {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x.any("!"+name, t)
	}
	switch {
	case b.Kind() == types.UnsafePointer || b.Info()&types.IsComplex != 0:
		return xAny{name: "!" + name, t: t}
	case b.Info()&types.IsInteger != 0:
		return x.sym(name, t)
	case b.Kind() == types.Float32:
		return xFlt{sym: name, f32: true}
	case b.Info()&types.IsFloat != 0:
		return xFlt{sym: name}
	case b.Info()&types.IsBoolean != 0:
		return xBool{key: name}
	}
	return xAny{name: "!" + name, t: t}
}

// holds checks that element i of an item is the value v and that v is one of
// the item's format.
func (a *astRun) holds(x *xrun, f factory, w int, it xv, i, n int, v xv) (bool, string) {
	vals, pan := x.m(it, "Values")
	if pan != nil {
		return false, "Values panics: " + pan.why
	}
	if b, ok := vals.(xIface); ok {
		vals = b.v
	}
	es := x.elems(vals)
	if len(es) != n {
		return false, fmt.Sprintf("the item has %d values instead of %d", len(es), n)
	}
	switch g := es[i].(type) {
	case xInt:
		p, ok := v.(xInt)
		if !ok {
			return false, "a value that is no integer is accepted"
		}
		lo, hi, _ := x.rangeOf(p)
		l, h := f.bounds(w)
		if lo.Cmp(l) < 0 || hi.Cmp(h) > 0 {
			return false, fmt.Sprintf("a value in [%s,%s] is accepted for an item whose values are in [%s,%s]", lo, hi, l, h)
		}
		if bitsKey(x.bitsOf(x.convInt(g, 64, g.sg))) != bitsKey(x.bitsOf(x.convInt(p, 64, p.sg))) {
			return false, fmt.Sprintf("it is stored as %s", x.ikey(g))
		}
	case xFlt:
		var p xFlt
		switch q := v.(type) {
		case xInt:
			p, _ = x.convert(q, types.Typ[types.Int], types.Typ[types.Float64]).(xFlt)
		case xFlt:
			p = q
		default:
			return false, "a value that is no number is accepted"
		}
		if x.fkey(g) != x.fkey(p) {
			return false, fmt.Sprintf("it is stored as %s", x.fkey(g))
		}
		m := math.MaxFloat64
		if w == 4 {
			m = math.MaxFloat32
		}
		if !g.con {
			r := x.frange(g.sym)
			if g.f32 && !math.IsInf(r.hi, 0) && !math.IsInf(r.lo, 0) && !r.nan {
				m = math.MaxFloat64 // a finite float32
			}
			if r.nan || r.lo < -m || r.hi > m {
				return false, fmt.Sprintf("a value in [%g,%g] (NaN: %v) is accepted", r.lo, r.hi, r.nan)
			}
		} else if math.Abs(g.f) > m || math.IsNaN(g.f) {
			return false, fmt.Sprintf("the value %g is accepted", g.f)
		}
	case xBool:
		p, ok := v.(xBool)
		if !ok || x.decide(g) != x.decide(p) {
			return false, "it is stored as another value"
		}
	default:
		return false, "a value that cannot be transferred is accepted"
	}
	return true, ""
}

func init() {
	register("C16", "The item and message factories are evaluated on unknown arguments of every Go type; every path that does not refuse must have proved the documented ranges.", func(r *Report) {
		P := r.P
		r.Rule("value", "on every path on which a factory or FillVariables accepts a value of some Go type, the interval of that value lies in the range of the item's type and width and the stored value is that value")
		r.Rule("width", "byte sizes other than the documented ones are refused, with and without values")
		r.Rule("count", "more values (or characters) than fit the 3-byte item length are refused before they are looked at")
		r.Rule("name", "a variable name is accepted only if it has the documented form, wherever it occurs and also when it replaces another name")
		r.Rule("unique", "two variables of the same name, in one item or in an item and its children, are refused; so is a second ellipsis, or one in the first place")
		r.Rule("text", "an ASCII item holds only characters up to 127; a fill-in string keeps to the length its variable declares")
		r.Rule("message", "on every path on which a message is made or changed its name has no white space, stream is 0-127, function 0-255, wait bit 0-2 and not set for a reply, session -1 to 65535, direction one of three, and it has four system bytes with the bytes given first")
		r.Assume("whether a name is accepted is decided state by state as in the two documented forms: one or two unknown bytes after a prefix that reaches each state decide all names")
		a := &astRun{P, r}
		a.values()
		a.limits()
		a.names()
		a.messages()
		r.Floor("value", 150)
		r.Floor("width", 60)
		r.Floor("count", 8)
		r.Floor("name", 20)
		r.Floor("unique", 15)
		r.Floor("text", 3)
		r.Floor("message", 10)
	})
}

var basicKinds = []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64,
	types.Uintptr, types.Float32, types.Float64, types.Bool, types.Complex64, types.Complex128}

func (a *astRun) values() {
	r, P := a.r, a.P
	for _, f := range factories {
		fn := a.fn(f.name)
		if fn == nil || f.kind == "list" {
			continue
		}
		pos := P.pos(fn.Pos())
		other := func() xv {
			if f.kind == "boolean" {
				return xIface{types.Typ[types.Bool], xbool(true)}
			}
			return xIface{types.Typ[types.Int], xint(1)}
		}
		for _, w := range f.sizes() {
			accepted := 0
			for _, k := range basicKinds {
				t := types.Typ[k]
				for _, shape := range []struct{ i, n int }{{0, 1}, {1, 2}, {0, 2}} {
					key := fmt.Sprintf("%s(%d): %s, value %d of %d", f.name, w, t, shape.i, shape.n)
					a.each("value", key, fn, func(x *xrun) {
						v := x.symVal("value", t)
						vs := make([]xv, shape.n)
						for j := range vs {
							vs[j] = other()
						}
						vs[shape.i] = xIface{t, v}
						it, pan := x.Call(fn, f.args(w, x.sliceOf(vs...))...)
						if pan != nil {
							r.Good("value", key, "")
							return
						}
						accepted++
						ok, why := a.holds(x, f, w, x.iface(it, fn, 0), shape.i, shape.n, v)
						r.Check(ok, "value", key, pos, fmt.Sprintf("%s: %s (%s)", key, why, x.facts()))
					})
				}
				key := fmt.Sprintf("FillVariables of %s(%d): %s", f.name, w, t)
				a.each("value", key, fn, func(x *xrun) {
					it, pan := x.Call(fn, f.args(w, x.sliceOf(other(), xIface{types.Typ[types.String], xStr{s: "v"}}))...)
					if pan != nil {
						return
					}
					v := x.symVal("value", t)
					m := &xMap{m: map[string]*xEnt{}}
					x.mapPut(m, xStr{s: "v"}, xIface{t, v})
					out, pan := x.m(x.iface(it, fn, 0), "FillVariables", m)
					if pan != nil {
						r.Good("value", key, "")
						return
					}
					ok, why := a.holds(x, f, w, out, 1, 2, v)
					r.Check(ok, "value", key, pos, fmt.Sprintf("%s: %s (%s)", key, why, x.facts()))
				})
			}
			r.Check(accepted > 0, "value", fmt.Sprintf("%s(%d) accepts some values", f.name, w), pos, "no value is accepted")
			for _, t := range []types.Type{nil, types.NewSlice(types.Typ[types.Int]), types.NewPointer(types.Typ[types.Int])} {
				key := fmt.Sprintf("%s(%d): value of type %v", f.name, w, t)
				a.each("value", key, fn, func(x *xrun) {
					var v xv = xNil{}
					if t != nil {
						v = xIface{t, x.any("!value", t)}
					}
					_, pan := x.Call(fn, f.args(w, x.sliceOf(v))...)
					r.Check(pan != nil, "value", key, pos, key+" is accepted")
				})
			}
		}
		if f.kind == "binary" {
			for _, s := range []string{"0b", "0b0", "0b1", "0b11111111", "0b011111111", "0b100000000", "0b111111111", "0b1111111111111111111111111111111100000000", "0b10000000000000000000000000000000000000000000000000000000000000001", "0b2", "0b-1", "0bx", "0b 1", "0b1 "} {
				key := fmt.Sprintf("%s(%q)", f.name, s)
				a.each("value", key, fn, func(x *xrun) {
					it, pan := x.Call(fn, x.sliceOf(xIface{types.Typ[types.String], xStr{s: s}}))
					if pan != nil {
						r.Good("value", key, "")
						return
					}
					n, ok := new(big.Int).SetString(s[2:], 2)
					if ok && n.IsInt64() {
						ok, _ = a.holds(x, f, 1, x.iface(it, fn, 0), 0, 1, xint(n.Int64()))
					} else {
						ok = false
					}
					r.Check(ok, "value", key, pos, key+" is accepted with another value")
				})
			}
			key := f.name + `("0b…")`
			a.each("value", key, fn, func(x *xrun) {
				it, pan := x.Call(fn, x.sliceOf(xIface{types.Typ[types.String], x.mkStr(append([]xInt{xbyte('0'), xbyte('b')}, x.symBytes("digit", 3)...))}))
				if pan != nil {
					r.Good("value", key, "")
					return
				}
				vs, pan := x.m(x.iface(it, fn, 0), "Values")
				good := false
				if b, ok := vs.(xIface); ok && pan == nil {
					if es := x.elems(b.v); len(es) == 1 {
						if v, ok := es[0].(xInt); ok {
							lo, hi, _ := x.rangeOf(v)
							good = lo.Sign() >= 0 && hi.Cmp(big.NewInt(255)) <= 0
						}
					}
				}
				r.Check(good, "value", key, pos, "a binary string outside 0-255 is accepted ("+x.facts()+")")
			})
		}
	}
}

func (x *xrun) mapPut(m *xMap, k, v xv) {
	e := &xEnt{k: k, v: v}
	m.m[x.mkey(k)] = e
	m.list = append(m.list, e)
}

func (a *astRun) limits() {
	r, P := a.r, a.P
	for _, f := range factories {
		fn := a.fn(f.name)
		if fn == nil {
			continue
		}
		pos := P.pos(fn.Pos())
		if f.widths != nil {
			valid := map[int]bool{}
			for _, w := range f.widths {
				valid[w] = true
			}
			for _, w := range []int{-8, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 32, 64, 256 + 1, 256 + 4, 256 + 8, 1<<32 + 4, 1<<32 + 8} {
				if valid[w] {
					continue
				}
				for j, vs := range [][]xv{nil, {xIface{types.Typ[types.Int], xint(0)}}, {xIface{types.Typ[types.String], xStr{s: "v"}}}} {
					key := fmt.Sprintf("%s(%d), %d", f.name, w, j)
					a.each("width", key, fn, func(x *xrun) {
						_, pan := x.Call(fn, f.args(w, x.sliceOf(vs...))...)
						r.Check(pan != nil, "width", key, pos, fmt.Sprintf("byte size %d is accepted by %s", w, f.name))
					})
				}
			}
		}
		for _, w := range f.sizes() {
			key := fmt.Sprintf("%s(%d)", f.name, w)
			a.each("count", key, fn, func(x *xrun) {
				n := x.sym("count", types.Typ[types.Int])
				x.iv["count"] = ival{big.NewInt(itemLimit/int64(w) + 1), big.NewInt(1 << 58)}
				_, pan := x.Call(fn, f.args(w, xSlice{sym: "values", len: n})...)
				r.Check(pan != nil, "count", key, pos, fmt.Sprintf("%s accepts more values than fit the item length (%s)", f.name, x.facts()))
			})
		}
	}
	if fn := a.fn("NewASCIINode"); fn != nil {
		a.each("count", "NewASCIINode", fn, func(x *xrun) {
			s := xStr{sym: "text"}
			n := x.strLen(s)
			lo, hi, key := x.rangeOf(n)
			_ = lo
			x.iv[key] = ival{big.NewInt(itemLimit + 1), hi}
			_, pan := x.Call(fn, s)
			r.Check(pan != nil, "count", "NewASCIINode", P.pos(fn.Pos()), "NewASCIINode accepts more characters than fit the item length")
		})
		for n := 0; n <= 4; n++ {
			key := fmt.Sprintf("%d characters", n)
			a.each("text", key, fn, func(x *xrun) {
				s := x.symBytes("char", n)
				it, pan := x.Call(fn, x.mkStr(s))
				if pan != nil {
					r.Good("text", key, "")
					return
				}
				ok := true
				for _, c := range s {
					_, hi, _ := x.rangeOf(c)
					ok = ok && hi.Cmp(big.NewInt(127)) <= 0
				}
				r.Check(ok, "text", key, P.pos(fn.Pos()), "a non-ASCII character is accepted ("+x.facts()+")")
				v, pan := x.m(x.iface(it, fn, 0), "Values")
				if b, is := v.(xIface); is && pan == nil {
					v = b.v
				}
				g, is := v.(xStr)
				same := is && g.sym == ""
				why := ""
				if same {
					same, why = x.sameBytes(x.bytesVal(x.strBytes(g)), s)
				}
				r.Check(same, "text", key+":kept", P.pos(fn.Pos()), "the text is stored as another one: "+why)
			})
		}
	}
	fn := a.fn("NewASCIINodeVariable")
	if fn == nil {
		return
	}
	intT := types.Typ[types.Int]
	for _, n := range []int{0, 1, 3} {
		key := fmt.Sprintf("fill-in of %d characters", n)
		a.each("text", key, fn, func(x *xrun) {
			mn, mx := x.sym("min", intT), x.sym("max", intT)
			it, pan := x.Call(fn, xStr{s: "v"}, mn, mx)
			if pan != nil {
				r.Good("text", key, "")
				return
			}
			neg := x.decide(x.compareInt(tokEQL, mx, xint(-1)))
			ok := x.decide(x.compareInt(tokGEQ, mn, xint(0))) && (neg || x.decide(x.compareInt(tokLEQ, mn, mx)))
			r.Check(ok, "text", key+":limits", P.pos(fn.Pos()), "a variable with inconsistent length limits is accepted ("+x.facts()+")")
			m := &xMap{m: map[string]*xEnt{}}
			var text []xInt
			for i := 0; i < n; i++ {
				text = append(text, xbyte('a'+i))
			}
			x.mapPut(m, xStr{s: "v"}, xIface{types.Typ[types.String], x.mkStr(text)})
			out, pan := x.m(x.iface(it, fn, 0), "FillVariables", m)
			if pan != nil {
				return
			}
			ok = x.decide(x.compareInt(tokLEQ, mn, xint(int64(n)))) && (neg || x.decide(x.compareInt(tokGEQ, mx, xint(int64(n)))))
			r.Check(ok, "text", key, P.pos(fn.Pos()), fmt.Sprintf("a string of %d characters is filled in (%s)", n, x.facts()))
			vs, pan := x.m(out, "Values")
			if b, is := vs.(xIface); is && pan == nil {
				vs = b.v
			}
			g, is := vs.(xStr)
			c, con := g.concrete()
			want, _ := x.mkStr(text).concrete()
			r.Check(is && con && c == want, "text", key+":kept", P.pos(fn.Pos()), "the filled-in text is another one")
		})
		key = fmt.Sprintf("fill-in of %d unknown characters", n)
		a.each("text", key, fn, func(x *xrun) {
			it, pan := x.Call(fn, xStr{s: "v"}, xint(0), xint(-1))
			if pan != nil {
				return
			}
			s := x.symBytes("char", n)
			m := &xMap{m: map[string]*xEnt{}}
			x.mapPut(m, xStr{s: "v"}, xIface{types.Typ[types.String], x.mkStr(s)})
			_, pan = x.m(x.iface(it, fn, 0), "FillVariables", m)
			if pan != nil {
				r.Good("text", key, "")
				return
			}
			ok := true
			for _, c := range s {
				_, hi, _ := x.rangeOf(c)
				ok = ok && hi.Cmp(big.NewInt(127)) <= 0
			}
			r.Check(ok, "text", key, P.pos(fn.Pos()), "a non-ASCII character is filled in ("+x.facts()+")")
		})
	}
}

// nameMaker builds an item whose variable has some name.
type nameMaker struct {
	key  string
	list bool
	make func(x *xrun, name xStr) *xPanic
}

func (a *astRun) nameMakers() (out []nameMaker) {
	strT := types.Typ[types.String]
	str := func(s xStr) xv { return xIface{strT, s} }
	for _, f := range factories {
		fn := a.fn(f.name)
		if fn == nil {
			continue
		}
		w := f.sizes()[0]
		first := func(x *xrun) xv {
			if f.kind == "boolean" {
				return xIface{types.Typ[types.Bool], xbool(true)}
			}
			if f.kind == "list" {
				v, _ := x.Call(a.fn("NewUintNode"), xint(1), x.sliceOf(xIface{types.Typ[types.Int], xint(1)}))
				return v
			}
			return xIface{types.Typ[types.Int], xint(1)}
		}
		out = append(out, nameMaker{f.name, f.kind == "list", func(x *xrun, n xStr) *xPanic {
			_, pan := x.Call(fn, f.args(w, x.sliceOf(first(x), str(n)))...)
			return pan
		}})
		out = append(out, nameMaker{f.name + ", renamed", f.kind == "list", func(x *xrun, n xStr) *xPanic {
			it, pan := x.Call(fn, f.args(w, x.sliceOf(first(x), str(xStr{s: "v"})))...)
			if pan != nil {
				return pan
			}
			m := &xMap{m: map[string]*xEnt{}}
			x.mapPut(m, xStr{s: "v"}, str(n))
			_, pan = x.m(x.iface(it, fn, 0), "FillVariables", m)
			return pan
		}})
	}
	if fn := a.fn("NewASCIINodeVariable"); fn != nil {
		out = append(out, nameMaker{"NewASCIINodeVariable", false, func(x *xrun, n xStr) *xPanic {
			_, pan := x.Call(fn, n, xint(0), xint(-1))
			return pan
		}})
	}
	return
}

func (a *astRun) names() {
	r := a.r
	anchor := a.fn("NewListNode")
	if anchor == nil {
		return
	}
	// the prefixes reach every state of the two forms
	forms := []string{"", "?", "??", "a?", "a??", "a[?", "a[?]", "a[0?", "a[0]?", "a[0]??", ".?", "..?", "...?", "...??", "...[?", "...[?]", "...[0?", "...[0]?", "a[0][?]"}
	for _, mk := range a.nameMakers() {
		for _, form := range forms {
			key := fmt.Sprintf("%s: name %q", mk.key, form)
			a.each("name", key, anchor, func(x *xrun) {
				var b []xInt
				for i, c := range []byte(form) {
					if c == '?' {
						b = append(b, x.symByte(fmt.Sprintf("name[%d]", i)))
					} else {
						b = append(b, xbyte(int(c)))
					}
				}
				if pan := mk.make(x, x.mkStr(b)); pan != nil {
					r.Good("name", key, "")
					return
				}
				bad := a.badName(x, b, mk.list)
				if mk.key[:9] == "NewBinary" && len(bad) >= 2 && bad[:2] == "0b" {
					bad = ""
				}
				r.Check(bad == "", "name", key, a.P.pos(anchor.Pos()), fmt.Sprintf("%s accepts the variable name %q", mk.key, bad))
			})
		}
	}
	a.unique(anchor)
}

// badName is a name a path admits though it is not well-formed.
func (a *astRun) badName(x *xrun, b []xInt, list bool) string {
	// one representative of every class of characters each byte may be in
	classes := [][2]int{{'A', 'Z'}, {'a', 'z'}, {'_', '_'}, {'0', '9'}, {'[', '['}, {']', ']'}, {'.', '.'}, {0, ' '}, {'!', '-'}, {'/', '/'}, {':', '@'}, {'\\', '\\'}, {'^', '^'}, {'`', '`'}, {'{', 127}, {128, 255}}
	var rec func(i int, s []byte) string
	good := func(s string) bool { return varName.MatchString(s) || list && ellipsis.MatchString(s) }
	rec = func(i int, s []byte) string {
		if i == len(b) {
			if good(string(s)) {
				return ""
			}
			if len(s) == 0 {
				return "(empty)"
			}
			return string(s)
		}
		lo, hi, _ := x.rangeOf(b[i])
		for _, c := range classes {
			l, h := max(c[0], int(lo.Int64())), min(c[1], int(hi.Int64()))
			if l > h {
				continue
			}
			if bad := rec(i+1, append(s[:i:i], byte(l))); bad != "" {
				return bad
			}
		}
		return ""
	}
	return rec(0, nil)
}

func (a *astRun) unique(list *ssa.Function) {
	r, P := a.r, a.P
	strT := types.Typ[types.String]
	str := func(s string) xv { return xIface{strT, xStr{s: s}} }
	pos := P.pos(list.Pos())
	refuse := func(key string, body func(x *xrun) *xPanic) {
		a.each("unique", key, list, func(x *xrun) {
			r.Check(body(x) != nil, "unique", key, pos, "accepted: "+key)
		})
	}
	type child struct {
		key  string
		make func(x *xrun, n string) (xv, *xPanic)
	}
	var kids []child
	for _, f := range factories {
		fn := a.fn(f.name)
		if fn == nil {
			return
		}
		w := f.sizes()[0]
		refuse(f.name+" with a name twice", func(x *xrun) *xPanic {
			_, pan := x.Call(fn, f.args(w, x.sliceOf(str("v"), str("v")))...)
			return pan
		})
		refuse(f.name+" with a name twice, apart", func(x *xrun) *xPanic {
			_, pan := x.Call(fn, f.args(w, x.sliceOf(str("v"), str("u"), str("v")))...)
			return pan
		})
		refuse(f.name+" renamed to a name it has", func(x *xrun) *xPanic {
			it, pan := x.Call(fn, f.args(w, x.sliceOf(str("v"), str("u")))...)
			if pan != nil {
				return nil
			}
			m := &xMap{m: map[string]*xEnt{}}
			x.mapPut(m, xStr{s: "u"}, str("v"))
			_, pan = x.m(x.iface(it, fn, 0), "FillVariables", m)
			return pan
		})
		kids = append(kids, child{f.name, func(x *xrun, n string) (xv, *xPanic) {
			it, pan := x.Call(fn, f.args(w, x.sliceOf(str(n)))...)
			if pan != nil {
				return nil, pan
			}
			return x.iface(it, fn, 0), nil
		}})
	}
	if fn := a.fn("NewASCIINodeVariable"); fn != nil {
		kids = append(kids, child{"NewASCIINodeVariable", func(x *xrun, n string) (xv, *xPanic) {
			it, pan := x.Call(fn, xStr{s: n}, xint(0), xint(-1))
			if pan != nil {
				return nil, pan
			}
			return x.iface(it, fn, 0), nil
		}})
	}
	mk := func(x *xrun, vs ...xv) (xv, *xPanic) {
		it, pan := x.Call(list, x.sliceOf(vs...))
		if pan != nil {
			return nil, pan
		}
		return x.iface(it, list, 0), nil
	}
	for _, k := range kids {
		refuse("a list and its "+k.key+" with one name", func(x *xrun) *xPanic {
			c, pan := k.make(x, "v")
			if pan != nil {
				return nil
			}
			_, pan = mk(x, c, str("v"))
			return pan
		})
		refuse("a list and a deeper "+k.key+" with one name", func(x *xrun) *xPanic {
			c, pan := k.make(x, "v")
			if pan != nil {
				return nil
			}
			d, pan := mk(x, c)
			if pan != nil {
				return nil
			}
			_, pan = mk(x, str("v"), d)
			return pan
		})
		for n := 1; n <= 4; n++ {
			for _, first := range []bool{true, false} {
				key := fmt.Sprintf("a list of %d other variables (first: %v) and its %s with one name", n, first, k.key)
				refuse(key, func(x *xrun) *xPanic {
					c, pan := k.make(x, "v")
					if pan != nil {
						return nil
					}
					vs := []xv{c}
					for i := 0; i < n; i++ {
						vs = append(vs, str(fmt.Sprintf("u%d", i)))
					}
					if first {
						vs = append([]xv{str("v")}, vs...)
					} else {
						vs = append(vs, str("v"))
					}
					_, pan = mk(x, vs...)
					return pan
				})
			}
		}
		refuse("children "+k.key+" of several names, one of them twice", func(x *xrun) *xPanic {
			var vs []xv
			for _, n := range []string{"u", "v", "w", "x", "v"} {
				c, pan := k.make(x, n)
				if pan != nil {
					return nil
				}
				vs = append(vs, c)
			}
			_, pan := mk(x, vs...)
			return pan
		})
		refuse("two children "+k.key+" with one name", func(x *xrun) *xPanic {
			c, pan := k.make(x, "v")
			if pan != nil {
				return nil
			}
			_, pan = mk(x, c, c)
			return pan
		})
		refuse("a list whose variable is filled with a "+k.key+" of a name it has", func(x *xrun) *xPanic {
			c, p1 := k.make(x, "u")
			it, p2 := mk(x, str("v"), str("u"))
			if p1 != nil || p2 != nil {
				return nil
			}
			m := &xMap{m: map[string]*xEnt{}}
			x.mapPut(m, xStr{s: "v"}, c)
			_, pan := x.m(it, "FillVariables", m)
			return pan
		})
	}
	one := func(x *xrun) xv { c, _ := kids[0].make(x, "w"); return c }
	refuse("a list that starts with an ellipsis", func(x *xrun) *xPanic { _, pan := mk(x, str("...")); return pan })
	refuse("a list that starts with an ellipsis and goes on", func(x *xrun) *xPanic { _, pan := mk(x, str("..."), one(x)); return pan })
	refuse("a list with two ellipses", func(x *xrun) *xPanic { _, pan := mk(x, one(x), str("..."), str("...")); return pan })
	refuse("a list with two numbered ellipses", func(x *xrun) *xPanic { _, pan := mk(x, one(x), str("...[0]"), str("...[1]")); return pan })
	for n := int64(0); n <= 3; n++ {
		key := fmt.Sprintf("an ellipsis filled with %d", n)
		a.each("unique", key, list, func(x *xrun) {
			in, p1 := mk(x, one(x), str("v"), str("..."))
			if p1 != nil {
				return
			}
			m := &xMap{m: map[string]*xEnt{}}
			x.mapPut(m, xStr{s: "..."}, xIface{types.Typ[types.Int], xint(n)})
			out, pan := x.m(in, "FillVariables", m)
			if pan != nil {
				return
			}
			vs, pan := x.m(out, "Variables")
			good := pan == nil
			seen := map[string]bool{}
			if good {
				for _, e := range x.elems(vs) {
					s, _ := e.(xStr)
					c, con := s.concrete()
					good = good && con && !seen[c] && (varName.MatchString(c) || ellipsis.MatchString(c))
					seen[c] = true
				}
			}
			r.Check(good, "unique", key, pos, "its variables are not unique, well-formed names")
		})
	}
}

func (a *astRun) messages() {
	r, P := a.r, a.P
	newH, newD, empty := a.fn("NewHSMSDataMessage"), a.fn("NewDataMessage"), a.fn("NewEmptyItemNode")
	if newH == nil || newD == nil || empty == nil {
		return
	}
	intT := types.Typ[types.Int]
	item := func(x *xrun) xv { v, _ := x.Call(empty); return x.iface(v, empty, 0) }
	call := func(x *xrun, fn *ssa.Function, args ...xv) (xv, *xPanic) {
		v, pan := x.Call(fn, args...)
		if pan != nil {
			return nil, pan
		}
		return x.iface(v, fn, 0), nil
	}
	dir := xStr{s: "H->E"}
	get := func(x *xrun, m xv, name string) xv {
		v, pan := x.m(m, name)
		if pan != nil {
			x.giveUp("%s panics: %s", name, pan.why)
		}
		return v
	}
	// sound checks a message that was made of s, f, w and sid
	sound := func(x *xrun, key string, fn *ssa.Function, m xv, s, f, w, sid xInt) {
		in := func(v xInt, l, h int64) bool {
			lo, hi, _ := x.rangeOf(v)
			return lo.Cmp(big.NewInt(l)) >= 0 && hi.Cmp(big.NewInt(h)) <= 0
		}
		same := func(name string, v xInt) bool {
			g, ok := get(x, m, name).(xInt)
			return ok && bitsKey(x.bitsOf(g)) == bitsKey(x.bitsOf(v))
		}
		p := P.pos(fn.Pos())
		r.Check(in(s, 0, 127) && same("StreamCode", s), "message", key+":stream", p, "a stream outside 0-127 is accepted or changed ("+x.facts()+")")
		r.Check(in(f, 0, 255) && same("FunctionCode", f), "message", key+":function", p, "a function outside 0-255 is accepted or changed ("+x.facts()+")")
		r.Check(in(sid, -1, 65535) && same("SessionID", sid), "message", key+":session", p, "a session id outside -1..65535 is accepted or changed ("+x.facts()+")")
		if !r.Check(in(w, 0, 2), "message", key+":wait bit", p, "a wait bit outside 0-2 is accepted ("+x.facts()+")") {
			return
		}
		k := x.concreteInt(w, "the wait bit")
		even := x.decide(x.compareInt(tokEQL, x.binInt(tokAND, f, xint(1), nil), xint(0)))
		r.Check(k != 1 || !even, "message", key+":reply", p, "a reply with its wait bit set is accepted ("+x.facts()+")")
		g, _ := get(x, m, "WaitBit").(xStr)
		c, _ := g.concrete()
		r.Check(c == []string{"false", "true", "optional"}[k], "message", key+":wait", p, fmt.Sprintf("wait bit %d becomes %q", k, c))
	}
	none := x0Bytes
	for _, mk := range []struct {
		key  string
		fn   *ssa.Function
		make func(x *xrun, s, f, w, sid xInt) (xv, *xPanic)
	}{
		{"NewDataMessage", newD, func(x *xrun, s, f, w, sid xInt) (xv, *xPanic) {
			return call(x, newD, xStr{}, s, f, w, dir, item(x))
		}},
		{"NewHSMSDataMessage", newH, func(x *xrun, s, f, w, sid xInt) (xv, *xPanic) {
			return call(x, newH, xStr{}, s, f, w, dir, item(x), sid, none(x))
		}},
		{"SetSessionIDAndSystemBytes", newD, func(x *xrun, s, f, w, sid xInt) (xv, *xPanic) {
			m, pan := call(x, newD, xStr{}, s, f, w, dir, item(x))
			if pan != nil {
				return nil, pan
			}
			v, pan := x.m(m, "SetSessionIDAndSystemBytes", sid, none(x))
			return xIface{m.(xIface).t, v}, pan
		}},
		{"FillVariables", newD, func(x *xrun, s, f, w, sid xInt) (xv, *xPanic) {
			m, pan := call(x, newD, xStr{}, s, f, w, dir, item(x))
			if pan != nil {
				return nil, pan
			}
			v, pan := x.m(m, "FillVariables", &xMap{m: map[string]*xEnt{}})
			return xIface{m.(xIface).t, v}, pan
		}},
	} {
		made := 0
		a.each("message", mk.key, mk.fn, func(x *xrun) {
			s, f, w, sid := x.sym("stream", intT), x.sym("function", intT), x.sym("wait", intT), x.sym("session", intT)
			if mk.key == "NewDataMessage" || mk.key == "FillVariables" {
				sid = xint(-1)
			}
			m, pan := mk.make(x, s, f, w, sid)
			if pan != nil {
				r.Good("message", mk.key, "")
				return
			}
			made++
			sound(x, mk.key, mk.fn, m, s, f, w, sid)
		})
		r.Check(made > 0, "message", mk.key+" makes messages", P.pos(mk.fn.Pos()), "no message is accepted")
	}
	for _, v := range []bool{true, false} {
		key := fmt.Sprintf("SetWaitBit(%v)", v)
		a.each("message", key, newD, func(x *xrun) {
			s, f, w := x.sym("stream", intT), x.sym("function", intT), x.sym("wait", intT)
			m, pan := call(x, newD, xStr{}, s, f, w, dir, item(x))
			if pan != nil {
				return
			}
			o, pan := x.m(m, "SetWaitBit", xbool(v))
			if pan != nil {
				r.Good("message", key, "")
				return
			}
			k := int64(x.concreteInt(w, "the wait bit"))
			if k == 2 {
				k = 0
				if v {
					k = 1
				}
			}
			sound(x, key, newD, xIface{m.(xIface).t, o}, s, f, xint(k), xint(-1))
		})
	}
	// names and directions
	for _, mk := range []struct {
		key  string
		fn   *ssa.Function
		make func(x *xrun, name, dir xStr) (xv, *xPanic)
	}{
		{"NewDataMessage", newD, func(x *xrun, n, d xStr) (xv, *xPanic) {
			return call(x, newD, n, xint(1), xint(1), xint(0), d, item(x))
		}},
		{"NewHSMSDataMessage", newH, func(x *xrun, n, d xStr) (xv, *xPanic) {
			return call(x, newH, n, xint(1), xint(1), xint(0), d, item(x), xint(0), none(x))
		}},
	} {
		text := func(x *xrun, m xv, name string) string {
			s, _ := get(x, m, name).(xStr)
			return x.skey(s)
		}
		for n := 0; n <= 3; n++ {
			key := fmt.Sprintf("%s: name of %d characters", mk.key, n)
			a.each("message", key, mk.fn, func(x *xrun) {
				b := x.symBytes("name", n)
				for _, c := range b {
					x.iv[x.ikey(c)] = ival{big.NewInt(0), big.NewInt(127)}
				}
				s := x.mkStr(b)
				m, pan := mk.make(x, s, dir)
				if pan != nil {
					r.Good("message", key, "")
					return
				}
				ok := true
				for _, c := range b {
					lo, hi, _ := x.rangeOf(c)
					for q := lo.Int64(); q <= hi.Int64(); q++ {
						ok = ok && !unicode.IsSpace(rune(q))
					}
				}
				r.Check(ok, "message", key, P.pos(mk.fn.Pos()), "a name with white space is accepted ("+x.facts()+")")
				r.Check(text(x, m, "Name") == x.skey(s), "message", key+":kept", P.pos(mk.fn.Pos()), "the name is changed")
			})
		}
		for _, c := range []rune{0x85, 0xA0, 0x1680, 0x2000, 0x2003, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000} {
			key := fmt.Sprintf("%s: name with %U", mk.key, c)
			a.each("message", key, mk.fn, func(x *xrun) {
				for _, s := range []string{"x" + string(c), string(c), string(c) + "y"} {
					_, pan := mk.make(x, xStr{s: s}, dir)
					r.Check(pan != nil, "message", key, P.pos(mk.fn.Pos()), fmt.Sprintf("a name with white space (%U) is accepted", c))
				}
			})
		}
		for n := 0; n <= 6; n++ {
			key := fmt.Sprintf("%s: direction of %d characters", mk.key, n)
			a.each("message", key, mk.fn, func(x *xrun) {
				b := x.symBytes("direction", n)
				d := x.mkStr(b)
				m, pan := mk.make(x, xStr{}, d)
				if pan != nil {
					r.Good("message", key, "")
					return
				}
				ok := false
				for _, w := range []string{"H->E", "H<-E", "H<->E"} {
					if len(w) != n {
						continue
					}
					all := true
					for i, c := range b {
						lo, hi, _ := x.rangeOf(c)
						all = all && lo.Cmp(hi) == 0 && lo.Int64() == int64(w[i])
					}
					ok = ok || all
				}
				r.Check(ok, "message", key, P.pos(mk.fn.Pos()), "an undefined direction is accepted ("+x.facts()+")")
				g, _ := get(x, m, "Direction").(xStr)
				same, why := x.sameBytes(x.bytesVal(x.strBytes(g)), b)
				r.Check(same, "message", key+":kept", P.pos(mk.fn.Pos()), "the direction is changed: "+why)
			})
		}
	}
	// system bytes
	for n := -1; n <= 7; n++ {
		for _, set := range []bool{false, true} {
			key := fmt.Sprintf("%d system bytes, set later: %v", n, set)
			a.each("message", key, newH, func(x *xrun) {
				var sys []xInt
				var sv xv = xNil{}
				if n >= 0 {
					sys = x.symBytes("system", n)
					sv = x.bytesVal(sys)
				}
				var m xv
				var pan *xPanic
				if set {
					m, pan = call(x, newD, xStr{}, xint(1), xint(1), xint(0), dir, item(x))
					if pan == nil {
						t := m.(xIface).t
						m, pan = x.m(m, "SetSessionIDAndSystemBytes", xint(0), sv)
						m = xIface{t, m}
					}
				} else {
					m, pan = call(x, newH, xStr{}, xint(1), xint(1), xint(0), dir, item(x), xint(0), sv)
				}
				if pan != nil {
					// refused, which is as good as four bytes
					r.Good("message", key, "")
					return
				}
				want := append([]xInt{}, sys...)
				for len(want) < 4 {
					want = append(want, xbyte(0))
				}
				ok, why := x.sameBytes(get(x, m, "SystemBytes"), want[:4])
				r.Check(ok, "message", key, P.pos(newH.Pos()), "the system bytes of the message: "+why)
			})
		}
	}
	a.each("message", "no system bytes", newD, func(x *xrun) {
		m, pan := call(x, newD, xStr{}, xint(1), xint(1), xint(0), dir, item(x))
		if pan != nil {
			return
		}
		ok, why := x.sameBytes(get(x, m, "SystemBytes"), []xInt{xbyte(0), xbyte(0), xbyte(0), xbyte(0)})
		r.Check(ok, "message", "no system bytes", P.pos(newD.Pos()), "a new message's system bytes: "+why)
	})
}

func x0Bytes(x *xrun) xv { return x.bytesVal([]xInt{xbyte(0), xbyte(0), xbyte(0), xbyte(0)}) }
