package main

import (
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Models of the text functions of the standard library.

// plainFns are functions that are applied as they are when every argument is
// known.
var plainFns = map[string]any{
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimSpace": strings.TrimSpace,
	"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.Title": strings.Title,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Cut": strings.Cut,
	"strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields,
	"strings.Compare": strings.Compare, "strings.Count": strings.Count, "strings.Contains": strings.Contains,
	"strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune, "strings.EqualFold": strings.EqualFold,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Index": strings.Index,
	"strings.IndexAny": strings.IndexAny, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexAny": strings.LastIndexAny, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.Join":  strings.Join,
	"strconv.Quote": strconv.Quote, "strconv.QuoteToASCII": strconv.QuoteToASCII, "strconv.FormatInt": strconv.FormatInt,
	"strconv.FormatUint": strconv.FormatUint, "strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatBool": strconv.FormatBool,
	"strconv.Itoa": strconv.Itoa, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
	"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidRune": utf8.ValidRune,
}

// toGo turns a decided value into a Go value of type t.
func (x *xrun) toGo(v xv, t reflect.Type) (reflect.Value, bool) {
	switch a := v.(type) {
	case xInt:
		a = x.simpKeep(a)
		if a.con {
			r := reflect.New(t).Elem()
			switch {
			case r.CanInt():
				r.SetInt(a.int64())
				return r, true
			case r.CanUint():
				r.SetUint(a.u)
				return r, true
			}
		}
	case xStr:
		if s, ok := a.concrete(); ok && t.Kind() == reflect.String {
			return reflect.ValueOf(s), true
		}
	case xBool:
		if a.con && t.Kind() == reflect.Bool {
			return reflect.ValueOf(a.v), true
		}
	case xFlt:
		if a.con && t.Kind() == reflect.Float64 {
			return reflect.ValueOf(a.f), true
		}
	case xNil:
		if t.Kind() == reflect.Slice {
			return reflect.Zero(t), true
		}
	case xSlice:
		if a.sym != "" || t.Kind() != reflect.Slice {
			break
		}
		r := reflect.MakeSlice(t, 0, a.n)
		for _, e := range x.elems(a) {
			g, ok := x.toGo(e, t.Elem())
			if !ok {
				return r, false
			}
			r = reflect.Append(r, g)
		}
		return r, true
	}
	return reflect.Value{}, false
}

func (x *xrun) fromGo(v reflect.Value, t types.Type) xv {
	switch {
	case v.CanInt():
		return xi(v.Int(), t)
	case v.CanUint():
		return xi(int64(v.Uint()), t)
	case v.Kind() == reflect.Bool:
		return xbool(v.Bool())
	case v.Kind() == reflect.String:
		return xStr{s: v.String()}
	case v.Kind() == reflect.Slice:
		if v.IsNil() {
			return xNil{}
		}
		var out []xv
		for i := 0; i < v.Len(); i++ {
			out = append(out, x.fromGo(v.Index(i), t.Underlying().(*types.Slice).Elem()))
		}
		return x.sliceOf(out...)
	}
	x.giveUp("a library result of kind %s", v.Kind())
	return nil
}

// lazyRunes feeds a regular expression; an unknown byte is put into an
// interval when it is read.
type lazyRunes struct {
	x    *xrun
	b    []xInt
	cuts []int64
	i    int
}

type endOfText struct{}

func (endOfText) Error() string { return "EOF" }

func (l *lazyRunes) ReadRune() (rune, int, error) {
	if l.i >= len(l.b) {
		return 0, 0, endOfText{}
	}
	c := l.x.simpKeep(l.b[l.i])
	if c.con && c.u >= 0x80 {
		r, n := l.x.nextRune(l.b, l.i)
		r = l.x.simpKeep(r)
		if !r.con {
			l.x.giveUp("an unknown character in a regular expression")
		}
		l.i += n
		return rune(r.int64()), n, nil
	}
	l.i++
	r := l.x.splitAt(c, l.cuts)
	if r >= 0x80 {
		return utf8.RuneError, 1, nil
	}
	return rune(r), 1, nil
}

func (x *xrun) findIndex(re *regexp.Regexp, s xStr) []int {
	if c, ok := s.concrete(); ok {
		return re.FindStringIndex(c)
	}
	if s.sym != "" {
		x.giveUp("a regular expression on %s", s.sym)
	}
	cuts := reCuts(re)
	cuts[0x80] = true
	return re.FindReaderIndex(&lazyRunes{x: x, b: x.strBytes(s), cuts: sortCuts(cuts)})
}

// memberCuts are the points where membership in a set of ASCII characters
// changes.
func memberCuts(set string) []int64 {
	m := map[int64]bool{0x80: true}
	for c := int64(0); c < 0x80; c++ {
		in := strings.ContainsRune(set, rune(c))
		if was := c > 0 && strings.ContainsRune(set, rune(c-1)); in != was {
			m[c] = true
		}
	}
	return sortCuts(m)
}

// std models a call; ok is false if there is no special model.
func (x *xrun) std(name string, site ssa.CallInstruction, cc *ssa.CallCommon, args []xv) (xv, bool) {
	if f, ok := plainFns[name]; ok {
		fv := reflect.ValueOf(f)
		ft := fv.Type()
		if ft.NumIn() == len(args) {
			var in []reflect.Value
			for i, a := range args {
				g, ok := x.toGo(a, ft.In(i))
				if !ok {
					break
				}
				in = append(in, g)
			}
			if len(in) == len(args) {
				out := fv.Call(in)
				rt := cc.Signature().Results()
				if len(out) == 1 {
					return x.fromGo(out[0], rt.At(0).Type()), true
				}
				var t xTuple
				for i, o := range out {
					t = append(t, x.fromGo(o, rt.At(i).Type()))
				}
				return t, true
			}
		}
	}
	str := func(i int) (xStr, bool) {
		if i < len(args) {
			s, ok := args[i].(xStr)
			return s, ok && s.sym == ""
		}
		return xStr{}, false
	}
	switch name {
	case "(*regexp.Regexp).FindStringIndex", "(*regexp.Regexp).FindString":
		l, ok := args[0].(*xLoc)
		if !ok {
			break
		}
		e, ok := l.v.(xExt)
		s, is := str(1)
		if !ok || !is {
			break
		}
		loc := x.findIndex(e.v.(*regexp.Regexp), s)
		if strings.HasSuffix(name, "FindString") {
			if loc == nil {
				return xStr{}, true
			}
			return x.mkStr(x.strBytes(s)[loc[0]:loc[1]]), true
		}
		if loc == nil {
			return xNil{}, true
		}
		return x.sliceOf(xint(int64(loc[0])), xint(int64(loc[1]))), true
	case "(*regexp.Regexp).FindStringSubmatch":
		l, ok := args[0].(*xLoc)
		if !ok {
			break
		}
		e, ok := l.v.(xExt)
		s, is := str(1)
		c, con := s.concrete()
		if !ok || !is || !con {
			break
		}
		m := e.v.(*regexp.Regexp).FindStringSubmatch(c)
		if m == nil {
			return xNil{}, true
		}
		var out []xv
		for _, p := range m {
			out = append(out, xStr{s: p})
		}
		return x.sliceOf(out...), true
	case "strings.HasPrefix":
		s, ok := str(0)
		p, is := str(1)
		c, con := p.concrete()
		if !ok || !is || !con {
			break
		}
		b := x.strBytes(s)
		if len(b) < len(c) {
			return xbool(false), true
		}
		for i := range c {
			if !x.decide(x.compareInt(token.EQL, b[i], xbyte(int(c[i])))) {
				return xbool(false), true
			}
		}
		return xbool(true), true
	case "strings.ContainsRune", "strings.IndexRune", "strings.IndexByte":
		s, ok := str(0)
		c, con := s.concrete()
		r, is := args[1].(xInt)
		if !ok || !con || !is {
			break
		}
		cuts := memberCuts(c)
		if name != "strings.ContainsRune" {
			cuts = sortCuts(charCuts(c))
		}
		rep := rune(x.splitAt(r, cuts))
		if name == "strings.ContainsRune" {
			return xbool(strings.ContainsRune(c, rep)), true
		}
		return xint(int64(strings.IndexRune(c, rep))), true
	case "strings.ToUpper", "strings.ToLower":
		s, ok := str(0)
		if !ok {
			break
		}
		from, to, d := int64('a'), int64('z'), int64(-32)
		if name == "strings.ToLower" {
			from, to, d = 'A', 'Z', 32
		}
		var out []xInt
		for _, c := range x.strBytes(s) {
			rep := x.splitAt(c, []int64{from, to + 1, 0x80})
			if rep >= 0x80 {
				return nil, false
			}
			if from <= rep && rep <= to {
				c = x.shifted(c, d)
			}
			out = append(out, c)
		}
		return x.mkStr(out), true
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		var b []xInt
		if s, ok := str(0); ok {
			b = x.strBytes(s)
		} else if e, ok := x.byteElems(args[0]); ok {
			b = e
		}
		if len(b) == 0 {
			return xTuple{xi(utf8.RuneError, types.Typ[types.Int32]), xint(0)}, true
		}
		r, n := x.nextRune(b, 0)
		return xTuple{r, xint(int64(n))}, true
	case "unicode/utf8.RuneCountInString":
		if s, ok := str(0); ok {
			b := x.strBytes(s)
			n := 0
			for i := 0; i < len(b); n++ {
				_, k := x.nextRune(b, i)
				i += k
			}
			return xint(int64(n)), true
		}
	case "strconv.Unquote":
		if s, ok := str(0); ok {
			return x.unquote(s), true
		}
	case "errors.Is":
		if v, ok := x.errIs(args[0], args[1]); ok {
			return v, true
		}
	case "errors.As":
		if v, ok := x.errAs(args[0], args[1]); ok {
			return v, true
		}
	case "errors.Unwrap":
		if n := x.numErr(args[0]); n != nil {
			return n.f[2].v, true
		}
	case "strings.Repeat":
		// the limits of the allocation are those of the library
		s, ok := str(0)
		n, is := args[1].(xInt)
		if !ok || !is {
			break
		}
		if n = x.simpKeep(n); !n.con && x.text {
			// an unknown number of copies
			l := int64(len(x.strBytes(s)))
			if x.decide(x.compareInt(token.LSS, n, xi(0, types.Typ[types.Int]))) {
				x.throw("strings: negative Repeat count")
			}
			if l == 0 {
				return xStr{}, true
			}
			if x.decide(x.compareInt(token.GTR, n, xi(1<<26/l, types.Typ[types.Int]))) {
				x.throw(outOfMemory)
			}
			// the first few counts are told apart, three copies stand for more
			k := min(x.splitAt(n, []int64{1, 2, 3}), 3)
			n = xi(k, types.Typ[types.Int])
		}
		k := x.concreteInt(n, "a count")
		if k < 0 {
			x.throw("strings: negative Repeat count")
		}
		if l := len(x.strBytes(s)); l > 0 && k > 1<<26/l {
			x.throw(outOfMemory)
		}
		b := x.strBytes(s)
		var out []xInt
		for i := 0; i < k; i++ {
			out = append(out, b...)
		}
		return x.mkStr(out), true
	case "strings.Join":
		if _, ok := str(1); !ok {
			break
		}
		if sl, is := args[0].(xSlice); !is || sl.sym != "" {
			break
		}
		var out []xInt
		for i, e := range x.elems(args[0]) {
			s, is := e.(xStr)
			if !is || s.sym != "" {
				return nil, false
			}
			if i > 0 {
				out = append(out, x.strBytes(args[1].(xStr))...)
			}
			out = append(out, x.strBytes(s)...)
		}
		return x.mkStr(out), true
	}
	if x.text {
		return x.render(name, site, cc, args)
	}
	return nil, false
}

// outOfMemory is what a request for more memory than there can be is called.
const outOfMemory = "out of memory"

// unquote is strconv.Unquote.
func (x *xrun) unquote(s xStr) xv {
	syntax := func() xv { return xTuple{xStr{}, x.stdErr("strconv.ErrSyntax")} }
	c, con := s.concrete()
	if con {
		u, err := strconv.Unquote(c)
		if err != nil {
			return syntax()
		}
		return xTuple{xStr{s: u}, xNil{}}
	}
	b := x.strBytes(s)
	dq := func(c xInt) bool { return x.decide(x.compareInt(token.EQL, c, xbyte('"'))) }
	if len(b) < 2 || !dq(b[0]) || !dq(b[len(b)-1]) {
		x.giveUp("Unquote of a text that does not start and end with a double quote")
	}
	var out []xInt
	for i := 1; i < len(b)-1; {
		rep := x.splitAt(b[i], []int64{'\n', '\n' + 1, '"', '"' + 1, '\\', '\\' + 1, 0x80})
		switch {
		case rep == '\n' || rep == '"':
			return syntax()
		case rep == '\\':
			// an escape sequence: the characters that follow are tried one by one
			lit := ""
			for _, d := range b[i : len(b)-1] {
				var cuts []int64
				for k := int64(1); k < 0x80; k++ {
					cuts = append(cuts, k)
				}
				lit += string(rune(x.splitAt(d, append(cuts, 0x80)) & 0xff))
				r, _, tail, err := strconv.UnquoteChar(lit, '"')
				if err == nil && len(lit) > 1 {
					for _, e := range []byte(string(r)) {
						out = append(out, xbyte(int(e)))
					}
					i += len(lit) - len(tail)
					lit = ""
					break
				}
				if len(lit) > 11 {
					break
				}
			}
			if lit != "" {
				return syntax()
			}
		case rep >= 0x80:
			for _, e := range []byte("\uFFFD") {
				out = append(out, xbyte(int(e)))
			}
			i++
		default:
			out = append(out, b[i])
			i++
		}
	}
	return xTuple{x.mkStr(out), xNil{}}
}

// ---- errors of the library

func (x *xrun) stdErr(name string) xv { return xAny{name: "!" + name, t: errT} }

// numError is a *strconv.NumError.
func (x *xrun) numError(fn string, num xv, err string) xv {
	p := x.P.prog.ImportedPackage("strconv")
	if p == nil || p.Type("NumError") == nil {
		return x.errVal("of " + fn + " (" + err + ")")
	}
	t := p.Type("NumError").Type()
	a, ok := x.zero(t).(*xAgg)
	if !ok || len(a.f) != 3 {
		return x.errVal("of " + fn + " (" + err + ")")
	}
	a.f[0].v = xStr{s: strings.TrimPrefix(fn, "strconv.")}
	a.f[1].v = num
	a.f[2].v = x.stdErr("strconv." + err)
	return xIface{t: types.NewPointer(t), v: &xLoc{a}}
}

// numErr is the structure of a *strconv.NumError, or nil.
func (x *xrun) numErr(v xv) *xAgg {
	f, ok := v.(xIface)
	if !ok || f.t.String() != "*strconv.NumError" {
		return nil
	}
	l, ok := f.v.(*xLoc)
	if !ok {
		return nil
	}
	a, _ := l.v.(*xAgg)
	return a
}

func (x *xrun) errIs(err, target xv) (xv, bool) {
	if _, ok := err.(xNil); ok {
		_, ok := target.(xNil)
		return xbool(ok), true
	}
	if n := x.numErr(err); n != nil {
		if a, ok := n.f[2].v.(xAny); ok {
			if b, ok := target.(xAny); ok && strings.HasPrefix(b.name, "!") {
				return xbool(a.name == b.name), true
			}
		}
	}
	return nil, false
}

func (x *xrun) errAs(err, target xv) (xv, bool) {
	if _, ok := err.(xNil); ok {
		return xbool(false), true
	}
	f, ok := err.(xIface)
	t, is := target.(xIface)
	if !ok || !is {
		return nil, false
	}
	p, ok := t.t.(*types.Pointer)
	l, is := t.v.(*xLoc)
	if !ok || !is {
		return nil, false
	}
	if types.Identical(p.Elem(), f.t) {
		l.v = f.v
		return xbool(true), true
	}
	return nil, false
}

// ---- numbers as text

// numeral is the text of an unknown number.
type numeral struct {
	v    xv // the number
	b    []xInt
	base int
	bits int  // for a float, the precision it was written with
	all  bool // the text determines the number
}

func (x *xrun) addNumeral(n *numeral) {
	if x.numerals == nil {
		x.numerals = map[string]*numeral{}
	}
	for _, c := range n.b {
		if c = x.simpKeep(c); !c.con {
			x.numerals[x.ikey(c)] = n
			return
		}
	}
}

// numeralOf finds the number that a text was made of.
func (x *xrun) numeralOf(b []xInt) *numeral {
	for _, c := range b {
		k := x.ikey(c)
		if n, ok := x.numerals[k]; ok {
			if len(n.b) != len(b) {
				return nil
			}
			for i := range b {
				if x.ikey(b[i]) != x.ikey(n.b[i]) {
					return nil
				}
			}
			return n
		}
	}
	return nil
}

// digit is an unknown digit.
func (x *xrun) digit(name string, lo, hi int64) xInt {
	d := x.symByte(name)
	x.iv[name] = ival{big.NewInt(lo), big.NewInt(hi)}
	return d
}

// formatInt is the text of an unknown integer.
func (x *xrun) formatInt(a xInt, base int, upper bool) []xInt {
	a = x.simpKeep(a)
	if a.con {
		s := strconv.FormatInt(a.int64(), base)
		if !a.sg {
			s = strconv.FormatUint(a.u, base)
		}
		if upper {
			s = strings.ToUpper(s)
		}
		return x.strBytes(xStr{s: s})
	}
	key := x.ikey(a)
	as := fmt.Sprintf("%s/%d", key, base)
	if upper {
		as += "X"
	}
	if n, ok := x.written[as]; ok {
		return n.b
	}
	con := func(n *big.Int) xInt {
		return xInt{con: true, u: new(big.Int).And(n, new(big.Int).SetUint64(math.MaxUint64)).Uint64() & mask(a.w), w: a.w, sg: a.sg}
	}
	var out []xInt
	neg := false
	if lo, _, _ := x.rangeOf(a); lo.Sign() < 0 {
		neg = x.decide(x.compareInt(token.LSS, a, con(big.NewInt(0))))
	}
	if neg {
		out = append(out, xbyte('-'))
	}
	n := 1
	p := big.NewInt(int64(base))
	for {
		lo, hi, _ := x.rangeOf(a)
		if neg {
			m := new(big.Int).Neg(p)
			if lo.Cmp(m) > 0 || !x.decide(x.compareInt(token.LEQ, a, con(m))) {
				break
			}
		} else if hi.Cmp(p) < 0 || !x.decide(x.compareInt(token.GEQ, a, con(p))) {
			break
		}
		n++
		p = new(big.Int).Mul(p, big.NewInt(int64(base)))
	}
	if lo, _, _ := x.rangeOf(a); n == 1 && !neg && lo.Sign() == 0 && x.decide(x.compareInt(token.EQL, a, con(lo))) {
		return []xInt{xbyte('0')}
	}
	if b := x.simpKeep(a); b.con {
		return x.formatInt(b, base, upper)
	}
	name := fmt.Sprintf("digit(%s", as)
	for i := 0; i < n; i++ {
		lo := int64('0')
		if i == 0 {
			lo = '1'
		}
		hi := '0' + int64(min(base, 10)) - 1
		if base > 10 && x.choose(2) == 1 {
			lo = 'a'
			if upper {
				lo = 'A'
			}
			hi = lo + int64(base) - 11
		}
		out = append(out, x.digit(fmt.Sprintf("%s)[%d]", name, i), lo, hi))
	}
	// the digits of a number are as unknown as the number
	num := &numeral{v: a, b: out, base: base, all: true}
	if x.written == nil {
		x.written = map[string]*numeral{}
	}
	x.written[as] = num
	x.addNumeral(num)
	return out
}

// floatShapes are the forms of a formatted float, D is an unknown digit and N
// one that is not zero.
var floatShapes = map[byte][]string{
	'g': {"N", "ND", "N.N", "ND.DN", "0.N", "0.00DN", "Ne+DD", "N.DNe+DD", "Ne-DD", "N.NNe-DD", "Ne+NDD", "N.DDDDDDDDDDDDDDDNe-NDD"},
	'e': {"Ne+DD", "N.DNe+DD", "Ne-DD", "N.NNe-NDD"},
	'f': {"N", "ND", "N.N", "ND.DN", "0.N", "0.00DN", "NDDDDDDDDDDDDDDDDDDDDDDDDDDDDDD"},
}

func (x *xrun) formatFloat(f xFlt, fmtc byte, prec, bits int) ([]xInt, bool) {
	if f.con {
		return x.strBytes(xStr{s: strconv.FormatFloat(f.f, fmtc, prec, bits)}), true
	}
	shapes := floatShapes[fmtc|0x20]
	if shapes == nil {
		return nil, false
	}
	key := fmt.Sprintf("%s/%c%d/%d", f.sym, fmtc, prec, bits)
	if n, ok := x.written[key]; ok {
		return n.b, true
	}
	if x.decide(x.compareFlt(token.NEQ, f, f)) {
		return x.strBytes(xStr{s: "NaN"}), true
	}
	if x.decide(x.compareFlt(token.GTR, f, xFlt{con: true, f: math.MaxFloat64})) {
		return x.strBytes(xStr{s: "+Inf"}), true
	}
	if x.decide(x.compareFlt(token.LSS, f, xFlt{con: true, f: -math.MaxFloat64})) {
		return x.strBytes(xStr{s: "-Inf"}), true
	}
	var out []xInt
	if x.decide(x.compareFlt(token.EQL, f, xFlt{con: true})) {
		// the sign of a zero is not decided by a comparison
		z := 0.0
		if x.choose(2) == 1 {
			z = math.Copysign(0, -1)
		}
		return x.strBytes(xStr{s: strconv.FormatFloat(z, fmtc, prec, bits)}), true
	}
	if x.decide(x.compareFlt(token.LSS, f, xFlt{con: true})) {
		out = append(out, xbyte('-'))
	}
	for i, c := range []byte(shapes[x.choose(len(shapes))]) {
		switch c {
		case 'D':
			out = append(out, x.digit(fmt.Sprintf("digit(%s)[%d]", key, i), '0', '9'))
		case 'N':
			out = append(out, x.digit(fmt.Sprintf("digit(%s)[%d]", key, i), '1', '9'))
		default:
			if c == 'e' && fmtc < 'a' {
				c = 'E'
			}
			out = append(out, xbyte(int(c)))
		}
	}
	n := &numeral{v: f, b: out, bits: bits, base: 10, all: prec == -1}
	if x.written == nil {
		x.written = map[string]*numeral{}
	}
	x.written[key] = n
	x.addNumeral(n)
	return out, true
}

// render models the functions that write values as text.
func (x *xrun) render(name string, site ssa.CallInstruction, cc *ssa.CallCommon, args []xv) (xv, bool) {
	switch name {
	case "strconv.FormatInt", "strconv.FormatUint":
		return x.mkStr(x.formatInt(args[0].(xInt), x.concreteInt(args[1], "the base"), false)), true
	case "strconv.Itoa":
		return x.mkStr(x.formatInt(args[0].(xInt), 10, false)), true
	case "strconv.FormatFloat":
		f, ok := args[0].(xFlt)
		if !ok {
			break
		}
		c := x.concreteInt(args[1], "the format")
		b, ok := x.formatFloat(f, byte(c), x.concreteInt(args[2], "the precision"), x.concreteInt(args[3], "the size"))
		if ok {
			return x.mkStr(b), true
		}
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		var b []xInt
		ok := false
		if name == "fmt.Sprintf" {
			if f, con := args[0].(xStr).concrete(); con {
				b, ok = x.printf(site, f, x.elems(args[1]))
			}
		} else if name == "fmt.Sprintln" {
			vs := x.elems(args[0])
			b, ok = x.printf(site, strings.TrimSuffix(strings.Repeat("%v ", len(vs)), " ")+"\n", vs)
		} else if e := x.elems(args[0]); len(e) == 1 {
			b, ok = x.printf(site, "%v", e)
		}
		if ok {
			return x.mkStr(b), true
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		var w xv = args[0]
		if f, ok := w.(xIface); ok {
			w = f.v
		}
		l, ok := w.(*xLoc)
		if !ok {
			break
		}
		f, vs := "", []xv(nil)
		con := true
		switch name {
		case "fmt.Fprintf":
			f, con = args[1].(xStr).concrete()
			vs = x.elems(args[2])
		case "fmt.Fprint":
			vs = x.elems(args[1])
			f, con = "%v", len(vs) == 1
		default:
			vs = x.elems(args[1])
			f = strings.TrimSuffix(strings.Repeat("%v ", len(vs)), " ") + "\n"
		}
		if con {
			if b, ok := x.printf(site, f, vs); ok {
				x.bufs()[l] = append(append([]xInt{}, x.bufs()[l]...), b...)
				return xTuple{xint(int64(len(b))), xNil{}}, true
			}
		}
	}
	return nil, false
}

// printf formats values into the bytes of a text.
func (x *xrun) printf(site ssa.CallInstruction, f string, vs []xv) ([]xInt, bool) {
	var out []xInt
	add := func(s string) { out = append(out, x.strBytes(xStr{s: s})...) }
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			add(f[i : i+1])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil, false
		}
		verb, flags := f[j], f[i+1:j]
		i = j
		if verb == '%' {
			add("%")
			continue
		}
		if k >= len(vs) {
			return nil, false
		}
		v := vs[k]
		k++
		if g, ok := x.goArg(v); ok {
			add(fmt.Sprintf("%"+flags+string(verb), g))
			continue
		}
		t := types.Type(nil)
		if fc, ok := v.(xIface); ok {
			t = fc.t
			if verb == 's' || verb == 'v' {
				if m := x.method(t, "Error"); m != nil {
					if len(m.Blocks) == 0 {
						return nil, false
					}
					v = x.call(m, []xv{fc.v}, nil, nil)
					t = nil
				} else if m := x.method(t, "String"); m != nil {
					if len(m.Blocks) == 0 {
						return nil, false
					}
					v = x.call(m, []xv{fc.v}, nil, nil)
					t = nil
				}
			}
			if t != nil {
				v = fc.v
			}
		}
		switch a := v.(type) {
		case xStr:
			if a.sym != "" || flags != "" || verb != 's' && verb != 'v' {
				return nil, false
			}
			out = append(out, x.strBytes(a)...)
		case xInt:
			base := map[byte]int{'d': 10, 'v': 10, 'x': 16, 'X': 16, 'b': 2, 'o': 8, 'c': 0}[verb]
			if verb == 'c' && flags == "" {
				s := x.runeStr(a)
				if s.sym != "" {
					return nil, false
				}
				out = append(out, x.strBytes(s)...)
				break
			}
			if base == 0 {
				return nil, false
			}
			width, pad := -1, byte(' ')
			if flags == "" {
				width = 0
			} else if n, err := strconv.Atoi(flags); err == nil && n > 0 {
				width = n
				if flags[0] == '0' {
					pad = '0'
				}
			}
			if width < 0 {
				// every value by itself
				lo, hi, _ := x.rangeOf(a)
				if d := new(big.Int).Sub(hi, lo); !d.IsInt64() || d.Int64() > 300 {
					return nil, false
				}
				var cuts []int64
				for n := lo.Int64() + 1; n <= hi.Int64(); n++ {
					cuts = append(cuts, n)
				}
				add(fmt.Sprintf("%"+flags+string(verb), x.splitAt(a, cuts)))
				break
			}
			text := x.formatInt(a, base, verb == 'X')
			for ; len(text) < width; width-- {
				if pad == '0' && text[0].con && text[0].u == '-' {
					text = append([]xInt{text[0], xbyte('0')}, text[1:]...)
					width++
					continue
				}
				out = append(out, xbyte(int(pad)))
			}
			out = append(out, text...)
		case xFlt:
			if flags != "" || verb != 'g' && verb != 'v' && verb != 'e' && verb != 'f' {
				return nil, false
			}
			prec := -1
			if verb == 'e' || verb == 'f' {
				prec = 6
			}
			if verb == 'v' {
				verb = 'g'
			}
			bits := 64
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Float32 {
				bits = 32
			}
			b, ok := x.formatFloat(a, verb, prec, bits)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		case xBool:
			if verb != 't' && verb != 'v' || flags != "" {
				return nil, false
			}
			add(fmt.Sprint(x.decide(a)))
		default:
			return nil, false
		}
	}
	return out, k == len(vs)
}

// method finds an exported method, or nil.
func (x *xrun) method(t types.Type, name string) *ssa.Function {
	if types.NewMethodSet(t).Lookup(nil, name) == nil {
		return nil
	}
	return x.lookup(t, nil, name)
}

// parseText models strconv.Parse* on a text of unknown characters.
func (x *xrun) parseText(name string, s xStr, base, size int) xv {
	b := x.strBytes(s)
	unsigned, isFloat := name == "strconv.ParseUint", name == "strconv.ParseFloat"
	if size == 0 {
		size = 64
	}
	fail := func(v xv, err string) xv { return xTuple{v, x.numError(name, s, err)} }
	if isFloat {
		if n := x.numeralOf(b); n != nil && n.bits != 0 && n.all {
			f := n.v.(xFlt)
			if n.bits == 32 || size == 32 {
				f, _ = x.convert(f, types.Typ[types.Float64], types.Typ[types.Float32]).(xFlt)
				if size == 64 && !(n.bits == 32) {
					f = n.v.(xFlt)
				}
			}
			if size == 32 && n.bits == 64 && !n.v.(xFlt).f32 {
				// may be beyond single precision
				if x.choose(2) == 1 {
					return fail(xFlt{sym: "infinity"}, "ErrRange")
				}
			}
			return xTuple{xFlt{sym: f.sym, con: f.con, f: f.f, f32: f.f32}, xNil{}}
		} else if n != nil {
			_ = n
		}
		k := x.skey(x.mkStr(x.simpBytes(b)))
		switch x.choose(3) {
		case 0:
			f := xFlt{sym: "float" + strconv.Itoa(size) + "(" + k + ")", f32: size == 32}
			lim := math.MaxFloat64
			if size == 32 {
				lim = math.MaxFloat32
			}
			x.fv[f.sym] = fival{lo: -lim, hi: lim, known: true}
			return xTuple{f, xNil{}}
		case 1:
			return fail(xFlt{con: true, f: math.Inf(1)}, "ErrRange")
		}
		if decimal(x, b, true) {
			panic(xInfeasible{})
		}
		return fail(xFlt{con: true}, "ErrSyntax")
	}
	rt := types.Type(types.Typ[types.Int64])
	if unsigned {
		rt = types.Typ[types.Uint64]
	}
	digits, neg, sign := b, false, false
	if len(digits) > 0 {
		switch rep := x.splitAt(digits[0], []int64{'+', '+' + 1, '-', '-' + 1}); rep {
		case '+', '-':
			if unsigned {
				return fail(xi(0, rt), "ErrSyntax")
			}
			neg, sign = rep == '-', true
			digits = digits[1:]
		}
	}
	if base == 0 {
		base = 10
		if len(digits) > 0 && x.decide(x.compareInt(token.EQL, digits[0], xbyte('0'))) && len(digits) > 1 {
			base = 8
			skip := 1
			switch x.splitAt(digits[1], []int64{'B', 'B' + 1, 'O', 'O' + 1, 'X', 'X' + 1, 'b', 'b' + 1, 'o', 'o' + 1, 'x', 'x' + 1}) {
			case 'b', 'B':
				base, skip = 2, 2
			case 'o', 'O':
				base, skip = 8, 2
			case 'x', 'X':
				base, skip = 16, 2
			}
			digits = digits[skip:]
		}
	}
	lo, hi := tsrc(size, !unsigned)
	con := func(n *big.Int) xInt {
		return xInt{con: true, u: new(big.Int).And(n, new(big.Int).SetUint64(math.MaxUint64)).Uint64(), w: 64, sg: !unsigned}
	}
	// the whole text, or the text without its base, is one that was written
	whole := digits
	if sign {
		whole = b
	}
	n := x.numeralOf(whole)
	for z := digits; n == nil && !sign && len(z) > 1 && z[0].con && z[0].u == '0'; {
		// padded
		z = z[1:]
		n = x.numeralOf(z)
	}
	if n != nil && n.base == base && n.bits == 0 && n.all {
		v := n.v.(xInt)
		big64 := func(op token.Token, lim *big.Int) bool {
			vlo, vhi, _ := x.rangeOf(v)
			if op == token.GTR && vhi.Cmp(lim) <= 0 || op == token.LSS && vlo.Cmp(lim) >= 0 {
				return false
			}
			return x.decide(x.compareInt(op, v, xInt{con: true, u: new(big.Int).And(lim, new(big.Int).SetUint64(math.MaxUint64)).Uint64() & mask(v.w), w: v.w, sg: v.sg}))
		}
		if big64(token.GTR, hi) {
			return fail(con(hi), "ErrRange")
		}
		if big64(token.LSS, lo) {
			if unsigned {
				return fail(con(lo), "ErrSyntax")
			}
			return fail(con(lo), "ErrRange")
		}
		return xTuple{x.convInt(x.simp(v), 64, !unsigned), xNil{}}
	}
	valid := len(digits) > 0
	for _, d := range digits {
		cuts := []int64{'0', '0' + int64(base)}
		if base > 10 {
			cuts = []int64{'0', '9' + 1, 'A', 'G', 'a', 'g'}
		}
		rep := x.splitAt(d, cuts)
		ok := rep >= '0' && rep < '0'+int64(base) && rep <= '9'
		if base > 10 && (rep >= 'A' && rep < 'G' || rep >= 'a' && rep < 'g') {
			ok = true
		}
		if !ok {
			valid = false
		}
	}
	if !valid {
		return fail(xi(0, rt), "ErrSyntax")
	}
	// the digits bound the number
	top := new(big.Int).Sub(new(big.Int).Exp(big.NewInt(int64(base)), big.NewInt(int64(len(digits))), nil), big.NewInt(1))
	bottom := big.NewInt(0)
	if len(digits) > 1 {
		if d := x.splitAt(digits[0], []int64{'1'}); d >= '1' {
			bottom = new(big.Int).Exp(big.NewInt(int64(base)), big.NewInt(int64(len(digits)-1)), nil)
		}
	}
	digits = x.simpBytes(digits)
	if c, ok := x.mkStr(digits).concrete(); ok {
		n, _ := new(big.Int).SetString(c, base)
		if neg {
			n.Neg(n)
		}
		switch {
		case n.Cmp(hi) > 0:
			return fail(con(hi), "ErrRange")
		case n.Cmp(lo) < 0:
			return fail(con(lo), "ErrRange")
		}
		return xTuple{con(n), xNil{}}
	}
	key := fmt.Sprintf("number(%s,%d)", x.skey(x.mkStr(digits)), base)
	if neg {
		key = "-" + key
		top, bottom = new(big.Int).Neg(bottom), new(big.Int).Neg(top)
	}
	in := bottom.Cmp(hi) <= 0 && top.Cmp(lo) >= 0
	out := top.Cmp(hi) > 0 || bottom.Cmp(lo) < 0
	if out && (!in || x.choose(2) == 1) {
		if neg {
			return fail(con(lo), "ErrRange")
		}
		return fail(con(hi), "ErrRange")
	}
	if bottom.Cmp(lo) < 0 {
		bottom = lo
	}
	if top.Cmp(hi) > 0 {
		top = hi
	}
	v := x.sym(key, rt)
	x.iv[key] = ival{bottom, top}
	return xTuple{x.simp(v), xNil{}}
}

// simpBytes makes the bytes that are known by now concrete.
func (x *xrun) simpBytes(b []xInt) []xInt {
	out := make([]xInt, len(b))
	for i, c := range b {
		out[i] = x.simpKeep(c)
	}
	return out
}

// decimal reports whether the text is surely a decimal number.
func decimal(x *xrun, b []xInt, float bool) bool {
	s := ""
	for _, c := range b {
		c = x.simpKeep(c)
		if c.con {
			s += string(rune(c.u))
			continue
		}
		lo, hi, _ := x.rangeOf(c)
		if lo.Int64() < '0' || hi.Int64() > '9' {
			return false
		}
		s += "1"
	}
	_, err := strconv.ParseFloat(s, 64)
	return err == nil || errors.Is(err, strconv.ErrRange)
}
