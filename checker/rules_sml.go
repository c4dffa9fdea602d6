package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// smlText builds a text of known and unknown characters: in the pattern, '§d'
// is an unknown digit, '§n' one that is not zero, '§x' a hexadecimal digit,
// '§b' a binary one, '§w' an unknown letter, digit or underscore, '§?' any
// character up to 127.
func (x *xrun) smlText(pattern string) xStr {
	var out []xInt
	p := []rune(pattern)
	for i := 0; i < len(p); i++ {
		if p[i] != '§' {
			for _, b := range []byte(string(p[i])) {
				out = append(out, xbyte(int(b)))
			}
			continue
		}
		i++
		name := fmt.Sprintf("char[%d]", i)
		c := x.symByte(name)
		lo, hi := int64(0), int64(127)
		switch p[i] {
		case 'd':
			lo, hi = '0', '9'
		case 'n':
			lo, hi = '1', '9'
		case 'b':
			lo, hi = '0', '1'
		case 'x':
			lo, hi = '0', 'f'
		case 'w':
			lo, hi = '0', 'z'
		}
		x.iv[name] = ival{big.NewInt(lo), big.NewInt(hi)}
		if p[i] == 'x' || p[i] == 'w' {
			cuts := []int64{'9' + 1, 'A', 'F' + 1, 'a'}
			ok := map[int64]bool{'0': true, 'A': true, 'a': true}
			if p[i] == 'w' {
				cuts = []int64{'9' + 1, 'A', 'Z' + 1, '_', '_' + 1, 'a'}
				ok['_'] = true
			}
			if !ok[x.splitAt(c, cuts)] {
				panic(xInfeasible{})
			}
			c = x.simpKeep(c)
		}
		out = append(out, c)
	}
	return x.mkStr(out)
}

// smlType is the keyword of a format.
func smlType(f e5fmt) string {
	switch f.name {
	case "list":
		return "L"
	case "binary":
		return "B"
	case "boolean":
		return "BOOLEAN"
	case "ascii":
		return "A"
	}
	return strings.ToUpper(f.name)
}

// numberOf is the number that digits of a base stand for, if the text is
// known, or the name of it.
func (x *xrun) numberIs(v xv, digits []xInt, neg bool, base int) bool {
	a, ok := v.(xInt)
	if !ok {
		return false
	}
	s := x.mkStr(x.simpBytes(digits))
	if c, ok := s.concrete(); ok {
		n, ok := new(big.Int).SetString(strings.ToLower(c), base)
		if neg && ok {
			n.Neg(n)
		}
		a = x.simpKeep(a)
		return ok && a.con && x.bigOf(a).Cmp(n) == 0
	}
	key := fmt.Sprintf("number(%s,%d)", x.skey(s), base)
	if neg {
		key = "-" + key
	}
	if a = x.simpKeep(a); a.con {
		iv, ok := x.iv[key]
		return ok && iv.lo.Cmp(iv.hi) == 0 && iv.lo.Cmp(x.bigOf(a)) == 0
	}
	if name, ok := x.canon(a); ok && name == key {
		return true
	}
	src, ok := x.src[key]
	if !ok {
		return false
	}
	sg := src.signed
	t := types.Type(types.Typ[types.Int64])
	if !sg {
		t = types.Typ[types.Uint64]
	}
	l, r := x.bitsOf(x.convInt(x.simp(x.sym(key, t)), 64, sg)), x.bitsOf(x.convInt(a, 64, a.sg))
	return bitsKey(l) == bitsKey(r)
}

type smlRun struct {
	*astRun
	smlParse *ssa.Function
	good     map[string]int
}

// given evaluates the parser on a text and checks that errors exclude
// messages; then gets the messages of a path without errors.
func (a *smlRun) given(rule, key, pattern string, then func(x *xrun, s xStr, msgs []xv) string) {
	r, pos := a.r, a.P.pos(a.smlParse.Pos())
	a.each(rule, key, a.smlParse, func(x *xrun) {
		x.text = true
		x.max = 4000000
		s := x.smlText(pattern)
		msgs, errs, pan := a.sml(x, s)
		if pan != nil {
			r.Bad(rule, key, pos, fmt.Sprintf("Parse panics on %s: %s (%s)", x.skey(s), pan.why, x.facts()))
			return
		}
		if errs > 0 {
			r.Check(len(msgs) == 0, rule, key+":nothing", pos, fmt.Sprintf("%s gives %d errors and still %d messages (%s)", pattern, errs, len(msgs), x.facts()))
			return
		}
		why := then(x, s, msgs)
		a.good[key]++
		r.Check(why == "", rule, key, pos, fmt.Sprintf("%s gives no error, but %s (%s)", pattern, why, x.facts()))
	})
}

// faulty is a text that must give an error.
func (a *smlRun) faulty(rule, key, pattern string) {
	a.given(rule, key, pattern, func(x *xrun, s xStr, msgs []xv) string { return "it is not SML" })
}

// one gets the item of the single message of a result.
func (a *smlRun) one(x *xrun, msgs []xv) (xv, string) {
	if len(msgs) != 1 {
		return nil, fmt.Sprintf("there are %d messages", len(msgs))
	}
	it := a.whole(x, msgs[0])
	if it == nil {
		return nil, "the message has no item"
	}
	return it, ""
}

// vals gets the values of an item of a type.
func (a *smlRun) vals(x *xrun, it xv, typ string) ([]xv, string) {
	t, pan := x.m(it, "Type")
	if s, ok := t.(xStr); !ok || pan != nil || s.s != typ {
		return nil, "the item is of another type than " + typ
	}
	v, pan := x.m(it, "Values")
	if b, ok := v.(xIface); ok {
		v = b.v
	}
	if pan != nil {
		return nil, "the values panic"
	}
	if s, ok := v.(xStr); ok {
		var out []xv
		for _, c := range x.strBytes(s) {
			out = append(out, c)
		}
		return out, ""
	}
	return x.elems(v), ""
}

func init() {
	register("C17", "The SML parser is evaluated on texts with unknown characters in every place where a literal, a size or a header is converted; a path without errors must have understood the text.", func(r *Report) {
		P := r.P
		r.Rule("literal", "on every path on which a numeric literal of unknown digits gives no error the item holds exactly that number; a number that does not fit gives an error")
		r.Rule("size", "on every path on which a size of unknown digits gives no error the number of values lies within it, or the variable has exactly these limits")
		r.Rule("header", "on every path on which a header of unknown digits gives no error, stream and function are these numbers")
		r.Rule("character", "an unknown character or keyword in the place of a value, type or header element gives an error unless it is one of the syntax")
		r.Rule("fault", "a text with one fault of a kind that can occur in its place gives an error, for every item type")
		r.Rule("nothing", "whenever there are errors no message is returned, also for the messages before the fault")
		parse := P.fn(smlParsePkg, "Parse")
		if !r.Anchor(parse != nil, "the SML parser's Parse") {
			return
		}
		a := &smlRun{&astRun{P, r}, parse, map[string]int{}}
		a.literals()
		a.sizes()
		a.headers()
		a.characters()
		a.faults()
		r.Floor("literal", 100)
		r.Floor("size", 60)
		r.Floor("header", 20)
		r.Floor("character", 20)
		r.Floor("fault", 200)
	})
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func (a *smlRun) literals() {
	for _, f := range e5 {
		if f.name == "list" || f.name == "boolean" {
			continue
		}
		T := smlType(f)
		isFloat := f.name[0] == 'f'
		type lit struct {
			pre, digits string
			neg         bool
			base        int
		}
		var lits []lit
		for _, n := range []int{1, 2, 3, 5, 10, 19, 20, 21, 40} {
			lits = append(lits, lit{"", "§n" + rep("§d", n-1), false, 10}, lit{"-", "§n" + rep("§d", n-1), true, 10})
		}
		lits = append(lits, lit{"+", "§n§d", false, 10})
		if !isFloat {
			for _, n := range []int{1, 2, 17} {
				lits = append(lits, lit{"0x", rep("§x", min(n, 1)) + rep("F", n-1), false, 16}, lit{"0X", rep("§x", min(n, 1)) + rep("0", n-1), false, 16})
			}
			for _, n := range []int{1, 8, 9, 64, 65} {
				lits = append(lits, lit{"0b", "1" + rep("§b", n-1), false, 2})
			}
			lits = append(lits, lit{"0o", "7§d", false, 8}, lit{"-0x", "§n§d", true, 16})
		}
		for _, l := range lits {
			for _, where := range []int{0, 1} {
				// first of two, and second of two
				key := fmt.Sprintf("%s %s%s, value %d", T, l.pre, l.digits, where)
				text := l.pre + l.digits + " 1"
				off := 0
				if where == 1 {
					text = "1 " + l.pre + l.digits
					off = 2
				}
				head := "S1F1 H->E <" + T + " "
				nd := len([]rune(l.digits)) - strings.Count(l.digits, "§")
				a.given("literal", key, head+text+">.", func(x *xrun, s xStr, msgs []xv) string {
					it, why := a.one(x, msgs)
					if why != "" {
						return why
					}
					vs, why := a.vals(x, it, f.name)
					if why != "" {
						return why
					}
					if len(vs) != 2 {
						return fmt.Sprintf("there are %d values", len(vs))
					}
					digits := x.strBytes(s)[len(head)+off+len(l.pre):][:nd]
					if isFloat {
						g, ok := vs[where].(xFlt)
						k := fmt.Sprintf("float%d(%s)", 8*f.width, x.skey(x.mkStr(x.simpBytes(x.strBytes(s)[len(head)+off:][:len(l.pre)+nd]))))
						if !ok || g.sym != k {
							return "the value is " + x.show(vs[where])
						}
						return ""
					}
					if !x.numberIs(vs[where], digits, l.neg, l.base) {
						return "the value is " + x.show(vs[where])
					}
					return ""
				})
			}
		}
		if isFloat {
			for _, l := range []string{"§d.§d", "-§d§d.§d", ".§d", "§n.§de§d§d", "§ne-§d§d", "§nE+§d§d§d", "1e999999999999999999999999"} {
				key := fmt.Sprintf("%s %s", T, l)
				head := "S1F1 H->E <" + T + " "
				a.given("literal", key, head+l+">.", func(x *xrun, s xStr, msgs []xv) string {
					it, why := a.one(x, msgs)
					if why != "" {
						return why
					}
					vs, why := a.vals(x, it, f.name)
					if why != "" || len(vs) != 1 {
						return "there is another number of values " + why
					}
					b := x.strBytes(s)
					g, ok := vs[0].(xFlt)
					k := fmt.Sprintf("float%d(%s)", 8*f.width, x.skey(x.mkStr(x.simpBytes(b[len(head):len(b)-2]))))
					if !ok || g.sym != k {
						return "the value is " + x.show(vs[0])
					}
					return ""
				})
			}
		}
	}
}

func (x *xrun) show(v xv) string {
	switch a := v.(type) {
	case xInt:
		return x.ikey(a)
	case xFlt:
		return x.fkey(a)
	case xStr:
		return x.skey(a)
	}
	return fmt.Sprintf("%T", v)
}

// limit is a size limit in a text.
type limit struct {
	text string // pattern
	inf  int64  // for a missing one
}

func (a *smlRun) sizes() {
	digits := []string{"§n", "§n§d", "§n" + rep("§d", 7), "§n" + rep("§d", 18), "§n" + rep("§d", 19), "§n" + rep("§d", 30)}
	values := func(f e5fmt, n int) string {
		v := map[string]string{"list": "<L>", "ascii": `"a"`, "boolean": "T"}[f.name]
		if v == "" {
			v = "1"
		}
		return strings.TrimSpace(rep(" "+v, n))
	}
	// span gets the limits of a size as values, from the text of it
	span := func(x *xrun, b []xInt) (lo, hi xv) {
		num := func(d []xInt) xv {
			if len(d) == 0 {
				return nil
			}
			if c, ok := x.mkStr(x.simpBytes(d)).concrete(); ok {
				n, _ := new(big.Int).SetString(c, 10)
				if !n.IsInt64() {
					return xStr{s: c}
				}
				return xint(n.Int64())
			}
			key := fmt.Sprintf("number(%s,10)", x.skey(x.mkStr(x.simpBytes(d))))
			if _, ok := x.src[key]; !ok {
				return xStr{s: key}
			}
			return x.simp(x.sym(key, types.Typ[types.Int64]))
		}
		for i := 0; i+1 < len(b); i++ {
			if b[i].con && b[i].u == '.' {
				return num(b[:i]), num(b[i+2:])
			}
		}
		n := num(b)
		return n, n
	}
	var forms []string
	for _, d := range digits {
		forms = append(forms, d, d+"..", ".."+d, "0.."+d, "1.."+d, d+".."+d, "2.."+d)
	}
	forms = append(forms, "0", "0..0", "..0", "0..", "3..1", "§d..§d")
	for _, f := range e5 {
		T := smlType(f)
		for i, form := range forms {
			if f.width > 1 && f.name != "u4" && i%7 != len(f.name+T)%7 {
				continue // the same code for all widths
			}
			for _, n := range []int{0, 1, 2} {
				key := fmt.Sprintf("%s[%s] with %d values", T, form, n)
				head := "S1F1 H->E <" + T + "["
				nd := len([]rune(form)) - strings.Count(form, "§")
				a.given("size", key, head+form+"] "+values(f, n)+">.", func(x *xrun, s xStr, msgs []xv) string {
					it, why := a.one(x, msgs)
					if why != "" {
						return why
					}
					vs, why := a.vals(x, it, f.name)
					if why != "" {
						return why
					}
					if len(vs) != n {
						return fmt.Sprintf("there are %d values", len(vs))
					}
					lo, hi := span(x, x.strBytes(s)[len(head):][:nd])
					if lo != nil {
						l, ok := lo.(xInt)
						if !ok || !x.decide(x.compareInt(tokLEQ, l, xint(int64(n)))) {
							return fmt.Sprintf("there are only %d values (limit %s)", n, x.show(lo))
						}
					}
					if hi != nil {
						h, ok := hi.(xInt)
						if !ok || !x.decide(x.compareInt(tokLEQ, xint(int64(n)), h)) {
							return fmt.Sprintf("there are %d values (limit %s)", n, x.show(hi))
						}
					}
					return ""
				})
			}
		}
	}
	for _, form := range forms {
		for _, second := range []bool{false, true} {
			key := fmt.Sprintf("A[%s] with a variable, a repeated name: %v", form, second)
			head, tail := "S1F1 H->E <A[", "] v>."
			if second {
				head, tail = "S1F1 H->E <L <A v> <A[", "] v>>."
			}
			nd := len([]rune(form)) - strings.Count(form, "§")
			a.given("size", key, head+form+tail, func(x *xrun, s xStr, msgs []xv) string {
				if second {
					return "the name of a variable is used twice"
				}
				it, why := a.one(x, msgs)
				if why != "" {
					return why
				}
				v, pan := x.m(it, "FillInStringLength")
				t, ok := v.(xTuple)
				if pan != nil || !ok {
					return "FillInStringLength panics"
				}
				lo, hi := span(x, x.strBytes(s)[len(head):][:nd])
				if lo == nil {
					lo = xint(0)
				}
				if hi == nil {
					hi = xint(-1)
				}
				for k, w := range []xv{lo, hi} {
					l, ok := w.(xInt)
					g, is := t[k].(xInt)
					if !ok || !is || bitsKey(x.bitsOf(l)) != bitsKey(x.bitsOf(g)) {
						return fmt.Sprintf("limit %d is %s instead of %s", k, x.show(t[k]), x.show(w))
					}
				}
				return ""
			})
		}
	}
}

func (a *smlRun) headers() {
	r := a.r
	digits := []string{"§d", "§n§d", "§n§d§d", "0§n§d", "§n" + rep("§d", 8), "§n" + rep("§d", 19), "§n" + rep("§d", 40), "00000§d"}
	count := func(p string) int { return len([]rune(p)) - strings.Count(p, "§") }
	check := func(key, s, f, tail, wait, dir, name string) {
		a.given("header", key, "S"+s+"F"+f+tail, func(x *xrun, text xStr, msgs []xv) string {
			if len(msgs) != 1 {
				return fmt.Sprintf("there are %d messages", len(msgs))
			}
			b := x.strBytes(text)
			for _, p := range []struct {
				m string
				d []xInt
			}{{"StreamCode", b[1:][:count(s)]}, {"FunctionCode", b[count(s)+2:][:count(f)]}} {
				v, pan := x.m(msgs[0], p.m)
				d := p.d
				for len(d) > 1 && d[0].con && d[0].u == '0' {
					// a leading zero says nothing
					d = d[1:]
				}
				if pan != nil || !x.numberIs(v, p.d, false, 10) && !x.numberIs(v, d, false, 10) {
					return p.m + " is " + x.show(v)
				}
			}
			for _, p := range []struct{ m, want string }{{"WaitBit", wait}, {"Direction", dir}, {"Name", name}} {
				v, pan := x.m(msgs[0], p.m)
				if g, ok := v.(xStr); pan != nil || !ok || g.s != p.want || g.sym != "" || g.b != nil {
					return fmt.Sprintf("%s is %s instead of %q", p.m, x.show(v), p.want)
				}
			}
			if wait == "true" {
				v, _ := x.m(msgs[0], "FunctionCode")
				if g, ok := v.(xInt); !ok || x.norm(x.bitsOf(g)[0]) == (Bit{}) {
					return "a reply has a wait bit"
				}
			}
			return ""
		})
	}
	for _, s := range digits {
		for _, f := range digits {
			check(fmt.Sprintf("S%sF%s", s, f), s, f, " H->E .", "false", "H->E", "")
		}
	}
	for _, w := range []struct{ text, wait string }{{"", "false"}, {" W", "true"}, {" [W]", "optional"}, {" w", "true"}, {" [w]", "optional"}} {
		for _, d := range []struct{ text, dir string }{{" H->E", "H->E"}, {" H<-E", "H<-E"}, {" H<->E", "H<->E"}, {" h->e", "H->E"}, {"", "H<->E"}} {
			for _, n := range []string{"", "Name", "x"} {
				for _, body := range []string{" .", " <L>.", "\n<A \"x\">\n."} {
					nn := ""
					if n != "" {
						nn = " " + n
					}
					check(fmt.Sprintf("S1F§d%s%s %q%q", w.text, d.text, n, body), "1", "§d", w.text+d.text+nn+body, w.wait, d.dir, n)
				}
			}
		}
	}
	// a later message has its own header
	for _, second := range []string{"S§dF§d H->E .", "S200F1 H->E .", "S1F256 H->E .", "S1F2 W H->E .", "S1F1 H->E <U1 300>.", "X", "S1F1 H->E", "S1F1 H->E <L>"} {
		key := "after another message: " + second
		a.given("nothing", key, "S6F11 W H<-E Report <L <U4 1>>.\n"+second, func(x *xrun, text xStr, msgs []xv) string {
			if second[2] != 0xA7 && second[1] != 0xC2 {
				return "the second message is not SML"
			}
			if len(msgs) != 2 {
				return fmt.Sprintf("there are %d messages", len(msgs))
			}
			n, _ := x.m(msgs[0], "Name")
			f, _ := x.m(msgs[0], "FunctionCode")
			w, _ := x.m(msgs[1], "WaitBit")
			d, _ := x.m(msgs[1], "Name")
			if x.show(n) != `"Report"` || x.show(f) != "11" || x.show(w) != `"false"` || x.show(d) != `""` {
				return "the header of one message is given to the other"
			}
			return ""
		})
	}
	r.Floor("nothing", 8)
}

func (a *smlRun) characters() {
	space := " \t\r\n"
	letter := func(c byte) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '_' }
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	num := func(n string) bool { return n != "list" && n != "boolean" }
	for _, f := range e5 {
		T := smlType(f)
		// one unknown character where a value is expected
		a.given("character", "any character as a value of "+T, "S1F1 H->E <"+T+" §?>.", func(x *xrun, s xStr, msgs []xv) string {
			b := x.strBytes(s)
			c := byte(x.splitAt(b[len(b)-3], []int64{'\t', '\t' + 1, '\n', '\n' + 1, '\r', '\r' + 1, ' ', ' ' + 1, '0', '9' + 1, 'A', 'F', 'F' + 1, 'T', 'T' + 1, 'Z' + 1, '_', '_' + 1, 'a', 'f', 'f' + 1, 't', 't' + 1, 'z' + 1}))
			it, why := a.one(x, msgs)
			if why != "" {
				return why
			}
			vars := 0
			if v, pan := x.m(it, "Variables"); pan == nil {
				vars = len(x.elems(v))
			}
			sz, _ := x.m(it, "Size")
			n := x.show(sz)
			switch {
			case strings.IndexByte(space, c) >= 0:
				if n != "0" || vars != 0 {
					return "white space becomes a value"
				}
			case digit(c) && num(f.name):
				if n != "1" || vars != 0 {
					return "a digit becomes something else than a value"
				}
			case f.name == "boolean" && strings.IndexByte("TtFf", c) >= 0:
				vs, why := a.vals(x, it, f.name)
				if why != "" || len(vs) != 1 || vars != 0 {
					return "T or F becomes something else than a truth value"
				}
				if v, ok := vs[0].(xBool); !ok || v.con && v.v != (c == 'T' || c == 't') {
					return "T becomes false or F true"
				}
			case letter(c) && strings.IndexByte("TtFf", c) < 0:
				if vars != 1 {
					return "a letter becomes something else than a variable"
				}
			default:
				return "this character is no value"
			}
			return ""
		})
		// and in the middle of a number
		if num(f.name) {
			a.given("character", "any character inside a number of "+T, "S1F1 H->E <"+T+" 1§?1>.", func(x *xrun, s xStr, msgs []xv) string {
				b := x.strBytes(s)
				c := byte(x.splitAt(b[len(b)-4], []int64{'\t', '\t' + 1, '\n', '\n' + 1, '\r', '\r' + 1, ' ', ' ' + 1, '+', '+' + 1, '-', '.', '.' + 1, '0', '9' + 1, 'E', 'E' + 1, 'e', 'e' + 1}))
				it, why := a.one(x, msgs)
				if why != "" {
					return why
				}
				vs, why := a.vals(x, it, f.name)
				if why != "" {
					return why
				}
				want := 1
				switch {
				case strings.IndexByte(space+"+-", c) >= 0:
					want = 2
				case digit(c):
				case strings.IndexByte("Ee", c) >= 0 && f.name[0] == 'f', c == '.' && f.name[0] == 'f':
				default:
					return "this character is not part of a number"
				}
				if len(vs) != want {
					return fmt.Sprintf("there are %d values", len(vs))
				}
				return ""
			})
		}
	}
	// an unknown type of two or one characters
	for _, p := range []string{"§w§w", "§w", "BOOLEA§w", "BOOLEAN§w"} {
		a.given("character", "an unknown type "+p, "S1F1 H->E <"+p+">.", func(x *xrun, s xStr, msgs []xv) string {
			it, why := a.one(x, msgs)
			if why != "" {
				return why
			}
			b := x.strBytes(s)
			name := ""
			for _, c := range b[len("S1F1 H->E <") : len(b)-2] {
				c = x.simpKeep(c)
				if !c.con {
					return "its type can be many"
				}
				name += string(rune(c.u))
			}
			t, _ := x.m(it, "Type")
			for _, f := range e5 {
				if smlType(f) == strings.ToUpper(name) {
					if x.show(t) == fmt.Sprintf("%q", f.name) {
						return ""
					}
					return fmt.Sprintf("%s becomes %s", name, x.show(t))
				}
			}
			return fmt.Sprintf("%s is no type, it becomes %s", name, x.show(t))
		})
	}
	// a character after a whole message
	a.given("character", "any character after a message", "S1F1 H->E <L>.§?", func(x *xrun, s xStr, msgs []xv) string {
		b := x.strBytes(s)
		c := byte(x.splitAt(b[len(b)-1], []int64{'\t', '\t' + 1, '\n', '\n' + 1, '\r', '\r' + 1, ' ', ' ' + 1}))
		if strings.IndexByte(space, c) < 0 {
			return "there is something after the message"
		}
		_, why := a.one(x, msgs)
		return why
	})
	// a character of a string
	a.given("character", "any character inside a string", "S1F1 H->E <A \"a§?b\">.", func(x *xrun, s xStr, msgs []xv) string {
		b := x.strBytes(s)
		c := byte(x.splitAt(b[len(b)-5], []int64{'"', '"' + 1, '\\', '\\' + 1}))
		it, why := a.one(x, msgs)
		if why != "" {
			return why
		}
		vs, why := a.vals(x, it, "ascii")
		if why != "" {
			return why
		}
		if c == '"' || c == '\\' && len(vs) == 3 {
			return "a quote is part of a string"
		}
		if c == '\\' {
			if len(vs) != 2 || x.show(vs[1]) != "8" {
				return "an escape is understood as something else"
			}
			return ""
		}
		if len(vs) != 3 || x.show(vs[1]) != x.show(b[len(b)-5]) && x.ikey(x.simpKeep(vs[1].(xInt))) != x.ikey(x.simpKeep(b[len(b)-5])) {
			return "the character becomes another one"
		}
		return ""
	})
}

func (a *smlRun) faults() {
	for _, f := range e5 {
		T := smlType(f)
		ok := map[string]string{"list": "<L>", "ascii": `"a"`, "boolean": "T"}[f.name]
		if ok == "" {
			ok = "1"
		}
		bad := map[string]string{
			"a quoted string": `"a"`, "a number": "1", "a truth value": "T", "an item": "<L>", "an ellipsis": "...", "a type": "U1", "a size": "[2]",
			"a sign": "-", "two signs": "--1", "a lone dot": ".", "a comment sign": "/", "a number with a letter": "1x", "a fraction": "1.5", "an exponent": "1e2",
			"a negative number": "-1", "a hexadecimal prefix": "0x", "a binary digit 2": "0b2", "a non-ASCII string": `"é"`, "an open string": `"a`,
			"a string over two lines": "\"a\nb\"", "an open bracket": "[", "an octal digit 9": "09", "an infinity": "+Inf", "a not-a-number": "0x1p-2",
			"a bad escape": `"\q"`, "a string of an escape": `"\"`, "a non-ASCII escape": `"\u00e9"`, "a non-ASCII code": "128", "a NUL": "\x00", "a non-ASCII letter": "é",
		}
		good := map[string]string{
			"ascii": "a quoted string|a number|", "boolean": "a truth value|", "list": "an item|an ellipsis|",
			"binary": "a number|a non-ASCII code|",
		}[f.name]
		switch f.name[0] {
		case 'i':
			good = "a number|a negative number|"
		case 'u':
			good = "a number|"
		case 'f':
			good = "a number|a negative number|a fraction|an exponent|an octal digit 9|"
		}
		if f.name != "list" && f.name != "boolean" && f.name != "ascii" && f.name != "i1" {
			good += "a non-ASCII code|"
		}
		for _, n := range sortedKeys(bad) {
			if strings.Contains("|"+good, "|"+n+"|") {
				continue
			}
			a.faulty("fault", fmt.Sprintf("%s instead of a value of %s", n, T), "S1F1 H->E <"+T+" "+bad[n]+">.")
			a.faulty("fault", fmt.Sprintf("%s after a value of %s", n, T), "S1F1 H->E <"+T+" "+ok+" "+bad[n]+">.")
		}
		if f.name == "list" {
			a.faulty("fault", "an ellipsis first", "S1F1 H->E <L ... <L>>.")
		}
		for n, t := range map[string]string{
			"no end of the item":          "<" + T + " " + ok + " .",
			"the text ends in the item":   "<" + T + " " + ok,
			"the text ends at the type":   "<" + T,
			"the text ends at the size":   "<" + T + "[1]",
			"the text ends in the size":   "<" + T + "[1",
			"no end of the message":       "<" + T + " " + ok + ">",
			"two items":                   "<" + T + " " + ok + "> <" + T + " " + ok + ">.",
			"one > too many":              "<" + T + " " + ok + ">>.",
			"a letter in the size":        "<" + T + "[x] " + ok + ">.",
			"an empty size":               "<" + T + "[] " + ok + ">.",
			"a negative size":             "<" + T + "[-1] " + ok + ">.",
			"a size of dots":              "<" + T + "[..] " + ok + ">.",
			"a size of three limits":      "<" + T + "[1..2..3] " + ok + ">.",
			"a repeated variable":         "<L <" + T + " v> <" + T + " v>>.",
			"a variable of a list, again": "<L v <" + T + " v>>.",
			"a fault after a comment":     "<" + T + " // comment\n [2] " + ok + ">.",
		} {
			a.faulty("fault", fmt.Sprintf("%s: %s", T, n), "S1F1 H->E "+t)
		}
		if f.name != "ascii" && f.name != "list" {
			a.faulty("fault", T+": a repeated variable in one item", "S1F1 H->E <"+T+" v v>.")
		}
		if f.name == "ascii" {
			a.faulty("fault", "A: a variable and a string", `S1F1 H->E <A v "x">.`)
			a.faulty("fault", "A: a string and a variable", `S1F1 H->E <A "x" v>.`)
		}
	}
	for n, t := range map[string]string{
		"no stream":              "F1 H->E .",
		"no function":            "S1 H->E .",
		"no header":              "<L>.",
		"only a name":            "Hello",
		"a stream of letters":    "SxF1 H->E .",
		"wait bit first":         "W S1F1 H->E .",
		"two wait bits":          "S1F1 W W H->E .",
		"two directions":         "S1F1 H->E H<-E .",
		"two names":              "S1F1 H->E a b .",
		"direction after name":   "S1F1 a H->E .",
		"wait bit at the end":    "S1F1 H->E W .",
		"a reply with wait bit":  "S1F2 W H->E .",
		"a negative stream":      "S-1F1 H->E .",
		"no end":                 "S1F1 H->E",
		"an end only":            ".",
		"two ends":               "S1F1 H->E ..",
		"> only":                 "S1F1 H->E >.",
		"a type only":            "S1F1 H->E <>.",
		"a size only":            "S1F1 H->E <[1]>.",
		"nested item not closed": "S1F1 H->E <L <L >.",
		"a text after the item":  "S1F1 H->E <L> x.",
	} {
		a.faulty("fault", "message: "+n, t)
	}
	a.faulty("fault", "lists without an end", "S1F1 H->E "+rep("<L ", 200))
}
