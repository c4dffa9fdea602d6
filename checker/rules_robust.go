package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mayPanic reports whether an instruction by itself can panic for some values,
// nil dereferences apart.
func mayPanic(ins ssa.Instruction) bool {
	// con: a constant or a length
	con := func(v ssa.Value) bool {
		_, ok := constInt(v)
		if c, is := v.(*ssa.Call); is && isLenCap(c) != "" {
			return true
		}
		return v == nil || ok
	}
	switch i := ins.(type) {
	case *ssa.IndexAddr:
		if _, ok := i.X.Type().Underlying().(*types.Slice); !ok {
			_, ok := constInt(i.Index)
			return !ok
		}
		for _, e := range edgesAt(i.Block()) {
			// the loop over a slice
			b, ok := e.br.Cond.(*ssa.BinOp)
			if !ok || !e.taken || b.Op != token.LSS || b.X != i.Index {
				continue
			}
			if c, ok := b.Y.(*ssa.Call); ok && isLenCap(c) == "len" && c.Call.Args[0] == i.X {
				return false
			}
		}
		return true
	case *ssa.Index:
		_, ok := constInt(i.Index)
		return !ok
	case *ssa.Lookup:
		_, m := i.X.Type().Underlying().(*types.Map)
		return !m
	case *ssa.Slice:
		return i.Low != nil || i.High != nil || i.Max != nil
	case *ssa.TypeAssert:
		return !i.CommaOk
	case *ssa.MakeSlice:
		return !con(i.Len) || !con(i.Cap)
	case *ssa.BinOp:
		return (i.Op == token.QUO || i.Op == token.REM) && isInteger(i.X.Type()) && !divisor(i.Y)
	}
	return false
}

// injectPanic makes one instruction of a path panic, if it could.
func (x *xrun) injectPanic(ins ssa.Instruction) {
	if x.injected || !mayPanic(ins) {
		return
	}
	switch x.choose(3) {
	case 1:
		x.injected = true
		x.throw("injected")
	case 2:
		x.injected = true
		panic(&xPanic{v: xIface{t: types.Typ[types.String], v: xStr{s: "injected"}}, why: "injected", pos: x.P.ipos(ins)})
	}
}

func (x *xrun) depends(on string) string {
	for k := range x.iv {
		if strings.Contains(k, on) {
			return k
		}
	}
	for k := range x.bf {
		if strings.Contains(k, on) {
			return k
		}
	}
	for k := range x.bits {
		if strings.Contains(fmt.Sprint(k), on) {
			return fmt.Sprint(k)
		}
	}
	return ""
}

func init() {
	register("C13", "The decoders are evaluated on texts of unknown bytes of every short length and in every context, and with a panic injected at every instruction that could panic.", func(r *Report) {
		P := r.P
		r.Rule("recovered", "an instruction that can panic, executed while a decoder runs, lets it return an error: no panic leaves Parse")
		r.Rule("binary", "Parse of the binary decoder returns for every content of short messages, every item head followed by too little, and every header")
		r.Rule("inside", "whether and what the binary decoder returns does not depend on bytes that lie beyond the message, even if the slice could be extended over them")
		r.Rule("text", "Parse of the SML parser returns for unknown characters in every context, and for texts that end anywhere")
		r.Rule("nesting", "the depth of calls does not grow with the nesting of the input beyond a fixed bound")
		bin, sml := P.fn(hsmsParsePkg, "Parse"), P.fn(smlParsePkg, "Parse")
		if !r.Anchor(bin != nil, "the binary decoder's Parse") || !r.Anchor(sml != nil, "the SML parser's Parse") {
			return
		}
		a := &smlRun{&astRun{P, r}, sml, map[string]int{}}
		a.binary(bin)
		a.nesting(bin)
		a.texts()
		a.recovered(bin)
		r.Floor("recovered", 20)
		r.Floor("binary", 60)
		r.Floor("inside", 60)
		r.Floor("text", 60)
		r.Floor("nesting", 4)
	})
}

// frame evaluates the binary decoder on a message that is followed by unknown
// bytes in the same array.
func (a *smlRun) frame(bin *ssa.Function, key string, make func(x *xrun) []xInt) {
	r, pos := a.r, a.P.pos(bin.Pos())
	a.each("binary", key, bin, func(x *xrun) {
		x.max = 4000000
		in := make(x)
		all := append(append([]xInt{}, in...), x.symBytes("outside", 12)...)
		s := x.bytesVal(all)
		s.n, s.cap = len(in), len(all)
		ret, pan := x.Call(bin, s)
		if pan != nil {
			r.Bad("binary", key, pos, fmt.Sprintf("Parse panics: %s at %s (%s)", pan.why, pan.pos, x.facts()))
			return
		}
		r.Good("binary", key, pos)
		t, ok := ret.(xTuple)
		if !ok || len(t) != 2 {
			x.giveUp("the decoder's results")
		}
		// the same message with nothing behind it
		s = x.bytesVal(in)
		s.n, s.cap = len(in), len(in)
		tight, pan := x.Call(bin, s)
		if pan != nil {
			r.Bad("inside", key, pos, fmt.Sprintf("Parse panics: %s at %s (%s)", pan.why, pan.pos, x.facts()))
			return
		}
		u, is := tight.(xTuple)
		if !is || len(u) != 2 {
			x.giveUp("the decoder's results")
		}
		decoded := func(ok xv) bool {
			b, is := ok.(xBool)
			return !is || x.decide(b)
		}
		ok = decoded(t[1])
		if !r.Check(ok == decoded(u[1]), "inside", key, pos, "whether a message is decoded depends on what lies behind it ("+x.facts()+")") || !ok {
			return
		}
		b, pan := x.m(t[0], "ToBytes")
		if pan != nil {
			r.Bad("inside", key, pos, "the bytes of a decoded message panic: "+pan.why)
			return
		}
		on := x.depends("outside[")
		for _, e := range x.elems(b) {
			if c, ok := e.(xInt); ok && strings.Contains(x.ikey(c), "outside[") {
				on = "its bytes " + x.ikey(c)
			}
		}
		r.Check(on == "", "inside", key, pos, fmt.Sprintf("a message is decoded depending on %s (%s)", on, x.facts()))
	})
}

func (a *smlRun) binary(bin *ssa.Function) {
	header := []int{0, 1, 1, 1, 0, 0, 1, 2, 3, 4}
	known := func(text []xInt) []xInt {
		out := lenPrefix(10 + len(text))
		for _, b := range header {
			out = append(out, xbyte(b))
		}
		return append(out, text...)
	}
	// any message of up to the header, also its length
	for n := 0; n <= 18; n++ {
		a.frame(bin, fmt.Sprintf("any message of %d bytes", n), func(x *xrun) []xInt { return x.symBytes("in", n) })
	}
	// any text
	for n := 1; n <= 3; n++ {
		a.frame(bin, fmt.Sprintf("any text of %d bytes", n), func(x *xrun) []xInt { return known(x.symBytes("in", n)) })
	}
	// every item head with too few, as many and too many bytes, alone and in a list
	for code := 0; code < 64; code++ {
		for lb := 0; lb <= 3; lb++ {
			for _, list := range []bool{false, true} {
				key := fmt.Sprintf("format code %o with %d length bytes, in a list: %v", code, lb, list)
				// the bytes that may follow the length
				most := 7
				if code == 0 {
					most = 3
				}
				a.frame(bin, key, func(x *xrun) []xInt {
					var text []xInt
					if list {
						text = []xInt{xbyte(1), xbyte(1)}
					}
					text = append(text, xbyte(code<<2|lb))
					n := x.choose(lb + most)
					if n < lb {
						// not even the length
						return known(append(text, x.symBytes("length", n)...))
					}
					l := x.symBytes("length", lb)
					for i := 0; i+1 < lb; i++ {
						x.splitAt(l[i], []int64{1})
						l[i] = x.simpKeep(l[i])
					}
					return known(append(append(text, l...), x.symBytes("in", n-lb)...))
				})
			}
		}
	}
}

func (a *smlRun) nesting(bin *ssa.Function) {
	r, P := a.r, a.P
	deepest := func(key string, at *ssa.Function, run func(x *xrun, n int)) {
		depth := map[int]int{}
		for _, n := range []int{800, 1000} {
			a.each("nesting", fmt.Sprintf("%s, %d levels", key, n), at, func(x *xrun) {
				x.max = 40000000
				x.deepest = 0
				run(x, n)
				depth[n] = max(depth[n], x.deepest)
			})
		}
		r.Check(depth[800] > 0 && depth[800] == depth[1000], "nesting", key, P.pos(at.Pos()), fmt.Sprintf("800 lists in lists take %d calls in calls, 1000 take %d", depth[800], depth[1000]))
	}
	deepest("binary lists", bin, func(x *xrun, n int) {
		var text []xInt
		for i := 0; i < n; i++ {
			text = append(text, xbyte(1), xbyte(1))
		}
		text = append(text, xbyte(1), xbyte(0))
		if _, _, pan := a.parse(x, itemFrame(text)); pan != nil {
			r.Bad("nesting", "binary lists", P.pos(bin.Pos()), "Parse panics: "+pan.why)
		}
	})
	deepest("SML lists", a.smlParse, func(x *xrun, n int) {
		x.text = true
		if _, _, pan := a.sml(x, xStr{s: "S1F1 H->E " + rep("<L ", n) + rep(">", n) + "."}); pan != nil {
			r.Bad("nesting", "SML lists", P.pos(a.smlParse.Pos()), "Parse panics: "+pan.why)
		}
	})
}

// returns evaluates the SML parser on a text.
func (a *smlRun) returns(key, pattern string) {
	r, pos := a.r, a.P.pos(a.smlParse.Pos())
	a.each("text", key, a.smlParse, func(x *xrun) {
		x.text = true
		x.max = 4000000
		_, _, pan := a.sml(x, x.smlText(pattern))
		if pan != nil {
			r.Bad("text", key, pos, fmt.Sprintf("Parse panics on %q: %s at %s (%s)", pattern, pan.why, pan.pos, x.facts()))
			return
		}
		r.Good("text", key, pos)
	})
}

func (a *smlRun) texts() {
	// contexts in which unknown characters follow
	contexts := map[string][2]string{
		"start":               {"", ""},
		"header":              {"S1F1 ", ""},
		"stream":              {"S", ""},
		"function":            {"S1F", ""},
		"direction":           {"S1F1 H", ""},
		"direction end":       {"S1F1 H<-", ""},
		"wait bit":            {"S1F1 [", ""},
		"name":                {"S1F1 H->E a", ""},
		"after a message":     {"S1F1 H->E .", ""},
		"item":                {"S1F1 H->E <", ""},
		"item type":           {"S1F1 H->E <U", ""},
		"size":                {"S1F1 H->E <U1[", ""},
		"size limit":          {"S1F1 H->E <U1[1", ""},
		"size range":          {"S1F1 H->E <U1[1..", ""},
		"size end":            {"S1F1 H->E <A[2", "] v>."},
		"value":               {"S1F1 H->E <U1 ", ">."},
		"string":              {"S1F1 H->E <A \"", "\">."},
		"open string":         {"S1F1 H->E <A \"", ""},
		"escape":              {"S1F1 H->E <A \"\\", "\">."},
		"number":              {"S1F1 H->E <U1 1", ">."},
		"based number":        {"S1F1 H->E <I1 0", ">."},
		"sign":                {"S1F1 H->E <I1 -", ">."},
		"float":               {"S1F1 H->E <F4 1.", ">."},
		"exponent":            {"S1F1 H->E <F8 1e", ">."},
		"ascii code":          {"S1F1 H->E <A 0x", ">."},
		"binary":              {"S1F1 H->E <B 0b", ">."},
		"boolean":             {"S1F1 H->E <BOOLEAN T", ">."},
		"list":                {"S1F1 H->E <L <L>", ">."},
		"ellipsis":            {"S1F1 H->E <L <L> ...", ">."},
		"ellipsis count":      {"S1F1 H->E <L <L> ...[", "]>."},
		"variable":            {"S1F1 H->E <L v", ">."},
		"variable index":      {"S1F1 H->E <L v[", "] <L>>."},
		"comment":             {"S1F1 //", ""},
		"comment in an item":  {"S1F1 H->E <L //", "\n>."},
		"slash":               {"/", ""},
		"slash in an item":    {"S1F1 H->E <L /", ">."},
		"after an item":       {"S1F1 H->E <L>", "."},
		"after a nested item": {"S1F1 H->E <L <L <U1 1>>", ">."},
	}
	for _, k := range sortedKeys(contexts) {
		c := contexts[k]
		a.returns(k+": one character", c[0]+"§?"+c[1])
		a.returns(k+": two characters", c[0]+"§?§?"+c[1])
		a.returns(k+": the end", c[0])
	}
	for _, t := range []string{"\xff", "é", "\xe2\x82", "\x00", "\u2028", "\u0085", "\v", "\u00a0"} {
		for _, k := range sortedKeys(contexts) {
			a.returns(fmt.Sprintf("%s: %q", k, t), contexts[k][0]+t+contexts[k][1])
		}
	}
	// a text that ends anywhere
	whole := "S1F13 [W] H<->E Name // c\n<L[1..2] <A[1..] \"x\" 0x0A> <L <BOOLEAN T F v> ... > <B[1] 0b11> <F8 -1.5e-3 w[1]> <I1[..3] -1> >."
	for i := range whole {
		a.returns(fmt.Sprintf("a message that ends after %d bytes", i), whole[:i])
		a.returns(fmt.Sprintf("a message with another character after %d bytes", i), whole[:i]+"§?"+whole[i+1:])
	}
}

// recovered lets the instructions that may panic do so.
func (a *smlRun) recovered(bin *ssa.Function) {
	r, P := a.r, a.P
	for _, f := range e5 {
		key := "binary " + f.name
		a.each("recovered", key, bin, func(x *xrun) {
			x.max = 4000000
			n := 1
			if f.name == "list" {
				n = 2
			}
			text := itemHead(f.code, n*max(f.width, 1), 1)
			if f.name == "list" {
				text = append(itemHead(f.code, n, 1), xbyte(1), xbyte(0), xbyte(1), xbyte(0))
			} else {
				for i := 0; i < n*f.width; i++ {
					text = append(text, xbyte(1))
				}
			}
			x.inject = true
			msg, ok, pan := a.parse(x, itemFrame(text))
			x.inject = false
			_ = msg
			r.Check(pan == nil, "recovered", key, P.pos(bin.Pos()), fmt.Sprintf("a panic at %s leaves the decoder", at(pan)))
			r.Check(!x.injected || !ok || pan != nil, "recovered", key+": result", P.pos(bin.Pos()), "a message is returned although decoding it panicked")
		})
		T := smlType(f)
		v := map[string]string{"list": "<L>", "ascii": `"a" 1`, "boolean": "T"}[f.name]
		if v == "" {
			v = "1"
		}
		key = "SML " + T
		a.each("recovered", key, a.smlParse, func(x *xrun) {
			x.max = 4000000
			x.text = true
			s := xStr{s: "S1F1 W H->E n <" + T + "[1..2] " + v + ">."}
			x.inject = true
			msgs, errs, pan := a.sml(x, s)
			x.inject = false
			r.Check(pan == nil, "recovered", key, P.pos(a.smlParse.Pos()), fmt.Sprintf("a panic at %s leaves the SML parser", at(pan)))
			r.Check(!x.injected || errs > 0 && len(msgs) == 0 || pan != nil, "recovered", key+": result", P.pos(a.smlParse.Pos()), "a message is returned although parsing it panicked")
		})
	}
}

func at(p *xPanic) string {
	if p == nil {
		return ""
	}
	return p.pos
}

func divisor(v ssa.Value) bool {
	c, ok := constInt(v)
	return ok && c != 0
}
