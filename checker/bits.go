package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"
)

// Bit provenance: integers whose bits are known to be 0, 1 or a particular
// bit of a named source. Shifts, masks, disjoint additions, conversions and
// byte-wise copies are exact, so that any way of taking a number apart into
// bytes and putting it together again is recognised.

// Bit is a constant (S == ""), unknown (S == "?") or bit I of source S.
type Bit struct {
	S string
	I int
}

func bitsKey(bs []Bit) string {
	var b strings.Builder
	for i := 0; i < len(bs); {
		j := i + 1
		for j < len(bs) && bs[j].S == bs[i].S && (bs[i].S == "?" || bs[i].S == "" && bs[j].I == bs[i].I || bs[i].S != "" && bs[j].I == bs[i].I+j-i) {
			j++
		}
		b.WriteString(bs[i].S + "#" + strconv.Itoa(bs[i].I) + "x" + strconv.Itoa(j-i) + " ")
		i = j
	}
	return b.String()
}

func intWidth(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8, signed
	case types.Uint16, types.Int16:
		return 16, signed
	case types.Uint32, types.Int32:
		return 32, signed
	}
	return 64, signed
}

var beRe = regexp.MustCompile(`^u(16|32|64)\((.*)\)$`)

// toBits gives the bits of a value of type t.
func (e *Engine) toBits(v Val, t types.Type) ([]Bit, bool) {
	w, _ := intWidth(t)
	if w == 0 {
		return nil, false
	}
	out := make([]Bit, w)
	switch v.K {
	case KConst:
		n, ok := constant.Int64Val(constant.ToInt(v.C))
		if !ok {
			return nil, false
		}
		for i := range out {
			out[i].I = int(uint64(n) >> uint(i) & 1)
		}
		return out, true
	case KBits:
		copy(out, v.B)
		for i := len(v.B); i < w; i++ {
			out[i] = Bit{}
		}
		return out, true
	case KTag:
		if m := beRe.FindStringSubmatch(v.Tag); m != nil {
			n, _ := strconv.Atoi(m[1])
			for i := 0; i < n && i < w; i++ {
				out[i] = Bit{elemTag(m[2], n/8-1-i/8), i % 8}
			}
			return out, true
		}
		sw := w
		if x, ok := e.srcW[v.Tag]; ok {
			sw = x.w
			for i := range out {
				switch {
				case i < sw:
					out[i] = Bit{v.Tag, i}
				case x.signed:
					out[i] = Bit{v.Tag, sw - 1}
				}
			}
			return out, true
		}
		_, sg := intWidth(t)
		e.srcW[v.Tag] = srcWidth{w, sg}
		for i := range out {
			out[i] = Bit{v.Tag, i}
		}
		return out, true
	}
	for i := range out {
		out[i] = Bit{"?", 0}
	}
	return out, true
}

type srcWidth struct {
	w      int
	signed bool
}

var subRe = regexp.MustCompile(`^(.*)\[(\d+):(\d*)\]$`)

// elemTag names element i of a tagged slice.
func elemTag(tag string, i int) string {
	if m := subRe.FindStringSubmatch(tag); m != nil {
		lo, _ := strconv.Atoi(m[2])
		return m[1] + "[" + strconv.Itoa(lo+i) + "]"
	}
	return tag + "[" + strconv.Itoa(i) + "]"
}

func subTag(tag string, lo, hi int) string {
	base, off := tag, 0
	if m := subRe.FindStringSubmatch(tag); m != nil {
		base = m[1]
		off, _ = strconv.Atoi(m[2])
		if hi < 0 && m[3] != "" {
			h, _ := strconv.Atoi(m[3])
			hi = h - off
		}
	}
	lo += off
	if hi >= 0 {
		hi += off
	}
	if lo == 0 && (hi < 0 || hi == tagLen(base)) {
		return base
	}
	hs := ""
	if hi >= 0 {
		hs = strconv.Itoa(hi)
	}
	return base + "[" + strconv.Itoa(lo) + ":" + hs + "]"
}

// tagLen is the known length of a tagged slice, or -1.
func tagLen(tag string) int {
	if m := subRe.FindStringSubmatch(tag); m != nil {
		lo, _ := strconv.Atoi(m[2])
		if m[3] != "" {
			hi, _ := strconv.Atoi(m[3])
			return hi - lo
		}
		if n := tagLen(m[1]); n >= 0 {
			return n - lo
		}
		return -1
	}
	if strings.HasPrefix(tag, "sys(") || strings.HasPrefix(tag, "SYS") {
		return 4
	}
	return -1
}

// fromBits normalises: constants and whole sources get their plain form.
func (e *Engine) fromBits(bs []Bit, t types.Type) Val {
	_, signed := intWidth(t)
	allc := true
	var n uint64
	for i, b := range bs {
		if b.S != "" {
			allc = false
		} else if b.I == 1 {
			n |= 1 << uint(i)
		}
	}
	if allc {
		w := len(bs)
		if signed && w < 64 && n>>(uint(w)-1)&1 == 1 {
			return CInt(int64(n) - int64(1)<<uint(w))
		}
		if !signed && w == 64 {
			return Val{K: KConst, C: constant.MakeUint64(n)}
		}
		return CInt(int64(n))
	}
	s := bs[0].S
	if s != "" && s != "?" {
		if sw, ok := e.srcW[s]; ok && sw.w <= len(bs) {
			same := true
			for i, b := range bs {
				switch {
				case i < sw.w:
					same = same && b == Bit{s, i}
				case sw.signed:
					same = same && b == Bit{s, sw.w - 1}
				default:
					same = same && b == Bit{}
				}
			}
			if same {
				return TagV(s)
			}
		}
		// a big-endian group of slice elements
		for _, n := range []int{32, 16, 64} {
			if len(bs) < n {
				continue
			}
			m := regexp.MustCompile(`^(.*)\[(\d+)\]$`).FindStringSubmatch(s)
			if m == nil {
				break
			}
			last, _ := strconv.Atoi(m[2])
			k := n / 8
			if last < k-1 {
				continue
			}
			same := true
			for i, b := range bs {
				if i < n {
					same = same && b == Bit{m[1] + "[" + strconv.Itoa(last-i/8) + "]", i % 8}
				} else {
					same = same && b == Bit{}
				}
			}
			if same {
				lo := last - k + 1
				return TagV("u" + strconv.Itoa(n) + "(" + subTag(m[1], lo, lo+k) + ")")
			}
		}
	}
	for _, b := range bs {
		if b.S != "?" {
			return Val{K: KBits, B: bs}
		}
	}
	return Top
}

// bitOp computes a binary operation on bits, if it can.
func (e *Engine) bitOp(op token.Token, l, r Val, lt, t types.Type) (Val, bool) {
	interesting := func(v Val) bool { return v.K == KBits || v.K == KTag }
	if !interesting(l) && !interesting(r) {
		return Top, false
	}
	w, signed := intWidth(t)
	if w == 0 {
		return Top, false
	}
	switch op {
	case token.SHL, token.SHR, token.MUL, token.QUO, token.REM:
		n, ok := r.IsInt()
		if !ok && op == token.MUL {
			if n, ok = l.IsInt(); ok {
				l = r
			}
		}
		if !ok || n < 0 {
			return Top, false
		}
		lb, ok := e.toBits(l, t)
		if !ok {
			return Top, false
		}
		nonneg := !signed || lb[w-1] == Bit{}
		if op == token.MUL || op == token.QUO || op == token.REM {
			k := 0
			for int64(1)<<uint(k) < n && k < 62 {
				k++
			}
			if int64(1)<<uint(k) != n || op != token.MUL && !nonneg {
				return Top, false
			}
			switch op {
			case token.MUL:
				op, n = token.SHL, int64(k)
			case token.QUO:
				op, n = token.SHR, int64(k)
			default:
				for i := k; i < w; i++ {
					lb[i] = Bit{}
				}
				return e.fromBits(lb, t), true
			}
		}
		out := make([]Bit, w)
		for i := range out {
			j := i - int(n)
			if op == token.SHR {
				j = i + int(n)
			}
			switch {
			case j >= 0 && j < w:
				out[i] = lb[j]
			case op == token.SHR && signed:
				out[i] = lb[w-1]
			}
		}
		return e.fromBits(out, t), true
	case token.AND, token.OR, token.XOR, token.ADD, token.AND_NOT, token.SUB:
		lb, ok1 := e.toBits(l, t)
		rb, ok2 := e.toBits(r, t)
		if !ok1 || !ok2 {
			return Top, false
		}
		zero, one := Bit{}, Bit{"", 1}
		out := make([]Bit, w)
		for i := range out {
			a, b := lb[i], rb[i]
			o := Bit{"?", 0}
			switch op {
			case token.AND:
				switch {
				case a == zero || b == zero:
					o = zero
				case a == one:
					o = b
				case b == one || a == b && a.S != "?":
					o = a
				}
			case token.OR:
				switch {
				case a == one || b == one:
					o = one
				case a == zero:
					o = b
				case b == zero || a == b && a.S != "?":
					o = a
				}
			case token.AND_NOT:
				switch {
				case b == one || a == zero:
					o = zero
				case b == zero:
					o = a
				}
			case token.XOR:
				switch {
				case a == zero:
					o = b
				case b == zero:
					o = a
				case a.S == "" && b.S == "":
					o = Bit{"", a.I ^ b.I}
				}
			case token.ADD:
				// only if no carry can occur
				switch {
				case a == zero:
					o = b
				case b == zero:
					o = a
				default:
					return Top, false
				}
			case token.SUB:
				switch {
				case b == zero:
					o = a
				case a == b && a.S != "?":
					o = zero
				default:
					return Top, false
				}
			}
			out[i] = o
		}
		return e.fromBits(out, t), true
	}
	return Top, false
}

// bitConvert converts between integer types.
func (e *Engine) bitConvert(v Val, from, to types.Type) (Val, bool) {
	fw, fs := intWidth(from)
	tw, _ := intWidth(to)
	if fw == 0 || tw == 0 {
		return Top, false
	}
	bs, ok := e.toBits(v, from)
	if !ok {
		return Top, false
	}
	out := make([]Bit, tw)
	for i := range out {
		switch {
		case i < fw:
			out[i] = bs[i]
		case fs:
			out[i] = bs[fw-1]
		}
	}
	return e.fromBits(out, to), true
}

// bitTest recognises a branch condition that tests one bit of a source; val
// is the bit's value on the taken edge.
func (e *Engine) bitTest(op token.Token, l, r Val, lt types.Type, taken bool) (src string, bit int, val, ok bool) {
	if l.K == KConst && r.K != KConst {
		l, r = r, l
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	n, isc := r.IsInt()
	if !isc || l.K != KBits && l.K != KTag {
		return
	}
	bs, good := e.toBits(l, lt)
	if !good {
		return
	}
	w, signed := intWidth(lt)
	switch op {
	case token.EQL, token.NEQ:
		idx := -1
		for i, b := range bs {
			switch {
			case b.S == "?":
				return
			case b.S != "":
				if idx >= 0 {
					return
				}
				idx = i
			case uint64(n)>>uint(i)&1 != uint64(b.I):
				return
			}
		}
		if idx < 0 {
			return
		}
		v := uint64(n)>>uint(idx)&1 == 1
		if op == token.NEQ {
			v = !v
		}
		return bs[idx].S, bs[idx].I, v == taken, true
	case token.GEQ, token.GTR, token.LSS, token.LEQ:
		// x >= 2^k where k is the top bit x can have
		if op == token.GTR || op == token.LEQ {
			n++
		}
		top := -1
		for i, b := range bs {
			if b != (Bit{}) {
				top = i
			}
		}
		if top < 0 || signed && top == w-1 || n != int64(1)<<uint(top) || bs[top].S == "" || bs[top].S == "?" {
			return
		}
		v := op == token.GEQ || op == token.GTR
		return bs[top].S, bs[top].I, v == taken, true
	}
	return
}
