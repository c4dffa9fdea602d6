package main

// A bit-level abstract evaluator for the pure codec code (items, messages,
// decoders). Element counts are fixed by the scenario; every scalar and every
// byte is symbolic and carries its provenance bit by bit (bits.go), plus an
// interval. Conditions the facts do not decide split the analysis; paths are
// never merged. A path is a list of such decisions, so the heap can be an
// ordinary mutable one.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type xv interface{}

type xInt struct {
	con bool
	u   uint64 // value modulo 2^w
	b   []Bit
	w   int
	sg  bool
}
type xBool struct {
	con bool
	v   bool
	key string // a named fact
	neg bool
	eq  [2][]Bit // the sides of an equality
}
type xStr struct {
	s   string // concrete, unless sym or b is set
	b   []xInt // bytes, some symbolic
	sym string // opaque
}
type xFlt struct {
	con bool
	f   float64
	sym string
	f32 bool // the symbol stands for a float32
}
type xNil struct{}
type xLoc struct{ v xv }
type xAgg struct {
	f []*xLoc
	t types.Type
}
type xSlice struct {
	e   []*xLoc // the backing array
	off int
	n   int
	cap int
	sym string // opaque slice of symbolic length n
	len xInt
}
type xEnt struct {
	k, v xv
	dead bool
}
type xMap struct {
	m    map[string]*xEnt
	list []*xEnt
}
type xIface struct {
	t types.Type
	v xv
}
type xFunc struct {
	fn *ssa.Function
	bt *ssa.Builtin
	b  []xv
}
type xTuple []xv
type xAny struct { // an unknown value
	name string
	t    types.Type
}
type xIter struct {
	m    *xMap
	i    int
	str  []xInt
	keys []*xEnt
}
type xExt struct { // an object of a modelled library type
	kind string
	v    any
}

// xPanic is a panic of the analysed code.
type xPanic struct {
	v   xv
	why string
	pos string
}
type xGiveUp struct{ why string }
type xInfeasible struct{}

type ival struct {
	lo, hi *big.Int
}
type fival struct {
	lo, hi           float64
	loOpen, hiOpen   bool
	nan, known       bool
	minusInf, plsInf bool
}

type xrun struct {
	P       *Program
	dec     []int
	next    int
	alts    [][]int
	src     map[string]srcWidth
	iv      map[string]ival
	fv      map[string]fival
	bf      map[string]bool
	bits    map[Bit]int
	globals map[*ssa.Global]*xLoc
	inited  map[*ssa.Package]bool
	conds   []string
	steps   int
	max     int
	depth   int
	fresh   int
	seen    map[*ssa.Function]bool
	frames  []*xframe
	ext     func(x *xrun, name string, site ssa.CallInstruction, args []xv) (xv, bool)
	mapRev  bool
	anyLoc  map[string]*xLoc
	fbits   map[string]xInt // floats made from bits
	bufm    map[*xLoc][]xInt
	opq     map[*xLoc]bool

	text             bool              // numbers are written and read as text of unknown digits
	inject, injected bool              // let instructions panic
	deepest          int               // most calls in calls
	joined           map[string][]Bit  // bits of several sources, whose value is in iv
	twins            map[string][]twin // of a value, those at a constant distance
	numerals         map[string]*numeral
	written          map[string]*numeral
}

type xframe struct {
	fn      *ssa.Function
	regs    map[ssa.Value]xv
	defers  []func()
	pan     *xPanic // a panic on its way
	deferOf *xframe // for a deferred call, the frame that deferred it
	pos     token.Pos
}

// explore runs body once for every path, at most max.
func (P *Program) explore(max int, body func(x *xrun)) (paths int, over string) {
	work := [][]int{nil}
	for len(work) > 0 {
		if paths >= max {
			return paths, fmt.Sprintf("more than %d paths", max)
		}
		dec := work[len(work)-1]
		work = work[:len(work)-1]
		x := &xrun{P: P, dec: dec, src: map[string]srcWidth{}, iv: map[string]ival{}, fv: map[string]fival{}, bf: map[string]bool{}, bits: map[Bit]int{}, globals: map[*ssa.Global]*xLoc{}, inited: map[*ssa.Package]bool{}, max: 400000, seen: map[*ssa.Function]bool{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch g := r.(type) {
					case xGiveUp:
						over = g.why
					case xInfeasible:
					default:
						panic(r)
					}
				}
			}()
			paths++
			body(x)
		}()
		work = append(work, x.alts...)
		if over != "" {
			return paths, over
		}
	}
	return paths, over
}

func (x *xrun) giveUp(f string, a ...any) {
	pos := ""
	if n := len(x.frames); n > 0 {
		pos = " at " + x.P.pos(x.frames[n-1].pos) + " in " + x.P.fname(x.frames[n-1].fn)
	}
	panic(xGiveUp{fmt.Sprintf(f, a...) + pos})
}

func (x *xrun) throw(why string) {
	pos := ""
	if n := len(x.frames); n > 0 {
		pos = x.P.pos(x.frames[n-1].pos)
	}
	panic(&xPanic{v: xAny{name: "runtime error: " + why}, why: why, pos: pos})
}

// choose splits the analysis in n.
func (x *xrun) choose(n int) int {
	if x.next < len(x.dec) {
		d := x.dec[x.next]
		x.next++
		return d
	}
	if x.next > 20000 {
		x.giveUp("too many decisions")
	}
	for i := n - 1; i > 0; i-- {
		x.alts = append(x.alts, append(append([]int{}, x.dec[:x.next]...), i))
	}
	x.dec = append(x.dec, 0)
	x.next++
	return 0
}

// ---- integers

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func xi(n int64, t types.Type) xInt {
	w, sg := intWidth(t)
	return xInt{con: true, u: uint64(n) & mask(w), w: w, sg: sg}
}
func xint(n int64) xInt { return xInt{con: true, u: uint64(n), w: 64, sg: true} }
func xbyte(n int) xInt  { return xInt{con: true, u: uint64(n) & 255, w: 8} }
func xbool(b bool) xBool {
	return xBool{con: true, v: b}
}

func (a xInt) int64() int64 {
	if a.sg && a.w < 64 && a.u>>(uint(a.w)-1)&1 == 1 {
		return int64(a.u | ^mask(a.w))
	}
	return int64(a.u)
}

// sym makes a symbolic integer of a type.
func (x *xrun) sym(name string, t types.Type) xInt {
	w, sg := intWidth(t)
	x.src[name] = srcWidth{w, sg}
	b := make([]Bit, w)
	for i := range b {
		b[i] = Bit{name, i}
	}
	return xInt{b: b, w: w, sg: sg}
}

func (x *xrun) symByte(name string) xInt { return x.sym(name, types.Typ[types.Uint8]) }

func (x *xrun) bitsOf(a xInt) []Bit {
	out := make([]Bit, a.w)
	if a.con {
		for i := range out {
			out[i].I = int(a.u >> uint(i) & 1)
		}
		return out
	}
	for i, b := range a.b {
		out[i] = x.norm(b)
	}
	return out
}

func (x *xrun) norm(b Bit) Bit {
	if b.S == "" {
		return b
	}
	if v, ok := x.bits[b]; ok {
		return Bit{"", v}
	}
	if iv, ok := x.iv[b.S]; ok {
		if iv.lo.Sign() >= 0 && iv.hi.BitLen() <= b.I {
			return Bit{}
		}
		if iv.lo.Cmp(iv.hi) == 0 {
			m := new(big.Int).And(iv.lo, new(big.Int).SetUint64(^uint64(0)))
			return Bit{"", int(m.Bit(b.I))}
		}
		if iv.lo.Sign() < 0 {
			sw, ok := x.src[b.S]
			if ok && sw.signed && b.I < sw.w-1 && max(signLen(iv.lo), signLen(iv.hi)) <= b.I {
				// a copy of the sign
				return x.norm(Bit{b.S, sw.w - 1})
			}
			if iv.hi.Sign() < 0 && ok && b.I == sw.w-1 {
				return Bit{"", 1}
			}
		}
	}
	return b
}

// signLen is the number of bits of a number besides its sign.
func signLen(n *big.Int) int {
	if n.Sign() >= 0 {
		return n.BitLen()
	}
	return new(big.Int).Not(n).BitLen()
}

func mkInt(b []Bit, sg bool) xInt {
	a := xInt{b: b, w: len(b), sg: sg, con: true}
	for i, t := range b {
		if t.S != "" {
			a.con = false
		} else {
			a.u |= uint64(t.I) << uint(i)
		}
	}
	return a
}

func (x *xrun) simp(a xInt) xInt {
	if a.con {
		return a
	}
	return mkInt(x.bitsOf(a), a.sg)
}

func tsrc(w int, sg bool) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if sg {
		hi = new(big.Int).Lsh(one, uint(w-1))
		lo = new(big.Int).Neg(hi)
		return lo, hi.Sub(hi, one)
	}
	hi = new(big.Int).Lsh(one, uint(w))
	return big.NewInt(0), hi.Sub(hi, one)
}

// canon: the value equals a named source, or a slice of its bits.
func (x *xrun) canon(a xInt) (name string, ok bool) {
	raw := a.b
	s := raw[0].S
	if s == "" {
		// the constant low bits may hide a source; use the bits themselves
		return "", false
	}
	sw := x.src[s]
	for i, b := range raw {
		var want Bit
		switch {
		case i < sw.w:
			want = Bit{s, i}
		case sw.signed:
			want = Bit{s, sw.w - 1}
		}
		if b != want && x.norm(b) != x.norm(want) {
			return "", false
		}
	}
	if a.sg && !sw.signed && sw.w == a.w || !a.sg && sw.signed {
		// a reinterpretation: only the same value if it is not negative
		if x.norm(Bit{s, sw.w - 1}) != (Bit{}) {
			return "", false
		}
	}
	if sw.w > a.w {
		for i := a.w; i < sw.w; i++ {
			n := x.norm(Bit{s, i})
			if n != (Bit{}) {
				return "", false
			}
		}
		if a.sg && x.norm(Bit{s, a.w - 1}) != (Bit{}) {
			return "", false
		}
	}
	return s, true
}

func (x *xrun) rangeOf(a xInt) (lo, hi *big.Int, key string) {
	if a.con {
		n := x.bigOf(a)
		return n, n, ""
	}
	if s, ok := x.canon(a); ok {
		key = s
		if iv, ok := x.iv[s]; ok {
			lo, hi = x.bitBounds(a, iv.lo, iv.hi)
			return lo, hi, s
		}
		lo, hi = tsrc(x.src[s].w, x.src[s].signed)
		lo, hi = x.bitBounds(a, lo, hi)
		tl, th := tsrc(a.w, a.sg)
		if lo.Cmp(tl) < 0 {
			lo = tl
		}
		if hi.Cmp(th) > 0 {
			hi = th
		}
		return lo, hi, s
	}
	b := x.bitsOf(a)
	key = bitsKey(b)
	if a.sg {
		key += "s"
	}
	lo, hi = tsrc(a.w, a.sg)
	top := -1
	for i, t := range b {
		if t != (Bit{}) {
			top = i
		}
	}
	if top < a.w-1 {
		lo, hi = big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(top+1)), big.NewInt(1))
		// a contiguous run of one source
		if s := b[0].S; s != "" {
			run := true
			for i := 0; i <= top; i++ {
				run = run && b[i] == Bit{s, b[0].I + i}
			}
			if iv, ok := x.iv[s]; run && ok && iv.lo.Sign() >= 0 && iv.hi.BitLen() <= b[0].I+top+1 {
				lo = new(big.Int).Rsh(iv.lo, uint(b[0].I))
				hi = new(big.Int).Rsh(iv.hi, uint(b[0].I))
			}
		}
		// runs of several sources side by side
		sl, sh := new(big.Int), new(big.Int)
		for i := 0; i <= top && sl != nil; {
			if b[i].S == "" {
				if b[i].I == 1 {
					sl.SetBit(sl, i, 1)
					sh.SetBit(sh, i, 1)
				}
				i++
				continue
			}
			n := 1
			for i+n <= top && b[i+n] == (Bit{b[i].S, b[i].I + n}) {
				n++
			}
			l, h := new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
			if iv, ok := x.iv[b[i].S]; ok && iv.lo.Sign() >= 0 && iv.hi.BitLen() <= b[i].I+n {
				l, h = new(big.Int).Rsh(iv.lo, uint(b[i].I)), new(big.Int).Rsh(iv.hi, uint(b[i].I))
			}
			sl.Add(sl, new(big.Int).Lsh(l, uint(i)))
			sh.Add(sh, new(big.Int).Lsh(h, uint(i)))
			i += n
		}
		if sl.Cmp(lo) > 0 {
			lo = sl
		}
		if sh.Cmp(hi) < 0 {
			hi = sh
		}
		// the upper bits of a value that is bounded
		for _, k := range sortedKeys(x.joined) {
			w := x.joined[k]
			at := -1
			for i := range w {
				if top >= 0 && w[i] == b[0] && at < 0 && w[i].S != "" {
					at = i
				}
			}
			same := at > 0
			for i := 0; same && at+i < len(w); i++ {
				same = i < len(b) && b[i] == w[at+i]
			}
			for i := len(w) - at; same && i < len(b); i++ {
				same = b[i] == Bit{}
			}
			iv, ok := x.iv[k]
			if !same || !ok {
				continue
			}
			if l := new(big.Int).Rsh(iv.lo, uint(at)); l.Cmp(lo) > 0 {
				lo = l
			}
			if h := new(big.Int).Rsh(iv.hi, uint(at)); h.Cmp(hi) < 0 {
				hi = h
			}
		}
	} else if a.sg && b[a.w-1].S != "" {
		// a sign extension
		k := a.w - 1
		for k > 0 && b[k-1] == b[a.w-1] {
			k--
		}
		hi = new(big.Int).Lsh(big.NewInt(1), uint(k))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big.NewInt(1))
	}
	lo, hi = x.bitBounds(a, lo, hi)
	if s := b[0]; s.S != "" && s.I == 0 {
		// another view of a source of the same width
		if sw, ok := x.src[s.S]; ok && sw.w == a.w && sw.signed != a.sg && wholeOf(a.b, s.S) {
			if iv, ok := x.iv[s.S]; ok && (iv.lo.Sign() >= 0 || iv.hi.Sign() < 0) {
				l, h := view(iv.lo, a.w, a.sg), view(iv.hi, a.w, a.sg)
				if l.Cmp(h) <= 0 && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
					lo, hi = l, h
				}
			}
		}
	}
	if iv, ok := x.iv[key]; ok {
		if iv.lo.Cmp(lo) > 0 {
			lo = iv.lo
		}
		if iv.hi.Cmp(hi) < 0 {
			hi = iv.hi
		}
	}
	return lo, hi, key
}

// wholeOf: the bits are those of one source, in order.
func wholeOf(b []Bit, s string) bool {
	for i, t := range b {
		if t != (Bit{s, i}) {
			return false
		}
	}
	return true
}

// view is a number taken as signed or unsigned.
func view(n *big.Int, w int, sg bool) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	if sg && v.Bit(w-1) == 1 {
		v.Sub(v, m)
	}
	return v
}

// bitBounds narrows an interval by the bits that are known.
func (x *xrun) bitBounds(a xInt, lo, hi *big.Int) (*big.Int, *big.Int) {
	mn, mx := boundsOfBits(x.bitsOf(a), a.sg)
	if mn.Cmp(lo) > 0 {
		lo = mn
	}
	if mx.Cmp(hi) < 0 {
		hi = mx
	}
	return lo, hi
}

func (x *xrun) bigOf(a xInt) *big.Int {
	if a.sg {
		return big.NewInt(a.int64())
	}
	return new(big.Int).SetUint64(a.u)
}

func (x *xrun) setRange(a xInt, key string, lo, hi *big.Int) {
	if lo.Cmp(hi) > 0 {
		panic(xInfeasible{})
	}
	x.iv[key] = ival{lo, hi}
	for _, t := range x.twins[key] {
		// the same value but for a constant
		l, h := t.of(lo), t.of(hi)
		if t.neg {
			l, h = h, l
		}
		tlo, thi, tk := x.rangeOf(t.v)
		if tlo.Cmp(l) > 0 {
			l = tlo
		}
		if thi.Cmp(h) < 0 {
			h = thi
		}
		if l.Cmp(tlo) != 0 || h.Cmp(thi) != 0 {
			x.setRange(t.v, tk, l, h)
		}
	}
	b := x.bitsOf(a)
	if _, src := x.src[key]; !src && lo.Sign() >= 0 {
		if x.joined == nil {
			x.joined = map[string][]Bit{}
		}
		x.joined[key] = b
	}
	// another view of a source tells about the source
	if s := a.b[0].S; s != "" && s != key && (lo.Sign() >= 0 || hi.Sign() < 0) && wholeOf(a.b, s) {
		if sw, ok := x.src[s]; ok && sw.w == a.w {
			l, h := view(lo, sw.w, sw.signed), view(hi, sw.w, sw.signed)
			if l.Cmp(h) <= 0 {
				if iv, ok := x.iv[s]; ok {
					if iv.lo.Cmp(l) > 0 {
						l = iv.lo
					}
					if iv.hi.Cmp(h) < 0 {
						h = iv.hi
					}
				}
				if l.Cmp(h) > 0 {
					panic(xInfeasible{})
				}
				x.iv[s] = ival{l, h}
			}
		}
	}
	// a run of bits of a source tells about the source
	if lo.Sign() == 0 && hi.Sign() == 0 {
		x.iv[key] = ival{lo, hi}
		for _, t := range b {
			if t.S != "" {
				x.setBit(t, 0)
			}
		}
		return
	}
	free := -1
	n := 0
	for i, t := range b {
		if t.S != "" {
			n++
			free = i
		}
	}
	if n == 1 && lo.Cmp(hi) == 0 {
		m := new(big.Int).And(lo, new(big.Int).SetUint64(^uint64(0)))
		x.setBit(b[free], int(m.Bit(free)))
	}
	if lo.Cmp(hi) == 0 && n > 1 {
		if _, src := x.src[key]; !src {
			m := new(big.Int).And(lo, new(big.Int).SetUint64(^uint64(0)))
			for i, t := range b {
				if t.S != "" {
					x.setBit(t, int(m.Bit(i)))
				}
			}
		}
	}
	// x>>k != 0 means x >= 2^k
	if s := b[0].S; s != "" && lo.Sign() > 0 {
		top := -1
		run := true
		for i, t := range b {
			if t != (Bit{}) {
				top = i
			}
		}
		for i := 0; i <= top; i++ {
			run = run && b[i] == Bit{s, b[0].I + i}
		}
		if iv, ok := x.iv[s]; run && ok && s != key && iv.lo.Sign() >= 0 && iv.hi.BitLen() <= b[0].I+top+1 {
			l := new(big.Int).Lsh(lo, uint(b[0].I))
			if l.Cmp(iv.lo) > 0 {
				if l.Cmp(iv.hi) > 0 {
					panic(xInfeasible{})
				}
				x.iv[s] = ival{l, iv.hi}
			}
		}
	}
}

func (x *xrun) setBit(b Bit, v int) {
	if o, ok := x.bits[b]; ok && o != v {
		panic(xInfeasible{})
	}
	x.bits[b] = v
	sw, ok := x.src[b.S]
	if !ok {
		return
	}
	// the known bits bound the source
	iv, ok := x.iv[b.S]
	if !ok {
		iv.lo, iv.hi = tsrc(sw.w, sw.signed)
	}
	t := make([]Bit, sw.w)
	for i := range t {
		t[i] = x.norm(Bit{b.S, i})
	}
	lo, hi := boundsOfBits(t, sw.signed)
	if lo.Cmp(iv.lo) < 0 {
		lo = iv.lo
	}
	if hi.Cmp(iv.hi) > 0 {
		hi = iv.hi
	}
	if lo.Cmp(hi) > 0 {
		panic(xInfeasible{})
	}
	if ok || lo.Cmp(iv.lo) != 0 || hi.Cmp(iv.hi) != 0 {
		x.iv[b.S] = ival{lo, hi}
	}
}

// boundsOfBits is the interval of the numbers with some known bits.
func boundsOfBits(b []Bit, sg bool) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	one := big.NewInt(1)
	for i, t := range b {
		n := new(big.Int).Lsh(one, uint(i))
		top := sg && i == len(b)-1
		if top {
			n.Neg(n)
		}
		switch {
		case t.S == "":
			if t.I == 1 {
				lo.Add(lo, n)
				hi.Add(hi, n)
			}
		case top:
			lo.Add(lo, n)
		default:
			hi.Add(hi, n)
		}
	}
	return
}

// test decides or splits on a comparison.
func (x *xrun) compareInt(op token.Token, l, r xInt) xBool {
	l, r = x.simpKeep(l), x.simpKeep(r)
	if l.con && r.con {
		c := x.bigOf(l).Cmp(x.bigOf(r))
		return xbool(cmpHolds(op, c))
	}
	if l.con {
		return x.compareInt(swapOp(op), r, l)
	}
	llo, lhi, lk := x.rangeOf(l)
	rlo, rhi, _ := x.rangeOf(r)
	switch {
	case lhi.Cmp(rlo) < 0:
		return xbool(cmpHolds(op, -1))
	case llo.Cmp(rhi) > 0:
		return xbool(cmpHolds(op, 1))
	case llo.Cmp(lhi) == 0 && rlo.Cmp(rhi) == 0:
		return xbool(cmpHolds(op, llo.Cmp(rlo)))
	}
	switch op {
	case token.LEQ:
		if lhi.Cmp(rlo) <= 0 {
			return xbool(true)
		}
	case token.GEQ:
		if llo.Cmp(rhi) >= 0 {
			return xbool(true)
		}
	case token.GTR:
		if lhi.Cmp(rlo) <= 0 {
			return xbool(false)
		}
	case token.LSS:
		if llo.Cmp(rhi) >= 0 {
			return xbool(false)
		}
	}
	lb, rb := x.bitsOf(l), x.bitsOf(r)
	if bitsKey(lb) == bitsKey(rb) {
		return xbool(cmpHolds(op, 0))
	}
	if op == token.EQL || op == token.NEQ {
		for i := range lb {
			if lb[i].S == "" && rb[i].S == "" && lb[i].I != rb[i].I {
				return xbool(op == token.NEQ)
			}
		}
	}
	if !r.con {
		lk, rk := bitsKey(lb), bitsKey(rb)
		if l.sg {
			lk, rk = lk+"s", rk+"s"
		}
		// one key for a relation and its negation
		neg := op == token.NEQ || op == token.LEQ || op == token.GEQ
		switch op {
		case token.EQL, token.NEQ:
			if rk < lk {
				lk, rk = rk, lk
			}
			op = token.EQL
		case token.GTR, token.LEQ:
			lk, rk = rk, lk
			op = token.LSS
		default:
			op = token.LSS
		}
		q := xBool{key: fmt.Sprintf("%s %s %s", lk, op, rk), neg: neg}
		if op == token.EQL {
			q.eq = [2][]Bit{lb, rb}
		}
		return q
	}
	// split
	c := rlo
	one := big.NewInt(1)
	type part struct {
		lo, hi *big.Int
		val    bool
	}
	var parts []part
	below := part{llo, new(big.Int).Sub(c, one), cmpHolds(op, -1)}
	eq := part{c, c, cmpHolds(op, 0)}
	above := part{new(big.Int).Add(c, one), lhi, cmpHolds(op, 1)}
	switch {
	case below.val == eq.val:
		parts = []part{{below.lo, eq.hi, eq.val}, above}
	case above.val == eq.val:
		parts = []part{{eq.lo, above.hi, eq.val}, below}
	default:
		parts = []part{eq, below, above}
	}
	var live []part
	for _, p := range parts {
		if p.lo.Cmp(llo) < 0 {
			p.lo = llo
		}
		if p.hi.Cmp(lhi) > 0 {
			p.hi = lhi
		}
		if p.lo.Cmp(p.hi) <= 0 {
			live = append(live, p)
		}
	}
	p := live[0]
	if len(live) > 1 {
		p = live[x.choose(len(live))]
	}
	x.setRange(l, lk, p.lo, p.hi)
	return xbool(p.val)
}

func (x *xrun) simpKeep(a xInt) xInt {
	if s := x.simp(a); s.con {
		return s
	}
	return a
}

func cmpHolds(op token.Token, c int) bool {
	switch op {
	case token.EQL:
		return c == 0
	case token.NEQ:
		return c != 0
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	}
	return c >= 0
}

func (x *xrun) binInt(op token.Token, l, r xInt, t types.Type) xInt {
	w, sg := l.w, l.sg
	l, r = x.simpKeep(l), x.simpKeep(r)
	m := mask(w)
	if l.con && r.con {
		a, b := l.u, r.u
		var o uint64
		switch op {
		case token.ADD:
			o = a + b
		case token.SUB:
			o = a - b
		case token.MUL:
			o = a * b
		case token.AND:
			o = a & b
		case token.OR:
			o = a | b
		case token.XOR:
			o = a ^ b
		case token.AND_NOT:
			o = a &^ b
		case token.SHL:
			if r.sg && r.int64() < 0 {
				x.throw("negative shift amount")
			}
			o = a << b
		case token.SHR:
			if r.sg && r.int64() < 0 {
				x.throw("negative shift amount")
			}
			if sg {
				o = uint64(l.int64() >> b)
			} else {
				o = a >> b
			}
		case token.QUO, token.REM:
			if b == 0 {
				x.throw("integer divide by zero")
			}
			if sg {
				if op == token.QUO {
					o = uint64(l.int64() / r.int64())
				} else {
					o = uint64(l.int64() % r.int64())
				}
			} else if op == token.QUO {
				o = a / b
			} else {
				o = a % b
			}
		}
		return xInt{con: true, u: o & m, w: w, sg: sg}
	}
	if op == token.QUO || op == token.REM {
		if b, _ := x.compareBool(token.EQL, r, xInt{con: true, w: r.w, sg: r.sg}); b {
			x.throw("integer divide by zero")
		}
	}
	// bit-exact?
	lb := x.bitsOf(l)
	if (op == token.SHL || op == token.SHR) && r.con {
		n := int(r.u)
		if r.u > 1000 {
			n = 1000
		}
		out := make([]Bit, w)
		for i := range out {
			j := i - n
			if op == token.SHR {
				j = i + n
			}
			switch {
			case j >= 0 && j < w:
				out[i] = lb[j]
			case op == token.SHR && sg:
				out[i] = lb[w-1]
			}
		}
		return mkInt(out, sg)
	}
	if op == token.MUL && l.con {
		l, r = r, l
		lb = x.bitsOf(l)
	}
	if (op == token.MUL || op == token.QUO || op == token.REM) && r.con && r.u != 0 && r.u&(r.u-1) == 0 {
		k := 0
		for uint64(1)<<uint(k) < r.u {
			k++
		}
		lo, _, _ := x.rangeOf(l)
		switch {
		case op == token.MUL:
			_, hi, _ := x.rangeOf(l)
			m := x.binInt(token.SHL, l, xint(int64(k)), t)
			nlo, nhi := new(big.Int).Lsh(lo, uint(k)), new(big.Int).Lsh(hi, uint(k))
			tl, th := tsrc(w, sg)
			if !m.con && nlo.Cmp(tl) >= 0 && nhi.Cmp(th) <= 0 {
				if _, _, key := x.rangeOf(m); k > 0 {
					if _, ok := x.iv[key]; !ok {
						x.iv[key] = ival{nlo, nhi}
					}
				}
			}
			return m
		case lo.Sign() >= 0 && op == token.QUO:
			return x.binInt(token.SHR, l, xint(int64(k)), t)
		case lo.Sign() >= 0:
			out := make([]Bit, w)
			copy(out, lb[:k])
			return mkInt(out, sg)
		}
	}
	if op != token.MUL && op != token.QUO && op != token.REM && op != token.SHL && op != token.SHR {
		rb := x.bitsOf(r)
		out := make([]Bit, w)
		zero, one := Bit{}, Bit{"", 1}
		exact := true
		for i := range out {
			a, b := lb[i], rb[i]
			var o Bit
			ok := true
			switch op {
			case token.AND:
				switch {
				case a == zero || b == zero:
				case a == one:
					o = b
				case b == one || a == b:
					o = a
				default:
					ok = false
				}
			case token.OR:
				switch {
				case a == one || b == one:
					o = one
				case a == zero:
					o = b
				case b == zero || a == b:
					o = a
				default:
					ok = false
				}
			case token.AND_NOT:
				switch {
				case b == one || a == zero || a == b:
				case b == zero:
					o = a
				default:
					ok = false
				}
			case token.XOR:
				switch {
				case a == b:
				case a == zero:
					o = b
				case b == zero:
					o = a
				case a.S == "" && b.S == "":
					o.I = a.I ^ b.I
				default:
					ok = false
				}
			case token.ADD:
				switch {
				case a == zero:
					o = b
				case b == zero:
					o = a
				default:
					ok = false
				}
			case token.SUB:
				switch {
				case b == zero:
					o = a
				case a == b:
				case a == one && b.S == "":
					o = zero
				default:
					ok = false
				}
			}
			if !ok {
				if op == token.ADD || op == token.SUB {
					exact = false
					break
				}
				name := fmt.Sprintf("(%s#%d %s %s#%d)", a.S, a.I, op, b.S, b.I)
				x.src[name] = srcWidth{1, false}
				o = Bit{name, 0}
			}
			out[i] = o
		}
		if exact {
			return mkInt(out, sg)
		}
	}
	// a new source; its interval if nothing can overflow
	llo, lhi, _ := x.rangeOf(l)
	rlo, rhi, _ := x.rangeOf(r)
	name := fmt.Sprintf("(%s%s%s:%d)", x.ikey(l), op, x.ikey(r), w)
	var lo, hi *big.Int
	switch op {
	case token.ADD:
		lo, hi = new(big.Int).Add(llo, rlo), new(big.Int).Add(lhi, rhi)
	case token.SUB:
		lo, hi = new(big.Int).Sub(llo, rhi), new(big.Int).Sub(lhi, rlo)
	case token.MUL:
		for _, p := range []*big.Int{new(big.Int).Mul(llo, rlo), new(big.Int).Mul(llo, rhi), new(big.Int).Mul(lhi, rlo), new(big.Int).Mul(lhi, rhi)} {
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	case token.QUO:
		if rlo.Sign() > 0 && llo.Sign() >= 0 {
			lo, hi = new(big.Int).Quo(llo, rhi), new(big.Int).Quo(lhi, rlo)
		}
	case token.REM:
		if rlo.Sign() > 0 && llo.Sign() >= 0 {
			lo, hi = big.NewInt(0), new(big.Int).Sub(rhi, big.NewInt(1))
		}
	}
	b := make([]Bit, w)
	for i := range b {
		b[i] = Bit{name, i}
	}
	v := xInt{b: b, w: w, sg: sg}
	if _, ok := x.src[name]; !ok {
		x.src[name] = srcWidth{w, sg}
		if lo != nil {
			tl, th := tsrc(w, sg)
			if lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
				x.iv[name] = ival{lo, hi}
				switch {
				case op == token.ADD && r.con:
					x.twin(l, v, x.bigOf(r), false)
				case op == token.ADD && l.con:
					x.twin(r, v, x.bigOf(l), false)
				case op == token.SUB && r.con:
					x.twin(l, v, new(big.Int).Neg(x.bigOf(r)), false)
				case op == token.SUB && l.con:
					x.twin(r, v, x.bigOf(l), true)
				}
			}
		}
	}
	return v
}

func (x *xrun) ikey(a xInt) string {
	if a.con {
		return x.bigOf(a).String()
	}
	if s, ok := x.canon(a); ok {
		return s
	}
	if a.sg {
		return bitsKey(x.bitsOf(a)) + "s"
	}
	return bitsKey(x.bitsOf(a))
}

// compareBool decides a comparison, splitting if necessary.
func (x *xrun) compareBool(op token.Token, l, r xInt) (bool, bool) {
	return x.decide(x.compareInt(op, l, r)), true
}

func (x *xrun) decide(b xBool) bool {
	if b.con {
		return b.v
	}
	v, ok := x.bf[b.key]
	if !ok {
		v = x.choose(2) == 0
		x.bf[b.key] = v
		x.conds = append(x.conds, fmt.Sprintf("%s=%v", b.key, v))
		if v {
			// equal numbers have equal bits
			for i, t := range b.eq[0] {
				switch u := b.eq[1][i]; {
				case t.S == "" && u.S != "":
					x.setBit(u, t.I)
				case t.S != "" && u.S == "":
					x.setBit(t, u.I)
				}
			}
		}
	}
	return v != b.neg
}

func (x *xrun) convInt(a xInt, w int, sg bool) xInt {
	if a.con {
		return xInt{con: true, u: uint64(a.int64()) & mask(w), w: w, sg: sg}
	}
	out := make([]Bit, w)
	for i := range out {
		switch {
		case i < a.w:
			out[i] = a.b[i]
		case a.sg:
			out[i] = a.b[a.w-1]
		}
	}
	return mkInt(out, sg)
}

// concreteInt needs the value of an integer, e.g. an index.
func (x *xrun) concreteInt(v xv, what string) int {
	a, ok := v.(xInt)
	if !ok {
		x.giveUp("%s is not known", what)
	}
	a = x.simpKeep(a)
	if !a.con {
		// a few values are told apart
		lo, hi, _ := x.rangeOf(a)
		if d := new(big.Int).Sub(hi, lo); d.IsInt64() && d.Int64() <= 16 && lo.IsInt64() {
			var cuts []int64
			for k := lo.Int64() + 1; k <= hi.Int64(); k++ {
				cuts = append(cuts, k)
			}
			k := x.splitAt(a, cuts)
			return int(k)
		}
		x.giveUp("%s is not known: %s", what, x.ikey(a))
	}
	if !a.sg && a.u > math.MaxInt64 {
		return math.MaxInt
	}
	return int(a.int64())
}

// ---- floats

func (x *xrun) frange(sym string) fival {
	if len(sym) > 1 && sym[0] == '-' {
		f := x.frange(sym[1:])
		return fival{lo: -f.hi, hi: -f.lo, nan: f.nan}
	}
	if strings.HasPrefix(sym, "f32(") && strings.HasSuffix(sym, ")") {
		// rounding is monotone
		f := x.frange(sym[4 : len(sym)-1])
		if f.lo <= f.hi {
			f.lo, f.hi = float64(float32(f.lo)), float64(float32(f.hi))
		}
		if g, ok := x.fv[sym]; ok {
			f.nan = f.nan && g.nan
			if g.lo > g.hi {
				f.lo, f.hi = g.lo, g.hi
			} else {
				f.lo, f.hi = math.Max(f.lo, g.lo), math.Min(f.hi, g.hi)
			}
		}
		return f
	}
	if f, ok := x.fv[sym]; ok {
		return f
	}
	return fival{lo: math.Inf(-1), hi: math.Inf(1), nan: true}
}

func negSym(s string) string {
	if len(s) > 1 && s[0] == '-' {
		return s[1:]
	}
	return "-" + s
}

func (x *xrun) compareFlt(op token.Token, l, r xFlt) xBool {
	if l.con && r.con {
		switch op {
		case token.EQL:
			return xbool(l.f == r.f)
		case token.NEQ:
			return xbool(l.f != r.f)
		case token.LSS:
			return xbool(l.f < r.f)
		case token.LEQ:
			return xbool(l.f <= r.f)
		case token.GTR:
			return xbool(l.f > r.f)
		}
		return xbool(l.f >= r.f)
	}
	if l.con {
		return x.compareFlt(swapOp(op), r, l)
	}
	if !r.con {
		if l.sym == r.sym {
			// x == x fails for NaN only
			f := x.frange(l.sym)
			isnan := false
			if f.nan {
				if f.lo > f.hi {
					isnan = true
				} else {
					isnan = x.choose(2) == 0
				}
			}
			if isnan {
				x.fv[l.sym] = fival{lo: 1, hi: 0, nan: true}
				return xbool(op == token.NEQ)
			}
			f.nan = false
			x.fv[l.sym] = f
			return xbool(op == token.EQL || op == token.LEQ || op == token.GEQ)
		}
		return xBool{key: fmt.Sprintf("%s %s %s", l.sym, op, r.sym)}
	}
	if len(l.sym) > 1 && l.sym[0] == '-' {
		l.sym = l.sym[1:]
		return x.compareFlt(swapOp(op), l, xFlt{con: true, f: -r.f})
	}
	f := x.frange(l.sym)
	c := r.f
	// the three regions below, at and above c, and NaN
	type part struct {
		f   fival
		val bool
	}
	var parts []part
	add := func(lo, hi float64, val bool) {
		if lo < f.lo {
			lo = f.lo
		}
		if hi > f.hi {
			hi = f.hi
		}
		if lo <= hi {
			parts = append(parts, part{fival{lo: lo, hi: hi}, val})
		}
	}
	below, at, above := cmpHolds(op, -1), cmpHolds(op, 0), cmpHolds(op, 1)
	dn, up := math.Nextafter(c, math.Inf(-1)), math.Nextafter(c, math.Inf(1))
	switch {
	case below == at:
		add(math.Inf(-1), c, at)
		if c != math.Inf(1) {
			add(up, math.Inf(1), above)
		}
	case above == at:
		add(c, math.Inf(1), at)
		if c != math.Inf(-1) {
			add(math.Inf(-1), dn, below)
		}
	default:
		add(c, c, at)
		if c != math.Inf(-1) {
			add(math.Inf(-1), dn, below)
		}
		if c != math.Inf(1) {
			add(up, math.Inf(1), above)
		}
	}
	if f.nan {
		parts = append(parts, part{fival{lo: 1, hi: 0, nan: true}, op == token.NEQ})
	}
	if len(parts) == 0 {
		panic(xInfeasible{})
	}
	p := parts[0]
	if len(parts) > 1 {
		p = parts[x.choose(len(parts))]
	}
	x.fv[l.sym] = p.f
	return xbool(p.val)
}

// ---- strings

func (s xStr) concrete() (string, bool) { return s.s, s.b == nil && s.sym == "" }

func (x *xrun) strBytes(s xStr) []xInt {
	if s.sym != "" {
		x.giveUp("the bytes of the string %s are not known", s.sym)
	}
	if s.b != nil {
		return s.b
	}
	out := make([]xInt, len(s.s))
	for i := range out {
		out[i] = xbyte(int(s.s[i]))
	}
	return out
}

func (x *xrun) mkStr(b []xInt) xStr {
	buf := make([]byte, len(b))
	for i, c := range b {
		if !c.con {
			c = x.simpKeep(c)
		}
		if !c.con {
			return xStr{b: b}
		}
		buf[i] = byte(c.u)
	}
	return xStr{s: string(buf)}
}

func (x *xrun) strLen(s xStr) xInt {
	if s.sym != "" {
		n := "len(" + s.sym + ")"
		v := x.sym(n, types.Typ[types.Int])
		if _, ok := x.iv[n]; !ok {
			x.iv[n] = ival{big.NewInt(0), big.NewInt(math.MaxInt64)}
		}
		return v
	}
	if s.b != nil {
		return xint(int64(len(s.b)))
	}
	return xint(int64(len(s.s)))
}

// nextRune decodes the rune at position i.
func (x *xrun) nextRune(b []xInt, i int) (xInt, int) {
	rt := types.Typ[types.Int32]
	c := x.simpKeep(b[i])
	if c.con {
		buf := []byte{}
		for j := i; j < len(b) && j < i+4; j++ {
			d := x.simpKeep(b[j])
			if !d.con {
				break
			}
			buf = append(buf, byte(d.u))
		}
		if c.u < 0x80 || utf8.FullRune(buf) || len(buf) == len(b)-i {
			r, n := utf8.DecodeRune(buf)
			return xi(int64(r), rt), n
		}
	} else if x.decide(x.compareInt(token.LSS, c, xbyte(0x80))) {
		return x.convInt(x.simp(c), 32, true), 1
	}
	bb := x.bitsOf(c)
	one := Bit{"", 1}
	if bb[7] == one && bb[6] == one && bb[5] == (Bit{}) && i+1 < len(b) {
		nb := x.bitsOf(b[i+1])
		if nb[7] == one && nb[6] == (Bit{}) {
			out := make([]Bit, 32)
			copy(out, nb[:6])
			copy(out[6:], bb[:5])
			return mkInt(out, true), 2
		}
	}
	n := "rune(" + bitsKey(bb) + ")"
	r := x.sym(n, rt)
	x.iv[n] = ival{big.NewInt(0x80), big.NewInt(utf8.MaxRune)}
	return r, 1
}

// runeStr is string(r).
func (x *xrun) runeStr(r xInt) xStr {
	r = x.simpKeep(r)
	if r.con {
		return xStr{s: string(rune(r.int64()))}
	}
	lt := func(n int64) bool {
		return x.decide(x.compareInt(token.LSS, r, xInt{con: true, u: uint64(n) & mask(r.w), w: r.w, sg: r.sg}))
	}
	if lo, _, _ := x.rangeOf(r); lo.Sign() < 0 && lt(0) {
		return xStr{s: "\uFFFD"}
	}
	if r.w <= 7 || r.w == 8 && r.sg || lt(0x80) {
		return x.mkStr([]xInt{x.convInt(x.simp(r), 8, false)})
	}
	if r.w == 8 || lt(0x800) {
		b := x.bitsOf(x.convInt(x.simp(r), 32, true))
		h, l := make([]Bit, 8), make([]Bit, 8)
		copy(l, b[:6])
		l[7] = Bit{"", 1}
		copy(h, b[6:11])
		h[6], h[7] = Bit{"", 1}, Bit{"", 1}
		return xStr{b: []xInt{mkInt(h, false), mkInt(l, false)}}
	}
	return xStr{sym: "string(" + x.ikey(r) + ")"}
}

func (x *xrun) skey(s xStr) string {
	if s.sym != "" {
		return s.sym
	}
	if s.b == nil {
		return strconv.Quote(s.s)
	}
	var p []string
	for _, c := range s.b {
		p = append(p, x.ikey(c))
	}
	return "[" + strings.Join(p, " ") + "]"
}

func (x *xrun) strEq(l, r xStr) xBool {
	if l.sym != "" || r.sym != "" {
		if l.sym == r.sym {
			return xbool(true)
		}
		a, b := x.skey(l), x.skey(r)
		if b < a {
			a, b = b, a
		}
		return xBool{key: a + " == " + b}
	}
	a, b := x.strBytes(l), x.strBytes(r)
	if len(a) != len(b) {
		return xbool(false)
	}
	for i := range a {
		if !x.decide(x.compareInt(token.EQL, a[i], b[i])) {
			return xbool(false)
		}
	}
	return xbool(true)
}

// ---- generic values

func (x *xrun) zero(t types.Type) xv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return xi(0, t)
		case u.Info()&types.IsFloat != 0:
			return xFlt{con: true}
		case u.Info()&types.IsBoolean != 0:
			return xbool(false)
		case u.Info()&types.IsString != 0:
			return xStr{}
		}
		return xNil{}
	case *types.Struct:
		a := &xAgg{t: t}
		for i := 0; i < u.NumFields(); i++ {
			a.f = append(a.f, &xLoc{x.zero(u.Field(i).Type())})
		}
		return a
	case *types.Array:
		a := &xAgg{t: t}
		for i := int64(0); i < u.Len(); i++ {
			a.f = append(a.f, &xLoc{x.zero(u.Elem())})
		}
		return a
	}
	return xNil{}
}

func copyVal(v xv) xv {
	if a, ok := v.(*xAgg); ok {
		n := &xAgg{t: a.t}
		for _, l := range a.f {
			n.f = append(n.f, &xLoc{copyVal(l.v)})
		}
		return n
	}
	return v
}

func (x *xrun) constVal(c *ssa.Const) xv {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			w, sg := intWidth(t)
			k := constant.ToInt(c.Value)
			if n, ok := constant.Int64Val(k); ok {
				return xi(n, t)
			}
			n, _ := constant.Uint64Val(k)
			return xInt{con: true, u: n & mask(w), w: w, sg: sg}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return xFlt{con: true, f: f, f32: u.Kind() == types.Float32}
		case u.Info()&types.IsBoolean != 0:
			return xbool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return xStr{s: constant.StringVal(c.Value)}
		}
	}
	return xAny{name: c.String(), t: t}
}

// mapKey: keys must be decided.
func (x *xrun) mkey(k xv) string {
	switch v := k.(type) {
	case xInt:
		if s := x.simp(v); s.con {
			return "i" + x.bigOf(s).String()
		}
		return "$i" + x.ikey(v)
	case xBool:
		return "b" + strconv.FormatBool(x.decide(v))
	case xStr:
		if s, ok := v.concrete(); ok {
			return "s" + s
		}
		return "$" + x.skey(v)
	case xIface:
		return v.t.String() + x.mkey(v.v)
	case xNil:
		return "nil"
	case *xAgg:
		s := "{"
		for _, l := range v.f {
			s += x.mkey(l.v) + ","
		}
		return s
	}
	x.giveUp("a map key of kind %T", k)
	return ""
}

// find looks a key up, splitting on equality with symbolic strings.
func (x *xrun) find(m *xMap, k xv) *xEnt {
	s := x.mkey(k)
	if e, ok := m.m[s]; ok && !e.dead {
		return e
	}
	for _, e := range m.list {
		if e.dead || !strings.Contains(s, "$") && !strings.Contains(x.mkey(e.k), "$") {
			continue
		}
		if x.decide(x.eqVal(k, e.k)) {
			return e
		}
	}
	return nil
}

func (x *xrun) eqVal(l, r xv) xBool {
	switch a := l.(type) {
	case xInt:
		if b, ok := r.(xInt); ok {
			return x.compareInt(token.EQL, a, b)
		}
	case xFlt:
		if b, ok := r.(xFlt); ok {
			return x.compareFlt(token.EQL, a, b)
		}
	case xStr:
		if b, ok := r.(xStr); ok {
			return x.strEq(a, b)
		}
	case xBool:
		if b, ok := r.(xBool); ok {
			return xbool(x.decide(a) == x.decide(b))
		}
	case xNil:
		switch b := r.(type) {
		case xNil:
			return xbool(true)
		case xAny:
			return x.anyNil(b)
		}
		return xbool(false)
	case *xLoc:
		if b, ok := r.(*xLoc); ok {
			return xbool(a == b)
		}
		return xbool(false)
	case xIface:
		switch b := r.(type) {
		case xIface:
			if !types.Identical(a.t, b.t) {
				return xbool(false)
			}
			return x.eqVal(a.v, b.v)
		case xNil:
			return xbool(false)
		case xAny:
			if strings.HasPrefix(b.name, "!error ") || strings.HasPrefix(b.name, "!strconv.Err") {
				return xbool(false) // the value of another type
			}
			return xBool{key: fmt.Sprintf("%v == %s", a.v, b.name)}
		}
	case *xAgg:
		if b, ok := r.(*xAgg); ok && len(a.f) == len(b.f) {
			for i := range a.f {
				if !x.decide(x.eqVal(a.f[i].v, b.f[i].v)) {
					return xbool(false)
				}
			}
			return xbool(true)
		}
	case xAny:
		switch b := r.(type) {
		case xNil:
			return x.anyNil(a)
		case xAny:
			if a.name == b.name {
				return xbool(true)
			}
			if isErr := func(n string) bool { return strings.HasPrefix(n, "!error ") || strings.HasPrefix(n, "!strconv.Err") }; isErr(a.name) && isErr(b.name) {
				return xbool(false)
			}
			return xBool{key: a.name + " == " + b.name}
		default:
			return x.eqVal(r, l)
		}
	case xSlice, *xMap, xFunc, xExt, *xChan:
		if _, ok := r.(xNil); ok {
			return xbool(false)
		}
	}
	x.giveUp("comparison of %T and %T", l, r)
	return xBool{}
}

func (x *xrun) anyNil(a xAny) xBool {
	if strings.HasPrefix(a.name, "!") { // known not to be nil
		return xbool(false)
	}
	return xBool{key: a.name + " == nil"}
}

func (x *xrun) any(name string, t types.Type) xv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return x.sym(name, t)
		case u.Info()&types.IsFloat != 0:
			return xFlt{sym: name, f32: u.Kind() == types.Float32}
		case u.Info()&types.IsBoolean != 0:
			return xBool{key: name}
		case u.Info()&types.IsString != 0:
			return xStr{sym: name}
		}
	case *types.Tuple:
		var out xTuple
		for i := 0; i < u.Len(); i++ {
			out = append(out, x.any(name+"/"+strconv.Itoa(i), u.At(i).Type()))
		}
		return out
	case *types.Struct:
		a := &xAgg{t: t}
		for i := 0; i < u.NumFields(); i++ {
			a.f = append(a.f, &xLoc{x.any(name+"."+u.Field(i).Name(), u.Field(i).Type())})
		}
		return a
	}
	return xAny{name: name, t: t}
}

// bytesVal makes a byte slice.
func (x *xrun) bytesVal(b []xInt) xSlice {
	s := xSlice{n: len(b), cap: len(b)}
	for _, c := range b {
		s.e = append(s.e, &xLoc{c})
	}
	return s
}

func (x *xrun) sliceOf(vs ...xv) xSlice {
	s := xSlice{n: len(vs), cap: len(vs)}
	for _, c := range vs {
		s.e = append(s.e, &xLoc{c})
	}
	return s
}

func (x *xrun) elems(v xv) []xv {
	switch s := v.(type) {
	case xNil:
		return nil
	case xSlice:
		if s.sym != "" {
			x.giveUp("the elements of %s are not known", s.sym)
		}
		out := make([]xv, s.n)
		for i := range out {
			out[i] = s.e[s.off+i].v
		}
		return out
	}
	x.giveUp("not a slice: %T", v)
	return nil
}

func (x *xrun) byteElems(v xv) ([]xInt, bool) {
	var out []xInt
	for _, e := range x.elems(v) {
		a, ok := e.(xInt)
		if !ok {
			return nil, false
		}
		out = append(out, a)
	}
	return out, true
}

// twin is a value at a constant distance of another one.
type twin struct {
	v   xInt
	off *big.Int
	neg bool // off minus the value
}

func (t twin) of(n *big.Int) *big.Int {
	if t.neg {
		return new(big.Int).Sub(t.off, n)
	}
	return new(big.Int).Add(n, t.off)
}

// twin notes that v = a + off (or off - a).
func (x *xrun) twin(a, v xInt, off *big.Int, neg bool) {
	_, _, ak := x.rangeOf(a)
	_, _, vk := x.rangeOf(v)
	if ak == "" || vk == "" || ak == vk {
		return
	}
	if x.twins == nil {
		x.twins = map[string][]twin{}
	}
	back := new(big.Int).Neg(off)
	if neg {
		back = off
	}
	x.twins[ak] = append(x.twins[ak], twin{v, off, neg})
	x.twins[vk] = append(x.twins[vk], twin{a, back, neg})
}

// shifted is a value at a distance of a byte whose range allows it.
func (x *xrun) shifted(a xInt, off int64) xInt {
	a = x.simpKeep(a)
	if a.con {
		return xInt{con: true, u: uint64(a.int64()+off) & mask(a.w), w: a.w, sg: a.sg}
	}
	lo, hi, key := x.rangeOf(a)
	name := fmt.Sprintf("(%s%+d)", key, off)
	_, made := x.src[name]
	v := x.symByte(name)
	d := big.NewInt(off)
	x.iv[name] = ival{new(big.Int).Add(lo, d), new(big.Int).Add(hi, d)}
	if !made {
		x.twin(a, v, d, false)
	}
	return v
}
