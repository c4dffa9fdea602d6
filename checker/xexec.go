package main

import (
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Call runs a function of the library; a panic of the analysed code is
// returned.
func (x *xrun) Call(fn *ssa.Function, args ...xv) (ret xv, pan *xPanic) {
	n := len(x.frames)
	defer func() {
		if r := recover(); r != nil {
			p, ok := r.(*xPanic)
			if !ok {
				panic(r)
			}
			x.frames = x.frames[:n]
			pan = p
		}
	}()
	return x.call(fn, args, nil, nil), nil
}

func (x *xrun) call(fn *ssa.Function, args, binds []xv, deferOf *xframe) (ret xv) {
	if len(fn.Blocks) == 0 {
		x.giveUp("no body for %s", fn)
	}
	if len(x.frames) > 3000 {
		x.giveUp("recursion too deep")
	}
	x.seen[fn] = true
	fr := &xframe{fn: fn, regs: map[ssa.Value]xv{}, deferOf: deferOf}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			fr.regs[f] = binds[i]
		}
	}
	base := len(x.frames)
	x.frames = append(x.frames, fr)
	x.deepest = max(x.deepest, len(x.frames))
	defer func() { x.frames = x.frames[:base] }()
	func() {
		defer func() {
			if r := recover(); r != nil {
				p, ok := r.(*xPanic)
				if !ok {
					panic(r)
				}
				x.frames = x.frames[:base+1]
				fr.pan = p
			}
		}()
		ret = x.blocks(fr, fn.Blocks[0])
	}()
	if fr.pan != nil {
		x.runDefers(fr)
		if fr.pan != nil {
			panic(fr.pan)
		}
		if fn.Recover != nil {
			return x.blocks(fr, fn.Recover)
		}
		res := fn.Signature.Results()
		if res.Len() == 1 {
			return x.zero(res.At(0).Type())
		}
		var t xTuple
		for i := 0; i < res.Len(); i++ {
			t = append(t, x.zero(res.At(i).Type()))
		}
		return t
	}
	return ret
}

func (x *xrun) runDefers(fr *xframe) {
	base := len(x.frames)
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					p, ok := r.(*xPanic)
					if !ok {
						panic(r)
					}
					x.frames = x.frames[:base]
					fr.pan = p
				}
			}()
			d()
		}()
	}
}

func (x *xrun) get(fr *xframe, v ssa.Value) xv {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return xFunc{fn: c}
	case *ssa.Builtin:
		return xFunc{bt: c}
	case *ssa.Global:
		return x.global(c)
	}
	r, ok := fr.regs[v]
	if !ok {
		x.giveUp("value %s of %s is not available", v.Name(), fr.fn)
	}
	return r
}

func (x *xrun) global(g *ssa.Global) *xLoc {
	if l, ok := x.globals[g]; ok {
		return l
	}
	t := g.Type().(*types.Pointer).Elem()
	if g.Pkg == nil || !x.P.isLibPkg(g.Pkg) {
		l := &xLoc{x.any("!"+g.String(), t)}
		if _, ok := t.Underlying().(*types.Struct); ok {
			l.v = x.zero(t)
		}
		x.globals[g] = l
		return l
	}
	l := &xLoc{x.zero(t)}
	x.globals[g] = l
	if !x.inited[g.Pkg] {
		x.inited[g.Pkg] = true
		if f := g.Pkg.Func("init"); f != nil && len(f.Blocks) > 0 {
			saved := x.frames
			x.call(f, nil, nil, nil)
			x.frames = saved
		}
	}
	return l
}

func (P *Program) isLibPkg(p *ssa.Package) bool {
	f := p.Func("init")
	return f != nil && len(f.Blocks) > 0
}

func (x *xrun) blocks(fr *xframe, b *ssa.BasicBlock) xv {
	var prev *ssa.BasicBlock
	for {
		// phis first, in parallel
		var phis []xv
		n := 0
		for _, ins := range b.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, q := range b.Preds {
				if q == prev {
					phis = append(phis, x.get(fr, p.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < n; i++ {
			fr.regs[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		next := -1
		for _, ins := range b.Instrs[n:] {
			x.steps++
			if x.steps > x.max {
				x.giveUp("more than %d steps", x.max)
			}
			if p := ins.Pos(); p.IsValid() {
				fr.pos = p
			}
			if x.inject {
				x.injectPanic(ins)
			}
			switch i := ins.(type) {
			case *ssa.Return:
				switch len(i.Results) {
				case 0:
					return nil
				case 1:
					return x.get(fr, i.Results[0])
				}
				var t xTuple
				for _, r := range i.Results {
					t = append(t, x.get(fr, r))
				}
				return t
			case *ssa.Jump:
				next = 0
			case *ssa.If:
				c, ok := x.get(fr, i.Cond).(xBool)
				if !ok {
					x.giveUp("the condition is not known")
				}
				next = 1
				if x.decide(c) {
					next = 0
				}
			case *ssa.Panic:
				v := x.get(fr, i.X)
				why := "panic"
				if f, ok := v.(xIface); ok {
					if s, ok := f.v.(xStr); ok {
						why = s.s
					}
				}
				panic(&xPanic{v: v, why: why, pos: x.P.ipos(i)})
			default:
				x.instr(fr, ins)
			}
		}
		if next < 0 {
			x.giveUp("a block without a successor")
		}
		prev, b = b, b.Succs[next]
	}
}

func (x *xrun) deref(v xv) *xLoc {
	switch p := v.(type) {
	case *xLoc:
		return p
	case xNil:
		x.throw("nil pointer dereference")
	case xAny:
		if x.decide(x.anyNil(p)) {
			x.throw("nil pointer dereference")
		}
		l, ok := x.anyLoc[p.name]
		if !ok {
			pt, is := p.t.Underlying().(*types.Pointer)
			if !is {
				x.giveUp("an unknown pointer")
			}
			l = &xLoc{x.any("*"+p.name, pt.Elem())}
			if x.anyLoc == nil {
				x.anyLoc = map[string]*xLoc{}
			}
			x.anyLoc[p.name] = l
		}
		return l
	}
	x.giveUp("an address that is not known (%T)", v)
	return nil
}

func (x *xrun) instr(fr *xframe, ins ssa.Instruction) {
	set := func(v xv) { fr.regs[ins.(ssa.Value)] = v }
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(&xLoc{x.zero(i.Type().(*types.Pointer).Elem())})
	case *ssa.MakeMap:
		set(&xMap{m: map[string]*xEnt{}})
	case *ssa.MakeChan:
		set(&xChan{cap: x.concreteInt(x.get(fr, i.Size), "the size of a channel"), et: i.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.Send:
		x.send(x.get(fr, i.Chan), copyVal(x.get(fr, i.X)))
	case *ssa.Select:
		set(x.selects(fr, i))
	case *ssa.MakeSlice:
		n := x.sliceLen(x.get(fr, i.Len), "makeslice: len out of range")
		c := n
		if cv, ok := x.get(fr, i.Cap).(xInt); ok {
			if cv = x.simpKeep(cv); cv.con && cv.int64() > int64(n) && cv.int64() < 1<<22 {
				c = int(cv.int64())
			}
		}
		s := xSlice{n: n, cap: c, e: make([]*xLoc, c)}
		et := i.Type().Underlying().(*types.Slice).Elem()
		for k := 0; k < c; k++ {
			s.e[k] = &xLoc{x.zero(et)}
		}
		set(s)
	case *ssa.MakeInterface:
		set(xIface{i.X.Type(), copyVal(x.get(fr, i.X))})
	case *ssa.ChangeInterface:
		set(x.get(fr, i.X))
	case *ssa.ChangeType:
		v := x.get(fr, i.X)
		if a, ok := v.(*xAgg); ok {
			c := copyVal(a).(*xAgg)
			c.t = i.Type()
			v = c
		}
		set(v)
	case *ssa.Convert:
		set(x.convert(x.get(fr, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		x.giveUp("a generic conversion")
	case *ssa.FieldAddr:
		l := x.deref(x.get(fr, i.X))
		a, ok := l.v.(*xAgg)
		if !ok {
			x.giveUp("a field of %T", l.v)
		}
		set(a.f[i.Field])
	case *ssa.Field:
		a, ok := x.get(fr, i.X).(*xAgg)
		if !ok {
			x.giveUp("a field of an unknown struct")
		}
		set(copyVal(a.f[i.Field].v))
	case *ssa.IndexAddr:
		b := x.get(fr, i.X)
		switch s := b.(type) {
		case xSlice:
			if s.sym != "" {
				if !x.inBounds(x.get(fr, i.Index), s.len) {
					x.throw("index out of range")
				}
				et := i.X.Type().Underlying().(*types.Slice).Elem()
				set(&xLoc{x.any(fmt.Sprintf("%s[%s]", s.sym, x.ikey(x.get(fr, i.Index).(xInt))), et)})
				return
			}
			k := x.index(x.get(fr, i.Index), s.n)
			set(s.e[s.off+k])
		case xNil:
			x.throw("index out of range")
		default:
			l := x.deref(b)
			a, ok := l.v.(*xAgg)
			if !ok {
				x.giveUp("an element of %T", l.v)
			}
			set(a.f[x.index(x.get(fr, i.Index), len(a.f))])
		}
	case *ssa.Index:
		switch a := x.get(fr, i.X).(type) {
		case *xAgg:
			set(copyVal(a.f[x.index(x.get(fr, i.Index), len(a.f))].v))
		case xStr:
			set(x.strIndex(a, x.get(fr, i.Index)))
		default:
			x.giveUp("an element of %T", a)
		}
	case *ssa.Lookup:
		b, k := x.get(fr, i.X), x.get(fr, i.Index)
		if s, ok := b.(xStr); ok {
			set(x.strIndex(s, k))
			return
		}
		t := i.Type()
		if i.CommaOk {
			t = t.(*types.Tuple).At(0).Type()
		}
		var e *xEnt
		switch m := b.(type) {
		case *xMap:
			e = x.find(m, k)
		case xNil:
		default:
			x.giveUp("a lookup in %T", b)
		}
		var v xv
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = x.zero(t)
		}
		if i.CommaOk {
			set(xTuple{v, xbool(e != nil)})
		} else {
			set(v)
		}
	case *ssa.MapUpdate:
		m, ok := x.get(fr, i.Map).(*xMap)
		if !ok {
			if _, isnil := x.get(fr, i.Map).(xNil); isnil {
				x.throw("assignment to entry in nil map")
			}
			x.giveUp("an update of an unknown map")
		}
		k, v := x.get(fr, i.Key), copyVal(x.get(fr, i.Value))
		if e := x.find(m, k); e != nil {
			e.v = v
			return
		}
		e := &xEnt{k: k, v: v}
		m.m[x.mkey(k)] = e
		m.list = append(m.list, e)
	case *ssa.Slice:
		set(x.slice(fr, i))
	case *ssa.UnOp:
		set(x.unop(fr, i))
	case *ssa.BinOp:
		set(x.binop(i.Op, x.get(fr, i.X), x.get(fr, i.Y), i.X.Type(), i.Type()))
	case *ssa.Extract:
		t, ok := x.get(fr, i.Tuple).(xTuple)
		if !ok || i.Index >= len(t) {
			x.giveUp("a tuple that is not known")
		}
		set(t[i.Index])
	case *ssa.TypeAssert:
		set(x.assert(i, x.get(fr, i.X)))
	case *ssa.MakeClosure:
		var b []xv
		for _, v := range i.Bindings {
			b = append(b, x.get(fr, v))
		}
		set(xFunc{fn: i.Fn.(*ssa.Function), b: b})
	case *ssa.Store:
		l := x.deref(x.get(fr, i.Addr))
		v := copyVal(x.get(fr, i.Val))
		// keep the identity of nested variables
		if o, ok := l.v.(*xAgg); ok {
			if n, ok := v.(*xAgg); ok && len(o.f) == len(n.f) {
				assignAgg(o, n)
				return
			}
		}
		l.v = v
	case *ssa.Range:
		switch c := x.get(fr, i.X).(type) {
		case xStr:
			set(&xIter{str: x.strBytes(c), keys: nil})
		case *xMap:
			it := &xIter{m: c}
			for _, e := range c.list {
				if !e.dead {
					it.keys = append(it.keys, e)
				}
			}
			if x.mapRev {
				for a, b := 0, len(it.keys)-1; a < b; a, b = a+1, b-1 {
					it.keys[a], it.keys[b] = it.keys[b], it.keys[a]
				}
			}
			set(it)
		case xNil:
			set(&xIter{m: &xMap{m: map[string]*xEnt{}}})
		default:
			x.giveUp("range over %T", c)
		}
	case *ssa.Next:
		it := x.get(fr, i.Iter).(*xIter)
		if i.IsString {
			if it.i >= len(it.str) {
				set(xTuple{xbool(false), xint(0), xi(0, types.Typ[types.Int32])})
				return
			}
			p := it.i
			r, n := x.nextRune(it.str, p)
			it.i += n
			set(xTuple{xbool(true), xint(int64(p)), r})
			return
		}
		for it.i < len(it.keys) && it.keys[it.i].dead {
			it.i++
		}
		if it.i >= len(it.keys) {
			set(xTuple{xbool(false), xNil{}, xNil{}})
			return
		}
		e := it.keys[it.i]
		it.i++
		set(xTuple{xbool(true), e.k, copyVal(e.v)})
	case *ssa.Call:
		set(x.callCommon(fr, i, &i.Call))
	case *ssa.Defer:
		f, args, m := x.prepare(fr, &i.Call)
		fr.defers = append(fr.defers, func() { x.invoke(fr, i, &i.Call, f, args, m, fr) })
	case *ssa.RunDefers:
		x.runDefers(fr)
		if fr.pan != nil {
			p := fr.pan
			panic(p)
		}
	default:
		x.giveUp("instruction %T", ins)
	}
}

func assignAgg(o, n *xAgg) {
	for k := range o.f {
		if oa, ok := o.f[k].v.(*xAgg); ok {
			if na, ok := n.f[k].v.(*xAgg); ok && len(oa.f) == len(na.f) {
				assignAgg(oa, na)
				continue
			}
		}
		o.f[k].v = n.f[k].v
	}
}

func (x *xrun) sliceLen(v xv, why string) int {
	a, ok := v.(xInt)
	if !ok {
		x.giveUp("a length that is not known")
	}
	if x.decide(x.compareInt(token.LSS, a, xInt{con: true, w: a.w, sg: a.sg})) {
		x.throw(why)
	}
	n := x.concreteInt(a, "a length")
	if n > 1<<22 {
		x.giveUp("a length of %d", n)
	}
	return n
}

func (x *xrun) inBounds(i xv, n xInt) bool {
	a, ok := i.(xInt)
	if !ok {
		x.giveUp("an index that is not known")
	}
	a = x.convInt(a, 64, true)
	return x.decide(x.compareInt(token.GEQ, a, xint(0))) && x.decide(x.compareInt(token.LSS, a, n))
}

// index checks an index and makes it concrete.
func (x *xrun) index(v xv, n int) int {
	a, ok := v.(xInt)
	if !ok {
		x.giveUp("an index that is not known")
	}
	if s := x.simpKeep(a); s.con {
		if s.sg && s.int64() < 0 || s.u >= uint64(n) && !(s.sg && s.w < 64 && s.int64() < int64(n)) {
			x.throw(fmt.Sprintf("index out of range [%d] with length %d", s.int64(), n))
		}
		return int(s.int64())
	}
	if !x.inBounds(a, xint(int64(n))) {
		x.throw("index out of range")
	}
	for k := 0; k < n-1; k++ {
		if x.decide(x.compareInt(token.EQL, a, xInt{con: true, u: uint64(k), w: a.w, sg: a.sg})) {
			return k
		}
	}
	return n - 1
}

func (x *xrun) strIndex(s xStr, i xv) xv {
	if s.sym != "" {
		if !x.inBounds(i, x.strLen(s)) {
			x.throw("index out of range")
		}
		return x.symByte(s.sym + "[" + x.ikey(i.(xInt)) + "]")
	}
	b := x.strBytes(s)
	return b[x.index(i, len(b))]
}

func (x *xrun) slice(fr *xframe, i *ssa.Slice) xv {
	b := x.get(fr, i.X)
	bound := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		a, ok := x.get(fr, v).(xInt)
		if !ok {
			x.giveUp("a slice bound that is not known")
		}
		return x.concreteInt(a, "a slice bound")
	}
	oob := func() { x.throw("slice bounds out of range") }
	switch s := b.(type) {
	case xStr:
		if s.sym != "" {
			x.giveUp("a part of the string %s", s.sym)
		}
		if c, ok := s.concrete(); ok {
			lo := bound(i.Low, 0)
			hi := bound(i.High, len(c))
			if lo < 0 || hi < lo || hi > len(c) {
				oob()
			}
			return xStr{s: c[lo:hi]}
		}
		bs := x.strBytes(s)
		lo := bound(i.Low, 0)
		hi := bound(i.High, len(bs))
		if lo < 0 || hi < lo || hi > len(bs) {
			oob()
		}
		return x.mkStr(bs[lo:hi])
	case xNil:
		lo, hi := bound(i.Low, 0), bound(i.High, 0)
		if lo != 0 || hi != 0 {
			oob()
		}
		return b
	case xSlice:
		if s.sym != "" {
			x.giveUp("a part of %s", s.sym)
		}
		lo := bound(i.Low, 0)
		hi := bound(i.High, s.n)
		c := bound(i.Max, s.cap)
		if lo < 0 || hi < lo || c < hi || c > s.cap {
			oob()
		}
		return xSlice{e: s.e, off: s.off + lo, n: hi - lo, cap: c - lo}
	}
	l := x.deref(b)
	a, ok := l.v.(*xAgg)
	if !ok {
		x.giveUp("a slice of %T", l.v)
	}
	lo := bound(i.Low, 0)
	hi := bound(i.High, len(a.f))
	c := bound(i.Max, len(a.f))
	if lo < 0 || hi < lo || c < hi || c > len(a.f) {
		oob()
	}
	return xSlice{e: a.f, off: lo, n: hi - lo, cap: c - lo}
}

func (x *xrun) unop(fr *xframe, i *ssa.UnOp) xv {
	v := x.get(fr, i.X)
	switch i.Op {
	case token.MUL:
		return copyVal(x.deref(v).v)
	case token.ARROW:
		c := x.chanOf(v)
		if !c.ready() {
			x.giveUp("a receive that blocks")
		}
		e, ok := x.recv(c)
		if i.CommaOk {
			return xTuple{e, xbool(ok)}
		}
		return e
	case token.NOT:
		if b, ok := v.(xBool); ok {
			if b.con {
				return xbool(!b.v)
			}
			b.neg = !b.neg
			return b
		}
	case token.SUB:
		switch a := v.(type) {
		case xInt:
			return x.binInt(token.SUB, xInt{con: true, w: a.w, sg: a.sg}, a, i.Type())
		case xFlt:
			if a.con {
				return xFlt{con: true, f: -a.f, f32: a.f32}
			}
			return xFlt{sym: negSym(a.sym), f32: a.f32}
		}
	case token.XOR:
		if a, ok := v.(xInt); ok {
			return x.binInt(token.XOR, a, xInt{con: true, u: mask(a.w), w: a.w, sg: a.sg}, i.Type())
		}
	}
	x.giveUp("operator %s", i.Op)
	return nil
}

func (x *xrun) binop(op token.Token, l, r xv, lt, t types.Type) xv {
	switch op {
	case token.EQL, token.NEQ:
		// mixed interface and concrete operands
		if _, ok := lt.Underlying().(*types.Interface); ok {
			b := x.eqVal(l, r)
			return notIf(b, op == token.NEQ)
		}
		if a, ok := l.(xInt); ok {
			if b, ok := r.(xInt); ok {
				return x.compareInt(op, a, b)
			}
		}
		if a, ok := l.(xFlt); ok {
			if b, ok := r.(xFlt); ok {
				return x.compareFlt(op, a, b)
			}
		}
		return notIf(x.eqVal(l, r), op == token.NEQ)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		switch a := l.(type) {
		case xInt:
			return x.compareInt(op, a, r.(xInt))
		case xFlt:
			return x.compareFlt(op, a, r.(xFlt))
		case xStr:
			b := r.(xStr)
			s1, c1 := a.concrete()
			s2, c2 := b.concrete()
			if c1 && c2 {
				return xbool(cmpHolds(op, strings.Compare(s1, s2)))
			}
			return xBool{key: x.skey(a) + " " + op.String() + " " + x.skey(b)}
		}
	default:
		switch a := l.(type) {
		case xInt:
			if b, ok := r.(xInt); ok {
				return x.binInt(op, a, b, t)
			}
		case xStr:
			b, ok := r.(xStr)
			if !ok {
				break
			}
			if a.sym != "" || b.sym != "" {
				if s, ok := a.concrete(); ok && s == "" {
					return b
				}
				if s, ok := b.concrete(); ok && s == "" {
					return a
				}
				return xStr{sym: "(" + x.skey(a) + "+" + x.skey(b) + ")"}
			}
			s1, c1 := a.concrete()
			s2, c2 := b.concrete()
			if c1 && c2 {
				return xStr{s: s1 + s2}
			}
			return xStr{b: append(append([]xInt{}, x.strBytes(a)...), x.strBytes(b)...)}
		case xFlt:
			b, ok := r.(xFlt)
			if !ok {
				break
			}
			if a.con && b.con {
				var f float64
				switch op {
				case token.ADD:
					f = a.f + b.f
				case token.SUB:
					f = a.f - b.f
				case token.MUL:
					f = a.f * b.f
				case token.QUO:
					f = a.f / b.f
				}
				if a.f32 {
					f = float64(float32(f))
				}
				return xFlt{con: true, f: f, f32: a.f32}
			}
			return xFlt{sym: "(" + x.fkey(a) + op.String() + x.fkey(b) + ")", f32: a.f32}
		case xBool:
			b, ok := r.(xBool)
			if !ok {
				break
			}
			p, q := x.decide(a), x.decide(b)
			switch op {
			case token.AND:
				return xbool(p && q)
			case token.OR:
				return xbool(p || q)
			case token.XOR:
				return xbool(p != q)
			}
		}
	}
	x.giveUp("operator %s on %T and %T", op, l, r)
	return nil
}

func (x *xrun) fkey(a xFlt) string {
	if a.con {
		return strconv.FormatFloat(a.f, 'g', -1, 64)
	}
	return a.sym
}

func notIf(b xBool, n bool) xBool {
	if !n {
		return b
	}
	if b.con {
		return xbool(!b.v)
	}
	b.neg = !b.neg
	return b
}

func (x *xrun) convert(v xv, from, to types.Type) xv {
	tb, _ := to.Underlying().(*types.Basic)
	switch a := v.(type) {
	case xInt:
		if w, sg := intWidth(to); w != 0 {
			return x.convInt(a, w, sg)
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			return x.runeStr(a)
		}
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			f32 := tb.Kind() == types.Float32
			a = x.simpKeep(a)
			if a.con {
				f := float64(a.int64())
				if !a.sg {
					f = float64(a.u)
				}
				if f32 {
					f = float64(float32(f))
				}
				return xFlt{con: true, f: f, f32: f32}
			}
			n := fmt.Sprintf("float(%s)", x.ikey(a))
			if f32 {
				n = fmt.Sprintf("float32(%s)", x.ikey(a))
			}
			if _, ok := x.fv[n]; !ok {
				lo, hi, _ := x.rangeOf(a)
				l, _ := new(big.Float).SetInt(lo).Float64()
				h, _ := new(big.Float).SetInt(hi).Float64()
				x.fv[n] = fival{lo: l, hi: h}
			}
			return xFlt{sym: n, f32: f32}
		}
	case xFlt:
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			f32 := tb.Kind() == types.Float32
			if a.con {
				if f32 {
					return xFlt{con: true, f: float64(float32(a.f)), f32: true}
				}
				return xFlt{con: true, f: a.f}
			}
			if !f32 || a.f32 {
				// the same number; f32 stays, as its value is one
				return xFlt{sym: a.sym, f32: a.f32}
			}
			return xFlt{sym: "f32(" + a.sym + ")", f32: true}
		}
		if w, sg := intWidth(to); w != 0 {
			if a.con && math.Trunc(a.f) == a.f && math.Abs(a.f) < 1<<62 {
				return xInt{con: true, u: uint64(int64(a.f)) & mask(w), w: w, sg: sg}
			}
			return x.sym("int("+x.fkey(a)+")", to)
		}
	case xStr:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return a
		}
		if st, ok := to.Underlying().(*types.Slice); ok {
			if w, _ := intWidth(st.Elem()); w == 8 {
				return x.bytesVal(append([]xInt{}, x.strBytes(a)...))
			} else if w == 32 {
				b := x.strBytes(a)
				var out []xv
				for i := 0; i < len(b); {
					r, n := x.nextRune(b, i)
					out = append(out, r)
					i += n
				}
				return x.sliceOf(out...)
			}
		}
	case xSlice, xNil:
		if tb != nil && tb.Info()&types.IsString != 0 {
			var w int
			if st, ok := from.Underlying().(*types.Slice); ok {
				w, _ = intWidth(st.Elem())
			}
			b, ok := x.byteElems(v)
			if ok && w == 8 {
				return x.mkStr(b)
			}
			if ok && w == 32 {
				var s xv = xStr{}
				for _, r := range b {
					s = x.binop(token.ADD, s, x.runeStr(r), to, to)
				}
				return s
			}
		}
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	x.giveUp("conversion of %T to %s", v, to)
	return nil
}

func (x *xrun) assert(i *ssa.TypeAssert, v xv) xv {
	is := false
	var res xv
	switch a := v.(type) {
	case xNil:
	case xIface:
		if it, ok := i.AssertedType.Underlying().(*types.Interface); ok {
			is = types.Implements(a.t, it)
			res = a
		} else {
			is = types.Identical(a.t, i.AssertedType)
			res = copyVal(a.v)
		}
	case xAny:
		key := "is(" + a.name + "|" + i.AssertedType.String() + ")"
		for k, v := range x.bf {
			// a value has one dynamic type
			if v && strings.HasPrefix(k, "is("+a.name+"|") && k != key {
				if _, ok := i.AssertedType.Underlying().(*types.Interface); !ok {
					x.bf[key] = false
				}
			}
		}
		is = x.decide(xBool{key: key})
		res = x.any(a.name+".("+i.AssertedType.String()+")", i.AssertedType)
	case xExt:
		res, is = a, true
	default:
		x.giveUp("type assertion on %T", v)
	}
	if i.CommaOk {
		if !is {
			return xTuple{x.zero(i.AssertedType), xbool(false)}
		}
		return xTuple{res, xbool(true)}
	}
	if !is {
		x.throw("interface conversion")
	}
	return res
}

// ---- calls

func (x *xrun) callCommon(fr *xframe, site ssa.CallInstruction, cc *ssa.CallCommon) xv {
	f, args, m := x.prepare(fr, cc)
	return x.invoke(fr, site, cc, f, args, m, nil)
}

func (x *xrun) prepare(fr *xframe, cc *ssa.CallCommon) (f xv, args []xv, method string) {
	if cc.IsInvoke() {
		f = x.get(fr, cc.Value)
		method = cc.Method.Name()
	} else {
		f = x.get(fr, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, copyVal(x.get(fr, a)))
	}
	return
}

func (x *xrun) invoke(fr *xframe, site ssa.CallInstruction, cc *ssa.CallCommon, f xv, args []xv, method string, deferOf *xframe) xv {
	if method != "" {
		switch r := f.(type) {
		case xNil:
			x.throw("nil pointer dereference (method call on a nil interface)")
		case xIface:
			m := x.lookup(r.t, cc.Method.Pkg(), method)
			if m == nil {
				x.giveUp("no method %s on %s", method, r.t)
			}
			return x.invokeFn(site, m, append([]xv{r.v}, args...), nil, deferOf)
		case xExt:
			return x.external("("+r.kind+")."+method, site, cc, append([]xv{f}, args...))
		case xAny:
			if x.decide(x.anyNil(r)) {
				x.throw("nil pointer dereference (method call on a nil interface)")
			}
			return x.external("(any)."+method, site, cc, append([]xv{f}, args...))
		}
		x.giveUp("a method of %T", f)
	}
	switch fn := f.(type) {
	case xFunc:
		if fn.bt != nil {
			return x.builtin(fr, site, cc, fn.bt, args, deferOf)
		}
		return x.invokeFn(site, fn.fn, args, fn.b, deferOf)
	case xNil:
		x.throw("nil pointer dereference (call of a nil function)")
	}
	x.giveUp("a call of %T", f)
	return nil
}

func (x *xrun) invokeFn(site ssa.CallInstruction, fn *ssa.Function, args, binds []xv, deferOf *xframe) xv {
	if x.ext != nil {
		if r, ok := x.ext(x, fn.String(), site, args); ok {
			return r
		}
	}
	if len(fn.Blocks) > 0 && (x.P.isLibFn(fn) || fn.Synthetic != "") {
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" && len(x.frames) > 0 && x.frames[len(x.frames)-1].fn.Name() == "init" {
			return nil // initialisation of another package
		}
		return x.call(fn, args, binds, deferOf)
	}
	if fn.Name() == "init" {
		return nil
	}
	return x.external(fn.String(), site, site.Common(), args)
}

func (x *xrun) builtin(fr *xframe, site ssa.CallInstruction, cc *ssa.CallCommon, b *ssa.Builtin, args []xv, deferOf *xframe) xv {
	switch b.Name() {
	case "len", "cap":
		switch a := args[0].(type) {
		case xStr:
			return x.strLen(a)
		case xSlice:
			if a.sym != "" {
				return a.len
			}
			if b.Name() == "cap" {
				return xint(int64(a.cap))
			}
			return xint(int64(a.n))
		case *xChan:
			if b.Name() == "cap" {
				return xint(int64(a.cap))
			}
			return xint(int64(len(a.buf)))
		case *xMap:
			n := 0
			for _, e := range a.list {
				if !e.dead {
					n++
				}
			}
			return xint(int64(n))
		case xNil:
			return xint(0)
		case *xAgg:
			return xint(int64(len(a.f)))
		case *xLoc:
			if g, ok := a.v.(*xAgg); ok {
				return xint(int64(len(g.f)))
			}
		case xAny:
			n := "len(" + a.name + ")"
			v := x.sym(n, types.Typ[types.Int])
			if _, ok := x.iv[n]; !ok {
				x.iv[n] = ival{big.NewInt(0), big.NewInt(math.MaxInt64)}
			}
			return v
		}
	case "append":
		var add []xv
		switch a := args[1].(type) {
		case xStr:
			for _, c := range x.strBytes(a) {
				add = append(add, c)
			}
		default:
			add = x.elems(a)
		}
		for k := range add {
			add[k] = copyVal(add[k])
		}
		if len(add) == 0 {
			return args[0]
		}
		s, _ := args[0].(xSlice)
		if s.sym != "" {
			x.giveUp("append to %s", s.sym)
		}
		if s.n+len(add) <= s.cap {
			for k, v := range add {
				p := s.off + s.n + k
				if s.e[p] == nil {
					s.e[p] = &xLoc{}
				}
				s.e[p].v = v
			}
			s.n += len(add)
			return s
		}
		c := 2 * s.cap
		if c < s.n+len(add) {
			c = s.n + len(add)
		}
		n := xSlice{e: make([]*xLoc, c), n: s.n + len(add), cap: c}
		for k := 0; k < s.n; k++ {
			n.e[k] = &xLoc{copyVal(s.e[s.off+k].v)}
		}
		for k, v := range add {
			n.e[s.n+k] = &xLoc{v}
		}
		for k := n.n; k < c; k++ {
			n.e[k] = &xLoc{x.zero(cc.Args[0].Type().Underlying().(*types.Slice).Elem())}
		}
		return n
	case "copy":
		var src []xv
		if s, ok := args[1].(xStr); ok {
			for _, c := range x.strBytes(s) {
				src = append(src, c)
			}
		} else {
			src = x.elems(args[1])
		}
		d, ok := args[0].(xSlice)
		if !ok {
			return xint(0)
		}
		if d.sym != "" {
			x.giveUp("copy to %s", d.sym)
		}
		n := 0
		for ; n < len(src) && n < d.n; n++ {
			src[n] = copyVal(src[n])
		}
		for k := 0; k < n; k++ {
			d.e[d.off+k].v = src[k]
		}
		return xint(int64(n))
	case "delete":
		if m, ok := args[0].(*xMap); ok {
			if e := x.find(m, args[1]); e != nil {
				e.dead = true
				delete(m.m, x.mkey(args[1]))
				for k, o := range m.list {
					if o == e {
						m.list = append(append([]*xEnt{}, m.list[:k]...), m.list[k+1:]...)
						break
					}
				}
			}
		}
		return nil
	case "clear":
		if m, ok := args[0].(*xMap); ok {
			for _, e := range m.list {
				e.dead = true
			}
			m.list, m.m = nil, map[string]*xEnt{}
			return nil
		}
	case "close":
		if _, ok := args[0].(xNil); ok {
			x.throw("close of nil channel")
		}
		c := x.chanOf(args[0])
		if c.closed {
			x.throw("close of closed channel")
		}
		c.closed = true
		return nil
	case "min", "max":
		best := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if x.decide(x.binop(op, a, best, cc.Args[0].Type(), nil).(xBool)) {
				best = a
			}
		}
		return best
	case "recover":
		f := fr
		if deferOf != nil {
			f = nil
		}
		if f != nil && f.deferOf != nil && f.deferOf.pan != nil {
			p := f.deferOf.pan
			if p.why == outOfMemory {
				return xNil{}
			}
			f.deferOf.pan = nil
			if p.v == nil {
				return xAny{name: "!panic", t: types.NewInterfaceType(nil, nil)}
			}
			if _, ok := p.v.(xIface); ok {
				return p.v
			}
			return xAny{name: "!" + p.why, t: types.NewInterfaceType(nil, nil)}
		}
		return xNil{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if _, ok := args[0].(xNil); ok {
			x.throw("nil pointer dereference")
		}
		return args[0]
	}
	x.giveUp("builtin %s", b.Name())
	return nil
}

var errT = types.Universe.Lookup("error").Type()

func (x *xrun) errVal(name string) xv {
	return xAny{name: "!error " + name, t: errT}
}

// lookup finds a method, or nil.
func (x *xrun) lookup(t types.Type, pkg *types.Package, name string) *ssa.Function {
	if sel := x.P.prog.MethodSets.MethodSet(t).Lookup(pkg, name); sel != nil {
		return x.P.prog.MethodValue(sel)
	}
	return nil
}

// goArg turns a decided value into a Go value for formatting.
func (x *xrun) goArg(v xv) (any, bool) {
	if f, ok := v.(xIface); ok {
		v = f.v
		ms := types.NewMethodSet(f.t)
		if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
			return nil, false
		}
	}
	switch a := v.(type) {
	case xInt:
		a = x.simpKeep(a)
		if a.con {
			if !a.sg {
				return a.u, true
			}
			return a.int64(), true
		}
	case xStr:
		if s, ok := a.concrete(); ok {
			return s, true
		}
	case xBool:
		if a.con {
			return a.v, true
		}
	case xFlt:
		if a.con {
			return a.f, true
		}
	case xNil:
		return nil, true
	}
	return nil, false
}

// external models calls of other packages.
func (x *xrun) external(name string, site ssa.CallInstruction, cc *ssa.CallCommon, args []xv) xv {
	if x.ext != nil {
		if r, ok := x.ext(x, name, site, args); ok {
			return r
		}
	}
	if r, ok := x.std(name, site, cc, args); ok {
		return r
	}
	str := func(i int) (string, bool) {
		if i < len(args) {
			if s, ok := args[i].(xStr); ok {
				return s.concrete()
			}
		}
		return "", false
	}
	flt := func(i int) xFlt {
		f, ok := args[i].(xFlt)
		if !ok {
			x.giveUp("a float that is not known")
		}
		return f
	}
	rt := cc.Signature().Results()
	opaque := func() xv {
		x.fresh++
		switch rt.Len() {
		case 0:
			return nil
		case 1:
			return x.any(fmt.Sprintf("%s@%d", name, x.fresh), rt.At(0).Type())
		}
		var t xTuple
		for i := 0; i < rt.Len(); i++ {
			t = append(t, x.any(fmt.Sprintf("%s@%d/%d", name, x.fresh, i), rt.At(i).Type()))
		}
		return t
	}
	be := func(a []xInt, off int) xInt { // big endian
		var b []Bit
		for i := len(a) - 1; i >= 0; i-- {
			b = append(b, x.bitsOf(a[i])...)
		}
		return mkInt(b, false)
	}
	switch {
	case name == "fmt.Sprintf" || name == "fmt.Sprint" || name == "fmt.Sprintln":
		var as []any
		f := ""
		rest := args[0]
		if name == "fmt.Sprintf" {
			s, ok := str(0)
			if !ok {
				return opaque()
			}
			f = s
			rest = args[1]
		}
		for _, e := range x.elems(rest) {
			a, ok := x.goArg(e)
			if !ok {
				return opaque()
			}
			as = append(as, a)
		}
		switch name {
		case "fmt.Sprintf":
			return xStr{s: fmt.Sprintf(f, as...)}
		case "fmt.Sprint":
			return xStr{s: fmt.Sprint(as...)}
		}
		return xStr{s: fmt.Sprintln(as...)}
	case name == "fmt.Errorf" || name == "errors.New":
		x.fresh++
		return x.errVal(fmt.Sprintf("%d at %s", x.fresh, x.P.ipos(site)))
	case name == "(any).Error":
		return xStr{sym: "text of " + args[0].(xAny).name}
	case name == "fmt.Fprintf" || name == "fmt.Fprint" || name == "fmt.Fprintln":
		w := args[0]
		if f, ok := w.(xIface); ok {
			w = f.v
		}
		if l, ok := w.(*xLoc); ok {
			x.opaqueBuf(l)
		}
		return opaque()
	case name == "regexp.MustCompile":
		if s, ok := str(0); ok {
			re, err := regexp.Compile(s)
			if err != nil {
				x.throw("regexp")
			}
			return &xLoc{xExt{"regexp", re}}
		}
	case name == "regexp.MatchString":
		if s, ok := str(0); ok {
			re, err := regexp.Compile(s)
			if err != nil {
				return xTuple{xbool(false), x.errVal("regexp")}
			}
			return xTuple{x.match(re, args[1].(xStr)), xNil{}}
		}
	case name == "(*regexp.Regexp).MatchString":
		if l, ok := args[0].(*xLoc); ok {
			if e, ok := l.v.(xExt); ok {
				return x.match(e.v.(*regexp.Regexp), args[1].(xStr))
			}
		}
	case name == "math.IsNaN":
		f := flt(0)
		return x.compareFlt(token.NEQ, f, f)
	case name == "math.IsInf":
		f := flt(0)
		s := x.concreteInt(args[1], "the sign")
		if s >= 0 && x.decide(x.compareFlt(token.GTR, f, xFlt{con: true, f: math.MaxFloat64})) {
			return xbool(true)
		}
		if s <= 0 && x.decide(x.compareFlt(token.LSS, f, xFlt{con: true, f: -math.MaxFloat64})) {
			return xbool(true)
		}
		return xbool(false)
	case name == "math.Abs":
		f := flt(0)
		if f.con {
			f.f = math.Abs(f.f)
			return f
		}
		if x.decide(x.compareFlt(token.LSS, f, xFlt{con: true})) {
			return xFlt{sym: negSym(f.sym), f32: f.f32}
		}
		return f
	case name == "math.Inf":
		return xFlt{con: true, f: math.Inf(x.concreteInt(args[0], "the sign"))}
	case name == "math.NaN":
		return xFlt{con: true, f: math.NaN()}
	case name == "math.Float32bits" || name == "math.Float64bits":
		f := flt(0)
		w, t := 32, types.Type(types.Typ[types.Uint32])
		if name == "math.Float64bits" {
			w, t = 64, types.Typ[types.Uint64]
		}
		if f.con {
			if w == 32 {
				return xInt{con: true, u: uint64(math.Float32bits(float32(f.f))), w: 32}
			}
			return xInt{con: true, u: math.Float64bits(f.f), w: 64}
		}
		if o, ok := x.fbits[f.sym]; ok && o.w == w {
			return o
		}
		n := fmt.Sprintf("f%dbits(%s)", w, f.sym)
		return x.sym(n, t)
	case name == "math.Float32frombits" || name == "math.Float64frombits":
		a := x.simpKeep(args[0].(xInt))
		if a.con {
			if a.w == 32 {
				return xFlt{con: true, f: float64(math.Float32frombits(uint32(a.u))), f32: true}
			}
			return xFlt{con: true, f: math.Float64frombits(a.u)}
		}
		k := x.ikey(a)
		for _, w := range []int{32, 64} {
			p := fmt.Sprintf("f%dbits(", w)
			if a.w == w && strings.HasPrefix(k, p) && x.src[k].w == w {
				return xFlt{sym: k[len(p) : len(k)-1], f32: w == 32}
			}
		}
		n := fmt.Sprintf("from%d(%s)", a.w, k)
		if x.fbits == nil {
			x.fbits = map[string]xInt{}
		}
		x.fbits[n] = a
		return xFlt{sym: n, f32: a.w == 32}
	case strings.HasPrefix(name, "unicode.Is"):
		r, ok := args[0].(xInt)
		if !ok {
			break
		}
		if p, ok := x.runePred(name, r); ok {
			return p
		}
	case strings.HasPrefix(name, "strings.Has") || strings.HasPrefix(name, "strings.Contains") || strings.HasPrefix(name, "strings.Index") || strings.HasPrefix(name, "strings.LastIndex") ||
		strings.HasPrefix(name, "strings.Trim") || strings.HasPrefix(name, "strings.Cut") || strings.HasPrefix(name, "strings.Split") || name == "strings.Fields" ||
		name == "strings.EqualFold" || name == "strings.Count":
		if v, ok := x.strPred(name, args); ok {
			return v
		}
		if s, ok := str(0); ok && name == "strings.TrimSpace" {
			return xStr{s: strings.TrimSpace(s)}
		}
		if a, ok := args[0].(xStr); ok && len(args) > 1 {
			if p, c := str(1); c && rt.Len() == 1 && types.Identical(rt.At(0).Type(), types.Typ[types.Bool]) {
				return xBool{key: name + "(" + x.skey(a) + "," + p + ")"}
			}
		}
	case name == "strings.ToLower" || name == "strings.ToUpper" || name == "strings.TrimSpace":
		if s, ok := str(0); ok {
			switch name {
			case "strings.ToLower":
				return xStr{s: strings.ToLower(s)}
			case "strings.ToUpper":
				return xStr{s: strings.ToUpper(s)}
			}
			return xStr{s: strings.TrimSpace(s)}
		}
	case name == "strings.Repeat":
		if s, ok := str(0); ok {
			return xStr{s: strings.Repeat(s, x.concreteInt(args[1], "a count"))}
		}
	case name == "strings.Join":
		sep, ok := str(1)
		var parts []string
		if sl, is := args[0].(xSlice); is && sl.sym != "" {
			return opaque()
		}
		for _, e := range x.elems(args[0]) {
			s, is := e.(xStr)
			c, con := s.concrete()
			ok = ok && is && con
			parts = append(parts, c)
		}
		if ok {
			return xStr{s: strings.Join(parts, sep)}
		}
	case strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer)."):
		return x.buffer(name[strings.LastIndex(name, ".")+1:], args, opaque)
	case name == "bytes.NewBuffer":
		l := &xLoc{xExt{"buffer", nil}}
		b, ok := x.byteElems(args[0])
		if ok {
			x.bufs()[l] = b
			return l
		}
	case name == "strconv.Itoa":
		if v, ok := x.goArg(args[0]); ok {
			return xStr{s: fmt.Sprint(v)}
		}
		return xStr{sym: "itoa(" + x.ikey(args[0].(xInt)) + ")"}
	case name == "strconv.ParseInt" || name == "strconv.ParseUint" || name == "strconv.ParseFloat" || name == "strconv.Atoi":
		return x.parseNum(name, args)
	case name == "utf8.RuneCountInString" || name == "unicode/utf8.RuneCountInString":
		if s, ok := str(0); ok {
			return xint(int64(utf8.RuneCountInString(s)))
		}
	case name == "unicode/utf8.ValidString":
		if s, ok := str(0); ok {
			return xbool(utf8.ValidString(s))
		}
	case strings.HasPrefix(name, "(encoding/binary.bigEndian)."), strings.HasPrefix(name, "(encoding/binary.littleEndian)."):
		little := strings.HasPrefix(name, "(encoding/binary.little")
		m := name[strings.LastIndex(name, ".")+1:]
		n := 0
		for _, k := range []int{16, 32, 64} {
			if strings.HasSuffix(m, strconv.Itoa(k)) {
				n = k / 8
			}
		}
		if n == 0 {
			break
		}
		a := args[len(args)-cc.Signature().Params().Len():]
		if strings.HasPrefix(m, "Uint") {
			b, ok := x.byteElems(a[0])
			if !ok {
				break
			}
			if len(b) < n {
				x.throw("index out of range")
			}
			b = append([]xInt{}, b[:n]...)
			if little {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
			}
			return be(b, 0)
		}
		v, ok := a[1].(xInt)
		if !ok {
			break
		}
		bits := x.bitsOf(v)
		var out []xv
		for k := 0; k < n; k++ {
			p := n - 1 - k
			if little {
				p = k
			}
			out = append(out, mkInt(append([]Bit{}, bits[p*8:p*8+8]...), false))
		}
		if strings.HasPrefix(m, "Put") {
			d, ok := a[0].(xSlice)
			if !ok || d.n < n {
				x.throw("index out of range")
			}
			for k := range out {
				d.e[d.off+k].v = out[k]
			}
			return nil
		}
		if strings.HasPrefix(m, "Append") {
			e := append(x.elems(a[0]), out...)
			return x.sliceOf(e...)
		}
	case name == "sort.Slice" || name == "sort.SliceStable":
		f, ok := args[0].(xIface)
		if !ok {
			break
		}
		s, ok := f.v.(xSlice)
		if !ok {
			return nil
		}
		less, ok := args[1].(xFunc)
		if !ok {
			break
		}
		for i := 1; i < s.n; i++ {
			for j := i; j > 0; j-- {
				r, _ := x.call(less.fn, []xv{xint(int64(j)), xint(int64(j - 1))}, less.b, nil).(xBool)
				if !x.decide(r) {
					break
				}
				p, q := s.e[s.off+j], s.e[s.off+j-1]
				p.v, q.v = q.v, p.v
			}
		}
		return nil
	case name == "sort.Strings" || name == "sort.Ints" || strings.HasPrefix(name, "slices.Sort["):
		s, ok := args[0].(xSlice)
		if !ok {
			return nil
		}
		for i := 1; i < s.n; i++ {
			for j := i; j > 0; j-- {
				p, q := s.e[s.off+j], s.e[s.off+j-1]
				if !x.decide(x.binop(token.LSS, p.v, q.v, types.Typ[types.Int], nil).(xBool)) {
					break
				}
				p.v, q.v = q.v, p.v
			}
		}
		return nil
	case strings.HasPrefix(name, "slices.Contains[") || strings.HasPrefix(name, "slices.Index["):
		for i, e := range x.elems(args[0]) {
			if x.decide(x.eqVal(e, args[1])) {
				if strings.HasPrefix(name, "slices.Index[") {
					return xint(int64(i))
				}
				return xbool(true)
			}
		}
		if strings.HasPrefix(name, "slices.Index[") {
			return xint(-1)
		}
		return xbool(false)
	case strings.HasPrefix(name, "slices.Clone[") || name == "bytes.Clone":
		if _, ok := args[0].(xNil); ok {
			return args[0]
		}
		var out []xv
		for _, e := range x.elems(args[0]) {
			out = append(out, copyVal(e))
		}
		return x.sliceOf(out...)
	case strings.HasPrefix(name, "maps.Clone["):
		m, ok := args[0].(*xMap)
		if !ok {
			return args[0]
		}
		n := &xMap{m: map[string]*xEnt{}}
		for _, e := range m.list {
			c := &xEnt{k: e.k, v: copyVal(e.v)}
			n.list = append(n.list, c)
			n.m[x.mkey(e.k)] = c
		}
		return n
	}
	return opaque()
}

func (x *xrun) bufs() map[*xLoc][]xInt {
	if x.bufm == nil {
		x.bufm = map[*xLoc][]xInt{}
	}
	return x.bufm
}

func (x *xrun) buffer(m string, args []xv, opaque func() xv) xv {
	l, ok := args[0].(*xLoc)
	if !ok {
		x.giveUp("an unknown buffer")
	}
	b := x.bufs()
	add := func(c []xInt) { b[l] = append(append([]xInt{}, b[l]...), c...) }
	switch m {
	case "WriteByte":
		add([]xInt{args[1].(xInt)})
		return xNil{}
	case "WriteString":
		s := args[1].(xStr)
		if s.sym != "" {
			x.opaqueBuf(l)
			return xTuple{x.strLen(s), xNil{}}
		}
		add(x.strBytes(s))
		return xTuple{x.strLen(s), xNil{}}
	case "WriteRune":
		s := x.runeStr(args[1].(xInt))
		if s.sym != "" {
			x.opaqueBuf(l)
			return xTuple{xint(1), xNil{}}
		}
		add(x.strBytes(s))
		return xTuple{x.strLen(s), xNil{}}
	case "Write":
		c, ok := x.byteElems(args[1])
		if !ok {
			break
		}
		add(c)
		return xTuple{xint(int64(len(c))), xNil{}}
	case "String":
		if x.opq[l] {
			return opaque()
		}
		return x.mkStr(b[l])
	case "Bytes":
		if x.opq[l] {
			return opaque()
		}
		return x.bytesVal(b[l])
	case "Len":
		return xint(int64(len(b[l])))
	case "Grow":
		return nil
	case "Reset":
		b[l] = nil
		return nil
	}
	return opaque()
}

func (x *xrun) opaqueBuf(l *xLoc) {
	if x.opq == nil {
		x.opq = map[*xLoc]bool{}
	}
	x.opq[l] = true
}

// match is re.MatchString(s).
func (x *xrun) match(re *regexp.Regexp, s xStr) xv {
	if c, ok := s.concrete(); ok {
		return xbool(re.MatchString(c))
	}
	if s.sym == "" {
		return xbool(re.MatchString(x.reps(s, reCuts(re))))
	}
	return xBool{key: "match " + re.String() + " on " + x.skey(s)}
}

func (x *xrun) parseNum(name string, args []xv) xv {
	s, ok := args[0].(xStr)
	if !ok {
		x.giveUp("a number from %T", args[0])
	}
	c, con := s.concrete()
	arg := func(i int) int { return x.concreteInt(args[i], "an argument") }
	bad := func(err error) xv {
		k := "ErrSyntax"
		if errors.Is(err, strconv.ErrRange) {
			k = "ErrRange"
		}
		return x.numError(name, s, k)
	}
	if !con && x.text && s.sym == "" {
		switch name {
		case "strconv.Atoi":
			return x.parseText(name, s, 10, 64)
		case "strconv.ParseFloat":
			return x.parseText(name, s, 10, arg(1))
		}
		return x.parseText(name, s, arg(1), arg(2))
	}
	switch name {
	case "strconv.Atoi", "strconv.ParseInt":
		if con {
			base, size := 10, 0
			if name != "strconv.Atoi" {
				base, size = arg(1), arg(2)
			}
			n, err := strconv.ParseInt(c, base, size)
			if err != nil {
				return xTuple{xint(n), bad(err)}
			}
			return xTuple{xint(n), xNil{}}
		}
		if x.choose(2) == 0 {
			v := x.sym("number("+x.skey(s)+")", types.Typ[types.Int64])
			if name != "strconv.Atoi" {
				if k := arg(2); k > 0 && k < 64 {
					lo, hi := tsrc(k, true)
					x.iv["number("+x.skey(s)+")"] = ival{lo, hi}
				}
			}
			return xTuple{v, xNil{}}
		}
		return xTuple{xint(0), x.errVal("of " + name)}
	case "strconv.ParseUint":
		if con {
			n, err := strconv.ParseUint(c, arg(1), arg(2))
			v := xInt{con: true, u: n, w: 64}
			if err != nil {
				return xTuple{v, bad(err)}
			}
			return xTuple{v, xNil{}}
		}
		if x.choose(2) == 0 {
			v := x.sym("unsigned("+x.skey(s)+")", types.Typ[types.Uint64])
			if k := arg(2); k > 0 && k < 64 {
				lo, hi := tsrc(k, false)
				x.iv["unsigned("+x.skey(s)+")"] = ival{lo, hi}
			}
			return xTuple{v, xNil{}}
		}
		return xTuple{xInt{con: true, w: 64}, x.errVal("of " + name)}
	}
	if con {
		n, err := strconv.ParseFloat(c, arg(1))
		if err != nil {
			return xTuple{xFlt{con: true, f: n}, bad(err)}
		}
		return xTuple{xFlt{con: true, f: n}, xNil{}}
	}
	if x.choose(2) == 0 {
		return xTuple{xFlt{sym: "float(" + x.skey(s) + ")"}, xNil{}}
	}
	return xTuple{xFlt{con: true}, x.errVal("of " + name)}
}
