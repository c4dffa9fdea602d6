package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// codecTypes: the library types that implement link.Codec over a stream.
func (P *Program) codecTypes() []*types.Named {
	var out []*types.Named
	it := P.named(pkgLink, "Codec")
	if it == nil {
		return nil
	}
	iface, _ := it.Underlying().(*types.Interface)
	sp := P.byPkg[pkgCodec]
	if iface == nil || sp == nil {
		return nil
	}
	for _, name := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(n) {
			continue
		}
		if types.Implements(types.NewPointer(n), iface) {
			out = append(out, n)
		}
	}
	return out
}

// paramFields: the struct fields that are given a value derived from the i-th
// parameter of an exported constructor.
func (P *Program) paramFields(f *ssa.Function, i int) map[string]bool {
	out := map[string]bool{}
	if f == nil || i >= len(f.Params) {
		return out
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Phi, *ssa.Convert, *ssa.ChangeType:
				walk(x.(ssa.Value))
			case *ssa.Store:
				if x.Val == v {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						out[ownerField(fa)] = true
					}
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						walk(al)
					}
				}
			case *ssa.UnOp:
				if _, ok := x.X.(*ssa.Alloc); ok {
					walk(x)
				}
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
					walk(x.(ssa.Value))
				}
				if c := x.Common().StaticCallee(); c != nil && P.isLibFn(c) {
					for k, a := range x.Common().Args {
						if a == v && k < len(c.Params) {
							walk(c.Params[k])
							// a clamp: what it returns derives from the parameter
							if cv, ok := x.(ssa.Value); ok && isInteger(cv.Type()) {
								walk(cv)
							}
						}
					}
				}
			}
		}
	}
	walk(f.Params[i])
	return out
}

// signUnknown: the value may be negative as far as its construction tells.
func signUnknown(v ssa.Value) bool {
	for i := 0; i < 20; i++ {
		if isUnsigned(v.Type()) {
			return false
		}
		switch x := v.(type) {
		case *ssa.Convert:
			if isUnsigned(x.X.Type()) && intSize(x.X.Type()) < intSize(x.Type()) {
				return false
			}
			if isUnsigned(x.X.Type()) {
				return true
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Call:
			if isLenCap(x) != "" {
				return false
			}
			return x.Call.StaticCallee() == nil && !isBuiltin(x)
		default:
			return false
		}
	}
	return false
}

func isBuiltin(c *ssa.Call) bool { _, ok := c.Call.Value.(*ssa.Builtin); return ok }

func init() {
	register("C14", "Every allocation and every slicing whose size is not a constant, in the stream codecs and in the HSMS decoder, is traced back to where the size comes from; sizes that stem from received bytes must have been compared with an upper bound on every path.", func(r *Report) {
		P := r.P
		r.Rule("bounded", "the size of an allocation, or the end of a slice, in a codec or the decoder is a constant, a length, a configured limit, or has been compared with one of these (or with what is left of the message) on every path to it")
		r.Rule("sign", "a size whose type does not exclude negative values has been compared with zero on every path")
		r.Rule("minimum", "the HSMS codec refuses lengths below the 10 header bytes before it reads the message")
		r.Rule("refused", "on the branch that refuses a length the codec returns an error")
		r.Rule("send-limit", "a codec with a configured send limit compares the size of what it writes with that limit before writing it")
		r.Assume("values subtracted from a bound are not negative; configured limits are chosen by the application")
		g := &guards{P: P, busy: map[[2]ssa.Value]bool{}, max: 1 << 30}
		fix := P.fn(pkgCodec, "FixLen")
		if !r.Anchor(fix != nil && len(fix.Params) == 5, "codec.FixLen(base, n, byteOrder, maxRecv, maxSend)") {
			return
		}
		recvLim, sendLim := P.paramFields(fix, 3), P.paramFields(fix, 4)
		if !r.Anchor(len(recvLim) > 0 && len(sendLim) > 0, "the fields that hold FixLen's limits") {
			return
		}
		g.trust = func(v ssa.Value) bool {
			if ex, ok := v.(*ssa.Extract); ok {
				// the count a Read returns is at most the length of the buffer
				if c, ok := ex.Tuple.(*ssa.Call); ok && ex.Index == 0 {
					n := callName(c, c.Call.StaticCallee())
					return c.Call.IsInvoke() && c.Call.Method.Name() == "Read" || n == "io.ReadFull" || n == "io.ReadAtLeast" || strings.HasSuffix(n, ").Read")
				}
			}
			ld, ok := v.(*ssa.UnOp)
			if !ok {
				return false
			}
			fa, ok := ld.X.(*ssa.FieldAddr)
			return ok && recvLim[ownerField(fa)] && !sendLim[ownerField(fa)]
		}
		parse := P.fn(pkgPHsms, "Parse")
		var recvFns []*ssa.Function
		for _, t := range P.codecTypes() {
			if m := P.method(pkgCodec, t.Obj().Name(), "Receive"); m != nil {
				recvFns = append(recvFns, m)
			}
		}
		r.Count("codec types", len(recvFns))
		reachesFn := func(f, target *ssa.Function) bool {
			seen := map[*ssa.Function]bool{}
			var walk func(f *ssa.Function) bool
			walk = func(f *ssa.Function) bool {
				if f == target {
					return true
				}
				if seen[f] || !P.isLibFn(f) {
					return false
				}
				seen[f] = true
				for _, g := range P.usedFuncs(f) {
					if walk(g) {
						return true
					}
				}
				return false
			}
			return walk(f)
		}
		sinkParam := func(f *ssa.Function, i int) bool { return P.sizesFrom(f, i, map[*ssa.Function]bool{}) }
		for _, f := range P.funcs {
			pk := fnPkg(f).Path()
			if pk != pkgCodec && pk != pkgPHsms {
				continue
			}
			r.Saw(f)
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					sign := func(v ssa.Value, key string) {
						root, add := linear(v)
						if signUnknown(v) || signUnknown(root) {
							r.Check(g.implied(b, -1, root, false, -add), "sign", key, P.ipos(ins), "the size can be negative")
						}
					}
					for _, v := range sizesOf(ins) {
						if _, isSl := ins.(*ssa.Slice); isSl && pk == pkgPHsms {
							continue // slicing of the message is within it or panics, which Parse reports
						}
						key := P.fname(f) + " size of " + ins2name(ins)
						r.Check(g.limited(v, b), "bounded", key, P.ipos(ins), "the size can be any length announced by the peer")
						sign(v, key)
					}
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if c := ci.Common().StaticCallee(); c != nil && P.isLibFn(c) {
							for i, a := range ci.Common().Args {
								if isInteger(a.Type()) && i < len(c.Params) && sinkParam(c, i) {
									sign(a, P.fname(f)+" size passed to "+P.fname(c))
								}
							}
						}
					}
				}
			}
		}
		// the minimum length
		for _, m := range recvFns {
			if !reachesFn(m, parse) {
				continue
			}
			good := false
			for _, f := range P.closure(m) {
				if fnPkg(f).Path() != pkgCodec {
					continue
				}
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						w, ok := ins.(ssa.Value)
						if ok && !good && isInteger(w.Type()) && derivesFromWire(P, w) {
							root, _ := linear(w)
							good = successes(P, f, func(c *ssa.Function) bool { return reachesFn(c, parse) }, func(b *ssa.BasicBlock) bool { return g.implied(b, -1, root, false, 10) })
						}
					}
				}
			}
			r.Check(good, "minimum", P.fname(m), P.pos(m.Pos()), "a length below the 10 header bytes is not refused")
		}
		// refusals: a Receive never returns a nil error without having read the body
		for _, m := range recvFns {
			nerr := 0
			for _, b := range m.Blocks {
				br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				bo, ok := br.Cond.(*ssa.BinOp)
				if !ok || bo.X.Type() == nil || !isInteger(bo.X.Type()) {
					continue
				}
				root, _ := linear(bo.X)
				if !derivesFromWire(P, root) {
					continue
				}
				for _, s := range b.Succs {
					if ret, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 2 {
						nerr++
						k, isC := ret.Results[1].(*ssa.Const)
						r.Check(!(isC && k.Value == nil), "refused", P.fname(m), P.ipos(ret), "a refused length is reported as success")
					}
				}
			}
		}
		// send limits
		n := 0
		for _, f := range P.funcs {
			if fnPkg(f).Path() != pkgCodec {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != "Write" || !P.hasField(f, sendLim) {
						continue
					}
					n++
					good := false
					for _, e := range edgesAt(b) {
						good = good || sendGuard(e.br.Cond, e.taken, sendLim)
					}
					r.Check(good, "send-limit", P.fname(f)+" Write", P.ipos(ins), "a frame is written without comparing its size with the configured limit")
				}
			}
		}
		r.Count("writes of limited frames", n)
		r.Floor("bounded", 4)
		r.Floor("sign", 1)
		r.Floor("minimum", 1)
		r.Floor("send-limit", 1)
	})
}

func ins2name(ins ssa.Instruction) string {
	switch ins.(type) {
	case *ssa.MakeSlice:
		return "allocation"
	case *ssa.Slice:
		return "slice"
	}
	return "buffer"
}

// hasField: the receiver of f (or an embedded struct) has one of the fields.
func (P *Program) hasField(f *ssa.Function, fields map[string]bool) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	seen := map[string]bool{}
	var walk func(t types.Type) bool
	walk = func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		k := typeKey(t)
		if seen[k] {
			return false
		}
		seen[k] = true
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if fields[shortType(k)+"."+st.Field(i).Name()] {
				return true
			}
			if st.Field(i).Embedded() && walk(st.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return walk(f.Signature.Recv().Type())
}

// sendGuard: the condition says that some size is at most the limit.
func sendGuard(c ssa.Value, taken bool, lim map[string]bool) bool {
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op.String() != "!" {
			break
		}
		c, taken = u.X, !taken
	}
	bo, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	op := bo.Op
	if !taken {
		op = negOp(op)
	}
	isLim := func(v ssa.Value) bool {
		found := false
		var walk func(v ssa.Value, d int)
		walk = func(v ssa.Value, d int) {
			if d > 6 {
				return
			}
			switch x := v.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && lim[ownerField(fa)] {
					found = true
				}
			case *ssa.BinOp:
				walk(x.X, d+1)
				walk(x.Y, d+1)
			case *ssa.Convert:
				walk(x.X, d+1)
			}
		}
		walk(v, 0)
		return found
	}
	hasLen := func(v ssa.Value) bool {
		found := false
		var walk func(v ssa.Value, d int)
		walk = func(v ssa.Value, d int) {
			if d > 6 {
				return
			}
			switch x := v.(type) {
			case *ssa.Call:
				if isLenCap(x) == "len" || x.Call.StaticCallee() != nil && x.Call.StaticCallee().Name() == "Len" {
					found = true
				}
			case *ssa.BinOp:
				walk(x.X, d+1)
				walk(x.Y, d+1)
			case *ssa.Convert:
				walk(x.X, d+1)
			}
		}
		walk(v, 0)
		return found
	}
	switch op.String() {
	case "<", "<=":
		return hasLen(bo.X) && isLim(bo.Y)
	case ">", ">=":
		return isLim(bo.X) && hasLen(bo.Y)
	}
	return false
}

// derivesFromWire: the value comes from decoding received bytes.
func derivesFromWire(P *Program, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Convert:
			return walk(x.X)
		case *ssa.ChangeType:
			return walk(x.X)
		case *ssa.BinOp:
			return walk(x.X) || walk(x.Y)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Extract:
			return walk(x.Tuple)
		case *ssa.Call:
			if isBuiltin(x) {
				return false
			}
			f := x.Call.StaticCallee()
			if f == nil {
				return isInteger(x.Type()) // a decoding function held in a variable or field
			}
			if f.Pkg != nil && f.Pkg.Pkg.Path() == "encoding/binary" {
				return true
			}
			if P.isLibFn(f) {
				for _, b := range f.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, rv := range ret.Results {
							if isInteger(rv.Type()) && walk(rv) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

// sizesOf: the non-constant sizes an instruction allocates or slices with.
func sizesOf(ins ssa.Instruction) []ssa.Value {
	var sizes []ssa.Value
	switch x := ins.(type) {
	case *ssa.MakeSlice:
		sizes = append(sizes, x.Len)
		if x.Cap != x.Len {
			sizes = append(sizes, x.Cap)
		}
	case *ssa.Slice:
		if x.High != nil {
			sizes = append(sizes, x.High)
		}
		if x.Max != nil {
			sizes = append(sizes, x.Max)
		}
	case ssa.CallInstruction:
		name := callName(x, x.Common().StaticCallee())
		args := x.Common().Args
		switch name {
		case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "io.LimitReader", "strings.Repeat", "bytes.Repeat":
			sizes = append(sizes, args[len(args)-1])
		case "io.CopyN":
			sizes = append(sizes, args[2])
		}
		if strings.HasPrefix(name, "slices.Grow") {
			sizes = append(sizes, args[1])
		}
	}
	out := sizes[:0]
	for _, v := range sizes {
		if _, ok := v.(*ssa.Const); !ok {
			out = append(out, v)
		}
	}
	return out
}

// sizesFrom: the i-th parameter of f becomes a size.
func (P *Program) sizesFrom(f *ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	if seen[f] || i >= len(f.Params) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, v := range sizesOf(ins) {
				if root, _ := linear(v); root == ssa.Value(f.Params[i]) {
					return true
				}
			}
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if c := ci.Common().StaticCallee(); c != nil && P.isLibFn(c) {
					for k, a := range ci.Common().Args {
						if root, _ := linear(a); root == ssa.Value(f.Params[i]) && P.sizesFrom(c, k, seen) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// closure: f and the library functions it uses, transitively.
func (P *Program) closure(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !P.isLibFn(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, g := range P.usedFuncs(f) {
			walk(g)
		}
	}
	walk(f)
	return out
}

// successes: f has a block in which it calls a function that does the work, or
// returns without an error, and the condition holds at every such block.
func successes(P *Program, f *ssa.Function, work func(*ssa.Function) bool, holds func(*ssa.BasicBlock) bool) bool {
	n := 0
	for _, b := range f.Blocks {
		is := false
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if c := ci.Common().StaticCallee(); c != nil && work(c) {
					is = true
				}
			}
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
			if k, ok := ret.Results[len(ret.Results)-1].(*ssa.Const); ok && k.Value == nil {
				is = true
			}
		}
		if is {
			n++
			if !holds(b) {
				return false
			}
		}
	}
	return n > 0
}
