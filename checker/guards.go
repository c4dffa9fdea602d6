package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Guarded values: a flow-sensitive demonstration that an integer has been
// compared with an upper (lower) bound on every path to a point. Branch
// conditions hold where the branch edge dominates; functions that validate
// and report by a bool or an error are summarised; parameters are bounded if
// they are at every call.

type guards struct {
	P     *Program
	busy  map[[2]ssa.Value]bool
	trust func(v ssa.Value) bool // values that are bounds by themselves
	max   int64                  // constants up to this are bounds
	depth int
}

// linear strips conversions and added constants: v = root + k.
func linear(v ssa.Value) (ssa.Value, int64) {
	k := int64(0)
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Convert:
			if !isInteger(x.X.Type()) || !isInteger(x.Type()) || intSize(x.Type()) < intSize(x.X.Type()) {
				return v, k
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				if c, ok := constInt(x.Y); ok && intSize(x.Type()) == 8 {
					if x.Op == token.ADD {
						k += c
					} else {
						k -= c
					}
					v = x.X
					continue
				}
				if c, ok := constInt(x.X); ok && x.Op == token.ADD && intSize(x.Type()) == 8 {
					k += c
					v = x.Y
					continue
				}
			}
			return v, k
		default:
			return v, k
		}
	}
	return v, k
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func intSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// sameVal: two values that are equal at run time: the same SSA value, or loads
// of the same field of the same object.
func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		return sameAddr(x.X, y.X)
	}
	c, ok1 := a.(*ssa.Call)
	d, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		f, g := isLenCap(c), isLenCap(d)
		return f != "" && f == g && sameVal(c.Call.Args[0], d.Call.Args[0])
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return x.Field == y.Field && types.Identical(x.X.Type(), y.X.Type()) && sameVal(x.X, y.X)
	}
	return false
}

func isLenCap(c *ssa.Call) string {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
		return b.Name()
	}
	return ""
}

// edge: the branch outcomes that hold at block b.
type edge struct {
	br    *ssa.If
	taken bool
}

func edgesAt(b *ssa.BasicBlock) []edge {
	var out []edge
	for d := b.Idom(); d != nil; d = d.Idom() {
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		for i, s := range d.Succs {
			if len(s.Preds) == 1 && (s == b || s.Dominates(b)) {
				out = append(out, edge{br, i == 0})
			}
		}
	}
	return out
}

// edgesOn: what holds on the edge from p to its i-th successor.
func edgesOn(p *ssa.BasicBlock, i int) []edge {
	out := edgesAt(p)
	if br, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		out = append(out, edge{br, i == 0})
	}
	return out
}

// implied: what holds on the edge from b to its i-th successor (at the end of
// b when i < 0) implies v <= bound (upper) or v >= min (lower).
func (g *guards) implied(b *ssa.BasicBlock, i int, v ssa.Value, upper bool, min int64) bool {
	var es []edge
	if i < 0 {
		es = edgesAt(b)
	} else {
		es = edgesOn(b, i)
	}
	return g.impliedBy(b, es, es, v, upper, min, map[*ssa.BasicBlock]bool{})
}

func (g *guards) impliedBy(b *ssa.BasicBlock, es, known []edge, v ssa.Value, upper bool, min int64, seen map[*ssa.BasicBlock]bool) bool {
	for _, e := range es {
		if g.cond(e.br.Cond, e.taken, v, upper, min, 0) {
			return true
		}
	}
	// a merge on the way: each way into it implies the bound, or cannot be
	// the one taken given what is known here
	for m := b; m != nil; m = m.Idom() {
		if len(m.Preds) < 2 || seen[m] {
			continue
		}
		seen[m] = true
		if definedIn(v, m) {
			break
		}
		all, any := true, false
		for _, p := range m.Preds {
			if m.Dominates(p) {
				continue // once round the loop: v is the same
			}
			on := edgesOn(p, succIndex(p, m))
			if contradicts(on, known) {
				continue
			}
			any = true
			if !g.impliedBy(p, on, append(append([]edge{}, known...), on...), v, upper, min, seen) {
				all = false
				break
			}
		}
		delete(seen, m)
		if all && any {
			return true
		}
	}
	return false
}

// definedIn: v is computed in block m (so that nothing before m speaks of it).
func definedIn(v ssa.Value, m *ssa.BasicBlock) bool {
	r, _ := linear(v)
	i, ok := r.(ssa.Instruction)
	return ok && i.Block() == m
}

// contradicts: the two sets of branch outcomes exclude each other by what they
// say about equality with constants.
func contradicts(as, bs []edge) bool {
	for _, a := range as {
		x, c, eq, ok := eqFact(a)
		if !ok {
			continue
		}
		for _, b := range bs {
			y, d, eq2, ok := eqFact(b)
			if !ok || !sameVal(x, y) || c.Kind() != d.Kind() {
				continue
			}
			same := constant.Compare(c, token.EQL, d)
			if eq && eq2 && !same || same && eq != eq2 {
				return true
			}
		}
	}
	return false
}

func eqFact(e edge) (ssa.Value, constant.Value, bool, bool) {
	bo, ok := e.br.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return nil, nil, false, false
	}
	x, y := bo.X, bo.Y
	if _, isC := x.(*ssa.Const); isC {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil {
		return nil, nil, false, false
	}
	return x, k.Value, e.taken == (bo.Op == token.EQL), true
}

// cond: the condition (or its negation) implies the bound on v.
func (g *guards) cond(c ssa.Value, taken bool, v ssa.Value, upper bool, min int64, d int) bool {
	if d > 6 {
		return false
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return g.cond(x.X, !taken, v, upper, min, d+1)
		}
	case *ssa.BinOp:
		op := x.Op
		// check(v) != nil, ok == true
		if op == token.EQL || op == token.NEQ {
			if k, ok := x.Y.(*ssa.Const); ok {
				want := taken == (op == token.EQL)
				if k.Value == nil {
					return g.validator(x.X, "nil", want, v, upper, min, d+1)
				}
				if k.Value.Kind() == constant.Bool {
					return g.cond(x.X, constant.BoolVal(k.Value) == want, v, upper, min, d+1)
				}
			}
		}
		if !taken {
			op = negOp(op)
		}
		return g.compare(op, x.X, x.Y, v, upper, min) || g.compare(swapOp(op), x.Y, x.X, v, upper, min)
	case *ssa.Phi:
		// a && b, a || b: every way to the outcome implies the bound
		if len(x.Edges) == 0 {
			return false
		}
		any := false
		for i, ed := range x.Edges {
			if k, ok := ed.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) != taken {
					continue
				}
				p := x.Block().Preds[i]
				if !g.implied(p, succIndex(p, x.Block()), v, upper, min) {
					return false
				}
				any = true
				continue
			}
			p := x.Block().Preds[i]
			if !g.cond(ed, taken, v, upper, min, d+1) && !g.implied(p, succIndex(p, x.Block()), v, upper, min) {
				return false
			}
			any = true
		}
		return any
	case *ssa.Call, *ssa.Extract:
		return g.validator(c, "bool", taken, v, upper, min, d+1)
	}
	return false
}

func succIndex(p, b *ssa.BasicBlock) int {
	for i, s := range p.Succs {
		if s == b {
			return i
		}
	}
	return -1
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	}
	return op
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// compare: "l op r" with l about v.
func (g *guards) compare(op token.Token, l, r, v ssa.Value, upper bool, min int64) bool {
	lr, lk := linear(l)
	vr, vk := linear(v)
	if !sameVal(lr, vr) {
		return false
	}
	if upper {
		switch op {
		case token.LSS, token.LEQ, token.EQL:
			return g.isBound(r)
		}
		return false
	}
	c, ok := constInt(r)
	if !ok {
		return false
	}
	// root + lk op c; v = root + vk
	switch op {
	case token.GEQ, token.EQL:
		return c-lk+vk >= min
	case token.GTR:
		return c+1-lk+vk >= min
	case token.NEQ:
		return isUnsigned(l.Type()) && c == 0 && min <= 1
	}
	return false
}

// isBound: a value that is itself limited.
func (g *guards) isBound(v ssa.Value) bool {
	return g.limited(v, nil)
}

// limited: the value is bounded by construction or by what holds at block b.
func (g *guards) limited(v ssa.Value, b *ssa.BasicBlock) bool {
	if b != nil && g.implied(b, -1, v, true, 0) {
		return true
	}
	if g.trust != nil && g.trust(v) {
		return true
	}
	if isInteger(v.Type()) && intSize(v.Type()) <= 2 {
		return true
	}
	var blk ssa.Value
	if b != nil && len(b.Instrs) > 0 {
		if i, ok := b.Instrs[0].(ssa.Value); ok {
			blk = i
		}
	}
	k := [2]ssa.Value{v, blk}
	if g.busy[k] {
		return false
	}
	g.busy[k] = true
	defer delete(g.busy, k)
	switch x := v.(type) {
	case *ssa.Const:
		n, ok := constInt(x)
		return ok && n <= g.max
	case *ssa.Convert:
		return isInteger(x.X.Type()) && g.limited(x.X, b)
	case *ssa.ChangeType:
		return g.limited(x.X, b)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len", "cap", "copy":
				return true
			case "min":
				for _, a := range x.Call.Args {
					if g.limited(a, b) {
						return true
					}
				}
				return false
			case "max":
				for _, a := range x.Call.Args {
					if !g.limited(a, b) {
						return false
					}
				}
				return true
			}
		}
		return g.results(x.Common(), 0)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return g.results(c.Common(), x.Index)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.XOR:
			return g.limited(x.X, b) && g.limited(x.Y, b)
		case token.SUB: // what is subtracted is taken not to be negative
			return g.limited(x.X, b)
		case token.QUO, token.SHR:
			return g.limited(x.X, b)
		case token.REM:
			return g.limited(x.X, b) || g.limited(x.Y, b)
		case token.AND:
			_, c1 := x.X.(*ssa.Const)
			_, c2 := x.Y.(*ssa.Const)
			return c1 && g.limited(x.X, b) || c2 && g.limited(x.Y, b) || g.limited(x.X, b) && g.limited(x.Y, b)
		}
	case *ssa.Phi:
		for i, ed := range x.Edges {
			p := x.Block().Preds[i]
			if ed == v {
				continue
			}
			if !g.implied(p, succIndex(p, x.Block()), ed, true, 0) && !g.limited(ed, p) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return g.params(x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return g.field(ownerField(fa))
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				return g.stores(al)
			}
		}
	}
	return false
}

func (g *guards) stores(al *ssa.Alloc) bool {
	n := 0
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			n++
			if !g.limited(st.Val, st.Block()) {
				return false
			}
		}
	}
	return n > 0
}

func (g *guards) field(name string) bool {
	n := 0
	for _, f := range g.P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && ownerField(fa) == name {
					n++
					if !g.limited(st.Val, b) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func (g *guards) params(p *ssa.Parameter) bool {
	f := p.Parent()
	i := -1
	for k, q := range f.Params {
		if q == p {
			i = k
		}
	}
	cs := g.P.staticCallers(f)
	for _, c := range cs {
		if i >= len(c.Common().Args) || !g.limited(c.Common().Args[i], c.Block()) {
			return false
		}
	}
	if token.IsExported(f.Name()) && f.Parent() == nil && f.Signature.Recv() == nil {
		return true // supplied by the application
	}
	return len(cs) > 0 && !g.P.addrTake[f]
}

func (g *guards) results(cc *ssa.CallCommon, idx int) bool {
	f := cc.StaticCallee()
	if f == nil || !g.P.isLibFn(f) || len(f.Blocks) == 0 || g.depth > 8 {
		return false
	}
	g.depth++
	defer func() { g.depth-- }()
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if idx >= len(ret.Results) || !g.limited(ret.Results[idx], b) {
				return false
			}
		}
	}
	return true
}

// validator: c is the result of a library function one of whose arguments is
// v; when the result is nil (or the bool taken), the argument is bounded.
func (g *guards) validator(c ssa.Value, kind string, want bool, v ssa.Value, upper bool, min int64, d int) bool {
	idx := 0
	if ex, ok := c.(*ssa.Extract); ok {
		idx = ex.Index
		c = ex.Tuple
	}
	call, ok := c.(*ssa.Call)
	if !ok || g.depth > 6 {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil || !g.P.isLibFn(f) || len(f.Blocks) == 0 {
		return false
	}
	// v is passed in, or is another result of the same call
	var params []ssa.Value
	vr, _ := linear(v)
	for i, a := range call.Call.Args {
		if ar, ak := linear(a); ak == 0 && sameVal(ar, vr) && i < len(f.Params) {
			params = append(params, f.Params[i])
		}
	}
	resIdx := -1
	if ex, ok := vr.(*ssa.Extract); ok && ex.Tuple == ssa.Value(call) {
		resIdx = ex.Index
	}
	if len(params) == 0 && resIdx < 0 {
		return false
	}
	g.depth++
	defer func() { g.depth-- }()
	n := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if idx >= len(ret.Results) {
			return false
		}
		res := ret.Results[idx]
		targets := append([]ssa.Value{}, params...)
		if resIdx >= 0 && resIdx < len(ret.Results) {
			targets = append(targets, ret.Results[resIdx])
		}
		good := func(i int, at *ssa.BasicBlock) bool {
			for _, t := range targets {
				if g.implied(at, i, t, upper, min) {
					return true
				}
				if upper && resIdx >= 0 && t == targets[len(targets)-1] && g.limited(t, at) {
					return true
				}
			}
			return false
		}
		excluded := func(x ssa.Value) bool { // this result is not the one asked for
			k, isC := x.(*ssa.Const)
			switch kind {
			case "nil":
				if isC && k.Value == nil {
					return !want
				}
				switch y := x.(type) {
				case *ssa.MakeInterface, *ssa.Alloc:
					return want
				case *ssa.UnOp:
					if gl, ok := y.X.(*ssa.Global); ok && g.P.globals[gl].nonnil() {
						return want
					}
				case *ssa.Call:
					if fn := y.Call.StaticCallee(); fn != nil && (fn.String() == "errors.New" || fn.String() == "fmt.Errorf") {
						return want
					}
				}
			case "bool":
				if isC && k.Value != nil && k.Value.Kind() == constant.Bool {
					return constant.BoolVal(k.Value) != want
				}
			}
			return false
		}
		if excluded(res) {
			continue
		}
		n++
		if good(-1, b) {
			continue
		}
		if kind == "bool" {
			okc := false
			for _, t := range targets {
				okc = okc || g.cond(res, want, t, upper, min, d+1)
			}
			if okc {
				continue
			}
		}
		if ph, ok := res.(*ssa.Phi); ok {
			all := true
			for i, ed := range ph.Edges {
				p := ph.Block().Preds[i]
				if excluded(ed) {
					continue
				}
				if !good(succIndex(p, ph.Block()), p) {
					all = false
				}
			}
			if all {
				continue
			}
		}
		return false
	}
	return n > 0
}
