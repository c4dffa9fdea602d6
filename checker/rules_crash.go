package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// crashes: the instruction panics on the path that is followed ("" if that is
// not certain).
func (x *gx) crashes(c *Ctx, ins ssa.Instruction) string {
	isNil := func(v ssa.Value) bool { return c.Val(v).K == KNil }
	index := func(seq, i ssa.Value) string {
		if _, ok := seq.Type().Underlying().(*types.Map); ok {
			return ""
		}
		n, ok := x.count(c, c.Val(seq))
		k, isC := c.Val(i).IsInt()
		if ok && isC && (k < 0 || k >= int64(n)) {
			return "position " + itoa(int(k)) + " of " + itoa(n) + " values is used"
		}
		return ""
	}
	switch i := ins.(type) {
	case *ssa.FieldAddr:
		if isNil(i.X) {
			return "a field of a nil pointer is used"
		}
	case *ssa.UnOp:
		if i.Op.String() == "*" && isNil(i.X) {
			return "a nil pointer is followed"
		}
	case *ssa.Store:
		if isNil(i.Addr) {
			return "a nil pointer is written through"
		}
	case *ssa.MapUpdate:
		if isNil(i.Map) {
			return "an entry is put into a nil map"
		}
	case *ssa.IndexAddr:
		return index(i.X, i.Index)
	case *ssa.Index:
		return index(i.X, i.Index)
	case *ssa.Slice:
		n, ok := x.count(c, c.Val(i.X))
		if !ok {
			return ""
		}
		if _, isS := i.X.Type().Underlying().(*types.Slice); !isS {
			return ""
		}
		if i.Low != nil {
			// up to the capacity is legal with an explicit end only
			if k, isC := c.Val(i.Low).IsInt(); isC && (k < 0 || i.High == nil && k > int64(n)) {
				return "values from position " + itoa(int(k)) + " of " + itoa(n) + " are used"
			}
		}
	case *ssa.TypeAssert:
		if i.CommaOk {
			return ""
		}
		v := c.Val(i.X)
		if v.K == KNil {
			return "the type of a nil interface is asserted"
		}
		is, known := x.Assert(c, i, v)
		if !known && v.K == KTag && (strings.HasPrefix(v.Tag, "item(") || strings.HasPrefix(v.Tag, "vals(")) || known && !is {
			return "a type is asserted without a test that the value does not have"
		}
	case *ssa.Panic:
		if i.Pos().IsValid() {
			return "panic is called"
		}
	}
	return ""
}

// count: how many elements a slice or string certainly has.
func (x *gx) count(c *Ctx, v Val) (int, bool) {
	switch v.K {
	case KNil:
		return 0, true
	case KSlice:
		return v.Len, true
	case KConst:
		if s, ok := v.IsStr(); ok {
			return len(s), true
		}
	case KTag:
		if strings.HasPrefix(v.Tag, "vals(") && strings.HasSuffix(v.Tag, ")") {
			s := x.shapeAt(v.Tag[5 : len(v.Tag)-1])
			if s == nil || s.kind == "" || s.kind == "L" || s.kind == "A" {
				return 0, false
			}
			// at least one value, or what the path has tested
			n := 1
			if s.none || s.kind == "E" {
				n = 0
			}
			for k, is := range parseA(c.A()) {
				f := strings.Fields(strings.TrimSuffix(strings.TrimPrefix(k, "f:cmp("), ")"))
				if !strings.HasPrefix(k, "f:cmp(") || !strings.Contains(k, "len("+v.Tag+")") {
					continue
				}
				if len(f) != 3 {
					return 0, false
				}
				if f[2] == "len("+v.Tag+")" {
					f[0], f[2] = f[2], f[0]
					f[1] = map[string]string{"eq": "eq", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[f[1]]
				}
				m, err := strconv.Atoi(f[2])
				if err != nil || f[0] != "len("+v.Tag+")" {
					return 0, false
				}
				switch f[1] + is {
				case "lt0", "ge1", "eq1":
				case "le0", "gt1":
					m++
				case "lt1", "le1", "gt0", "ge0":
					m = 0
				case "eq0":
					if m != 0 {
						return 0, false
					}
					m = 1
				default:
					return 0, false
				}
				if m > n {
					n = m
				}
			}
			return n, true
		}
	}
	return 0, false
}

func (x *gx) callCrashes(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) string {
	cc := site.Common()
	switch {
	case cc.IsInvoke():
		if c.Val(cc.Value).K == KNil {
			return "the method " + cc.Method.Name() + " of a nil interface is called"
		}
	case callee == nil:
		if c.e.calleeVal(c.st, c.fr, cc).K == KNil {
			return "a nil function is called"
		}
	case callee.Signature.Recv() != nil && fnPkg(callee) != nil && fnPkg(callee).Path() == pkgAst:
		if len(args) > 0 && args[0].K == KNil {
			return "the method " + callee.Name() + " of a nil item is called"
		}
	case fnPkg(callee) != nil && fnPkg(callee).Path() == pkgAst:
		return x.refused(c, site, callee, args)
	}
	return ""
}

// refused: a factory is given a value of the peer that it does not accept for
// every value the peer can send.
func (x *gx) refused(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) string {
	// what the peer's value is: the path of the item and its kind
	peer := func(v Val) (string, string) {
		t := strings.TrimSuffix(tagOf(v), "[0]")
		if !strings.HasPrefix(t, "vals(") || !strings.HasSuffix(t, ")") || strings.ContainsAny(t[5:len(t)-1], "()") {
			return "", ""
		}
		p := t[5 : len(t)-1]
		if s := x.shapeAt(p); s != nil {
			return p, s.kind
		}
		return p, ""
	}
	facts := parseA(c.A())
	// the numbers that the value may be, by what the path has compared
	span := func(v Val, kind string) (lo, hi *big.Int) {
		if p, _ := peer(v); facts["judged:"+p] != "" {
			return nil, nil
		}
		lo, hi = big.NewInt(0), new(big.Int).SetUint64(1<<64-1)
		switch kind {
		case "I":
			hi.SetInt64(1<<63 - 1)
			// a number that was made unsigned is none below zero
			signed, known := signedArgs(site)
			if !known {
				signed = facts["f:is("+tagOf(v)+"|int64)"] == "1"
				if !signed && facts["f:is("+tagOf(v)+"|uint64)"] != "1" {
					return nil, nil
				}
			}
			if signed {
				lo.SetInt64(-1 << 63)
			}
		case "B":
			hi.SetInt64(255)
		}
		for k, is := range facts {
			rest, ok := strings.CutPrefix(k, "f:cmp("+tagOf(v)+" ")
			if !ok {
				continue
			}
			f := strings.Fields(strings.TrimSuffix(rest, ")"))
			if len(f) != 2 {
				return nil, nil
			}
			n, ok := new(big.Int).SetString(f[1], 10)
			if !ok {
				return nil, nil
			}
			one := big.NewInt(1)
			switch f[0] + is {
			case "eq1":
				lo, hi = n, n
			case "eq0":
				return nil, nil
			case "le1", "lt1", "le0", "lt0":
				if f[0] == "lt" {
					n = new(big.Int).Sub(n, one) // v <= n, or not
				}
				if is == "1" {
					if n.Cmp(hi) < 0 {
						hi = n
					}
				} else if n = new(big.Int).Add(n, one); n.Cmp(lo) > 0 {
					lo = n
				}
			default:
				return nil, nil
			}
		}
		if lo.Cmp(hi) > 0 {
			return nil, nil // no such path
		}
		return lo, hi
	}
	outside := func(v Val, kind string, lo, hi *big.Int) bool {
		l, h := span(v, kind)
		return l != nil && (l.Cmp(lo) < 0 || h.Cmp(hi) > 0)
	}
	vals := func(v Val) []Val {
		es, ok := c.elems(v, anyType)
		if !ok {
			return []Val{v}
		}
		return es
	}
	switch callee.Name() {
	case "NewASCIINode":
		if p, k := peer(args[0]); k != "" && k != "A" {
			return "NewASCIINode is given the value of item " + p + ", which is no text"
		}
	case "NewBinaryNode":
		for _, v := range vals(args[0]) {
			if p, k := peer(v); (k == "U" || k == "I") && outside(v, k, big.NewInt(0), big.NewInt(255)) {
				return "NewBinaryNode is given the number in item " + p + ", which may exceed a byte"
			}
		}
	case "NewUintNode", "NewIntNode":
		n, ok := args[0].IsInt()
		if !ok || len(args) < 2 || n < 1 || n > 8 {
			return ""
		}
		one := big.NewInt(1)
		lo, hi := big.NewInt(0), new(big.Int).Lsh(one, uint(8*n))
		if callee.Name() == "NewIntNode" {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		hi.Sub(hi, one)
		for _, v := range vals(args[1]) {
			if p, k := peer(v); (k == "U" || k == "I") && outside(v, k, lo, hi) {
				return callee.Name() + " of " + itoa(int(n)) + " bytes is given the number in item " + p + ", which may be out of range"
			}
		}
	}
	return ""
}

// judged notes the values of the peer that a condition depends on in another
// way than by a comparison with a number: no range is known of them then.
func (x *gx) judged(c *Ctx, br *ssa.If) {
	plain := func(v ssa.Value) ssa.Value {
		for {
			switch y := v.(type) {
			case *ssa.Convert:
				v = y.X
			case *ssa.ChangeType:
				v = y.X
			default:
				return v
			}
		}
	}
	number := func(v ssa.Value) bool {
		_, ok := c.Val(v).IsInt()
		if k, isC := v.(*ssa.Const); isC && k.Value != nil {
			ok = k.Value.Kind() == constant.Int
		}
		return ok
	}
	if b, ok := br.Cond.(*ssa.BinOp); ok {
		_, c1 := plain(b.X).(*ssa.BinOp)
		_, c2 := plain(b.Y).(*ssa.BinOp)
		_, f1 := plain(b.X).(*ssa.Call)
		_, f2 := plain(b.Y).(*ssa.Call)
		if !c1 && !f1 && number(b.Y) || !c2 && !f2 && number(b.X) {
			return
		}
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if d > 8 || seen[v] {
			return
		}
		seen[v] = true
		if t := tagOf(c.Val(v)); strings.HasPrefix(t, "vals(") && strings.HasSuffix(t, ")[0]") {
			c.Put("judged:"+t[5:len(t)-4], "1")
			return
		}
		switch y := v.(type) {
		case *ssa.BinOp:
			walk(y.X, d+1)
			walk(y.Y, d+1)
		case *ssa.UnOp:
			if y.Op.String() != "*" {
				walk(y.X, d+1)
			}
		case *ssa.Convert:
			walk(y.X, d+1)
		case *ssa.ChangeType:
			walk(y.X, d+1)
		case *ssa.Extract:
			if k, ok := y.Tuple.(*ssa.Call); ok {
				walk(k, d+1)
			}
		case *ssa.Phi:
			for _, e := range y.Edges {
				walk(e, d+1)
			}
		case *ssa.Call:
			if _, ok := y.Call.Value.(*ssa.Builtin); !ok {
				for _, a := range y.Call.Args {
					walk(a, d+1)
				}
			}
		}
	}
	walk(br.Cond, 0)
}

// signedArgs: the values that are written as the variadic arguments of a call
// have signed types.
func signedArgs(site ssa.CallInstruction) (signed, known bool) {
	args := site.Common().Args
	sl, ok := args[len(args)-1].(*ssa.Slice)
	if !ok {
		return false, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false, false
	}
	n := 0
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, ref := range *ia.Referrers() {
			st, ok := ref.(*ssa.Store)
			if !ok {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				return false, false
			}
			b, ok := mi.X.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				return false, false
			}
			s := b.Info()&types.IsUnsigned == 0
			if n > 0 && s != signed {
				return false, false
			}
			signed = s
			n++
		}
	}
	return signed, n > 0
}

// requestForms: one well-formed request per message.
func requestForms() map[string][]*shape {
	L := func(sub ...*shape) *shape { return sh("L", sub...) }
	U, A, B, T, E := sh("U"), sh("A"), sh("B"), sh("T"), sh("E")
	ids := []*shape{L(U, A), L()}
	return map[string][]*shape{
		"S1F1": {E}, "S1F3": ids, "S1F11": ids, "S1F13": {L(A, A), L()}, "S1F15": {E}, "S1F17": {E},
		"S2F13": ids, "S2F15": {L(L(U, U))}, "S2F17": {E}, "S2F29": ids, "S2F31": {A},
		"S2F33": {L(U, L(L(U, L(U))))}, "S2F35": {L(U, L(L(U, L(U))))}, "S2F37": {L(T, L(U))},
		"S2F41": {L(A, L(L(A, U)))}, "S5F1": {L(B, U, A)}, "S5F3": {L(B, U), L(B, L(U))}, "S5F5": {L(U), U}, "S5F7": {E},
		"S6F11": {L(U, U, L(L(U, L(A))))}, "S6F15": {U}, "S7F3": {L(A, A)}, "S7F5": {A, L(A)},
	}
}

// truncations: the form with one list at a time cut short by one entry.
func (s *shape) truncations() []*shape {
	if s == nil || s.kind != "L" || len(s.sub) == 0 {
		return nil
	}
	out := []*shape{{kind: "L", sub: s.sub[:len(s.sub)-1]}, {kind: "L", sub: append(append([]*shape{}, s.sub...), sh("U"))}}
	for i, x := range s.sub {
		for _, y := range x.truncations() {
			sub := append([]*shape{}, s.sub...)
			sub[i] = y
			out = append(out, &shape{kind: "L", sub: sub})
		}
	}
	return out
}

func peerForms(base []*shape) []*shape {
	var out []*shape
	seen := map[string]bool{}
	add := func(ss ...*shape) {
		for _, s := range ss {
			if !seen[s.String()] {
				seen[s.String()] = true
				out = append(out, s)
			}
		}
	}
	for _, s := range base {
		add(s)
		add(s.variants()...)
		add(s.truncations()...)
		add(&shape{kind: "F", none: true})
	}
	return out
}

func checkForms(r *Report) {
	P := r.P
	follow := func(rule, name string, role string, forms []*shape, go1 func(x *gx, s *shape)) {
		n := 0
		for _, s := range forms {
			x := newGX(P, role, s, 1)
			x.maxSteps = 30000
			x.gm.branch = func(c *Ctx, br *ssa.If, taken bool) bool {
				x.judged(c, br)
				return c.Get("crash") == ""
			}
			bad := ""
			x.crash = func(c *Ctx, ins ssa.Instruction, what string) {
				c.Put("crash", "1") // no further
				if bad == "" {
					bad = what + " at " + P.ipos(ins) + " in " + P.fname(ins.Parent())
					r.Check(false, rule, name+": "+P.fname(ins.Parent())+": "+what, P.ipos(ins), name+" panics on "+s.String()+": "+what)
				}
			}
			x.app = func(c *Ctx, site ssa.CallInstruction, tag string, args []Val) ([]CallRes, bool) {
				if appKind(site) != "RemoteCommandHandler" {
					return nil, false
				}
				// what the application answers is of no interest here
				t := "ret(" + strings.TrimPrefix(tag, "?") + ")"
				res := Val{K: KStruct, Len: 1, F: map[string]Val{".HCACK": TagV(t + ".HCACK"), ".ParameterAcks": NilV}}
				return []CallRes{{A: c.A(), Ret: TupleV(res, NilV)}, {A: c.A(), Ret: TupleV(res, TagV("=err:app"))}}, true
			}
			go1(x, s)
			r.SawEngine(x.e)
			if len(x.e.Overflow) > 0 {
				// not followed to its end: nothing is claimed
				r.Count("forms not followed to the end", 1)
				continue
			}
			n++
			if bad == "" {
				r.Good(rule, name+": "+s.String(), "")
			}
		}
		r.Count("forms", n)
	}
	reqs := requestForms()
	done := map[*ssa.Function]bool{}
	n := 0
	for _, h := range P.gemRegs(r) {
		h := h
		base := reqs[h.sf()]
		if base == nil {
			base = []*shape{sh("L", sh("L", sh("U"), sh("A")), sh("B"))}
		}
		n++
		done[h.fn] = true
		follow("request", h.role[6:]+" "+h.sf(), h.role, peerForms(base), func(x *gx, s *shape) { x.handle(h) })
	}
	r.Anchor(n >= 20, "the handlers that NewGemHandler registers")
	ops := gemSends()
	a0 := ops[len(ops)-1].a
	for _, op := range ops[:len(ops)-1] {
		if op.reply == nil {
			continue
		}
		f := P.method(pkgGem, "GemHandler", op.name)
		if !r.Anchor(f != nil, "GemHandler."+op.name) {
			continue
		}
		done[f] = true
		op := op
		follow("reply", op.name, "DeviceHost", peerForms(append([]*shape{op.reply}, op.forms...)), func(x *gx, s *shape) {
			x.form, x.reply = sh("E"), s
			x.setup = func(st *State) []Val { return op.args(x, st, f) }
			x.run(f, a0, nil, nil)
		})
	}
	// whatever else looks at a message: the replies to what is sent in the
	// background
	L := func(sub ...*shape) *shape { return sh("L", sub...) }
	U, A, B := sh("U"), sh("A"), sh("B")
	generic := peerForms([]*shape{B, L(B), L(B, L(A, A)), L(L(U, A, A)), L(B, U, A), L(U, U, L(L(U, L(A))))})
	for _, f := range P.funcs {
		if fnPkg(f).Path() != pkgGem || len(f.Blocks) == 0 || f.Parent() != nil || done[f] {
			continue
		}
		arg := -1
		for i, p := range f.Params {
			if typeKey(p.Type()) == tData {
				arg = i
			}
		}
		if arg < 0 {
			continue
		}
		f := f
		follow("read", P.fname(f), "DeviceHost", generic, func(x *gx, s *shape) {
			x.form, x.reply = s, s
			args := make([]Val, len(f.Params))
			args[arg] = TagV("m:in.data")
			x.setup = nil
			x.run(f, "", args, nil)
		})
	}
}

// ---- values that may be nil ----

// mayBeNil lists the values of a function that are nil at times by their
// nature, with what tells so.
func (n *nils) sources(f *ssa.Function) map[ssa.Value]string {
	out := map[ssa.Value]string{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op.String() == "*" && typeKey(x.Type()) == pkgLink+".Session" && n.reset[ownerField(fa)] {
					out[x] = "the session, which is reset when the connection ends"
				}
			case *ssa.Extract:
				if x.Index != 0 || !derefable(x.Type()) {
					continue
				}
				switch t := x.Tuple.(type) {
				case *ssa.TypeAssert:
					out[x] = "the result of a type test"
				case *ssa.Lookup:
					out[x] = "the result of a look-up"
				case *ssa.Call:
					if c := t.Call.StaticCallee(); c != nil && n.nilResult(c) {
						out[x] = "the result of " + n.P.fname(c)
					}
					if t.Call.StaticCallee() == nil && !t.Call.IsInvoke() && typeKey(x.Type()) == tData {
						out[x] = "the reply of a handler"
					}
				}
			case *ssa.Lookup:
				// those of the GEM layer are followed with their registries
				if _, ok := x.X.Type().Underlying().(*types.Map); ok && fnPkg(f).Path() != pkgGem && !x.CommaOk && derefable(x.Type()) {
					out[x] = "the result of a look-up"
				}
			case *ssa.Call:
				if c := x.Call.StaticCallee(); c != nil && derefable(x.Type()) && n.nilResult(c) {
					out[x] = "the result of " + n.P.fname(c)
				}
			}
		}
	}
	return out
}

type nils struct {
	P     *Program
	reset map[string]bool // fields of type *link.Session that are set to nil
	memo  map[*ssa.Function]int
	alone map[*ssa.Function]bool
	uses  int
	bad   func(pos ssa.Instruction, v ssa.Value, why string)
	seen  map[ssa.Value]bool
}

func derefable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// nilResult: the first result is nil on some path of the function.
func (n *nils) nilResult(f *ssa.Function) bool {
	if n.memo[f] != 0 {
		return n.memo[f] == 2
	}
	n.memo[f] = 1
	if !n.P.isLibFn(f) || len(f.Blocks) == 0 || f.Signature.Results().Len() == 0 || fnPkg(f).Path() == pkgAst || isErrorType(f.Signature.Results().At(0).Type()) {
		return false
	}
	src := n.sources(f)
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 && n.may(src, ret.Results[0], b, 0) {
			n.memo[f] = 2
			if last := ret.Results[len(ret.Results)-1]; len(ret.Results) > 1 && isErrorType(last.Type()) && isNilConst(last) {
				n.alone[f] = true
			}
		}
	}
	return n.memo[f] == 2
}

// nilAlone: the first result is nil where no error is returned.
func (n *nils) nilAlone(f *ssa.Function) bool {
	return n.nilResult(f) && n.alone[f]
}

// may: the value is nil at times.
func (n *nils) may(src map[ssa.Value]string, v ssa.Value, at *ssa.BasicBlock, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for i, e := range x.Edges {
			if n.may(src, e, x.Block().Preds[i], d+1) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		// the cell of a named result
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op.String() == "*" {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al && n.may(src, st.Val, st.Block(), d+1) {
					return true
				}
			}
			return false
		}
	}
	return src[v] != "" && !n.proved(at, v)
}

// proved: v is not nil in block b.
func (n *nils) proved(b *ssa.BasicBlock, v ssa.Value) bool {
	for _, e := range edgesAt(b) {
		if n.proves(e.br.Cond, e.taken, v, 0) {
			return true
		}
	}
	return false
}

func (n *nils) proves(cond ssa.Value, taken bool, v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "!" {
			return n.proves(x.X, !taken, v, d+1)
		}
	case *ssa.BinOp:
		op := x.Op.String()
		if op != "==" && op != "!=" {
			return false
		}
		l, r := x.X, x.Y
		if isNilConst(l) {
			l, r = r, l
		}
		want := taken == (op == "==") // the two are equal
		if isNilConst(r) {
			return !want && sameVar(l, v) || want && n.sibling(l, v, true)
		}
		if k, ok := r.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			return n.proves(l, constant.BoolVal(k.Value) == want, v, d+1)
		}
		return false
	case *ssa.Phi:
		any := false
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) != taken {
					continue
				}
				if !n.provedOn(p, x.Block(), v) {
					return false
				}
				any = true
				continue
			}
			if !n.proves(e, taken, v, d+1) && !n.provedOn(p, x.Block(), v) {
				return false
			}
			any = true
		}
		return any
	case *ssa.Extract:
		return taken && n.sibling(x, v, false)
	case *ssa.Call:
		// a test of the library: a function that answers true only for what
		// is not nil
		c := x.Call.StaticCallee()
		if c == nil || !n.P.isLibFn(c) || len(c.Blocks) == 0 || d > 3 {
			return false
		}
		for i, a := range x.Call.Args {
			if a != v || i >= len(c.Params) {
				continue
			}
			all, any := true, false
			for _, b := range c.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(ret.Results) != 1 {
					continue
				}
				if k, ok := ret.Results[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != taken {
					continue
				}
				any = true
				if !n.proved(b, c.Params[i]) && !n.proves(ret.Results[0], taken, c.Params[i], d+1) {
					all = false
				}
			}
			if all && any {
				return true
			}
		}
	}
	return false
}

func (n *nils) provedOn(p, b *ssa.BasicBlock, v ssa.Value) bool {
	for _, e := range edgesOn(p, succIndex(p, b)) {
		if n.proves(e.br.Cond, e.taken, v, 0) {
			return true
		}
	}
	return false
}

// sibling: l is the flag (or error) that comes with v.
func (n *nils) sibling(l, v ssa.Value, isErr bool) bool {
	a, ok1 := l.(*ssa.Extract)
	b, ok2 := v.(*ssa.Extract)
	if !ok1 || !ok2 || a.Tuple != b.Tuple || a.Index == b.Index || isErrorType(a.Type()) != isErr {
		return false
	}
	if call, ok := a.Tuple.(*ssa.Call); ok && isErr {
		// that there is no error says something only where nothing is not an
		// answer by itself
		c := call.Call.StaticCallee()
		if c == nil {
			return call.Call.IsInvoke()
		}
		return !n.P.isLibFn(c) || !n.nilAlone(c)
	}
	return true
}

// onlyCell: a variable in memory that is written once.
func onlyCell(v ssa.Value) *ssa.Alloc {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	n := 0
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == al {
				n++
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if f, ok := x.Fn.(*ssa.Function); ok && b == al && i < len(f.FreeVars) {
					for _, r := range *f.FreeVars[i].Referrers() {
						if l, ok := r.(*ssa.UnOp); !ok || l.Op.String() != "*" {
							return nil
						}
					}
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return al
}

func sameVar(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op.String() == "*" && y.Op.String() == "*" && x.X == y.X && onlyCell(x.X) != nil
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

// follow checks the uses of a value that may be nil.
func (n *nils) follow(v ssa.Value, why string) {
	if n.seen[v] || v.Referrers() == nil {
		return
	}
	n.seen[v] = true
	for _, ref := range *v.Referrers() {
		if ref.Block() == nil || n.proved(ref.Block(), v) {
			if _, isPhi := ref.(*ssa.Phi); !isPhi {
				n.uses++
				continue
			}
		}
		switch x := ref.(type) {
		case *ssa.FieldAddr:
			n.bad(x, v, why)
		case *ssa.UnOp:
			if x.Op.String() == "*" {
				n.bad(x, v, why)
			}
		case *ssa.Phi:
			open := false
			for i, e := range x.Edges {
				if e == v && !n.proved(x.Block().Preds[i], v) && !n.provedOn(x.Block().Preds[i], x.Block(), v) {
					open = true
				}
			}
			if open {
				n.follow(x, why)
			}
		case *ssa.Store:
			// a variable that a closure shares
			if al := onlyCell(x.Addr); al != nil && x.Val == v {
				for _, ref := range *al.Referrers() {
					if l, ok := ref.(*ssa.UnOp); ok && l.Op.String() == "*" {
						n.follow(l, why)
					}
				}
			}
		case *ssa.ChangeInterface:
			n.follow(x, why)
		case *ssa.ChangeType:
			n.follow(x, why)
		case ssa.CallInstruction:
			cc := x.Common()
			if cc.IsInvoke() && cc.Value == v {
				n.bad(x, v, why)
				continue
			}
			if !cc.IsInvoke() && cc.Value == v {
				n.bad(x, v, why)
				continue
			}
			if c := cc.StaticCallee(); c != nil && n.P.isLibFn(c) && len(c.Blocks) > 0 {
				for i, a := range cc.Args {
					if a == v && i < len(c.Params) {
						n.follow(c.Params[i], why+" (passed at "+n.P.ipos(x)+")")
					}
				}
			}
		}
	}
}

func checkNils(r *Report) {
	P := r.P
	n := &nils{P: P, memo: map[*ssa.Function]int{}, alone: map[*ssa.Function]bool{}, reset: map[string]bool{}, seen: map[ssa.Value]bool{}}
	// the fields that hold a session which is taken away again: a nil is
	// stored, or what a method was given
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || typeKey(st.Val.Type()) != pkgLink+".Session" {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if isNilConst(st.Val) {
					n.reset[ownerField(fa)] = true
				}
				if p, ok := st.Val.(*ssa.Parameter); ok {
					for _, s := range P.staticCallers(f) {
						for i, q := range f.Params {
							if q == p && i < len(s.Common().Args) && isNilConst(s.Common().Args[i]) {
								n.reset[ownerField(fa)] = true
							}
						}
					}
				}
			}
		}
	}
	r.Anchor(len(n.reset) > 0, "the field that holds the session of the connection")
	n.bad = func(ins ssa.Instruction, v ssa.Value, why string) {
		r.Check(false, "nil", P.fname(ins.Parent())+": "+why, P.ipos(ins), P.fname(ins.Parent())+" uses "+why+" without having tested that it is there")
	}
	total := 0
	for _, f := range P.funcs {
		pk := fnPkg(f).Path()
		if pk != pkgHsms && pk != pkgLink && pk != pkgGem && pk != pkgCodec && !strings.HasSuffix(pk, "/utils") {
			continue
		}
		src := n.sources(f)
		var vs []ssa.Value
		for v := range src {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			total++
			n.follow(v, src[v])
			r.Good("nil", P.fname(f)+": "+src[v], P.pos(v.Pos()))
		}
		r.Saw(f)
		// assertions that are not tested
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ta, ok := ins.(*ssa.TypeAssert)
				if !ok || ta.CommaOk || pk == pkgGem {
					continue
				}
				r.Check(n.typed(ta), "type", P.fname(f)+": "+types.TypeString(ta.AssertedType, nil), P.ipos(ta), P.fname(f)+" asserts a type without having tested it")
			}
		}
	}
	r.Count("values that may be nil", total)
}

// typed: the asserted type was tested before, or the value comes from a place
// that holds nothing else.
func (n *nils) typed(ta *ssa.TypeAssert) bool {
	for _, e := range edgesAt(ta.Block()) {
		if !e.taken {
			continue
		}
		if ex, ok := e.br.Cond.(*ssa.Extract); ok && ex.Index == 1 {
			if t, ok := ex.Tuple.(*ssa.TypeAssert); ok && t.X == ta.X && types.Identical(t.AssertedType, ta.AssertedType) {
				return true
			}
		}
	}
	switch x := ta.X.(type) {
	case *ssa.MakeInterface:
		return types.Identical(x.X.Type(), ta.AssertedType) || types.AssignableTo(x.X.Type(), ta.AssertedType)
	case *ssa.Call:
		// atomic.Value, sync.Pool, list elements: what a library's own
		// container holds
		if c := x.Call.StaticCallee(); c != nil && !n.P.isLibFn(c) {
			return n.holdsOnly(x, ta.AssertedType)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && !n.P.isLibFn(f) {
				return n.holdsOnly(c, ta.AssertedType)
			}
		}
	}
	return false
}

// holdsOnly: everything the library hands to methods of the container that
// the value was taken from has the type.
func (n *nils) holdsOnly(get *ssa.Call, t types.Type) bool {
	if len(get.Call.Args) == 0 {
		return false
	}
	fa, ok := get.Call.Args[0].(*ssa.FieldAddr)
	key := ""
	if ok {
		key = ownerField(fa)
	} else if g, ok := get.Call.Args[0].(*ssa.Global); ok {
		key = g.String()
	}
	if key == "" {
		return false
	}
	good, any := true, false
	for _, f := range n.P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok || len(c.Common().Args) < 2 {
					continue
				}
				k := ""
				if fa, ok := c.Common().Args[0].(*ssa.FieldAddr); ok {
					k = ownerField(fa)
				} else if g, ok := c.Common().Args[0].(*ssa.Global); ok {
					k = g.String()
				}
				if k != key {
					continue
				}
				last := c.Common().Args[len(c.Common().Args)-1]
				if mi, ok := last.(*ssa.MakeInterface); ok {
					any = true
					if !types.Identical(mi.X.Type(), t) && !types.AssignableTo(mi.X.Type(), t) {
						good = false
					}
				}
			}
		}
	}
	return good && any
}

func init() {
	register("C27", "The GEM layer is followed on messages of every form, and every value that may be missing is followed to its uses.", func(r *Report) {
		r.Rule("request", "no registered handler panics, whatever form the request has: types are tested, positions exist, and the factories accept what the reply is built from")
		r.Rule("reply", "no operation panics, whatever form the reply has")
		r.Rule("read", "no other function that looks at a message panics, whatever form it has")
		r.Rule("nil", "what may be missing (the session while the connection ends, the result of a test or look-up, a handler's reply) is used only where it is known to be there")
		r.Rule("type", "outside the items of messages, no type is asserted that was not tested")
		checkForms(r)
		checkNils(r)
		r.Floor("request", 300)
		r.Floor("reply", 300)
		r.Floor("read", 100)
		r.Floor("nil", 30)
	})
}
