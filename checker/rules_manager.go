package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// syncReaches: f, or what it calls (directly or through functions it makes),
// contains such an instruction; what it starts in other goroutines does not
// count.
func (P *Program) syncReaches(f *ssa.Function, pred func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		f = P.unbound(f)
		if f == nil || seen[f] || !P.isLibFn(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if pred(ins) {
					return true
				}
				if _, ok := ins.(*ssa.Go); ok {
					continue
				}
				if ci, ok := ins.(ssa.CallInstruction); ok {
					g := ci.Common().StaticCallee()
					if g == nil {
						g = P.funcOf(ci.Common().Value)
					}
					if g != nil && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// atomicOp recognises an operation on an atomic field, by method or by
// function.
func atomicOp(site ssa.CallInstruction, callee *ssa.Function) (field, op string) {
	if callee == nil || fnPkg(callee) == nil || len(site.Common().Args) == 0 {
		return "", ""
	}
	switch fnPkg(callee).Path() {
	case "sync/atomic", "go.uber.org/atomic":
	default:
		return "", ""
	}
	n := callee.Name()
	for _, o := range []string{"CompareAndSwap", "CAS", "Store", "Swap", "Load", "Add", "Inc", "Dec", "Toggle"} {
		if strings.HasPrefix(n, o) {
			if o == "CAS" {
				o = "CompareAndSwap"
			}
			return atomicField(site.Common().Args[0]), o
		}
	}
	return "", ""
}

func truth(v Val) string {
	if b, ok := v.IsBool(); ok {
		return map[bool]string{true: "1", false: "0"}[b]
	}
	if i, ok := v.IsInt(); ok {
		return map[bool]string{true: "1", false: "0"}[i != 0]
	}
	return "?"
}

// manager follows the goroutine that makes connections, and the places that
// start it.
type manager struct {
	*hm
	r       *Report
	running string // the flag that is won before a manager is started
	enabled string
	isMgr   map[*ssa.Function]bool
	counts  map[string]bool
	max     int64
	attempt func(site ssa.CallInstruction, callee *ssa.Function) string
	inMgr   bool
	cap     func(v ssa.Value) bool
}

// boundedBy: the value is at most one that isMax accepts, wherever it is used
// at block b.
func (P *Program) boundedBy(v ssa.Value, es []edge, isMax func(ssa.Value) bool, depth int) bool {
	if depth > 12 {
		return false
	}
	if isMax(v) {
		return true
	}
	// a comparison that holds here
	for _, e := range es {
		b, ok := e.br.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := b.Op
		x, y := b.X, b.Y
		if !e.taken {
			op = map[token.Token]token.Token{token.GTR: token.LEQ, token.GEQ: token.LSS, token.LSS: token.GEQ, token.LEQ: token.GTR}[op]
		}
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
			op = token.LEQ
		}
		if (op == token.LEQ || op == token.LSS) && sameVal(x, v) && P.isCapped(y, isMax) {
			return true
		}
	}
	rec := func(x ssa.Value) bool { return P.boundedBy(x, es, isMax, depth+1) }
	switch x := v.(type) {
	case *ssa.Convert:
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.BinOp:
		if x.Op == token.MUL {
			if _, ok := x.Y.(*ssa.Const); ok {
				return rec(x.X)
			}
			if _, ok := x.X.(*ssa.Const); ok {
				return rec(x.Y)
			}
		}
	case *ssa.Phi:
		for i, w := range x.Edges {
			p := x.Block().Preds[i]
			for j, q := range p.Succs {
				if q == x.Block() && !P.boundedBy(w, edgesOn(p, j), isMax, depth+1) {
					return false
				}
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "min" {
			for _, a := range x.Call.Args {
				if rec(a) {
					return true
				}
			}
			return false
		}
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if g.String() == "math.Min" {
			return rec(x.Call.Args[0]) || rec(x.Call.Args[1])
		}
		return P.resultBounded(x, g, 0, isMax, depth)
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		return ok && c.Call.StaticCallee() != nil && P.resultBounded(c, c.Call.StaticCallee(), x.Index, isMax, depth)
	case *ssa.UnOp:
		// a local variable stored once or several times, each time bounded
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Op != token.MUL {
			return false
		}
		n := 0
		for _, ref := range *al.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
				n++
				if !P.boundedBy(st.Val, edgesAt(st.Block()), isMax, depth+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// resultBounded: a result of a function is one of the arguments, or bounded
// inside. A zero next to another result stands for no value.
func (P *Program) resultBounded(x *ssa.Call, g *ssa.Function, at int, isMax func(ssa.Value) bool, depth int) bool {
	if !P.isLibFn(g) || len(g.Blocks) == 0 {
		return false
	}
	inner := func(y ssa.Value) bool {
		if p, ok := y.(*ssa.Parameter); ok {
			for i, q := range g.Params {
				if q == p && i < len(x.Call.Args) {
					return P.isCapped(x.Call.Args[i], isMax)
				}
			}
		}
		return isMax(y)
	}
	n := 0
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || at >= len(r.Results) {
			continue
		}
		if k, ok := r.Results[at].(*ssa.Const); ok && len(r.Results) > 1 && k.Value != nil && k.Int64() == 0 {
			continue
		}
		n++
		if !P.boundedBy(r.Results[at], edgesAt(b), inner, depth+1) {
			return false
		}
	}
	return n > 0
}

// isCapped: the value is the maximum itself, in whatever unit.
func (P *Program) isCapped(v ssa.Value, isMax func(ssa.Value) bool) bool {
	for i := 0; i < 8; i++ {
		if isMax(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); ok && x.Op == token.MUL {
				v = x.X
			} else if _, ok := x.X.(*ssa.Const); ok && x.Op == token.MUL {
				v = x.Y
			} else {
				return false
			}
		default:
			return false
		}
	}
	return false
}

func (m *manager) wait(c *Ctx, site ssa.CallInstruction, d ssa.Value) {
	if c.Get("fails") != "" && c.Get("slept") == "" {
		c.Put("slept", "1")
		m.r.Check(m.P.boundedBy(d, edgesAt(site.Block()), m.cap, 0), "delay", m.P.fname(site.Parent()), m.P.ipos(site), "the delay before the next attempt is not bounded by the configured maximum")
	}
	c.Put("en", "")
}

func (m *manager) try(c *Ctx, site ssa.CallInstruction, kind string) []CallRes {
	a := parseA(c.A())
	r, P := m.r, m.P
	id, pos := P.fname(site.Parent())+" max="+strconv.FormatInt(m.max, 10), P.ipos(site)
	if m.inMgr {
		r.Check(a["en"] == "1", "enabled", id, pos, "a connection is attempted without having seen the instance enabled since the last wait or connection")
		r.Check(a["free"] == "", "single", id+" after", pos, "a connection is attempted after the manager gave up its place")
		if n, _ := strconv.ParseInt(a["fails"], 10, 64); n > 0 && kind == "session" {
			r.Check(a["auto"] == "1", "auto", id, pos, "a failed connection attempt is retried although auto-reconnect is off")
			r.Check(m.max == 0 || n <= m.max, "max", id, pos, "a failed connection attempt is retried although the maximum number of attempts ("+strconv.FormatInt(m.max, 10)+") is exceeded")
			r.Check(a["slept"] == "1", "delay", id+" before", pos, "a failed connection attempt is retried without a delay")
		}
	}
	delete(a, "slept")
	delete(a, "en")
	ok := avars{}
	for k, v := range a {
		ok[k] = v
	}
	if kind == "session" {
		delete(ok, "fails")
		n, _ := strconv.Atoi(a["fails"])
		if n < 6 {
			n++
		}
		a["fails"] = strconv.Itoa(n)
	}
	return []CallRes{{A: ok.String(), Ret: TupleV(NonNil, NilV)}, {A: a.String(), Ret: TupleV(NilV, NonNil)}}
}

func (m *manager) call(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	one := func(v Val) ([]CallRes, bool) { return []CallRes{{A: c.A(), Ret: v}}, true }
	P := m.P
	if k := m.attempt(site, callee); k != "" {
		return m.try(c, site, k), true
	}
	switch name {
	case "time.Sleep", "time.After", "time.NewTimer":
		m.wait(c, site, site.Common().Args[0])
		if name == "time.Sleep" {
			return one(Top)
		}
		return one(NonNil)
	}
	if callee != nil && typeKeyRecv(callee) == pkgHsms+".SecsTimeout" {
		switch callee.Name() {
		case "AutoReconnect":
			return []CallRes{{A: withA(c.A(), "auto", "1"), Ret: CBool(true)}, {A: withA(c.A(), "auto", "0"), Ret: CBool(false)}}, true
		case "MaxReconnectAttempts":
			return one(CInt(m.max))
		}
		return one(Top)
	}
	if f, op := atomicOp(site, callee); op != "" {
		yes, no := CBool(true), CBool(false)
		if s := callee.Signature.Results(); s.Len() == 1 && isInteger(s.At(0).Type()) {
			yes, no = CInt(1), CInt(0)
		}
		if m.counts[f] {
			n, known := strconv.Atoi(c.Get("f:" + f))
			if c.Get("f:"+f) == "" {
				n, known = 0, nil
			}
			switch op {
			case "Load":
			case "Inc", "Add", "Dec":
				d := int64(1)
				if op == "Dec" {
					d = -1
				}
				if op == "Add" {
					var ok bool
					if d, ok = args[len(args)-1].IsInt(); !ok {
						known = strconv.ErrSyntax
					}
				}
				n += int(d)
				m.count(c, f, CInt(int64(n)))
			case "Store":
				m.count(c, f, args[1])
				return one(Top)
			default:
				m.count(c, f, Top)
				return one(Top)
			}
			if known != nil {
				return one(Top)
			}
			return one(CInt(int64(n)))
		}
		switch {
		case f == m.enabled:
			switch op {
			case "Load":
				return []CallRes{{A: withA(c.A(), "en", "1"), Ret: yes}, {A: withA(c.A(), "en", "0"), Ret: no}}, true
			case "CompareAndSwap":
				nv := truth(args[2])
				return []CallRes{{A: withA(c.A(), "en", nv), Ret: CBool(true)}, {A: withA(c.A(), "en", ""), Ret: CBool(false)}}, true
			case "Store":
				c.Put("en", truth(args[1]))
				return one(Top)
			}
		case f == m.running:
			switch op {
			case "CompareAndSwap":
				if truth(args[1]) == "0" && truth(args[2]) == "1" {
					return []CallRes{{A: withA(c.A(), "won", "1"), Ret: CBool(true)}, {A: c.A(), Ret: CBool(false)}}, true
				}
			case "Store":
				if truth(args[1]) == "0" {
					c.Put("free", "1")
				}
				return one(Top)
			}
		}
		return one(Top)
	}
	if callee != nil && fnPkg(callee) != nil && P.isLibFn(callee) {
		switch callee.Name() {
		case "OnConnectionEstablishedAndStartReceiver":
			// the life of a connection
			c.Put("en", "")
			return one(Top)
		}
	}
	return nil, false
}

func (m *manager) count(c *Ctx, f string, v Val) {
	if n, ok := v.IsInt(); ok && n >= 0 && n < 8 {
		c.Put("f:"+f, strconv.FormatInt(n, 10))
	} else {
		c.Put("f:"+f, "?")
	}
}

func (m *manager) Fork(c *Ctx, ins ssa.Instruction) ([]CallRes, bool) {
	if ld, ok := ins.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok && typeKey(fa.X.Type()) == tProto && truthType(ld.Type()) {
			k := "b:" + ownerField(fa)
			if v := c.Get(k); v != "" {
				return []CallRes{{A: c.A(), Ret: CBool(v == "1")}}, true
			}
			return []CallRes{{A: withA(c.A(), k, "1"), Ret: CBool(true)}, {A: withA(c.A(), k, "0"), Ret: CBool(false)}}, true
		}
		if fa, ok := ld.X.(*ssa.FieldAddr); ok && m.counts[ownerField(fa)] && isInteger(ld.Type()) {
			switch v := c.Get("f:" + ownerField(fa)); v {
			case "?":
				return []CallRes{{A: c.A(), Ret: Top}}, true
			case "":
				return []CallRes{{A: c.A(), Ret: CInt(0)}}, true
			default:
				n, _ := strconv.ParseInt(v, 10, 64)
				return []CallRes{{A: c.A(), Ret: CInt(n)}}, true
			}
		}
	}
	return m.hm.Fork(c, ins)
}

func (m *manager) Instr(c *Ctx, ins ssa.Instruction) {
	if st, ok := ins.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok && m.counts[ownerField(fa)] {
			m.count(c, ownerField(fa), c.Val(st.Val))
		}
	}
	m.hm.Instr(c, ins)
}

// spawned: the function a go statement or a timer starts.
func (P *Program) spawned(ins ssa.Instruction) *ssa.Function {
	var v ssa.Value
	switch x := ins.(type) {
	case *ssa.Go:
		if f := x.Call.StaticCallee(); f != nil {
			return P.unbound(f)
		}
		v = x.Call.Value
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.String() == "time.AfterFunc" {
			v = x.Call.Args[1]
		}
	}
	if v == nil {
		return nil
	}
	if f := P.funcOf(v); f != nil {
		return P.unbound(f)
	}
	return nil
}

func init() {
	register("C31", "The goroutine that makes connections is followed on every path from its start to its end, with failures, configuration and the enabled flag as automaton state; every place that starts one is followed with the flags it has won.", func(r *Report) {
		P := r.P
		r.Rule("single", "a connection manager is started only by whoever has just won its flag by compare-and-swap, and only the manager gives the flag back, when it has finished")
		r.Rule("enabled", "a manager is started, and attempts a connection, only after having seen the instance enabled")
		r.Rule("auto", "a failed attempt to connect is retried only if auto-reconnect is on")
		r.Rule("max", "a failed attempt to connect is retried only while the maximum number of attempts is not exceeded")
		r.Rule("delay", "there is a delay before each retry, never above the configured maximum")
		r.Rule("end", "a manager ends only when the instance is disabled, a connection failed with auto-reconnect off, or the failures since the last success exceed the maximum")
		r.Rule("configured", "each of the reconnection settings is read back as set")
		o := &own{P: P}
		attempt := func(site ssa.CallInstruction, callee *ssa.Function) string {
			switch k := o.source(site, callee); k {
			case "session", "server":
				return k
			}
			return ""
		}
		isAttempt := func(ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			return ok && attempt(ci, ci.Common().StaticCallee()) != ""
		}
		mgrs := map[*ssa.Function]bool{}
		for _, f := range P.funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if g := P.spawned(ins); g != nil && P.isLibFn(g) && P.syncReaches(g, isAttempt) {
						mgrs[g] = true
					}
				}
			}
		}
		if !r.Anchor(len(mgrs) > 0, "a goroutine that dials or listens") {
			return
		}
		for _, f := range P.funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if !isAttempt(ins) {
						continue
					}
					bad := P.outside(f, mgrs)
					r.Check(bad == nil, "single", P.fname(f), P.ipos(ins), "a connection is made outside the connection manager, by "+fnameOr(P, bad))
				}
			}
		}
		// the flags
		flags := func(name string, want string) map[string]bool {
			out := map[string]bool{}
			f := P.method(pkgHsms, "HsmsProtocol", name)
			if f == nil {
				return out
			}
			P.syncReaches(f, func(ins ssa.Instruction) bool {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					fl, op := atomicOp(ci, ci.Common().StaticCallee())
					as := ci.Common().Args
					if len(as) == 0 {
						return false
					}
					if k, ok := as[len(as)-1].(*ssa.Const); op != "" && ok && k.Value != nil && (op == "CompareAndSwap" || op == "Store" || op == "Swap") {
						if t := truth(Val{K: KConst, C: k.Value}); t == want {
							out[fl] = true
						}
					}
				}
				return false
			})
			return out
		}
		on, off := flags("Enable", "1"), flags("Disable", "0")
		m := &manager{hm: newHM(P), r: r, isMgr: mgrs, attempt: attempt, counts: map[string]bool{}}
		for f := range on {
			if off[f] {
				m.enabled = f
			}
		}
		freed := map[string]int{}
		for g := range mgrs {
			P.syncReaches(g, func(ins ssa.Instruction) bool {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if fl, op := atomicOp(ci, ci.Common().StaticCallee()); op == "Store" && on[fl] && fl != m.enabled {
						if k, ok := ci.Common().Args[1].(*ssa.Const); ok && k.Value != nil && truth(Val{K: KConst, C: k.Value}) == "0" {
							freed[fl]++
						}
					}
					if fl, op := atomicOp(ci, ci.Common().StaticCallee()); op != "" && atomicInt(ci) {
						m.counts[fl] = true
					}
				}
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeKey(fa.X.Type()) == tProto && isInteger(st.Val.Type()) {
						m.counts[ownerField(fa)] = true
					}
				}
				return false
			})
		}
		for f := range freed {
			m.running = f
		}
		if !r.Anchor(m.enabled != "" && m.running != "", "the enabled flag and the flag of the running manager") {
			return
		}
		m.hm.extra = m.call
		// who gives the flag back
		for _, f := range P.funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					fl, op := atomicOp(ci, ci.Common().StaticCallee())
					if fl != m.running || op == "" || op == "Load" {
						continue
					}
					switch op {
					case "CompareAndSwap":
						v := ci.Common().Args
						x, ok1 := v[1].(*ssa.Const)
						y, ok2 := v[2].(*ssa.Const)
						r.Check(ok1 && ok2 && truth(Val{K: KConst, C: x.Value}) == "0" && truth(Val{K: KConst, C: y.Value}) == "1", "single", P.fname(f)+" wins", P.ipos(ins), "the manager's flag is changed other than from false to true")
					case "Store":
						k, ok := ci.Common().Args[1].(*ssa.Const)
						bad := P.outside(f, mgrs)
						r.Check(ok && k.Value != nil && truth(Val{K: KConst, C: k.Value}) == "0" && bad == nil, "single", P.fname(f)+" gives back", P.ipos(ins), "the manager's flag is set by something else than the manager ("+fnameOr(P, bad)+")")
					default:
						r.Check(false, "single", P.fname(f)+" "+op, P.ipos(ins), "the manager's flag is changed by "+op)
					}
				}
			}
		}
		m.cap = func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			f := c.Call.StaticCallee()
			return f != nil && typeKeyRecv(f) == pkgHsms+".SecsTimeout" && f.Name() == "ReconnectBackoffMax"
		}
		// the manager itself
		m.inMgr = true
		for _, g := range sortedFuncs(mgrs) {
			for _, mx := range []int64{0, 1, 3} {
				m.max = mx
				e := newHMEngine(P, m)
				n := 0
				for _, o := range e.Run(g, "") {
					if o.Panicked {
						continue
					}
					n++
					a := parseA(o.A)
					pos := P.pos(g.Pos())
					if o.ret != nil {
						pos = P.ipos(o.ret)
					}
					id := P.fname(g) + " max=" + strconv.FormatInt(mx, 10)
					r.Check(a["free"] == "1", "single", id+" gives back", pos, "the manager ends without giving its flag back: none can be started again")
					fails, _ := strconv.ParseInt(a["fails"], 10, 64)
					ok := a["en"] == "0" || fails > 0 && a["auto"] == "0" || mx > 0 && fails > mx
					r.Check(ok, "end", id, pos, "the manager ends after "+strconv.FormatInt(fails, 10)+" failures in a row although the instance is enabled, auto-reconnect is on and the maximum is "+strconv.FormatInt(mx, 10))
				}
				r.Check(n > 0, "end", P.fname(g)+" followed", P.pos(g.Pos()), "the manager could not be followed to an end")
				r.SawEngine(e)
			}
		}
		// who starts it
		m.inMgr = false
		startsIt := func(ins ssa.Instruction) bool { return mgrs[P.spawned(ins)] }
		m.hm.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {}
		m.hm.instr = func(c *Ctx, ins ssa.Instruction) {
			if !startsIt(ins) {
				return
			}
			a := parseA(c.A())
			id := P.fname(ins.Parent())
			r.Check(a["won"] == "1", "single", id+" starts", P.ipos(ins), "a connection manager is started without having won its flag (via "+strings.Join(c.Stack(), " < ")+")")
			r.Check(a["en"] == "1", "enabled", id+" starts", P.ipos(ins), "a connection manager is started for an instance not seen enabled (via "+strings.Join(c.Stack(), " < ")+")")
			c.Put("won", "")
		}
		for _, f := range P.rootFunctions() {
			if fnPkg(f).Path() != pkgHsms || !P.syncReaches(f, startsIt) {
				continue
			}
			e := newHMEngine(P, m)
			e.Run(f, "")
			r.SawEngine(e)
		}
		ms := map[string]*ssa.Function{}
		for _, f := range P.methodsOf(pkgHsms, "SecsTimeout") {
			ms[f.Name()] = f
		}
		for _, n := range []string{"AutoReconnect", "MaxReconnectAttempts", "ReconnectBackoffBase", "ReconnectBackoffMax"} {
			r.Check(ms[n] != nil && ms["Set"+n] != nil && readsBack(P, ms[n], ms["Set"+n]), "configured", n, "", "the accessor "+n+" does not always return what Set"+n+" was given")
		}
		r.Floor("single", 8)
		r.Floor("enabled", 3)
		r.Floor("auto", 1)
		r.Floor("max", 1)
		r.Floor("delay", 2)
		r.Floor("end", 4)
		r.Floor("configured", 4)
	})
}

func atomicInt(ci ssa.CallInstruction) bool {
	p, ok := ci.Common().Args[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	t := typeKey(p.Elem())
	return strings.HasSuffix(t, ".Int32") || strings.HasSuffix(t, ".Int64") || strings.HasSuffix(t, ".Uint32") || strings.HasSuffix(t, ".Uint64")
}

func sortedFuncs[T any](m map[*ssa.Function]T) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func truthType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
