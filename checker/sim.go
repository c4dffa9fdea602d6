package main

// A path-sensitive, interprocedural dataflow engine ("property simulation"):
// every function is analysed over its SSA control-flow graph with a product of
//   - a client automaton state (a string the client interprets), and
//   - finite facts about SSA values and freshly allocated memory: nil/non-nil,
//     constants that occur in the program text, closures, tuples.
// States that differ are kept apart (no joins) up to a cap; facts never grow
// beyond the constants of the program, so the analysis terminates. Calls to
// library functions with known callee are analysed in context and memoised;
// everything else is opaque unless the client interprets it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type VK uint8

const (
	KTop VK = iota
	KNil
	KNonNil
	KConst
	KTag
	KTuple
	KAddr
	KFunc
	KSlice
	KStruct
	KMap
	KBits
)

// Val is an abstract value.
type Val struct {
	K    VK
	C    constant.Value
	Tag  string
	E    []Val
	F    map[string]Val
	Site ssa.Value
	Path string
	Lo   int
	Len  int
	Fn   *ssa.Function
	B    []Bit
}

var Top = Val{}
var NilV = Val{K: KNil}
var NonNil = Val{K: KNonNil}

func CBool(b bool) Val        { return Val{K: KConst, C: constant.MakeBool(b)} }
func CInt(i int64) Val        { return Val{K: KConst, C: constant.MakeInt64(i)} }
func CStr(s string) Val       { return Val{K: KConst, C: constant.MakeString(s)} }
func TagV(s string) Val       { return Val{K: KTag, Tag: s} }
func TupleV(v ...Val) Val     { return Val{K: KTuple, E: v} }
func FnV(f *ssa.Function) Val { return Val{K: KFunc, Fn: f} }

func (v Val) IsBool() (bool, bool) {
	if v.K == KConst && v.C.Kind() == constant.Bool {
		return constant.BoolVal(v.C), true
	}
	return false, false
}
func (v Val) IsInt() (int64, bool) {
	if v.K == KConst && v.C.Kind() == constant.Int {
		return constant.Int64Val(v.C)
	}
	return 0, false
}
func (v Val) IsStr() (string, bool) {
	if v.K == KConst && v.C.Kind() == constant.String {
		return constant.StringVal(v.C), true
	}
	return "", false
}

func (v Val) nonnil() bool {
	switch v.K {
	case KNonNil, KAddr, KFunc, KSlice, KMap:
		return true
	case KTag:
		// tags starting with "?" say nothing about nil-ness
		return !strings.HasPrefix(v.Tag, "?")
	}
	return false
}

func (e *Engine) siteID(s ssa.Value) int {
	if id, ok := e.sites[s]; ok {
		return id
	}
	id := len(e.sites) + 1
	e.sites[s] = id
	e.siteVals = append(e.siteVals, s)
	return id
}

func (e *Engine) key(v Val) string {
	switch v.K {
	case KTop:
		return "?"
	case KNil:
		return "0"
	case KNonNil:
		return "!"
	case KConst:
		return "c" + v.C.ExactString()
	case KTag:
		return "t" + v.Tag
	case KBits:
		return "b" + bitsKey(v.B)
	case KTuple:
		var b strings.Builder
		b.WriteString("(")
		for _, x := range v.E {
			b.WriteString(e.key(x))
			b.WriteString(",")
		}
		b.WriteString(")")
		return b.String()
	case KAddr:
		return fmt.Sprintf("a%d%s", e.siteID(v.Site), v.Path)
	case KMap:
		return fmt.Sprintf("m%d", e.siteID(v.Site))
	case KSlice:
		return fmt.Sprintf("s%d%s[%d:%d]", e.siteID(v.Site), v.Path, v.Lo, v.Len)
	case KFunc:
		s := "f" + v.Fn.String()
		if len(v.E) > 0 {
			s += e.key(Val{K: KTuple, E: v.E})
		}
		return s
	case KStruct:
		ks := make([]string, 0, len(v.F))
		for k := range v.F {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		fmt.Fprintf(&b, "S%d{", v.Len)
		for _, k := range ks {
			b.WriteString(k)
			b.WriteString("=")
			b.WriteString(e.key(v.F[k]))
			b.WriteString(";")
		}
		b.WriteString("}")
		return b.String()
	}
	return "?"
}

type memKey struct {
	site int
	path string
}

// trace is a linked list of remarkable program points of the current path.
type trace struct {
	prev *trace
	pos  string
	what string
}

type deferRec struct {
	ins  *ssa.Defer
	fn   Val
	args []Val
}

// State is the analysis state at one program point.
type State struct {
	A      string
	env    map[ssa.Value]Val
	mem    map[memKey]Val
	defers []deferRec
	tr     *trace
}

func (s *State) clone() *State {
	n := &State{A: s.A, env: make(map[ssa.Value]Val, len(s.env)+4), mem: make(map[memKey]Val, len(s.mem)), tr: s.tr}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	return n
}

// Outcome is one way a call can end.
type Outcome struct {
	A        string
	Rets     []Val
	Mem      map[memKey]Val
	Panicked bool
	tr       *trace
	ret      *ssa.Return
}

// CallRes is a client-supplied result of a call.
type CallRes struct {
	A    string
	Ret  Val
	Dead bool // the call does not return
}

// Ctx is passed to the client hooks.
type Ctx struct {
	e  *Engine
	fn *ssa.Function
	st *State
	fr *frame
}

func (c *Ctx) Val(v ssa.Value) Val { return c.e.eval(c.st, c.fr, v) }
func (c *Ctx) A() string           { return c.st.A }
func (c *Ctx) SetA(a string)       { c.st.A = a }
func (c *Ctx) Stack() []string {
	var out []string
	for f := c.fr; f != nil; f = f.up {
		out = append(out, c.e.P.fname(f.fn))
	}
	return out
}
func (c *Ctx) StackFns() []*ssa.Function {
	var out []*ssa.Function
	for f := c.fr; f != nil; f = f.up {
		out = append(out, f.fn)
	}
	return out
}

func (c *Ctx) Root() *ssa.Function {
	f := c.fr
	for f.up != nil {
		f = f.up
	}
	return f.fn
}
func (c *Ctx) Note(ins ssa.Instruction, what string) {
	c.st.tr = &trace{prev: c.st.tr, pos: c.e.P.ipos(ins), what: what}
}
func (c *Ctx) Trace() string { return traceString(c.st.tr) }

func traceString(t *trace) string {
	var parts []string
	for ; t != nil && len(parts) < 12; t = t.prev {
		parts = append([]string{t.what + "@" + t.pos}, parts...)
	}
	return strings.Join(parts, " -> ")
}

// Client interprets events.
type Client interface {
	// Call may interpret a call (also deferred calls; site is then the Defer).
	Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool)
	// Instr sees every instruction before its default effect.
	Instr(c *Ctx, ins ssa.Instruction)
	// Load may supply the value of a memory load.
	Load(c *Ctx, ld *ssa.UnOp) (Val, bool)
	// Branch sees each edge of an If; returning false prunes it.
	Branch(c *Ctx, br *ssa.If, taken bool) bool
	// Enter may refuse to descend into a library callee (opaque call).
	Enter(c *Ctx, site ssa.CallInstruction, callee *ssa.Function) bool
}

// Asserter is implemented by clients that know the dynamic types of some
// values.
type Asserter interface {
	Assert(c *Ctx, x *ssa.TypeAssert, v Val) (is, known bool)
}

// Forker is implemented by clients that decide the result of loads and map
// lookups, possibly in several ways.
type Forker interface {
	Fork(c *Ctx, ins ssa.Instruction) ([]CallRes, bool)
}

// Opper is implemented by clients that name the results of operations, and of
// slicing strings.
type Opper interface {
	Op(c *Ctx, ins ssa.Value) (Val, bool)
}

// BaseClient has neutral hooks.
type BaseClient struct{}

func (BaseClient) Call(*Ctx, ssa.CallInstruction, *ssa.Function, []Val) ([]CallRes, bool) {
	return nil, false
}
func (BaseClient) Instr(*Ctx, ssa.Instruction)                         {}
func (BaseClient) Load(*Ctx, *ssa.UnOp) (Val, bool)                    { return Top, false }
func (BaseClient) Branch(*Ctx, *ssa.If, bool) bool                     { return true }
func (BaseClient) Enter(*Ctx, ssa.CallInstruction, *ssa.Function) bool { return true }

// Conder is told the abstract value of a condition before a branch is taken;
// false makes the branch infeasible.
type Conder interface {
	Cond(c *Ctx, br *ssa.If, cond Val, taken bool) bool
}

// Engine runs one client over the program.
type Engine struct {
	P        *Program
	C        Client
	capped   map[ssa.Value]bool // arrays cut with a capacity
	sites    map[ssa.Value]int
	siteVals []ssa.Value
	memo     map[string][]Outcome
	active   map[string]*activeRec
	prov     map[string][]Outcome // results valid for the current iteration of an unfinished recursion
	depth    int
	MaxDepth int
	MaxState int // per function activation
	// DispatchIface makes interface calls branch over library implementations
	DispatchIface bool
	// FollowGo analyses goroutine bodies... (client decides; default opaque)
	Overflow []string
	Visited  map[*ssa.Function]bool
	Steps    int
	// MaxSteps ends an exploration that does not end (0: no limit)
	MaxSteps int
	StepsBy  map[string]int
	NoFacts  bool // ignore argument facts (pure automaton mode)
	curFr    *frame
	KeepArgs bool
	// LoopArith folds arithmetic inside loops too, up to this magnitude
	LoopArith int
	// Bits tracks the provenance of the bits of tagged integers
	Bits bool
	// SymCmp keeps comparisons of tagged values as named conditions
	SymCmp bool
	srcW   map[string]srcWidth
	// Exact gives every allocation of an unrolled loop its own identity, keeps
	// the whole heap across calls and follows maps with symbolic keys
	Exact bool
	insts map[instKey]*instSite
	// IdentTypes are the types whose method receivers get a symbolic identity
	IdentTypes map[string]bool
	live       map[*ssa.Function]*liveInfo
}

type activeRec struct {
	out  map[string]Outcome
	hit  bool
	args int
}

type frame struct {
	fn    *ssa.Function
	up    *frame
	args  map[ssa.Value]Val
	inCyc map[*ssa.BasicBlock]bool
	site  ssa.CallInstruction
}

func NewEngine(P *Program, c Client) *Engine {
	return &Engine{P: P, C: c, sites: map[ssa.Value]int{}, capped: map[ssa.Value]bool{}, memo: map[string][]Outcome{}, active: map[string]*activeRec{}, srcW: map[string]srcWidth{}, prov: map[string][]Outcome{},
		MaxDepth: 60, MaxState: 6000, Visited: map[*ssa.Function]bool{}, live: map[*ssa.Function]*liveInfo{}, DispatchIface: true}
}

// Run analyses fn as an entry point.
func (e *Engine) Run(fn *ssa.Function, a string, args ...Val) []Outcome {
	if len(args) == 0 && fn.Signature.Recv() != nil && len(fn.Params) > 0 {
		// the receiver of an entry point is a symbolic, non-nil object
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			args = make([]Val, len(fn.Params))
			args[0] = Val{K: KAddr, Site: fn.Params[0]}
		}
	}
	return e.run(fn, nil, nil, a, args, nil, nil, nil)
}

func (e *Engine) reachMem(mem map[memKey]Val, roots []Val) map[memKey]Val {
	seen := map[int]bool{}
	var work []int
	var visit func(v Val)
	visit = func(v Val) {
		switch v.K {
		case KAddr, KSlice, KMap:
			id := e.siteID(v.Site)
			if !seen[id] {
				seen[id] = true
				work = append(work, id)
			}
		case KTuple, KFunc:
			for _, x := range v.E {
				visit(x)
			}
		case KStruct:
			for _, x := range v.F {
				visit(x)
			}
		}
	}
	for _, v := range roots {
		visit(v)
	}
	if e.Exact {
		for k := range mem {
			if k.path == "pin" {
				visit(Val{K: KAddr, Site: e.siteVals[k.site-1]})
			}
		}
	}
	out := map[memKey]Val{}
	if len(work) == 0 {
		return out
	}
	bySite := map[int][]memKey{}
	for k := range mem {
		bySite[k.site] = append(bySite[k.site], k)
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		for _, k := range bySite[id] {
			out[k] = mem[k]
			visit(mem[k])
		}
	}
	return out
}

func (e *Engine) memStr(mem map[memKey]Val) string {
	if len(mem) == 0 {
		return ""
	}
	ks := make([]memKey, 0, len(mem))
	for k := range mem {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].site != ks[j].site {
			return ks[i].site < ks[j].site
		}
		return ks[i].path < ks[j].path
	})
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d%s=%s;", k.site, k.path, e.key(mem[k]))
	}
	return b.String()
}

func (e *Engine) outKey(o Outcome) string {
	return fmt.Sprintf("%s|%v|%s|%s", o.A, o.Panicked, e.key(Val{K: KTuple, E: o.Rets}), e.memStr(o.Mem))
}

func (e *Engine) run(fn *ssa.Function, up *frame, site ssa.CallInstruction, a string, args, binds []Val, mem map[memKey]Val, tr *trace) []Outcome {
	e.Visited[fn] = true
	// widen the arguments of recursive activations
	nrec := 0
	for f := up; f != nil; f = f.up {
		if f.fn == fn {
			nrec++
		}
	}
	limit := 0
	if e.Exact {
		limit = 6 // small configurations: recursion over their items ends
	}
	if nrec > limit || e.depth > e.MaxDepth {
		na := make([]Val, len(args))
		for i, v := range args {
			if v.K == KFunc {
				na[i] = v
			}
		}
		args = na
		if e.depth > e.MaxDepth+20 {
			return []Outcome{{A: a, Mem: mem, tr: tr, Rets: topRets(fn)}}
		}
	}
	if e.NoFacts {
		na := make([]Val, len(args))
		for i, v := range args {
			if v.K == KFunc {
				na[i] = v
			}
		}
		args = na
	}
	rm := mem
	if !e.Exact {
		rm = e.reachMem(mem, append(append([]Val{}, args...), binds...))
	}
	key := fn.String() + "#" + a + "#" + e.key(Val{K: KTuple, E: args}) + "#" + e.key(Val{K: KTuple, E: binds}) + "#" + e.memStr(rm)
	if fn.Parent() != nil {
		key = fmt.Sprintf("%p", fn) + key
	}
	if r, ok := e.memo[key]; ok {
		return r
	}
	if r, ok := e.prov[key]; ok {
		return r
	}
	if ar, ok := e.active[key]; ok {
		ar.hit = true
		var r []Outcome
		for _, o := range ar.out {
			r = append(r, o)
		}
		sort.Slice(r, func(i, j int) bool { return e.outKey(r[i]) < e.outKey(r[j]) })
		return r
	}
	ar := &activeRec{out: map[string]Outcome{}}
	e.active[key] = ar
	e.depth++
	for iter := 0; iter < 20; iter++ {
		ar.hit = false
		if iter > 0 {
			e.prov = map[string][]Outcome{}
		}
		n := len(ar.out)
		for _, o := range e.exec(fn, up, site, a, args, binds, rm, tr) {
			k := e.outKey(o)
			if _, dup := ar.out[k]; !dup {
				ar.out[k] = o
			}
		}
		if !ar.hit || len(ar.out) == n {
			break
		}
	}
	e.depth--
	delete(e.active, key)
	keys := make([]string, 0, len(ar.out))
	for k := range ar.out {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	res := make([]Outcome, 0, len(keys))
	for _, k := range keys {
		res = append(res, ar.out[k])
	}
	// entries computed while an outer recursive activation is unfinished may
	// be incomplete
	if len(e.active) == 0 || !e.anyHit() {
		for k, v := range e.prov {
			e.memo[k] = v
		}
		e.prov = map[string][]Outcome{}
		e.memo[key] = res
	} else {
		e.prov[key] = res
	}
	return res
}

func (e *Engine) anyHit() bool {
	for _, a := range e.active {
		if a.hit {
			return true
		}
	}
	return false
}

func topRets(fn *ssa.Function) []Val {
	n := fn.Signature.Results().Len()
	return make([]Val, n)
}

// liveInfo holds per-function liveness, for pruning facts.
type liveInfo struct {
	cyc   map[*ssa.BasicBlock]bool
	after map[*ssa.BasicBlock]map[ssa.Value]bool // live after the phis of a block
}

func (e *Engine) liveness(fn *ssa.Function) *liveInfo {
	if li, ok := e.live[fn]; ok {
		return li
	}
	li := &liveInfo{cyc: map[*ssa.BasicBlock]bool{}, after: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		r := map[*ssa.BasicBlock]bool{}
		st := []*ssa.BasicBlock{b}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			for _, s := range x.Succs {
				if !r[s] {
					r[s] = true
					st = append(st, s)
				}
			}
		}
		if r[b] {
			li.cyc[b] = true
		}
		li.after[b] = map[ssa.Value]bool{}
	}
	// upward-exposed uses and definitions of the non-phi part of each block
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op != nil && !d[*op] {
					u[*op] = true
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			set := li.after[b]
			add := func(v ssa.Value) {
				if !set[v] {
					set[v] = true
					changed = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for _, s := range b.Succs {
				phis := map[ssa.Value]bool{}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					phis[phi] = true
					for j, p := range s.Preds {
						if p == b && !def[b][phi.Edges[j]] {
							add(phi.Edges[j])
						}
					}
				}
				for v := range li.after[s] {
					if !phis[v] && !def[b][v] {
						add(v)
					}
				}
			}
		}
	}
	e.live[fn] = li
	return li
}

// gc drops memory that no live value, argument or deferred call refers to.
func (e *Engine) gc(s *State, roots []Val) {
	if len(s.mem) == 0 {
		return
	}
	rs := append([]Val{}, roots...)
	for _, v := range s.env {
		rs = append(rs, v)
	}
	for _, d := range s.defers {
		rs = append(rs, d.fn)
		rs = append(rs, d.args...)
	}
	s.mem = e.reachMem(s.mem, rs)
}

func (e *Engine) stKey(s *State, li *liveInfo, b *ssa.BasicBlock) string {
	type kv struct {
		k string
		v string
	}
	kvs := make([]kv, 0, len(s.env))
	for k, v := range s.env {
		kvs = append(kvs, kv{k.Name(), e.key(v)})
	}
	sort.Slice(kvs, func(i, j int) bool { return kvs[i].k < kvs[j].k })
	var sb strings.Builder
	sb.WriteString(s.A)
	sb.WriteString("#")
	for _, x := range kvs {
		sb.WriteString(x.k)
		sb.WriteString("=")
		sb.WriteString(x.v)
		sb.WriteString(";")
	}
	sb.WriteString("#")
	sb.WriteString(e.memStr(s.mem))
	sb.WriteString("#")
	for _, d := range s.defers {
		fmt.Fprintf(&sb, "%p%s%s,", d.ins, e.key(d.fn), e.key(Val{K: KTuple, E: d.args}))
	}
	return sb.String()
}

var debugFn = os.Getenv("SC_FN")

type workItem struct {
	b    *ssa.BasicBlock
	from *ssa.BasicBlock
	st   *State
}

func (e *Engine) exec(fn *ssa.Function, up *frame, site ssa.CallInstruction, a string, args, binds []Val, mem map[memKey]Val, tr *trace) []Outcome {
	fr := &frame{fn: fn, up: up, args: map[ssa.Value]Val{}, site: site}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.args[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.args[p] = binds[i]
		}
	}
	if len(e.IdentTypes) > 0 && fn.Signature.Recv() != nil && len(fn.Params) > 0 {
		if v := fr.args[fn.Params[0]]; (v.K == KTop || v.K == KNonNil) && e.IdentTypes[typeKey(fn.Params[0].Type())] {
			fr.args[fn.Params[0]] = Val{K: KAddr, Site: fn.Params[0]}
		}
	}
	prevFr := e.curFr
	e.curFr = fr
	defer func() { e.curFr = prevFr }()
	li := e.liveness(fn)
	fr.inCyc = li.cyc
	st0 := &State{A: a, env: map[ssa.Value]Val{}, mem: map[memKey]Val{}, tr: tr}
	for k, v := range mem {
		st0.mem[k] = v
	}
	entryRoots := append(append([]Val{}, args...), binds...)
	for _, p := range fn.Params {
		if v := fr.args[p]; v.K == KAddr {
			entryRoots = append(entryRoots, v)
		}
	}
	// what the caller can still reach stays known even when this activation
	// loses its own references to it
	kept := map[int]bool{}
	for k := range mem {
		if k.path == "!" && !kept[k.site] {
			kept[k.site] = true
			entryRoots = append(entryRoots, Val{K: KAddr, Site: e.siteVals[k.site-1]})
		}
	}
	var outs []Outcome
	seen := map[*ssa.BasicBlock]map[string]bool{}
	count := map[*ssa.BasicBlock]int{}
	work := []workItem{{fn.Blocks[0], nil, st0}}
	finish := func(s *State, rets []Val, panicked bool, ret *ssa.Return) {
		m := e.reachMem(s.mem, append(append([]Val{}, entryRoots...), rets...))
		outs = append(outs, Outcome{A: s.A, Rets: rets, Mem: m, Panicked: panicked, tr: s.tr, ret: ret})
	}
	recovers := fn.Recover != nil && e.deferRecovers(fn)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s := it.st
		if e.MaxSteps > 0 && e.Steps >= e.MaxSteps {
			if e.Steps == e.MaxSteps {
				e.Overflow = append(e.Overflow, e.P.fname(fn))
				e.Steps++
			}
			break
		}
		e.Steps++
		if e.StepsBy != nil {
			e.StepsBy[e.P.fname(fn)]++
		}
		// phis
		if it.from != nil {
			idx := -1
			for i, p := range it.b.Preds {
				if p == it.from {
					idx = i
					break
				}
			}
			newv := map[ssa.Value]Val{}
			for _, ins := range it.b.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if idx >= 0 {
					newv[phi] = e.eval(s, fr, phi.Edges[idx])
				}
			}
			for k, v := range newv {
				e.set(s, k, v)
			}
		}
		// prune dead facts
		for k := range s.env {
			if !li.after[it.b][k] {
				delete(s.env, k)
			}
		}
		e.gc(s, entryRoots)
		if count[it.b] > e.MaxState {
			if count[it.b] == e.MaxState+1 {
				e.Overflow = append(e.Overflow, e.P.fname(fn))
			}
			e.coarsen(s)
		}
		k := e.stKey(s, li, it.b)
		if seen[it.b] == nil {
			seen[it.b] = map[string]bool{}
		}
		if seen[it.b][k] {
			continue
		}
		seen[it.b][k] = true
		count[it.b]++
		if debugFn != "" && fn.Name() == debugFn {
			fmt.Printf("DBG %s b%d (%s) A=%s key=%s\n", fn.Name(), it.b.Index, it.b.Comment, s.A, k)
		}
		states := []*State{s}
		for _, ins := range it.b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			if len(states) == 0 {
				break
			}
			switch x := ins.(type) {
			case *ssa.If:
				for _, s := range states {
					ctx := &Ctx{e, fn, s, fr}
					e.C.Instr(ctx, ins)
					cv := e.eval(s, fr, x.Cond)
					b, known := cv.IsBool()
					cond, _ := e.C.(Conder)
					for t := 0; t < 2; t++ {
						taken := t == 0
						if known && b != taken {
							continue
						}
						ns := s.clone()
						if cond != nil && !cond.Cond(&Ctx{e, fn, ns, fr}, x, cv, taken) {
							continue
						}
						if !known && !e.refine(ns, fr, x.Cond, taken) {
							continue
						}
						if !e.C.Branch(&Ctx{e, fn, ns, fr}, x, taken) {
							continue
						}
						work = append(work, workItem{it.b.Succs[t], it.b, ns})
					}
				}
				states = nil
			case *ssa.Jump:
				for _, s := range states {
					work = append(work, workItem{it.b.Succs[0], it.b, s})
				}
				states = nil
			case *ssa.Return:
				for _, s := range states {
					e.C.Instr(&Ctx{e, fn, s, fr}, ins)
					rets := make([]Val, len(x.Results))
					for i, r := range x.Results {
						rets[i] = e.eval(s, fr, r)
					}
					finish(s, rets, false, x)
				}
				states = nil
			case *ssa.Panic:
				for _, s := range states {
					e.C.Instr(&Ctx{e, fn, s, fr}, ins)
					ds := []*State{s}
					ds = e.runDefers(ds, fr, nil)
					for _, d := range ds {
						if recovers {
							work = append(work, workItem{fn.Recover, nil, d})
						} else {
							finish(d, topRets(fn), true, nil)
						}
					}
				}
				states = nil
			case *ssa.RunDefers:
				states = e.runDefers(states, fr, x)
			default:
				var next []*State
				for _, s := range states {
					ns, pan := e.step(s, fr, ins)
					next = append(next, ns...)
					for _, p := range pan {
						ds := e.runDefers([]*State{p}, fr, nil)
						for _, d := range ds {
							if recovers {
								work = append(work, workItem{fn.Recover, nil, d})
							} else {
								finish(d, topRets(fn), true, nil)
							}
						}
					}
				}
				states = next
			}
		}
	}
	return outs
}

// deferRecovers: some deferred function of fn calls recover().
func (e *Engine) deferRecovers(fn *ssa.Function) bool { return deferRecovers(fn) }

func deferRecovers(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok {
				continue
			}
			var f *ssa.Function
			switch v := d.Call.Value.(type) {
			case *ssa.Function:
				f = v
			case *ssa.MakeClosure:
				f, _ = v.Fn.(*ssa.Function)
			}
			if f == nil {
				continue
			}
			for _, bb := range f.Blocks {
				for _, i2 := range bb.Instrs {
					if c, ok := i2.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (e *Engine) runDefers(states []*State, fr *frame, _ *ssa.RunDefers) []*State {
	var out []*State
	for _, s := range states {
		cur := []*State{s}
		for {
			var next []*State
			done := true
			for _, c := range cur {
				if len(c.defers) == 0 {
					next = append(next, c)
					continue
				}
				done = false
				d := c.defers[len(c.defers)-1]
				c.defers = c.defers[:len(c.defers)-1]
				ns, pan := e.call(c, fr, d.ins, d.fn, d.args, nil)
				next = append(next, ns...)
				next = append(next, pan...)
			}
			cur = next
			if done {
				break
			}
		}
		out = append(out, cur...)
	}
	return out
}

// coarsen drops every fact that is not needed to resolve calls and fresh
// objects; used when a block has been reached in too many different states.
func (e *Engine) coarsen(s *State) {
	keep := func(v Val) bool { return v.K == KFunc || v.K == KAddr || v.K == KTag }
	for k, v := range s.env {
		if !keep(v) {
			delete(s.env, k)
		}
	}
	dirty := map[int]bool{}
	for k, v := range s.mem {
		if k.path != "!" && !keep(v) {
			delete(s.mem, k)
			dirty[k.site] = true
		}
	}
	for id := range dirty {
		s.mem[memKey{id, "?"}] = NonNil
	}
}

func (e *Engine) set(s *State, v ssa.Value, x Val) {
	if x.K == KTop {
		delete(s.env, v)
	} else {
		s.env[v] = x
	}
}

func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return CBool(false)
		case u.Info()&types.IsInteger != 0:
			return CInt(0)
		case u.Info()&types.IsString != 0:
			return CStr("")
		}
		return Top
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return NilV
	case *types.Struct:
		return Val{K: KStruct, F: map[string]Val{}, Len: 1}
	case *types.Array:
		return Val{K: KStruct, F: map[string]Val{}, Len: 1}
	}
	return Top
}

func (e *Engine) eval(s *State, fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroVal(x.Type())
		}
		return Val{K: KConst, C: x.Value}
	case *ssa.Function:
		return FnV(x)
	case *ssa.Global:
		return Val{K: KAddr, Site: x}
	case *ssa.Builtin:
		return Top
	}
	if r, ok := s.env[v]; ok {
		return r
	}
	if r, ok := fr.args[v]; ok {
		return r
	}
	return Top
}

// refine adds the facts implied by cond being taken/not taken; it reports
// false when the edge is infeasible.
func (e *Engine) refine(s *State, fr *frame, cond ssa.Value, taken bool) bool {
	if _, isc := cond.(*ssa.Const); !isc {
		e.set(s, cond, CBool(taken))
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return e.refine(s, fr, x.X, !taken)
		}
	case *ssa.BinOp:
		eq := false
		switch x.Op {
		case token.EQL:
			eq = taken
		case token.NEQ:
			eq = !taken
		default:
			return true
		}
		l, r := e.eval(s, fr, x.X), e.eval(s, fr, x.Y)
		e.refineEq(s, x.X, l, r, eq)
		e.refineEq(s, x.Y, r, l, eq)
		e.rememberInit(s, fr, x.X)
		e.rememberInit(s, fr, x.Y)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && taken {
			// value part is non-nil for pointer/interface types when ok
			for _, r := range *ta.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
					if _, has := s.env[ex]; !has {
						e.set(s, ex, NonNil)
					}
				}
			}
		}
	}
	return true
}

// rememberInit keeps what a branch taught about a field that is written only
// while its object is being constructed: later loads of it see the same value.
func (e *Engine) rememberInit(s *State, fr *frame, v ssa.Value) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !e.P.initOnly[ownerField(fa)] {
		return
	}
	a := e.eval(s, fr, fa)
	if a.K != KAddr {
		return
	}
	if _, isParam := a.Site.(*ssa.Parameter); !isParam {
		return
	}
	if x := e.eval(s, fr, v); x.K == KNil || x.K == KNonNil || x.K == KConst {
		s.mem[memKey{e.siteID(a.Site), a.Path}] = x
	}
}

func (e *Engine) refineEq(s *State, v ssa.Value, cur, other Val, eq bool) {
	if _, isc := v.(*ssa.Const); isc {
		return
	}
	maybe := cur.K == KTag && strings.HasPrefix(cur.Tag, "?")
	if cur.K != KTop && cur.K != KNonNil && !maybe {
		return
	}
	if maybe && !(eq && other.K == KNil) {
		return
	}
	if eq {
		switch other.K {
		case KNil, KConst, KTag, KFunc, KNonNil:
			e.set(s, v, other)
		}
		return
	}
	switch other.K {
	case KNil:
		e.set(s, v, NonNil)
	case KConst:
		if b, ok := other.IsBool(); ok {
			e.set(s, v, CBool(!b))
		}
	}
}

// load reads abstract memory.
func (e *Engine) load(s *State, a Val, t types.Type) Val {
	if e.Bits && a.K == KTag && strings.HasPrefix(a.Tag, "&") {
		return TagV(a.Tag[1:])
	}
	if a.K != KAddr {
		return Top
	}
	if g, ok := a.Site.(*ssa.Global); ok {
		if a.Path == "" {
			if v, ok := e.P.globals[g]; ok {
				return v
			}
		}
		return Top
	}
	id := e.siteID(a.Site)
	mark, live := s.mem[memKey{id, "!"}]
	if !live {
		if v, ok := s.mem[memKey{id, a.Path}]; ok {
			return v // fact about an init-only field of a symbolic object
		}
		return Top
	}
	if mark.Tag != "live" {
		return Top
	}
	if v, ok := s.mem[memKey{id, a.Path}]; ok && v.K != KStruct {
		return v
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		out := Val{K: KStruct, F: map[string]Val{}, Len: 1}
		for k, v := range s.mem {
			if k.site == id && k.path != "!" && k.path != "pin" && strings.HasPrefix(k.path, a.Path) {
				rel := k.path[len(a.Path):]
				if rel == "?" {
					out.Len = 0
					continue
				}
				out.F[rel] = v
			}
		}
		return out
	}
	// partially unknown aggregate?
	for p := a.Path; p != ""; {
		i := strings.LastIndexAny(p, ".[")
		if i < 0 {
			break
		}
		p = p[:i]
		if _, bad := s.mem[memKey{id, p + "?"}]; bad {
			return Top
		}
		if _, whole := s.mem[memKey{id, p}]; whole {
			return Top // the enclosing aggregate was stored as one opaque value
		}
	}
	if _, bad := s.mem[memKey{id, "?"}]; bad {
		return Top
	}
	return zeroVal(t)
}

func (e *Engine) store(s *State, a Val, v Val) {
	if a.K != KAddr {
		e.publish(s, v)
		return
	}
	if _, ok := a.Site.(*ssa.Global); ok {
		e.publish(s, v)
		return
	}
	id := e.siteID(a.Site)
	mark, live := s.mem[memKey{id, "!"}]
	if !live || mark.Tag != "live" {
		if mark.Tag == "escaped" {
			e.escape(s, v)
		} else {
			e.publish(s, v)
		}
		return
	}
	// kill everything below the path
	for k := range s.mem {
		if k.site == id && k.path != "!" && (k.path == a.Path || strings.HasPrefix(k.path, a.Path+".") || strings.HasPrefix(k.path, a.Path+"[") || k.path == a.Path+"?") {
			delete(s.mem, k)
		}
	}
	if v.K == KStruct {
		for r, x := range v.F {
			s.mem[memKey{id, a.Path + r}] = x
		}
		if v.Len == 0 {
			s.mem[memKey{id, a.Path + "?"}] = NonNil
		}
		return
	}
	s.mem[memKey{id, a.Path}] = v
	if v.K == KTop {
		s.mem[memKey{id, a.Path}] = Top
	}
}

// spare tells whether the array behind a slice is known to hold n elements
// from the slice's start on, as it does after a longer slice was cut.
func (e *Engine) spare(s *State, a Val, n int) bool {
	if a.K != KSlice || n == 0 || e.capped[a.Site] || s.mem[memKey{e.siteID(a.Site), "!"}].Tag != "live" {
		return false
	}
	last := fmt.Sprintf("%s[%d]", a.Path, a.Lo+n-1)
	for k := range s.mem {
		if k.site == e.siteID(a.Site) && (k.path == last || strings.HasPrefix(k.path, last+".") || strings.HasPrefix(k.path, last+"[")) {
			return true
		}
	}
	return false
}

// publish: another goroutine may reach v from now on.
func (e *Engine) publish(s *State, v Val) { e.leak(s, v, "published") }

// escape: v is reachable from code that is not analysed; its contents are
// unknown from now on, but no other goroutine has been given it yet.
func (e *Engine) escape(s *State, v Val) { e.leak(s, v, "escaped") }

// publishEscaped: whatever escaped earlier may be part of something that has
// just been handed to another goroutine.
func (e *Engine) publishEscaped(s *State) {
	for k, m := range s.mem {
		if k.path == "!" && m.Tag == "escaped" {
			s.mem[k] = TagV("published")
		}
	}
}

// unpublished reports whether v is an object allocated on this path that no
// other goroutine can have been given yet.
func (c *Ctx) unpublished(v Val) bool {
	if v.K != KAddr && v.K != KSlice && v.K != KMap {
		return false
	}
	if _, ok := v.Site.(*ssa.Global); ok {
		return false
	}
	t := c.st.mem[memKey{c.e.siteID(v.Site), "!"}].Tag
	return t == "live" || t == "escaped"
}

func (e *Engine) leak(s *State, v Val, how string) {
	switch v.K {
	case KAddr, KSlice, KMap:
		if _, ok := v.Site.(*ssa.Global); ok {
			return
		}
		id := e.siteID(v.Site)
		if _, pinned := s.mem[memKey{id, "pin"}]; pinned {
			return
		}
		mark, live := s.mem[memKey{id, "!"}]
		if live && mark.Tag == "escaped" && how == "published" {
			e.publishEscaped(s)
			return
		}
		if !live || mark.Tag != "live" {
			return
		}
		var inner []Val
		for k, x := range s.mem {
			if k.site == id {
				inner = append(inner, x)
				delete(s.mem, k)
			}
		}
		s.mem[memKey{id, "!"}] = TagV(how)
		for _, x := range inner {
			e.leak(s, x, how)
		}
	case KTuple, KFunc:
		for _, x := range v.E {
			e.leak(s, x, how)
		}
	case KStruct:
		for _, x := range v.F {
			e.leak(s, x, how)
		}
	}
}

func (e *Engine) alloc(s *State, site ssa.Value) ssa.Value {
	id := e.siteID(site)
	if e.Exact {
		at := site
		for n := 1; n <= 24; n++ {
			id = e.siteID(at)
			if _, used := s.mem[memKey{id, "!"}]; !used {
				s.mem[memKey{id, "!"}] = TagV("live")
				return at
			}
			at = e.inst(site, strconv.Itoa(n))
		}
		at = site
		id = e.siteID(at)
		for k := range s.mem {
			if k.site == id {
				delete(s.mem, k)
			}
		}
		s.mem[memKey{id, "!"}] = TagV("multi")
		return at
	}
	if _, again := s.mem[memKey{id, "!"}]; again {
		// is the previous object still referenced?
		ref := false
		var has func(v Val) bool
		has = func(v Val) bool {
			switch v.K {
			case KAddr, KSlice, KMap:
				return v.Site == site
			case KTuple, KFunc:
				for _, x := range v.E {
					if has(x) {
						return true
					}
				}
			case KStruct:
				for _, x := range v.F {
					if has(x) {
						return true
					}
				}
			}
			return false
		}
		for k, v := range s.env {
			if k != site && has(v) {
				ref = true
			}
		}
		for k, v := range s.mem {
			if k.site != id && has(v) {
				ref = true
			}
		}
		for _, d := range s.defers {
			if has(d.fn) || has(Val{K: KTuple, E: d.args}) {
				ref = true
			}
		}
		for k := range s.mem {
			if k.site == id {
				delete(s.mem, k)
			}
		}
		if ref {
			s.mem[memKey{id, "!"}] = TagV("multi")
			return site
		}
	}
	s.mem[memKey{id, "!"}] = TagV("live")
	return site
}

// instSite stands for one of several objects: another object made by the same
// instruction, or an object that existed before the analysed code ran.
type instSite struct {
	ssa.Value
	name string
	typ  types.Type
	key  Val // the key of a registry entry
}

func (i *instSite) Type() types.Type {
	if i.typ != nil {
		return i.typ
	}
	return i.Value.Type()
}

type instKey struct {
	v ssa.Value
	n string
}

func (e *Engine) inst(v ssa.Value, n string) *instSite {
	k := instKey{v, n}
	if e.insts == nil {
		e.insts = map[instKey]*instSite{}
	}
	i := e.insts[k]
	if i == nil {
		i = &instSite{Value: v, name: n}
		e.insts[k] = i
	}
	return i
}

func fieldName(t types.Type, i int) string {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if st, ok := t.(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return fmt.Sprint(i)
}

// step executes one non-control instruction; it returns normal successor
// states and states in which a panic propagates.
func (e *Engine) step(s *State, fr *frame, ins ssa.Instruction) ([]*State, []*State) {
	ctx := &Ctx{e, fr.fn, s, fr}
	if _, isCall := ins.(ssa.CallInstruction); !isCall {
		e.C.Instr(ctx, ins)
	}
	one := []*State{s}
	if fk, ok := e.C.(Forker); ok {
		switch x := ins.(type) {
		case *ssa.Lookup:
			if rs, ok := fk.Fork(ctx, x); ok {
				return e.applyRes(s, rs, x), nil
			}
		case *ssa.Next:
			if rs, ok := fk.Fork(ctx, x); ok {
				return e.applyRes(s, rs, x), nil
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if rs, ok := fk.Fork(ctx, x); ok {
					return e.applyRes(s, rs, x), nil
				}
			}
		}
	}
	if e.Exact {
		if out, ok := e.exactStep(ctx, s, fr, ins); ok {
			return out, nil
		}
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		e.set(s, x, Val{K: KAddr, Site: e.alloc(s, x)})
	case *ssa.MakeMap:
		e.set(s, x, Val{K: KMap, Site: e.alloc(s, x)})
	case *ssa.MakeSlice:
		n, ok := e.eval(s, fr, x.Len).IsInt()
		if ok && n >= 0 && n <= 64 {
			e.set(s, x, Val{K: KSlice, Site: e.alloc(s, x), Lo: 0, Len: int(n)})
		} else {
			e.set(s, x, NonNil)
		}
	case *ssa.MakeChan:
		e.set(s, x, NonNil)
	case *ssa.MakeInterface:
		v := e.eval(s, fr, x.X)
		if v.K == KNil || v.K == KTop {
			v = NonNil
		}
		e.set(s, x, v)
	case *ssa.ChangeInterface:
		e.set(s, x, e.eval(s, fr, x.X))
	case *ssa.ChangeType:
		e.set(s, x, e.eval(s, fr, x.X))
	case *ssa.Convert:
		v := e.eval(s, fr, x.X)
		if e.Bits && (v.K == KTag || v.K == KBits) {
			if o, ok := e.bitConvert(v, x.X.Type(), x.Type()); ok {
				e.set(s, x, o)
				break
			}
			if v.K == KBits {
				v = Top
			}
		}
		e.set(s, x, convertVal(v, x.Type()))
	case *ssa.SliceToArrayPointer:
		e.set(s, x, Top)
	case *ssa.FieldAddr:
		b := e.eval(s, fr, x.X)
		if b.K == KAddr {
			e.set(s, x, Val{K: KAddr, Site: b.Site, Path: b.Path + "." + fieldName(x.X.Type(), x.Field)})
		} else {
			e.set(s, x, Top)
		}
	case *ssa.Field:
		b := e.eval(s, fr, x.X)
		e.set(s, x, e.subVal(b, "."+fieldName(x.X.Type(), x.Field), x.Type()))
	case *ssa.IndexAddr:
		b := e.eval(s, fr, x.X)
		i, ok := e.eval(s, fr, x.Index).IsInt()
		switch {
		case e.Bits && b.K == KTag && ok && onlyRead(x):
			e.set(s, x, TagV("&"+elemTag(b.Tag, int(i))))
		case b.K == KAddr && ok:
			e.set(s, x, Val{K: KAddr, Site: b.Site, Path: fmt.Sprintf("%s[%d]", b.Path, i)})
		case b.K == KSlice && ok:
			e.set(s, x, Val{K: KAddr, Site: b.Site, Path: fmt.Sprintf("%s[%d]", b.Path, int(i)+b.Lo)})
		default:
			if b.K == KAddr || b.K == KSlice {
				// store through an unknown index would be lost: treat the
				// object as unknown if this address is ever stored to
				if !onlyRead(x) {
					e.escape(s, b)
				}
			}
			e.set(s, x, Top)
		}
	case *ssa.Index:
		b := e.eval(s, fr, x.X)
		i, ok := e.eval(s, fr, x.Index).IsInt()
		if ok && b.K == KStruct {
			e.set(s, x, e.subVal(b, fmt.Sprintf("[%d]", i), x.Type()))
		} else {
			e.set(s, x, Top)
		}
	case *ssa.Lookup:
		b := e.eval(s, fr, x.X)
		k := e.eval(s, fr, x.Index)
		res := Top
		okv := Top
		if b.K == KTag && k.K == KConst {
			if gm, is := e.P.globalMaps[b.Tag]; is {
				if v, has := gm[k.C.ExactString()]; has {
					res, okv = v, CBool(true)
				} else {
					okv = CBool(false)
					t := x.Type()
					if x.CommaOk {
						t = t.(*types.Tuple).At(0).Type()
					}
					res = zeroVal(t)
				}
			}
		}
		if b.K == KMap && k.K == KConst {
			id := e.siteID(b.Site)
			if m := s.mem[memKey{id, "!"}]; m.Tag == "live" {
				if v, has := s.mem[memKey{id, "{" + k.C.ExactString() + "}"}]; has {
					res, okv = v, CBool(true)
				} else if _, dirty := s.mem[memKey{id, "?"}]; !dirty {
					okv = CBool(false)
					t := x.Type()
					if x.CommaOk {
						t = t.(*types.Tuple).At(0).Type()
					}
					res = zeroVal(t)
				}
			}
		}
		if x.CommaOk {
			e.set(s, x, TupleV(res, okv))
		} else {
			e.set(s, x, res)
		}
	case *ssa.MapUpdate:
		b := e.eval(s, fr, x.Map)
		k := e.eval(s, fr, x.Key)
		v := e.eval(s, fr, x.Value)
		if b.K == KMap {
			id := e.siteID(b.Site)
			if m := s.mem[memKey{id, "!"}]; m.Tag == "live" {
				if k.K == KConst {
					s.mem[memKey{id, "{" + k.C.ExactString() + "}"}] = v
					break
				}
				s.mem[memKey{id, "?"}] = NonNil
				e.escape(s, v)
				break
			} else if m.Tag == "escaped" {
				e.escape(s, v)
				break
			}
		}
		e.publish(s, v)
	case *ssa.Slice:
		if o, ok := e.C.(Opper); ok && isString(x.Type()) {
			if v, ok := o.Op(ctx, x); ok {
				e.set(s, x, v)
				break
			}
		}
		b := e.eval(s, fr, x.X)
		lo, hi := 0, -1
		okc := true
		if x.Low != nil {
			v, ok := e.eval(s, fr, x.Low).IsInt()
			okc = okc && ok
			lo = int(v)
		}
		if x.High != nil {
			v, ok := e.eval(s, fr, x.High).IsInt()
			okc = okc && ok
			hi = int(v)
		}
		switch {
		case okc && b.K == KAddr:
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					if hi < 0 {
						hi = int(at.Len())
					}
					e.set(s, x, Val{K: KSlice, Site: b.Site, Path: b.Path, Lo: lo, Len: hi - lo})
					return one, nil
				}
			}
			e.set(s, x, NonNil)
		case okc && b.K == KSlice:
			if hi < 0 {
				hi = b.Len
			}
			if x.Max != nil {
				e.capped[b.Site] = true
			}
			e.set(s, x, Val{K: KSlice, Site: b.Site, Path: b.Path, Lo: b.Lo + lo, Len: hi - lo})
		case e.Bits && b.K == KTag && okc:
			e.set(s, x, TagV(subTag(b.Tag, lo, hi)))
		case b.K == KTag && strings.HasPrefix(b.Tag, "?"):
			if !strings.HasSuffix(b.Tag, "~") {
				b.Tag += "~" // a part of the tagged slice
			}
			e.set(s, x, b)
		default:
			e.escape(s, b)
			e.set(s, x, Top)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if v, ok := e.C.Load(ctx, x); ok {
				e.set(s, x, v)
				break
			}
			e.set(s, x, e.load(s, e.eval(s, fr, x.X), x.Type()))
		case token.NOT:
			if b, ok := e.eval(s, fr, x.X).IsBool(); ok {
				e.set(s, x, CBool(!b))
			} else if t := e.eval(s, fr, x.X); e.SymCmp && t.K == KTag {
				e.set(s, x, TagV(negCond(t.Tag)))
			} else {
				e.set(s, x, Top)
			}
		case token.SUB:
			v := e.eval(s, fr, x.X)
			if v.K == KConst {
				e.set(s, x, Val{K: KConst, C: constant.UnaryOp(token.SUB, v.C, 0)})
			} else {
				e.set(s, x, Top)
			}
		default:
			e.set(s, x, Top)
		}
	case *ssa.BinOp:
		if o, ok := e.C.(Opper); ok {
			if v, ok := o.Op(ctx, x); ok {
				e.set(s, x, v)
				break
			}
		}
		e.set(s, x, e.binop(s, fr, x))
	case *ssa.Extract:
		t := e.eval(s, fr, x.Tuple)
		if t.K == KTuple && x.Index < len(t.E) {
			e.set(s, x, t.E[x.Index])
		} else {
			e.set(s, x, Top)
		}
	case *ssa.TypeAssert:
		v := e.eval(s, fr, x.X)
		if a, ok := e.C.(Asserter); ok {
			if is, known := a.Assert(ctx, x, v); known {
				switch {
				case is && x.CommaOk:
					e.set(s, x, TupleV(v, CBool(true)))
				case is:
					e.set(s, x, v)
				case x.CommaOk:
					e.set(s, x, TupleV(zeroVal(x.AssertedType), CBool(false)))
				default:
					return nil, one
				}
				return one, nil
			}
		}
		if x.CommaOk {
			okv := Top
			if v.K == KNil {
				okv = CBool(false)
			}
			if e.SymCmp && v.K == KTag {
				okv = TagV("is(" + v.Tag + "|" + typeKey(x.AssertedType) + ")")
				if typeKey(x.AssertedType) == "" {
					okv = TagV("is(" + v.Tag + "|" + types.TypeString(x.AssertedType, nil) + ")")
				}
			}
			e.set(s, x, TupleV(v, okv))
			if v.K == KNonNil || v.K == KNil {
				// the asserted value may be the zero value when !ok
				e.set(s, x, TupleV(Top, okv))
			}
		} else {
			e.set(s, x, v)
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		b := make([]Val, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = e.eval(s, fr, v)
		}
		e.set(s, x, Val{K: KFunc, Fn: f, E: b})
	case *ssa.Store:
		e.store(s, e.eval(s, fr, x.Addr), e.eval(s, fr, x.Val))
	case *ssa.Send:
		e.publish(s, e.eval(s, fr, x.X))
		e.publishEscaped(s)
	case *ssa.Range, *ssa.Next, *ssa.Select:
		if v, ok := ins.(ssa.Value); ok {
			delete(s.env, v)
		}
	case *ssa.Call:
		fv := e.calleeVal(s, fr, &x.Call)
		args := e.argVals(s, fr, &x.Call)
		return e.call(s, fr, x, fv, args, x)
	case *ssa.Defer:
		e.C.Instr(ctx, ins)
		s.defers = append(s.defers, deferRec{x, e.calleeVal(s, fr, &x.Call), e.argVals(s, fr, &x.Call)})
	case *ssa.Go:
		e.C.Instr(ctx, ins)
		fv := e.calleeVal(s, fr, &x.Call)
		args := e.argVals(s, fr, &x.Call)
		if rs, ok := e.C.Call(ctx, x, goCallee(fv, &x.Call), args); ok {
			var out []*State
			for _, r := range rs {
				ns := s.clone()
				ns.A = r.A
				out = append(out, ns)
			}
			for _, o := range out {
				e.publish(o, fv)
				for _, a := range args {
					e.publish(o, a)
				}
				e.publishEscaped(o)
			}
			return out, nil
		}
		e.publish(s, fv)
		for _, a := range args {
			e.publish(s, a)
		}
		e.publishEscaped(s)
	case *ssa.DebugRef:
	default:
		if v, ok := ins.(ssa.Value); ok {
			delete(s.env, v)
		}
	}
	return one, nil
}

// onlyRead: nothing is stored through this address.
func onlyRead(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyRead(x) {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyRead(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func goCallee(fv Val, c *ssa.CallCommon) *ssa.Function {
	if fv.K == KFunc {
		return fv.Fn
	}
	return c.StaticCallee()
}

func (e *Engine) subVal(b Val, path string, t types.Type) Val {
	if b.K != KStruct {
		return Top
	}
	if v, ok := b.F[path]; ok {
		return v
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		out := Val{K: KStruct, F: map[string]Val{}, Len: b.Len}
		for k, v := range b.F {
			if strings.HasPrefix(k, path) {
				out.F[k[len(path):]] = v
			}
		}
		return out
	}
	if b.Len == 1 {
		return zeroVal(t)
	}
	return Top
}

func convertVal(v Val, t types.Type) Val {
	if v.K != KConst {
		if v.K == KNil || v.K == KNonNil || v.K == KTag {
			return v
		}
		return Top
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Top
	}
	if v.C.Kind() == constant.Int && b.Info()&types.IsInteger != 0 {
		n, exact := constant.Int64Val(v.C)
		if !exact {
			return Top
		}
		switch b.Kind() {
		case types.Uint8:
			return CInt(int64(uint8(n)))
		case types.Uint16:
			return CInt(int64(uint16(n)))
		case types.Uint32:
			return CInt(int64(uint32(n)))
		case types.Int8:
			return CInt(int64(int8(n)))
		case types.Int16:
			return CInt(int64(int16(n)))
		case types.Int32:
			return CInt(int64(int32(n)))
		case types.Uint64, types.Uint, types.Uintptr:
			if n < 0 {
				return Top
			}
		}
		return CInt(n)
	}
	if v.C.Kind() == constant.String && b.Info()&types.IsString != 0 {
		return v
	}
	return Top
}

func (e *Engine) binop(s *State, fr *frame, x *ssa.BinOp) Val {
	l, r := e.eval(s, fr, x.X), e.eval(s, fr, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		res := -1
		switch {
		case l.K == KConst && r.K == KConst:
			if l.C.Kind() == r.C.Kind() {
				if constant.Compare(l.C, token.EQL, r.C) {
					res = 1
				} else {
					res = 0
				}
			}
		case l.K == KNil && r.K == KNil:
			res = 1
		case l.K == KNil && r.nonnil(), r.K == KNil && l.nonnil():
			res = 0
		case l.K == KTag && r.K == KTag && l.Tag != r.Tag && strings.HasPrefix(l.Tag, "=") && strings.HasPrefix(r.Tag, "="):
			res = 0
		case l.K == KTag && r.K == KTag && l.Tag == r.Tag && strings.HasPrefix(l.Tag, "="):
			res = 1
		case x.X == x.Y:
			res = 1
		}
		if res < 0 {
			if e.SymCmp {
				return e.symCmp(x.Op, l, r, x.X.Type())
			}
			return Top
		}
		if x.Op == token.NEQ {
			res = 1 - res
		}
		return CBool(res == 1)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if l.K == KConst && r.K == KConst && l.C.Kind() == r.C.Kind() {
			return CBool(constant.Compare(l.C, x.Op, r.C))
		}
		if e.SymCmp {
			return e.symCmp(x.Op, l, r, x.X.Type())
		}
		return Top
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.QUO, token.REM, token.AND_NOT:
		// not on values a loop changes, so that facts stay finite
		if fr.inCyc[x.Block()] && (loopVarying(x.X, fr, 0) || loopVarying(x.Y, fr, 0)) {
			if e.LoopArith == 0 {
				return Top
			}
			if l.K != KConst || r.K != KConst {
				if e.Bits {
					if v, ok := e.bitOp(x.Op, l, r, x.X.Type(), x.Type()); ok {
						return v
					}
				}
				return Top
			}
			v := foldConst(x.Op, l, r, x.Type())
			if n, ok := v.IsInt(); ok && n >= -int64(e.LoopArith) && n <= int64(e.LoopArith) {
				return v
			}
			return Top
		}
		if l.K == KConst && r.K == KConst {
			return foldConst(x.Op, l, r, x.Type())
		}
		if e.Bits {
			if v, ok := e.bitOp(x.Op, l, r, x.X.Type(), x.Type()); ok {
				return v
			}
		}
		if x.Op == token.AND || x.Op == token.MUL {
			if n, ok := l.IsInt(); ok && n == 0 {
				return l
			}
			if n, ok := r.IsInt(); ok && n == 0 {
				return r
			}
		}
	}
	return Top
}

// loopVarying: the value may change from one iteration of a loop to the next
// by arithmetic on itself.
func loopVarying(v ssa.Value, fr *frame, d int) bool {
	if d > 10 {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return fr.inCyc[x.Block()]
	case *ssa.BinOp:
		return loopVarying(x.X, fr, d+1) || loopVarying(x.Y, fr, d+1)
	case *ssa.Convert:
		return loopVarying(x.X, fr, d+1)
	case *ssa.ChangeType:
		return loopVarying(x.X, fr, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			_, glob := x.X.(*ssa.Global)
			return !glob
		}
		return loopVarying(x.X, fr, d+1)
	}
	return false
}

func foldConst(op token.Token, l, r Val, t types.Type) (out Val) {
	defer func() {
		if recover() != nil {
			out = Top
		}
	}()
	if l.C.Kind() == constant.String && op == token.ADD && r.C.Kind() == constant.String {
		return Val{K: KConst, C: constant.BinaryOp(l.C, op, r.C)}
	}
	if l.C.Kind() != constant.Int || r.C.Kind() != constant.Int {
		return Top
	}
	var c constant.Value
	switch op {
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(r.C)
		if !ok || n > 64 {
			return Top
		}
		c = constant.Shift(l.C, op, uint(n))
	case token.QUO:
		if constant.Sign(r.C) == 0 {
			return Top
		}
		c = constant.BinaryOp(l.C, token.QUO_ASSIGN, r.C)
	case token.REM:
		if constant.Sign(r.C) == 0 {
			return Top
		}
		c = constant.BinaryOp(l.C, op, r.C)
	default:
		c = constant.BinaryOp(l.C, op, r.C)
	}
	return convertVal(Val{K: KConst, C: c}, t)
}

func (e *Engine) calleeVal(s *State, fr *frame, c *ssa.CallCommon) Val {
	if c.IsInvoke() {
		return e.eval(s, fr, c.Value)
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return Top
	}
	return e.eval(s, fr, c.Value)
}

func (e *Engine) argVals(s *State, fr *frame, c *ssa.CallCommon) []Val {
	var out []Val
	if c.IsInvoke() {
		out = append(out, e.eval(s, fr, c.Value))
	}
	for _, a := range c.Args {
		out = append(out, e.eval(s, fr, a))
	}
	return out
}

var pureExt = map[string]bool{"fmt": true, "errors": true, "strings": true, "strconv": true, "math": true, "time": true, "unicode": true, "bytes": true, "math/rand": true, "sync": true, "sync/atomic": true, "go.uber.org/atomic": true, "regexp": true}

// call executes a call with callee value fv and evaluated arguments.
// res is the value to bind (nil for defers).
func (e *Engine) call(s *State, fr *frame, site ssa.CallInstruction, fv Val, args []Val, res ssa.Value) ([]*State, []*State) {
	ctx := &Ctx{e, fr.fn, s, fr}
	cc := site.Common()
	var callees []*ssa.Function
	var binds []Val
	if cc.IsInvoke() {
		if e.DispatchIface {
			callees = e.P.impls(cc)
		}
	} else if fv.K == KFunc {
		callees = []*ssa.Function{fv.Fn}
		binds = fv.E
	} else if f := cc.StaticCallee(); f != nil {
		callees = []*ssa.Function{f}
	}
	var known *ssa.Function
	if len(callees) == 1 && !cc.IsInvoke() {
		known = callees[0]
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if rs, ok := e.C.Call(ctx, site, nil, args); ok {
			return e.applyRes(s, rs, res), nil
		}
		e.builtin(s, fr, b, cc, args, res)
		return []*State{s}, nil
	}
	// the client sees the call once; with a bound-method wrapper it sees the
	// method itself
	target := known
	targs := args
	if known != nil {
		if m, a2, ok := e.unwrap(known, binds, args); ok {
			target, targs = m, a2
		}
	}
	if rs, ok := e.C.Call(ctx, site, target, targs); ok {
		return e.applyRes(s, rs, res), nil
	}
	if target != nil && target != known {
		callees = []*ssa.Function{target}
		args = targs
		binds = nil
	}
	var out, pan []*State
	opaque := len(callees) == 0
	// an interface may also be implemented outside the library
	if cc.IsInvoke() {
		opaque = true
	}
	for _, f := range callees {
		if !e.P.isLibFn(f) || !e.C.Enter(ctx, site, f) {
			opaque = true
			continue
		}
		os := e.run(f, fr, site, s.A, args, binds, s.mem, s.tr)
		for _, o := range os {
			ns := s.clone()
			ns.A = o.A
			ns.tr = o.tr
			// callee effects on reachable memory
			if e.Exact {
				ns.mem = map[memKey]Val{}
			} else {
				for k := range e.reachMem(s.mem, append(append([]Val{}, args...), binds...)) {
					delete(ns.mem, k)
				}
			}
			for k, v := range o.Mem {
				ns.mem[k] = v
			}
			if o.Panicked {
				pan = append(pan, ns)
				continue
			}
			if res != nil {
				switch len(o.Rets) {
				case 0:
					delete(ns.env, res)
				case 1:
					e.set(ns, res, o.Rets[0])
				default:
					e.set(ns, res, Val{K: KTuple, E: o.Rets})
				}
			}
			out = append(out, ns)
		}
	}
	if cc.IsInvoke() && len(callees) > 0 && len(out) > 0 {
		// library implementations exist; treat foreign ones as neutral only
		// when there is no library one
		return out, pan
	}
	if opaque {
		ns := s
		if len(out) > 0 {
			ns = s.clone()
		}
		pure := false
		if known != nil {
			if pk := fnPkg(known); pk != nil && pureExt[pk.Path()] {
				pure = true
			}
		}
		if !pure {
			for _, a := range args {
				e.escape(ns, a)
			}
			for _, b := range binds {
				e.escape(ns, b)
			}
			if known != nil && known.String() == "time.AfterFunc" {
				e.publishEscaped(ns)
			}
		}
		if res != nil {
			e.set(ns, res, e.extResult(ns, known, args))
		}
		if known != nil && (known.String() == "os.Exit" || known.String() == "log.Fatal" || known.String() == "log.Fatalf" || known.String() == "runtime.Goexit") {
			return out, pan
		}
		out = append(out, ns)
	}
	return out, pan
}

// extResult: facts about results of well-known external constructors.
func (e *Engine) extResult(s *State, f *ssa.Function, args []Val) Val {
	if f == nil {
		return Top
	}
	switch f.String() {
	case "fmt.Sprintf":
		if len(args) == 2 {
			if str, ok := e.sprintf(s, args[0], args[1]); ok {
				return CStr(str)
			}
		}
	case "strconv.Itoa":
		if n, ok := args[0].IsInt(); ok {
			return CStr(strconv.FormatInt(n, 10))
		}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if str, ok := args[0].IsStr(); ok {
			switch f.Name() {
			case "ToLower":
				return CStr(strings.ToLower(str))
			case "ToUpper":
				return CStr(strings.ToUpper(str))
			}
			return CStr(strings.TrimSpace(str))
		}
	case "errors.New", "fmt.Errorf", "time.NewTimer", "time.AfterFunc", "time.NewTicker", "container/list.New", "strings.NewReader", "go.uber.org/atomic.NewBool", "go.uber.org/atomic.NewUint32":
		return NonNil
	}
	return Top
}

// sprintf formats constant arguments.
func (e *Engine) sprintf(s *State, format, va Val) (string, bool) {
	f, ok := format.IsStr()
	if !ok {
		return "", false
	}
	var as []any
	switch va.K {
	case KNil:
	case KSlice:
		for i := 0; i < va.Len; i++ {
			v := e.load(s, Val{K: KAddr, Site: va.Site, Path: va.Path + "[" + strconv.Itoa(i+va.Lo) + "]"}, types.NewInterfaceType(nil, nil))
			if v.K != KConst {
				return "", false
			}
			switch v.C.Kind() {
			case constant.Int:
				n, ok := constant.Int64Val(v.C)
				if !ok {
					return "", false
				}
				as = append(as, n)
			case constant.String:
				as = append(as, constant.StringVal(v.C))
			case constant.Bool:
				as = append(as, constant.BoolVal(v.C))
			default:
				return "", false
			}
		}
	default:
		return "", false
	}
	return fmt.Sprintf(f, as...), true
}

// unwrap resolves bound-method and promoted-method wrappers to the method.
func (e *Engine) unwrap(f *ssa.Function, binds, args []Val) (*ssa.Function, []Val, bool) {
	if f.Synthetic == "" {
		return nil, nil, false
	}
	if strings.HasPrefix(f.Synthetic, "bound method wrapper") {
		if o, ok := f.Object().(*types.Func); ok {
			if m := e.P.prog.FuncValue(o); m != nil {
				recv := Top
				if len(binds) > 0 {
					recv = binds[0]
				}
				return m, append([]Val{recv}, args...), true
			}
		}
	}
	if strings.HasPrefix(f.Synthetic, "thunk") || strings.HasPrefix(f.Synthetic, "wrapper") {
		if o, ok := f.Object().(*types.Func); ok {
			if m := e.P.prog.FuncValue(o); m != nil && m != f {
				na := append([]Val{}, args...)
				if len(na) > 0 && na[0].K != KFunc {
					na[0] = Top
				}
				return m, na, true
			}
		}
	}
	return nil, nil, false
}

func (e *Engine) applyRes(s *State, rs []CallRes, res ssa.Value) []*State {
	var out []*State
	for i, r := range rs {
		if r.Dead {
			continue
		}
		ns := s
		if i < len(rs)-1 {
			ns = s.clone()
		}
		ns.A = r.A
		if res != nil {
			e.set(ns, res, r.Ret)
		}
		out = append(out, ns)
	}
	return out
}

func (e *Engine) builtin(s *State, fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, res ssa.Value) {
	out := Top
	switch b.Name() {
	case "len":
		if args[0].K == KSlice {
			out = CInt(int64(args[0].Len))
		} else if str, ok := args[0].IsStr(); ok {
			out = CInt(int64(len(str)))
		} else if args[0].K == KNil {
			out = CInt(0)
		} else if n, ok := e.exactLen(s, args[0]); ok {
			out = CInt(int64(n))
		} else if args[0].K == KTag && e.Bits && tagLen(args[0].Tag) >= 0 {
			out = CInt(int64(tagLen(args[0].Tag)))
		} else if args[0].K == KTag && e.SymCmp {
			out = TagV("len(" + args[0].Tag + ")")
		}
	case "append":
		out = NonNil
		if args[0].K == KTag && strings.HasPrefix(args[0].Tag, "?") {
			out = args[0]
			break
		}
		if len(args) == 2 {
			if args[1].K == KSlice && args[1].Len == 0 {
				out = args[0]
				break
			}
			if args[0].K == KTop && args[1].K == KTop {
				out = Top
			}
			// append to a tracked slice: elements are copied
			var elems []Val
			known := true
			for _, a := range args {
				switch a.K {
				case KNil:
				case KTag:
					n := tagLen(a.Tag)
					if !e.Bits || n < 0 {
						known = false
						break
					}
					for i := 0; i < n; i++ {
						elems = append(elems, TagV(elemTag(a.Tag, i)))
					}
				case KSlice:
					id := e.siteID(a.Site)
					if s.mem[memKey{id, "!"}].Tag != "live" {
						known = false
						break
					}
					for i := 0; i < a.Len; i++ {
						st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
						if !ok {
							known = false
							break
						}
						elems = append(elems, e.load(s, Val{K: KAddr, Site: a.Site, Path: fmt.Sprintf("%s[%d]", a.Path, a.Lo+i)}, st.Elem()))
					}
				default:
					known = false
				}
			}
			if known && e.Exact && e.spare(s, args[0], len(elems)) {
				// the array has room: the elements behind the slice are overwritten
				for i := args[0].Len; i < len(elems); i++ {
					e.store(s, Val{K: KAddr, Site: args[0].Site, Path: fmt.Sprintf("%s[%d]", args[0].Path, args[0].Lo+i)}, elems[i])
				}
				out = args[0]
				out.Len = len(elems)
			} else if known && res != nil && e.Exact && len(elems) <= 64 {
				at := e.alloc(s, res)
				if id := e.siteID(at); s.mem[memKey{id, "!"}].Tag == "live" {
					for i, v := range elems {
						e.store(s, Val{K: KAddr, Site: at, Path: fmt.Sprintf("[%d]", i)}, v)
					}
					out = Val{K: KSlice, Site: at, Len: len(elems)}
				}
			} else if known && res != nil && (!fr.inCyc[res.(ssa.Instruction).Block()] && len(elems) <= 64 || e.LoopArith > 0 && len(elems) <= e.LoopArith && plain(elems, e.SymCmp)) {
				id := e.siteID(res)
				if !(e.LoopArith > 0 && args[0].K == KSlice && args[0].Site == res && args[0].Path == "" && args[0].Lo == 0) {
					e.alloc(s, res)
				}
				if s.mem[memKey{id, "!"}].Tag == "live" {
					for i, v := range elems {
						if v.K == KStruct {
							e.store(s, Val{K: KAddr, Site: res, Path: fmt.Sprintf("[%d]", i)}, v)
							continue
						}
						s.mem[memKey{id, fmt.Sprintf("[%d]", i)}] = v
					}
					out = Val{K: KSlice, Site: res, Len: len(elems)}
				}
			} else {
				for _, a := range args {
					if a.K == KSlice {
						// elements flow into an unknown slice
						id := e.siteID(a.Site)
						for k, v := range s.mem {
							if k.site == id && k.path != "!" {
								e.escape(s, v)
							}
						}
					}
				}
			}
		}
	case "copy":
		if e.Bits {
			if n, ok := e.copyElems(s, cc, args); ok {
				out = CInt(int64(n))
				break
			}
		}
		e.escape(s, args[0])
	case "clear":
		if e.Exact && len(args) == 1 && args[0].K == KMap {
			e.exactClear(s, args[0])
		}
	case "delete":
		if e.Exact && args[0].K == KMap {
			e.exactDelete(s, args[0], args[1])
			break
		}
		if args[0].K == KMap {
			id := e.siteID(args[0].Site)
			if m := s.mem[memKey{id, "!"}]; m.Tag == "live" {
				if args[1].K == KConst {
					delete(s.mem, memKey{id, "{" + args[1].C.ExactString() + "}"})
				} else {
					e.escape(s, args[0])
				}
			}
		}
	case "recover":
		out = Top
	}
	if res != nil {
		e.set(s, res, out)
	}
}

// computeGlobals finds package-level variables that are assigned exactly one
// constant (or never) by package initialisation and nowhere else.
func (P *Program) computeGlobals() {
	P.globals = map[*ssa.Global]Val{}
	P.globalMaps = map[string]map[string]Val{}
	P.mapBad = map[*ssa.Global]bool{}
	for fn := range P.isLib {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				g, ok := u.X.(*ssa.Global)
				if !ok {
					continue
				}
				for _, r := range *u.Referrers() {
					switch y := r.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.Call:
						if b, ok := y.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
							P.mapBad[g] = true
						}
					default:
						P.mapBad[g] = true
					}
				}
			}
		}
	}
	stores := map[*ssa.Global][]*ssa.Store{}
	bad := map[*ssa.Global]bool{}
	for fn := range P.isLib {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(g) {
							stores[g] = append(stores[g], x)
							if fn.Name() != "init" {
								bad[g] = true
							}
							continue
						}
						bad[g] = true
					case *ssa.UnOp:
						if x.Op != token.MUL {
							bad[g] = true
						}
					case *ssa.DebugRef:
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	e := NewEngine(P, BaseClient{})
	for iter := 0; iter < 6; iter++ {
		for g, sts := range stores {
			if bad[g] || len(sts) != 1 {
				continue
			}
			if _, done := P.globals[g]; done {
				continue
			}
			if v, ok := P.constExpr(e, sts[0].Val, 0); ok {
				P.globals[g] = v
			} else if m, ok := P.constMap(e, g, sts[0]); ok {
				P.globals[g] = TagV("gmap:" + g.String())
				P.globalMaps["gmap:"+g.String()] = m
			}
		}
	}
	_ = e
}

// constMap evaluates a package-level map that is built from constants by
// package initialisation and only read afterwards.
func (P *Program) constMap(e *Engine, g *ssa.Global, st *ssa.Store) (map[string]Val, bool) {
	mk, ok := st.Val.(*ssa.MakeMap)
	if !ok || P.mapBad[g] {
		return nil, false
	}
	m := map[string]Val{}
	for _, r := range *mk.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			k, ok := P.constExpr(e, x.Key, 0)
			if !ok || k.K != KConst || x.Map != ssa.Value(mk) {
				return nil, false
			}
			v, ok := P.constExpr(e, x.Value, 0)
			if !ok {
				v = Top
			}
			m[k.C.ExactString()] = v
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return m, true
}

func (P *Program) constExpr(e *Engine, v ssa.Value, d int) (Val, bool) {
	if d > 8 {
		return Top, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return Top, false
		}
		return Val{K: KConst, C: x.Value}, true
	case *ssa.BinOp:
		l, ok1 := P.constExpr(e, x.X, d+1)
		r, ok2 := P.constExpr(e, x.Y, d+1)
		if ok1 && ok2 && l.K == KConst && r.K == KConst {
			c := foldConst(x.Op, l, r, x.Type())
			return c, c.K == KConst
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				c, ok := P.globals[g]
				return c, ok
			}
		}
	case *ssa.Convert:
		return P.constExpr(e, x.X, d+1)
	case *ssa.ChangeType:
		return P.constExpr(e, x.X, d+1)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
			// distinct sentinel error
			return TagV("=err:" + P.fset.Position(x.Pos()).String()), true
		}
	case *ssa.MakeInterface:
		return P.constExpr(e, x.X, d+1)
	}
	return Top, false
}

// freshBase: the object was made in this function: it is an allocation, or read
// from a variable (perhaps one captured by a closure) that is only ever set to
// one.
func freshBase(v ssa.Value) bool {
	if _, ok := v.(*ssa.Alloc); ok {
		return true
	}
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	cell, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *cell.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if _, ok := x.Val.(*ssa.Alloc); !ok || x.Addr != ssa.Value(cell) {
				return false
			}
			n++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b != ssa.Value(cell) {
					continue
				}
				for _, q := range *x.Fn.(*ssa.Function).FreeVars[i].Referrers() {
					switch q.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return n == 1
}

// computeInitOnly finds the struct fields that are stored to only through the
// allocation that creates their object (directly or by a composite literal).
func (P *Program) computeInitOnly() {
	P.initOnly = map[string]bool{}
	bad := map[string]bool{}
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := ownerField(fa)
				if _, seen := P.initOnly[k]; !seen {
					P.initOnly[k] = true
				}
				fresh := freshBase(fa.X)
				for _, r := range *fa.Referrers() {
					switch y := r.(type) {
					case *ssa.Store:
						if y.Addr == ssa.Value(fa) && !fresh || y.Val == ssa.Value(fa) {
							bad[k] = true
						}
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
						if fa2, ok := r.(*ssa.FieldAddr); ok {
							_ = fa2
							bad[k] = true
						}
						if _, ok := r.(*ssa.IndexAddr); ok {
							bad[k] = true
						}
					default:
						bad[k] = true // address escapes (e.g. atomics, locks)
					}
				}
			}
		}
	}
	for k := range bad {
		delete(P.initOnly, k)
	}
}

// forget drops a tag from every value of the current activation.
func (c *Ctx) forget(tag string) {
	for k, v := range c.st.env {
		if v.K == KTag && (v.Tag == tag || v.Tag == tag+"~") {
			delete(c.st.env, k)
		}
	}
}

// copyElems models copy for slices whose elements are known.
func (e *Engine) copyElems(s *State, cc *ssa.CallCommon, args []Val) (int, bool) {
	d, src := args[0], args[1]
	st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
	if d.K != KSlice || !ok {
		return 0, false
	}
	did := e.siteID(d.Site)
	if s.mem[memKey{did, "!"}].Tag != "live" {
		return 0, false
	}
	var elems []Val
	switch src.K {
	case KNil:
	case KSlice:
		if s.mem[memKey{e.siteID(src.Site), "!"}].Tag != "live" {
			return 0, false
		}
		for i := 0; i < src.Len; i++ {
			elems = append(elems, e.load(s, Val{K: KAddr, Site: src.Site, Path: fmt.Sprintf("%s[%d]", src.Path, src.Lo+i)}, st.Elem()))
		}
	case KTag:
		n := tagLen(src.Tag)
		if n < 0 {
			return 0, false
		}
		for i := 0; i < n; i++ {
			elems = append(elems, TagV(elemTag(src.Tag, i)))
		}
	default:
		return 0, false
	}
	if len(elems) > d.Len {
		elems = elems[:d.Len]
	}
	for i, v := range elems {
		e.store(s, Val{K: KAddr, Site: d.Site, Path: fmt.Sprintf("%s[%d]", d.Path, d.Lo+i)}, v)
	}
	return len(elems), true
}

// plain: constants and named values only.
func plain(vs []Val, structs bool) bool {
	for _, v := range vs {
		switch v.K {
		case KConst, KTag, KBits:
		case KStruct:
			if !structs || v.Len == 0 {
				return false
			}
			for _, f := range v.F {
				if !plain([]Val{f}, false) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
