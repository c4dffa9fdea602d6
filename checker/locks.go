package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- lockset analysis ----------------------------------------------------
//
// The automaton state is the multiset of held locks. A lock is named by the
// struct field that holds it ("gem.GemHandler.reportMu"), or by a global.

var debugOn = os.Getenv("SC_DEBUG") != ""

type access struct {
	field string // pkg.Type.field
	write bool
	cont  bool // access to the contents (map) rather than to the field itself
	held  map[string]bool
	fn    *ssa.Function
	ins   ssa.Instruction
	roots map[*ssa.Function]bool
	fresh bool
}

type lockEdge struct {
	from, to string
	fn       *ssa.Function
	ins      ssa.Instruction
	stack    string
}

type lockIssue struct {
	kind string
	lock string
	fn   *ssa.Function
	ins  ssa.Instruction
	what string
}

type lockAnalysis struct {
	BaseClient
	P        *Program
	acc      map[string]*access
	edges    map[string]*lockEdge
	issues   map[string]*lockIssue
	callouts map[string]*lockIssue // dynamic calls under a lock
	blocking map[string]*lockIssue
	dynSites map[ssa.Instruction]bool
	acqSites map[ssa.Instruction]bool
	roots    []*ssa.Function
	cbs      []cbEntry
	engine   *Engine
	exits    int
	shared   map[string]bool   // types whose objects several goroutines reach
	optCalls map[string][]bool // option type -> was the argument fresh, per call
	handed   map[string]*lockIssue
	captured int
}

// contTag marks the contents of a map or slice loaded from a shared field.
const contTag = "?cont:"

func (la *lockAnalysis) Load(c *Ctx, ld *ssa.UnOp) (Val, bool) {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || !la.shared[typeKey(fa.X.Type())] || la.fresh(c, fa) {
		return Top, false
	}
	switch ld.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
		return TagV(contTag + ownerField(fa)), true
	}
	return Top, false
}

func contOf(v Val) (string, bool) {
	if v.K == KTag && strings.HasPrefix(v.Tag, contTag) {
		return strings.TrimSuffix(strings.TrimPrefix(v.Tag, contTag), "~"), true
	}
	return "", false
}

func heldList(a string) []string {
	if a == "" {
		return nil
	}
	return strings.Split(a, ",")
}

func addHeld(a, tok string) string {
	l := append(heldList(a), tok)
	sort.Strings(l)
	return strings.Join(l, ",")
}

func delHeld(a, tok string) (string, bool) {
	l := heldList(a)
	for i, x := range l {
		if x == tok {
			l = append(append([]string{}, l[:i]...), l[i+1:]...)
			return strings.Join(l, ","), true
		}
	}
	return a, false
}

// lockOp classifies a call on a sync mutex.
func lockOp(cc *ssa.CallCommon) (op string, lock ssa.Value) {
	f := cc.StaticCallee()
	if f == nil || len(cc.Args) == 0 {
		return "", nil
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "W+", cc.Args[0]
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "W-", cc.Args[0]
	case "(*sync.RWMutex).RLock":
		return "R+", cc.Args[0]
	case "(*sync.RWMutex).RUnlock":
		return "R-", cc.Args[0]
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		return "WT", cc.Args[0]
	case "(*sync.RWMutex).TryRLock":
		return "RT", cc.Args[0]
	}
	// promoted wrappers (embedded mutex): (*utils.Deque).Lock
	if f.Synthetic != "" && f.Object() != nil {
		if o, ok := f.Object().(*types.Func); ok && o.Pkg() != nil && o.Pkg().Path() == "sync" {
			switch o.Name() {
			case "Lock":
				return "W+", cc.Args[0]
			case "Unlock":
				return "W-", cc.Args[0]
			case "RLock":
				return "R+", cc.Args[0]
			case "RUnlock":
				return "R-", cc.Args[0]
			}
		}
	}
	return "", nil
}

// ownerField names the field addressed by a FieldAddr: "pkg.T.f".
func ownerField(fa *ssa.FieldAddr) string {
	tk := typeKey(fa.X.Type())
	if tk == "" {
		tk = "anon"
		if p := fa.Parent(); p != nil {
			tk = "anon@" + p.Name()
		}
	}
	return shortType(tk) + "." + fieldName(fa.X.Type(), fa.Field)
}

// lockName names a lock by the value it is reached through.
func lockName(c *Ctx, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		// nested struct fields collapse onto the outermost named owner
		return ownerField(x)
	case *ssa.Global:
		return shortType(x.Pkg.Pkg.Path() + "." + x.Name())
	case *ssa.Alloc:
		return "local." + x.Parent().Name() + "." + x.Comment
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok { // *sync.Mutex stored in a field
				return ownerField(fa)
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				return "captured." + fv.Name()
			}
			return lockName(c, x.X)
		}
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Phi:
		if c != nil {
			val := c.Val(v)
			if val.K == KTag {
				return strings.TrimPrefix(val.Tag, "&")
			}
			if val.K == KAddr {
				if i := strings.LastIndex(val.Path, "."); i >= 0 {
					return shortType(typeKey(val.Site.Type())) + val.Path[i:]
				}
			}
		}
	}
	tk := typeKey(v.Type())
	if tk == "sync.Mutex" || tk == "sync.RWMutex" {
		return "unresolved:" + v.Name() + "@" + v.Parent().Name()
	}
	// embedded lock promoted through the owner
	if st, ok := derefStruct(v.Type()); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Embedded() {
				k := typeKey(f.Type())
				if k == "sync.Mutex" || k == "sync.RWMutex" {
					return shortType(tk) + "." + f.Name()
				}
			}
		}
	}
	return shortType(tk)
}

func derefStruct(t types.Type) (*types.Struct, bool) {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	s, ok := t.(*types.Struct)
	return s, ok
}

func (la *lockAnalysis) issue(kind, lock string, c *Ctx, ins ssa.Instruction, what string) {
	k := kind + "|" + lock + "|" + la.P.fname(c.fn) + "|" + what
	if la.issues[k] == nil {
		la.issues[k] = &lockIssue{kind, lock, c.fn, ins, what}
	}
}

func (la *lockAnalysis) acquire(c *Ctx, ins ssa.Instruction, mode, name string) {
	la.acqSites[ins] = true
	for _, h := range heldList(c.A()) {
		hm, hn := h[:1], h[2:]
		if hn == name {
			if mode == "W" || hm == "W" {
				la.issue("self-deadlock", name, c, ins, "acquired ("+mode+") while already held ("+hm+") by the same goroutine")
			} else {
				la.issue("self-deadlock", name, c, ins, "read lock re-acquired while held (blocks behind a waiting writer)")
			}
			continue
		}
		k := hn + ">" + name
		if la.edges[k] == nil {
			la.edges[k] = &lockEdge{hn, name, c.fn, ins, strings.Join(c.Stack(), " < ")}
		}
	}
	c.SetA(addHeld(c.A(), mode+":"+name))
}

func (la *lockAnalysis) release(c *Ctx, ins ssa.Instruction, mode, name string) {
	a, ok := delHeld(c.A(), mode+":"+name)
	if !ok {
		la.issue("unlock-unheld", name, c, ins, "released ("+mode+") while not held")
		return
	}
	c.SetA(a)
}

func (la *lockAnalysis) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	cc := site.Common()
	if _, isGo := site.(*ssa.Go); isGo {
		return nil, false
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		la.builtinAccess(c, site, b)
		return nil, false
	}
	if op, lv := lockOp(cc); op != "" {
		name := lockName(c, lv)
		switch op {
		case "W+", "R+":
			la.acquire(c, site, op[:1], name)
			return []CallRes{{A: c.A()}}, true
		case "W-", "R-":
			la.release(c, site, op[:1], name)
			return []CallRes{{A: c.A()}}, true
		default:
			la.acqSites[site] = true
			return []CallRes{{A: addHeld(c.A(), op[:1]+":"+name), Ret: CBool(true)}, {A: c.A(), Ret: CBool(false)}}, true
		}
	}
	if callee != nil {
		if pk := callee.Pkg; pk != nil && pk.Pkg.Path() == "sync/atomic" && callee.Signature.Recv() == nil && len(cc.Args) > 0 {
			if fa, ok := fieldOfAddr(cc.Args[0]); ok {
				base := c.A()
				c.SetA(addHeld(base, "W:atomic"))
				la.record(c, site, ownerField(fa), !strings.HasPrefix(callee.Name(), "Load"), false)
				c.SetA(base)
			}
		}
		switch callee.String() {
		case "(*sync.Once).Do":
			if len(args) == 2 && args[1].K == KFunc {
				outs := c.e.callFn(c, site, args[1], nil)
				var rs []CallRes
				rs = append(rs, CallRes{A: c.A()})
				for _, o := range outs {
					if !o.Panicked && o.A != c.A() {
						rs = append(rs, CallRes{A: o.A})
					}
				}
				return rs, true
			}
			la.callout(c, site, "sync.Once function")
			return nil, false
		case "(*github.com/looplab/fsm.FSM).Event":
			return la.fsmEvent(c, site), true
		case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
			la.block(c, site, callee.String())
		}
		if !la.P.isLibFn(callee) {
			// external callee: function arguments may be invoked by it
			// synchronously unless it is a known registrar
			switch callee.String() {
			case "time.AfterFunc", "github.com/looplab/fsm.NewFSM":
			default:
				for i, a := range args {
					if a.K == KFunc {
						_ = i
						for _, o := range c.e.callFn(c, site, a, nil) {
							_ = o
						}
					}
				}
			}
		}
		return nil, false
	}
	// dynamic
	if cc.IsInvoke() {
		tk := typeKey(cc.Value.Type())
		if len(la.P.impls(cc)) == 0 || tk == pkgLink+".Handler" {
			if userIface(tk) {
				la.dynSites[site] = true
				la.callout(c, site, "interface method "+shortType(tk)+"."+cc.Method.Name())
			}
		}
		return nil, false
	}
	la.dynSites[site] = true
	if nt := typeKey(cc.Value.Type()); nt != "" && len(cc.Args) == 1 {
		v := c.Val(cc.Args[0])
		isFresh := c.unpublished(v)
		la.optCalls[nt] = append(la.optCalls[nt], isFresh)
	}
	if la.P.internalFuncField(cc.Value) {
		return nil, false
	}
	la.callout(c, site, "function value of type "+types.TypeString(cc.Value.Type(), func(p *types.Package) string { return p.Name() }))
	return nil, false
}

// Enter keeps the analysis out of the lock-free value packages.
func (la *lockAnalysis) Enter(c *Ctx, site ssa.CallInstruction, callee *ssa.Function) bool {
	switch fnPkg(callee).Path() {
	case pkgAst, pkgPHsms, pkgPSml:
		return false
	}
	return true
}

// userIface reports whether methods of this interface type are application
// callbacks.
func userIface(tk string) bool {
	switch tk {
	case pkgLink + ".Handler", pkgLink + ".Protocol", pkgLink + ".ClearSendChan":
		return tk != pkgLink+".ClearSendChan"
	}
	return false
}

func (la *lockAnalysis) callout(c *Ctx, site ssa.Instruction, what string) {
	if c.A() == "" {
		return
	}
	for _, h := range heldList(c.A()) {
		k := h + "|" + la.P.fname(c.fn) + "|" + what
		if la.callouts[k] == nil {
			la.callouts[k] = &lockIssue{"callout", h, c.fn, site, what + " via " + strings.Join(c.Stack(), " < ")}
		}
	}
}

func (la *lockAnalysis) block(c *Ctx, site ssa.Instruction, what string) {
	for _, h := range heldList(c.A()) {
		k := h + "|" + la.P.fname(c.fn) + "|" + what
		if la.blocking[k] == nil {
			la.blocking[k] = &lockIssue{"blocking", h, c.fn, site, what}
		}
	}
}

// fsmEvent models (*fsm.FSM).Event: leave_/before_ callbacks run under the
// machine's event mutex, enter_/after_ callbacks after it is released.
func (la *lockAnalysis) fsmEvent(c *Ctx, site ssa.CallInstruction) []CallRes {
	const mu = "W:fsm.eventMu"
	base := c.A()
	for _, h := range heldList(base) {
		if h == mu {
			la.issue("self-deadlock", "fsm.eventMu", c, site, "state transition requested from inside a leave/before callback")
		} else if la.edges[h[2:]+">fsm.eventMu"] == nil {
			la.edges[h[2:]+">fsm.eventMu"] = &lockEdge{h[2:], "fsm.eventMu", c.fn, site, strings.Join(c.Stack(), " < ")}
		}
	}
	for _, cb := range la.cbs {
		if cb.fn == nil || !la.P.isLibFn(cb.fn) {
			continue
		}
		a := base
		if strings.HasPrefix(cb.key, "leave_") || strings.HasPrefix(cb.key, "before_") || cb.key == "" {
			a = addHeld(base, mu)
		}
		if nested(c, cb.fn) {
			continue
		}
		for _, o := range c.e.runFrom(c, site, cb.fn, a, nil, nil) {
			if o.A != a && !o.Panicked {
				la.issue("leak", "callback "+cb.key, c, site, "state callback returns with a different set of locks")
			}
		}
	}
	return []CallRes{{A: base, Ret: Top}}
}

func nested(c *Ctx, fn *ssa.Function) bool {
	for f := c.fr; f != nil; f = f.up {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// callFn analyses a function value called from the current point.
func (e *Engine) callFn(c *Ctx, site ssa.CallInstruction, fv Val, args []Val) []Outcome {
	f := fv.Fn
	binds := fv.E
	if m, a2, ok := e.unwrap(f, binds, args); ok {
		f, args, binds = m, a2, nil
	}
	if !e.P.isLibFn(f) {
		return nil
	}
	return e.run(f, c.fr, site, c.A(), args, binds, c.st.mem, c.st.tr)
}

func (e *Engine) runFrom(c *Ctx, site ssa.CallInstruction, f *ssa.Function, a string, args, binds []Val) []Outcome {
	return e.run(f, c.fr, site, a, args, binds, nil, c.st.tr)
}

func (la *lockAnalysis) record(c *Ctx, ins ssa.Instruction, field string, write, cont bool) {
	k := fmt.Sprintf("%s|%v|%v|%s|%p", field, write, cont, c.A(), ins)
	ac := la.acc[k]
	if ac == nil {
		ac = &access{field: field, write: write, cont: cont, held: map[string]bool{}, fn: c.fn, ins: ins, roots: map[*ssa.Function]bool{}}
		for _, h := range heldList(c.A()) {
			ac.held[h] = true
		}
		la.acc[k] = ac
	}
	ac.roots[c.Root()] = true
}

// fieldOfAddr: the field a memory address belongs to, with the base object.
func fieldOfAddr(v ssa.Value) (*ssa.FieldAddr, bool) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return x, true
	case *ssa.IndexAddr:
		// element of an array field
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fa, true
		}
	}
	return nil, false
}

// fresh: the field belongs to an object that was allocated on this path and
// that no other goroutine can have been given yet.
func (la *lockAnalysis) fresh(c *Ctx, fa *ssa.FieldAddr) bool {
	base := fa.X
	for {
		switch x := base.(type) {
		case *ssa.FieldAddr:
			base = x.X
			continue
		case *ssa.IndexAddr:
			base = x.X
			continue
		}
		break
	}
	if al, ok := base.(*ssa.Alloc); ok && c.fn.Name() == "NewCodec" && c.fn.Signature.Recv() != nil {
		// codecs nest (one NewCodec calls the other), which makes the analysis
		// merge the objects of both activations: the codec under construction
		// is fresh as long as the function only returns it
		return al.Heap && onlyReturned(al)
	}
	return c.unpublished(c.Val(base))
}

// onlyReturned: the address is used for its fields, returned, or passed to
// calls, but stored nowhere else.
func onlyReturned(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				if _, local := x.Addr.(*ssa.Alloc); !local {
					return false
				}
			}
		case *ssa.Go, *ssa.Send, *ssa.MapUpdate:
			return false
		}
	}
	return true
}

func (la *lockAnalysis) Instr(c *Ctx, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if f, ok := contOf(c.Val(ia.X)); ok {
					la.record(c, ins, f, false, true)
				}
			}
			if fa, ok := fieldOfAddr(x.X); ok && !la.fresh(c, fa) {
				la.record(c, ins, ownerField(fa), false, false)
			} else if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && la.P.byPkg[g.Pkg.Pkg.Path()] != nil {
				la.record(c, ins, "global "+shortType(g.Pkg.Pkg.Path()+"."+g.Name()), false, false)
			}
		}
		if x.Op == token.ARROW {
			la.block(c, ins, "channel receive")
		}
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if f, ok := contOf(c.Val(ia.X)); ok {
				la.record(c, ins, f, true, true)
			}
		}
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			// the field lets go of its old contents: whoever loaded them
			// before owns them alone from now on
			if f, own := contOf(c.Val(x.Val)); !own || f != ownerField(fa) {
				c.forget(contTag + ownerField(fa))
			}
		}
		if fa, ok := fieldOfAddr(x.Addr); ok && !la.fresh(c, fa) {
			la.record(c, ins, ownerField(fa), true, false)
		} else if g, ok := x.Addr.(*ssa.Global); ok && g.Pkg != nil && la.P.byPkg[g.Pkg.Pkg.Path()] != nil && c.fn.Name() != "init" {
			la.record(c, ins, "global "+shortType(g.Pkg.Pkg.Path()+"."+g.Name()), true, false)
		}
	case *ssa.MapUpdate:
		if f, ok := contOf(c.Val(x.Map)); ok {
			la.record(c, ins, f, true, true)
		}
	case *ssa.Lookup:
		if f, ok := contOf(c.Val(x.X)); ok {
			la.record(c, ins, f, false, true)
		}
	case *ssa.Range:
		if f, ok := contOf(c.Val(x.X)); ok {
			la.record(c, ins, f, false, true)
		}
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			if f, ok := contOf(c.Val(rg.X)); ok {
				la.record(c, ins, f, false, true)
			}
		}
	case *ssa.Return:
		if c.fr.up == nil && c.fn.Parent() == nil {
			for _, rv := range x.Results {
				if f, ok := contOf(c.Val(rv)); ok {
					k := f + "|" + la.P.fname(c.fn)
					if la.handed[k] == nil {
						la.handed[k] = &lockIssue{"handed-out", f, c.fn, ins, "returns the internal container " + f}
					}
				}
			}
		}
	case *ssa.Send:
		la.block(c, ins, "channel send")
	case *ssa.Select:
		if x.Blocking {
			la.block(c, ins, "blocking select")
		}
	}
}

func (la *lockAnalysis) builtinAccess(c *Ctx, site ssa.CallInstruction, b *ssa.Builtin) {
	cc := site.Common()
	if len(cc.Args) == 0 {
		return
	}
	v := c.Val(cc.Args[0])
	f, ok := contOf(v)
	switch b.Name() {
	case "delete", "clear":
		if ok {
			la.record(c, site, f, true, true)
		}
	case "len":
		if _, isMap := cc.Args[0].Type().Underlying().(*types.Map); isMap && ok {
			la.record(c, site, f, false, true)
		}
	case "append":
		if ok && strings.HasSuffix(v.Tag, "~") {
			la.record(c, site, f, true, true) // overwrites elements in place
		}
		if len(cc.Args) > 1 {
			if g, ok := contOf(c.Val(cc.Args[1])); ok {
				la.record(c, site, g, false, true)
			}
		}
	case "copy":
		if ok {
			la.record(c, site, f, true, true)
		}
		if len(cc.Args) > 1 {
			if g, ok := contOf(c.Val(cc.Args[1])); ok {
				la.record(c, site, g, false, true)
			}
		}
	}
}

// rootFunctions: everything that can be entered with no lock held: exported
// functions and methods of exported... types, goroutine bodies and functions
// whose value escapes.
func (P *Program) rootFunctions() []*ssa.Function {
	set := map[*ssa.Function]bool{}
	for _, fn := range P.funcs {
		if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil {
			continue
		}
		if fn.Parent() == nil && token.IsExported(fn.Name()) {
			set[fn] = true
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if g, ok := ins.(*ssa.Go); ok {
					if f := P.funcOf(g.Call.Value); f != nil {
						set[f] = true
					} else if f := g.Call.StaticCallee(); f != nil {
						set[f] = true
					}
				}
			}
		}
	}
	for f := range P.addrTake {
		u := P.unbound(f)
		if P.isLibFn(u) && !P.calledLocally(f) {
			set[u] = true
		}
	}
	var out []*ssa.Function
	for f := range set {
		if P.isLibFn(f) && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}

// calledLocally: a closure that is only passed to library functions which
// receive it as a parameter and call it in context (e.g. transition
// functions). Such closures are analysed in the context of the call, because
// the engine binds function values to parameters; they are not roots.
func (P *Program) calledLocally(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	found := false
	ok := true
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				v := *op
				var isF bool
				if v == ssa.Value(f) {
					isF = true
				}
				if !isF {
					continue
				}
				switch x := ins.(type) {
				case *ssa.MakeClosure:
					for _, r := range *x.Referrers() {
						if !P.localUse(r, x) {
							ok = false
						}
						found = true
					}
				default:
					found = true
					if !P.localUse(ins, v) {
						ok = false
					}
				}
			}
		}
	}
	return found && ok
}

func (P *Program) localUse(r ssa.Instruction, v ssa.Value) bool {
	switch x := r.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.ChangeType:
		for _, rr := range *x.Referrers() {
			if !P.localUse(rr, x) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return P.onlyInvoked(x.Common(), v, map[*ssa.Parameter]bool{})
	case *ssa.Defer:
		return P.onlyInvoked(x.Common(), v, map[*ssa.Parameter]bool{})
	}
	return false
}

func (P *Program) onlyInvoked(cc *ssa.CallCommon, v ssa.Value, seen map[*ssa.Parameter]bool) bool {
	if cc.Value == v {
		return true
	}
	callee := cc.StaticCallee()
	if callee == nil {
		return false
	}
	if callee.String() == "(*sync.Once).Do" {
		return true
	}
	if !P.isLibFn(callee) {
		return callee.Pkg != nil && (callee.Pkg.Pkg.Path() == "sort" || callee.Pkg.Pkg.Path() == "strings" || callee.Pkg.Pkg.Path() == "slices")
	}
	for i, a := range cc.Args {
		if a != v {
			continue
		}
		if i >= len(callee.Params) {
			return false
		}
		p := callee.Params[i]
		if seen[p] {
			continue
		}
		seen[p] = true
		for _, r := range *p.Referrers() {
			switch y := r.(type) {
			case *ssa.DebugRef:
			case ssa.CallInstruction:
				if _, isGo := y.(*ssa.Go); isGo {
					return false
				}
				if !P.onlyInvoked(y.Common(), p, seen) {
					return false
				}
			case *ssa.BinOp:
			default:
				return false
			}
		}
	}
	return true
}

func runLocks(P *Program) *lockAnalysis {
	la := &lockAnalysis{P: P, acc: map[string]*access{}, edges: map[string]*lockEdge{}, issues: map[string]*lockIssue{},
		shared: P.sharedTypes(), optCalls: map[string][]bool{}, handed: map[string]*lockIssue{}, callouts: map[string]*lockIssue{}, blocking: map[string]*lockIssue{}, dynSites: map[ssa.Instruction]bool{}, acqSites: map[ssa.Instruction]bool{}}
	la.cbs = P.fsmCallbacks()
	e := NewEngine(P, la)
	la.engine = e
	e.MaxState = 200
	e.IdentTypes = map[string]bool{pkgLink + ".Session": true}
	la.roots = P.rootFunctions()
	for _, r := range la.roots {
		switch fnPkg(r).Path() {
		case pkgAst, pkgPHsms, pkgPSml:
			continue
		}
		if debugOn {
			fmt.Println("root", P.fname(r), e.Steps)
		}
		outs := e.Run(r, "")
		for _, o := range outs {
			la.exits++
			if o.A != "" && !o.Panicked {
				k := "leak|" + o.A + "|" + P.fname(r)
				var ins ssa.Instruction
				if o.ret != nil {
					ins = o.ret
				}
				if la.issues[k] == nil {
					la.issues[k] = &lockIssue{"leak", o.A, r, ins, "returns still holding " + o.A}
				}
			}
		}
	}
	return la
}
