package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// waitq follows the container and the wake-up channel of a wait queue.
// Tokens: "in" (an item was added since the last wake-up was left), "left" (a
// wake-up was left after the item), "c:item"/"c:none" (what the container was
// seen to hold under the lock held since), "ok" (seen empty since the last
// wait), "took" (an item was removed).
type waitq struct {
	*lockAnalysis
	r      *Report
	notify map[string]bool
	timed  map[ssa.Value]bool // channels of timers bounded by the time-out
	root   *ssa.Function
}

func (w *waitq) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if op, _ := lockOp(site.Common()); op == "W-" || op == "R-" {
		rs, ok := w.lockAnalysis.Call(c, site, callee, args)
		for i := range rs {
			rs[i].A = delPrefix(rs[i].A, "c:")
		}
		return rs, ok
	}
	if callee != nil && strings.HasPrefix(callee.String(), "(*container/list.List).") {
		a := c.A()
		locked := len(heldBy(a, "W:")) > 0
		pos := w.P.ipos(site)
		switch callee.Name() {
		case "Back", "Front", "Len":
			some, none := NonNil, NilV
			if callee.Name() == "Len" {
				some, none = CInt(1), CInt(0)
			}
			if hasTok(a, "c:item") {
				return []CallRes{{A: a, Ret: some}}, true
			}
			if hasTok(a, "c:none") {
				return []CallRes{{A: a, Ret: none}}, true
			}
			if !locked && len(heldBy(a, "R:")) == 0 {
				return []CallRes{{A: a, Ret: Top}}, true
			}
			return []CallRes{{A: addHeld(a, "c:item"), Ret: some}, {A: addOnce(addHeld(a, "c:none"), "ok"), Ret: none}}, true
		case "PushBack", "PushFront", "InsertAfter", "InsertBefore":
			w.r.Check(locked, "put", w.P.fname(site.Parent())+" locked", pos, "an item is added without the lock")
			c.SetA(addOnce(delPrefix(a, "c:", "left"), "in"))
			return []CallRes{{A: c.A(), Ret: NonNil}}, true
		case "Remove":
			w.r.Check(hasTok(a, "c:item") && locked, "take", w.P.fname(site.Parent())+" held", pos, "an item is removed without having seen one under the lock held")
			c.SetA(addOnce(delPrefix(a, "c:"), "took"))
			return []CallRes{{A: c.A(), Ret: TagV("?item")}}, true
		case "Init":
			w.r.Check(false, "take", w.P.fname(site.Parent())+" discard", pos, "undelivered items are discarded")
		}
	}
	return w.lockAnalysis.Call(c, site, callee, args)
}

func (w *waitq) Instr(c *Ctx, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Send:
		if w.notify[chanField(x.Chan)] {
			w.r.Check(false, "put", w.P.fname(ins.Parent())+" blocks", w.P.ipos(ins), "leaving a wake-up can block the deliverer")
		}
	case *ssa.Select:
		waits := false
		for _, s := range x.States {
			f := chanField(s.Chan)
			if s.Dir == types.SendOnly && w.notify[f] {
				w.r.Check(!x.Blocking, "put", w.P.fname(ins.Parent())+" blocks", w.P.ipos(ins), "leaving a wake-up can block the deliverer")
				if hasTok(c.A(), "in") {
					c.SetA(addOnce(c.A(), "left"))
				}
			}
			waits = waits || s.Dir == types.RecvOnly
		}
		if waits && x.Blocking {
			bounded, woken := false, false
			for _, s := range x.States {
				bounded = bounded || s.Dir == types.RecvOnly && w.timed[s.Chan]
				woken = woken || s.Dir == types.RecvOnly && w.notify[chanField(s.Chan)]
			}
			w.r.Check(bounded, "bounded", w.P.fname(ins.Parent())+" wait", w.P.ipos(ins), "a wait is not bounded by the time-out given")
			w.r.Check(woken, "bounded", w.P.fname(ins.Parent())+" wake", w.P.ipos(ins), "a wait does not end when an item is delivered")
			w.r.Check(len(heldBy(c.A(), "W:")) == 0, "bounded", w.P.fname(ins.Parent())+" unlocked", w.P.ipos(ins), "the lock is held during the wait, so nothing can be delivered")
			w.r.Check(hasTok(c.A(), "ok"), "recheck", w.P.fname(ins.Parent())+" before", w.P.ipos(ins), "waits without having looked for an item that is already there")
		}
		if waits {
			c.SetA(delPrefix(c.A(), "ok", "c:"))
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			f := chanField(x.X)
			w.r.Check(!w.notify[f], "bounded", w.P.fname(ins.Parent())+" wait", w.P.ipos(ins), "a wait for an item is not bounded by the time-out given")
			c.SetA(delPrefix(c.A(), "ok", "c:"))
		}
	}
	w.lockAnalysis.Instr(c, ins)
}

// timerChans finds the channels of timers whose expiry is bounded by the
// integer parameter of the function, taken in seconds.
func timerChans(P *Program, f *ssa.Function) (map[ssa.Value]bool, bool) {
	sec, dead, chans := map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}
	raw := map[ssa.Value]bool{}
	fresh := map[ssa.Value]bool{} // durations not measured against a deadline
	var ip *ssa.Parameter
	for _, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			ip = p
		}
	}
	if ip == nil {
		return chans, false
	}
	raw[ip] = true
	cyc := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	inCyc := func(b *ssa.BasicBlock) bool {
		if cyc[b] == nil {
			m := map[*ssa.BasicBlock]bool{}
			var walk func(x *ssa.BasicBlock)
			walk = func(x *ssa.BasicBlock) {
				for _, s := range x.Succs {
					if !m[s] {
						m[s] = true
						walk(s)
					}
				}
			}
			walk(b)
			cyc[b] = m
		}
		return cyc[b][b]
	}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(g *ssa.Function)
	add = func(g *ssa.Function) {
		if g == nil || seen[g] || g.Blocks == nil || fnPkg(g) == nil || fnPkg(g).Path() != fnPkg(f).Path() {
			return
		}
		seen[g] = true
		fns = append(fns, g)
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					add(ci.Common().StaticCallee())
				}
			}
		}
	}
	add(f)
	mark := func(m map[ssa.Value]bool, v ssa.Value) bool {
		if m[v] {
			return false
		}
		m[v] = true
		return true
	}
	second := constant.MakeInt64(1000000000)
	isSec := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value != nil && constant.Compare(k.Value, token.EQL, second)
	}
	for ch := true; ch; {
		ch = false
		for _, g := range fns {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Convert:
						ch = ch || raw[x.X] && mark(raw, x)
						ch = ch || sec[x.X] && mark(sec, x)
						ch = ch || fresh[x.X] && mark(fresh, x)
					case *ssa.ChangeType:
						ch = ch || raw[x.X] && mark(raw, x)
						ch = ch || sec[x.X] && mark(sec, x)
						ch = ch || fresh[x.X] && mark(fresh, x)
					case *ssa.BinOp:
						if x.Op == token.MUL && (raw[x.X] && isSec(x.Y) || raw[x.Y] && isSec(x.X)) {
							ch = mark(sec, x) || ch
							ch = mark(fresh, x) || ch
						}
					case *ssa.Phi:
						s, d, fr, n := true, true, false, 0
						for _, e := range x.Edges {
							s = s && sec[e]
							d = d && dead[e]
							fr = fr || fresh[e]
							n++
						}
						ch = ch || s && mark(sec, x)
						ch = ch || d && mark(dead, x)
						ch = ch || fr && mark(fresh, x)
					case *ssa.UnOp:
						if x.Op == token.MUL {
							if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "C" && chans[fa.X] {
								ch = mark(chans, x) || ch
							}
							if al, ok := x.X.(*ssa.Alloc); ok {
								// a local variable kept in memory
								n := 0
								s, d, cc, fr := true, true, true, false
								for _, q := range *al.Referrers() {
									if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
										n++
										s, d, cc = s && sec[st.Val], d && dead[st.Val], cc && chans[st.Val]
										fr = fr || fresh[st.Val]
									}
								}
								if n > 0 {
									ch = s && mark(sec, x) || ch
									ch = d && mark(dead, x) || ch
									ch = cc && mark(chans, x) || ch
									ch = fr && mark(fresh, x) || ch
								}
							}
						}
					case *ssa.Field:
						ch = ch || chans[x.X] && mark(chans, x)
					case *ssa.Call:
						cl := x.Call.StaticCallee()
						if cl == nil {
							continue
						}
						as := x.Call.Args
						switch cl.String() {
						case "(time.Time).Add":
							// a deadline, fixed before the loop
							if sec[as[1]] && !inCyc(b) {
								ch = mark(dead, x) || ch
							}
						case "(time.Time).Sub":
							if dead[as[0]] {
								ch = mark(sec, x) || ch
							}
						case "time.Until":
							if dead[as[0]] {
								ch = mark(sec, x) || ch
							}
						case "time.After", "time.NewTimer":
							if sec[as[0]] && !(fresh[as[0]] && inCyc(b)) {
								ch = mark(chans, x) || ch
							}
						default:
							if seen[cl] {
								for i, a := range as {
									if i < len(cl.Params) {
										ch = ch || raw[a] && mark(raw, cl.Params[i])
										ch = ch || sec[a] && mark(sec, cl.Params[i])
										ch = ch || dead[a] && mark(dead, cl.Params[i])
										ch = ch || chans[a] && mark(chans, cl.Params[i])
										ch = ch || (fresh[a]) && inCyc(b) && mark(fresh, cl.Params[i])
									}
								}
								for _, gb := range cl.Blocks {
									if rt, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
										v := rt.Results[0]
										ch = ch || sec[v] && mark(sec, x)
										ch = ch || dead[v] && !inCyc(b) && mark(dead, x)
										ch = ch || chans[v] && mark(chans, x)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return chans, true
}

func checkWaitQueue(r *Report) {
	P := r.P
	put, get := P.method(pkgUtils, "Deque", "Put"), P.method(pkgUtils, "Deque", "Get")
	if put == nil || get == nil {
		r.Bad("put", "utils.Deque", "-", "the wait queue type utils.Deque with Put and Get was not found")
		return
	}
	// its wake-up channels and how they are made
	notify := map[string]bool{}
	nt := P.named(pkgUtils, "Deque")
	if st, ok := nt.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Chan); ok {
				notify["utils.Deque."+st.Field(i).Name()] = true
			}
		}
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !notify[ownerField(fa)] {
					continue
				}
				n := int64(-1)
				if mk, ok := st.Val.(*ssa.MakeChan); ok {
					if k, ok := mk.Size.(*ssa.Const); ok {
						n = k.Int64()
					}
				}
				r.Check(n >= 1, "capacity", P.fname(f), P.ipos(ins), "the wake-up channel has no room for a wake-up nobody is waiting for yet")
			}
		}
	}
	la := &lockAnalysis{P: P, acc: map[string]*access{}, edges: map[string]*lockEdge{}, issues: map[string]*lockIssue{},
		shared: P.sharedTypes(), optCalls: map[string][]bool{}, handed: map[string]*lockIssue{}, callouts: map[string]*lockIssue{}, blocking: map[string]*lockIssue{}, dynSites: map[ssa.Instruction]bool{}, acqSites: map[ssa.Instruction]bool{}}
	la.cbs = P.fsmCallbacks()
	w := &waitq{lockAnalysis: la, r: r, notify: notify}
	var ok bool
	w.timed, ok = timerChans(P, get)
	r.Check(ok, "bounded", "the time-out of Get", P.pos(get.Pos()), "Get takes no time-out")
	e := NewEngine(P, w)
	la.engine = e
	for _, o := range e.Run(put, "") {
		if o.Panicked {
			continue
		}
		pos := P.pos(put.Pos())
		if o.ret != nil {
			pos = P.ipos(o.ret)
		}
		r.Check(hasTok(o.A, "in"), "put", "adds", pos, "Put returns without adding the item")
		r.Check(hasTok(o.A, "left"), "put", "wakes", pos, "Put returns without leaving a wake-up after adding the item")
	}
	n := 0
	for _, o := range e.Run(get, "") {
		if o.Panicked {
			continue
		}
		pos := P.pos(get.Pos())
		if o.ret != nil {
			pos = P.ipos(o.ret)
		}
		n++
		if len(o.Rets) == 2 && o.Rets[1].K == KNil {
			r.Check(hasTok(o.A, "took"), "take", "Get", pos, "Get reports success without taking an item")
			r.Check(o.Rets[0].K == KTag && o.Rets[0].Tag == "?item", "take", "Get returns it", pos, "Get does not return the item it took")
		} else {
			r.Check(!hasTok(o.A, "took"), "recheck", "Get keeps", pos, "Get takes an item and reports a time-out")
			r.Check(hasTok(o.A, "ok"), "recheck", "Get", pos, "Get reports a time-out without having looked for an item after its last wait")
		}
	}
	r.Check(n >= 2, "recheck", "ways out of Get", P.pos(get.Pos()), "the ways out of Get could not be followed")
	r.SawEngine(e)
}

// accessor follows a configured value through a setter into a field, and from
// the field through a getter.
type accessor struct {
	BaseClient
	tk string
}

func (a *accessor) Instr(c *Ctx, ins ssa.Instruction) {
	if st, ok := ins.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeKey(fa.X.Type()) == a.tk {
			a.wrote(c, ownerField(fa), c.Val(st.Val))
		}
	}
}

func (a *accessor) wrote(c *Ctx, f string, v Val) {
	a2, _ := delHeld(c.A(), f)
	c.SetA(a2)
	if v.K == KTag && v.Tag == "?configured" {
		c.SetA(addHeld(c.A(), f))
	}
}

func (a *accessor) Load(c *Ctx, ld *ssa.UnOp) (Val, bool) {
	if fa, ok := ld.X.(*ssa.FieldAddr); ok && typeKey(fa.X.Type()) == a.tk {
		return TagV("?" + ownerField(fa)), true
	}
	return Val{}, false
}

func (a *accessor) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if callee == nil || fnPkg(callee) == nil || fnPkg(callee).Path() != "sync/atomic" || len(site.Common().Args) == 0 {
		return nil, false
	}
	f := atomicField(site.Common().Args[0])
	switch {
	case strings.HasPrefix(callee.Name(), "Load"):
		return []CallRes{{A: c.A(), Ret: TagV("?" + f)}}, true
	case strings.HasPrefix(callee.Name(), "Store") && len(args) > 1:
		a.wrote(c, f, args[1])
		return []CallRes{{A: c.A(), Ret: Top}}, true
	}
	return nil, false
}

// readsBack: every path of get returns the field every path of set stored its
// argument in.
func readsBack(P *Program, get, set *ssa.Function) bool {
	a := &accessor{tk: typeKeyRecv(set)}
	e := NewEngine(P, a)
	fields := map[string]int{}
	n := 0
	if len(set.Params) != 2 {
		return false
	}
	for _, o := range e.Run(set, "", Val{K: KAddr, Site: set.Params[0]}, TagV("?configured")) {
		if o.Panicked {
			continue
		}
		n++
		for _, f := range heldList(o.A) {
			fields[f]++
		}
	}
	if n == 0 {
		return false
	}
	same := false
	for _, o := range e.Run(get, "") {
		if o.Panicked {
			continue
		}
		same = len(o.Rets) == 1 && o.Rets[0].K == KTag && fields[strings.TrimPrefix(o.Rets[0].Tag, "?")] == n
		if !same {
			return false
		}
	}
	return same
}

func init() {
	register("C29", "The wait queue is interpreted on every path with its container and wake-up channel as tokens; the time-out passed to each wait for a reply is followed to the timer it was configured as.", func(r *Report) {
		P := r.P
		r.Rule("put", "delivering an item adds it under the lock and then leaves a wake-up, without ever blocking")
		r.Rule("capacity", "a wake-up left when nobody waits is kept")
		r.Rule("recheck", "the container is looked at before every wait and again after the last one before a time-out is reported")
		r.Rule("take", "an item is taken only when seen under the lock, and is the one returned")
		r.Rule("bounded", "every wait ends at the latest when the time-out given, counted in seconds from the start of the call, is over")
		r.Rule("timer", "a wait for the reply to a data message uses T3, for the reply to a control message T6")
		r.Rule("configured", "a timer's accessor reads what its setter writes")
		r.Assume("a queue has one waiter, the sender of the request (C06)")
		checkWaitQueue(r)

		h := newHM(P)
		inner := h.extra
		h.extra = func(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
			if callee != nil && len(args) == 1 && typeKeyRecv(callee) == pkgHsms+".SecsTimeout" && callee.Signature.Results().Len() == 1 {
				return []CallRes{{A: c.A(), Ret: TagV("?timer " + callee.Name())}}, true
			}
			if inner != nil {
				return inner(c, site, name, callee, args)
			}
			return nil, false
		}
		h.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
			switch kind {
			case "tx":
				p := payloadOf(args)
				if p.K == KTag {
					if strings.Contains(p.Tag, "ctl{") {
						c.Put("sent", "control")
					} else {
						c.Put("sent", "data")
					}
				} else {
					c.Put("sent", "?")
				}
			case "get":
				what := c.Get("sent")
				want := map[string]string{"data": "?timer T3ReplyTimeout", "control": "?timer T6ControlTransTimeout"}[what]
				v := payloadOf(args)
				r.Check(v.K == KTag && v.Tag == want, "timer", P.fname(c.fn), P.ipos(site), "waits for the reply to a "+what+" message with "+tagOf(v)+" (via "+strings.Join(c.Stack(), " < ")+")")
			}
		}
		e := newHMEngine(P, h)
		gets := func(ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return false
			}
			t, m := recvMethod(ci, ci.Common().StaticCallee())
			return t == tDeque && m == "Get"
		}
		for _, f := range P.protoRoots() {
			if fnPkg(f).Path() == pkgHsms && P.reaches(f, gets) {
				e.Run(f, "")
			}
		}
		r.SawEngine(e)

		var names []string
		ms := map[string]*ssa.Function{}
		for _, f := range P.methodsOf(pkgHsms, "SecsTimeout") {
			ms[f.Name()] = f
			names = append(names, f.Name())
		}
		sort.Strings(names)
		for _, n := range names {
			set := ms["Set"+n]
			if set == nil {
				continue
			}
			r.Check(readsBack(P, ms[n], set), "configured", n, P.pos(ms[n].Pos()), "the accessor "+n+" does not always return what Set"+n+" was given")
		}
		r.Floor("put", 3)
		r.Floor("capacity", 1)
		r.Floor("recheck", 3)
		r.Floor("take", 2)
		r.Floor("bounded", 4)
		r.Floor("timer", 4)
		r.Floor("configured", 6)
	})
}
