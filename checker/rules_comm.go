package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// commModel follows the GEM communication state ("st") through operations,
// handlers, goroutines and timers.
type commModel struct {
	*gm
	P          *Program
	state      string            // the field that State() reports
	names      map[string]string // constant -> name
	comm       string            // the constant COMMUNICATING
	onComm     func(c *Ctx, x *ssa.Store, from string)
	onStore    func(c *Ctx, x *ssa.Store, from, to string)
	waiters    string // the field that holds the waiting callers' channels
	timerFn    func(f *ssa.Function) bool
	onTimer    func(f *ssa.Function)
	conn       bool // model Connected
	nwaiters   int
	plainWoken bool
}

func isWaiterSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	ch, ok := s.Elem().Underlying().(*types.Chan)
	if !ok {
		return false
	}
	st, ok := ch.Elem().Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

func newCommModel(P *Program, role, state string, states map[string]Val) *commModel {
	x := &commModel{gm: newGM(P, role).withItems(), P: P, state: state, names: map[string]string{}}
	for n, v := range states {
		x.names[v.C.ExactString()] = strings.TrimPrefix(n, "CommunicationState")
		if n == "CommunicationStateCommunicating" {
			x.comm = v.C.ExactString()
		}
	}
	x.followGo = true
	x.factOK = func(cond string) bool { return strings.HasPrefix(strings.TrimPrefix(cond, "!"), "cmp(vals(") }
	x.hm.fork = func(c *Ctx, ins ssa.Instruction) ([]CallRes, bool) {
		ld, ok := ins.(*ssa.UnOp)
		if !ok {
			return nil, false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || ownerField(fa) != state {
			return nil, false
		}
		m := parseA(c.A())
		for k := range m {
			if strings.HasPrefix(k, "h:") {
				m["rc:"+k[2:]] = "1"
			}
		}
		if s := m["st"]; s != "" {
			return []CallRes{{A: m.String(), Ret: CInt(lit0(s))}}, true
		}
		var out []CallRes
		for _, s := range sortedKeys(x.names) {
			m["st"] = s
			out = append(out, CallRes{A: m.String(), Ret: CInt(lit0(s))})
		}
		return out, true
	}
	ld0 := x.hm.load
	x.hm.load = func(c *Ctx, ld *ssa.UnOp) (Val, bool) {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok && isWaiterSlice(ld.Type()) {
			x.waiters = ownerField(fa)
			c.Put("wl", c.Get("st"))
			for _, k := range heldKeys(c.A()) {
				c.Put("wlk:"+k, "1")
			}
			if b := c.Val(fa.X); b.K == KAddr && c.unpublished(b) {
				return Top, false
			}
			c.e.alloc(c.st, ld)
			for i := 0; i < 2; i++ {
				c.e.store(c.st, Val{K: KAddr, Site: ld, Path: "[" + itoa(i) + "]"}, TagV("=waiter"+itoa(i)))
			}
			return Val{K: KSlice, Site: ld, Len: 2}, true
		}
		return ld0(c, ld)
	}
	woke := func(c *Ctx, ch Val) {
		if t := tagOf(ch); strings.HasPrefix(t, "=waiter") && c.Get("wl") == x.comm {
			c.Put("woke"+t[len("=waiter"):], "1")
		}
	}
	x.hm.instr = func(c *Ctx, ins ssa.Instruction) {
		switch y := ins.(type) {
		case *ssa.Store:
			fa, ok := y.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if tagOf(c.Val(y.Val)) == "=timer:retry" {
				c.Put("timer", ownerField(fa))
			}
			if ownerField(fa) != state {
				return
			}
			to := "?"
			if v := c.Val(y.Val); v.K == KConst {
				to = v.C.ExactString()
			}
			from := c.Get("st")
			c.Put("st", to)
			if (to == x.comm || to == "?") && from != x.comm {
				c.Put("trans", "1")
				c.Put("woke0", "")
				c.Put("woke1", "")
				if x.onComm != nil {
					x.onComm(c, y, from)
				}
			}
			if x.onStore != nil {
				x.onStore(c, y, from, to)
			}
		case *ssa.Send:
			woke(c, c.Val(y.Chan))
		case *ssa.Select:
			for _, s := range y.States {
				if s.Dir == types.SendOnly {
					woke(c, c.Val(s.Chan))
				}
			}
		}
	}
	x.more = func(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
		one := func(v Val) ([]CallRes, bool) { return []CallRes{{A: c.A(), Ret: v}}, true }
		cc := site.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "close" && len(args) == 1 {
			if t := tagOf(args[0]); strings.HasPrefix(t, "=waiter") && c.Get("wl") == x.comm {
				c.Put("woke"+t[len("=waiter"):], "1")
			}
			return nil, false
		}
		switch name {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			c.Put("h:"+atomicField(cc.Args[0]), "1")
			return one(Top)
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
			c.Put("h:"+atomicField(cc.Args[0]), "")
			c.Put("rc:"+atomicField(cc.Args[0]), "")
			return one(Top)
		case "(*time.Timer).Stop":
			if u, ok := cc.Args[0].(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && ownerField(fa) == c.Get("timer") {
					c.Put("timer", "")
				}
			}
			return one(Top)
		case "time.AfterFunc":
			if len(args) == 2 && args[1].K == KFunc && x.timerFn != nil && x.timerFn(args[1].Fn) {
				c.Put("timer", "1")
				if x.onTimer != nil {
					x.onTimer(args[1].Fn)
				}
				return one(TagV("=timer:retry"))
			}
			if len(args) == 2 && args[1].K == KFunc && x.onTimer != nil {
				x.onTimer(args[1].Fn)
			}
			return one(NonNil)
		}
		if callee != nil && (strings.HasPrefix(name, "(*go.uber.org/atomic.Bool)") || strings.HasPrefix(name, "(*sync/atomic.Bool)")) {
			f := atomicField(cc.Args[0])
			switch callee.Name() {
			case "Load":
				if v := c.Get("at:" + f); v != "" {
					return one(CBool(v == "1"))
				}
				return []CallRes{{A: withA(c.A(), "at:"+f, "1"), Ret: CBool(true)}, {A: withA(c.A(), "at:"+f, "0"), Ret: CBool(false)}}, true
			case "CompareAndSwap", "CAS":
				v := ""
				if b, ok := args[2].IsBool(); ok {
					v = "0"
					if b {
						v = "1"
					}
				}
				a := withA(withA(c.A(), "at:"+f, v), "cas:"+f, v)
				return []CallRes{{A: a, Ret: CBool(true)}, {A: c.A(), Ret: CBool(false)}}, true
			case "Store":
				v := ""
				if b, ok := args[1].IsBool(); ok {
					v = "0"
					if b {
						v = "1"
					}
				}
				c.Put("at:"+f, v)
				return one(Top)
			}
		}
		if callee != nil && typeKeyRecv(callee) == tProto {
			switch callee.Name() {
			case "SendAndWait":
				// time passes: the state may be changed by others
				rs, ok := x.gm.callSend(c, site, callee, args)
				for i := range rs {
					rs[i].A = withA(withA(rs[i].A, "st", ""), "timer", "")
				}
				return rs, ok
			case "Connected":
				if v := c.Get("conn"); v != "" {
					return one(CBool(v == "1"))
				}
				return []CallRes{{A: withA(c.A(), "conn", "1"), Ret: CBool(true)}, {A: withA(c.A(), "conn", "0"), Ret: CBool(false)}}, true
			}
		}
		return nil, false
	}
	x.startA = func(a string) string {
		m := avars{}
		for k, v := range parseA(a) {
			if strings.HasPrefix(k, "in") {
				m[k] = v
			}
		}
		return m.String()
	}
	return x
}

func heldKeys(a string) []string {
	var out []string
	for k, v := range parseA(a) {
		if strings.HasPrefix(k, "h:") && v == "1" {
			out = append(out, k[2:])
		}
	}
	return out
}

// commAck: what is known of the COMMACK of the message p ("in" or "reply").
func commAck(m avars, p string) bool {
	for k, v := range m {
		if v != "1" && v != "0" || !strings.HasPrefix(k, "f:cmp(vals("+p+"/0") {
			continue
		}
		t, op, n, ok := splitCmp(k[2:])
		if !ok || !strings.HasSuffix(t, ")[0]") {
			continue
		}
		switch {
		case op == "eq" && n == "0" && v == "1", op == "le" && n == "0" && v == "1", op == "lt" && n == "1" && v == "1":
			return true
		}
	}
	return false
}

func init() {
	register("C24", "Every exported operation and registered handler of the GEM handler, with the goroutines and timers it starts, is interpreted abstractly for both roles with the communication state as an automaton variable; every store of COMMUNICATING must lie on a path that has established an accepted S1F13 exchange.", func(r *Report) {
		P := r.P
		r.Rule("accepted", "COMMUNICATING is stored only after an S1F14 with COMMACK 0 was read from the reply to the own S1F13 or from a received S1F14, or by the S1F13 handler on paths that answer with COMMACK 0")
		r.Rule("answer", "the S1F13 handler answers with COMMACK 0 exactly on the paths that end in COMMUNICATING")
		r.Rule("retry", "on an enabled host every path of the goroutine that sends S1F13 ends in COMMUNICATING, or in WAIT DELAY with a timer armed whose function sends S1F13 again")
		r.Rule("lost", "when the monitor finds the connection gone, and when Disable wins, the state ends as NOT COMMUNICATING")
		r.Rule("wake", "every path that stores COMMUNICATING wakes every registered waiter afterwards, before it ends")
		r.Rule("waiter", "a waiter is registered only after the state has been checked again under the lock under which waiters are woken, and its channel is buffered so that a wake-up cannot be missed")
		states := P.constsOf(pkgGem, "CommunicationState")
		stF := P.method(pkgGem, "GemHandler", "State")
		state := ""
		if stF != nil {
			state = P.reportedField(stF, tCommState)
		}
		comm, ok1 := states["CommunicationStateCommunicating"]
		delay, ok2 := states["CommunicationStateWaitDelay"]
		notc, ok3 := states["CommunicationStateNotCommunicating"]
		if !r.Anchor(state != "" && ok1 && ok2 && ok3, "the communication states and the field that GemHandler.State reports") {
			return
		}
		COMM, DELAY, NOTC := comm.C.ExactString(), delay.C.ExactString(), notc.C.ExactString()
		regs := P.gemRegs(r)
		// the flag that Enable sets
		enabled := ""
		if f := P.method(pkgGem, "GemHandler", "Enable"); f != nil {
			x := newCommModel(P, "DeviceHost", state, states)
			x.followGo = false
			e := newGMEngine(P, x.gm)
			for _, o := range e.Run(f, "") {
				for k, v := range parseA(o.A) {
					if strings.HasPrefix(k, "cas:") && v == "1" {
						enabled = k[4:]
					}
				}
			}
		}
		if !r.Anchor(enabled != "", "the flag that Enable sets with a compare-and-swap") {
			return
		}
		// does a timer function lead to another S1F13?
		memo := map[*ssa.Function]int{}
		var retries func(f *ssa.Function) bool
		retries = func(f *ssa.Function) bool {
			if v, ok := memo[f]; ok {
				return v == 1
			}
			memo[f] = 0
			x := newCommModel(P, "DeviceHost", state, states)
			found := false
			x.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
				if s, fu, _, ok := newData(tagOf(msg)); ok && s == "1" && fu == "13" {
					found = true
				}
			}
			st := x.startA
			x.startA = func(a string) string { return withA(withA(st(a), "at:"+enabled, "1"), "conn", "1") }
			e := newGMEngine(P, x.gm)
			e.LoopArith = 3
			e.run(f, nil, nil, avars{"st": DELAY, "at:" + enabled: "1", "conn": "1"}.String(), nil, nil, nil, nil)
			r.SawEngine(e)
			if found {
				memo[f] = 1
			}
			return found
		}
		lockOf := map[string]bool{} // locks held when waiters are taken for waking
		nComm, nRetry, nLost, nWake := 0, 0, 0, 0
		mkSend := func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
			if s, fu, _, ok := newData(tagOf(msg)); ok && s == "1" && fu == "13" && how == "SendAndWait" {
				c.Put("s1f13", "1")
			}
		}
		ends := func(role, what, pos string, m avars) {
			if m["trans"] == "1" && m["st"] == COMM {
				nWake++
				r.Check(m["woke0"] == "1" && m["woke1"] == "1", "wake", what, pos, what+" stores COMMUNICATING without waking every waiting caller")
				for k := range m {
					if strings.HasPrefix(k, "wlk:") {
						lockOf[k[4:]] = true
					}
				}
			}
		}
		timers := map[*ssa.Function]bool{}
		run := func(f *ssa.Function, bind []Val, role string, s, fu int64) []Outcome {
			x := newCommModel(P, role, state, states)
			x.inS, x.inF = s, fu
			x.timerFn = retries
			x.onTimer = func(t *ssa.Function) { timers[P.unbound(t)] = true }
			x.send = mkSend
			x.onComm = func(c *Ctx, st *ssa.Store, from string) {
				nComm++
				m := parseA(c.A())
				if s == 1 && fu == 13 && m["goroutine"] == "" {
					m["by13"] = "1"
					c.SetA(m.String())
					return
				}
				viaReply := m["reqS"] == "1" && m["reqF"] == "13" && m["failed"] == "" && m["code:m:reply.data:StreamCode"] == "1" && m["code:m:reply.data:FunctionCode"] == "14" && commAck(m, "reply")
				viaIn := s == 1 && fu == 14 && m["goroutine"] == "" && commAck(m, "in")
				r.Check(viaReply || viaIn, "accepted", P.fname(c.Root()), P.ipos(st), "stores COMMUNICATING without an S1F14 carrying COMMACK 0 (via "+strings.Join(c.Stack(), " < ")+")")
			}
			st0 := x.startA
			x.startA = func(a string) string { return withA(st0(a), "goroutine", "1") }
			x.followed = func(c *Ctx, site ssa.CallInstruction, fn *ssa.Function, os []Outcome) {
				for _, o := range os {
					if o.Panicked {
						continue
					}
					m := parseA(o.A)
					pos := P.ipos(site)
					ends(role, P.fname(fn), pos, m)
					if role == "DeviceHost" && m["s1f13"] == "1" && m["at:"+enabled] != "0" {
						nRetry++
						good := m["st"] == COMM || m["st"] == DELAY && m["timer"] != ""
						at := pos
						if o.ret != nil {
							at = P.ipos(o.ret)
						}
						r.Check(good, "retry", P.fname(fn), at, "the goroutine that establishes communication can end in "+x.names[m["st"]]+timerText(m["timer"]))
					}
				}
			}
			lost := func(c *Ctx, where string, pos string) {
				m := parseA(c.A())
				if m["conn"] == "0" && m["goroutine"] == "1" && m["at:"+enabled] == "1" && m["mon"] == "1" {
					nLost++
					r.Check(m["st"] == NOTC, "lost", P.fname(c.fn), pos, "the monitor finds the connection gone and leaves the state "+x.names[m["st"]])
				}
			}
			instr := x.hm.instr
			x.hm.instr = func(c *Ctx, ins ssa.Instruction) {
				if sel, ok := ins.(*ssa.Select); ok && sel.Blocking {
					lost(c, "", P.ipos(ins))
					m := parseA(c.A())
					for k := range m {
						if k == "conn" || k == "st" || strings.HasPrefix(k, "at:") || strings.HasPrefix(k, "woke") || k == "trans" {
							delete(m, k)
						}
					}
					m["mon"] = "1"
					c.SetA(m.String())
				}
				instr(c, ins)
			}
			e := newGMEngine(P, x.gm)
			e.LoopArith = 3
			a0 := ""
			if s < 0 {
				a0 = x.startA("")
			}
			os := e.run(f, nil, nil, a0, gemHandlerArgs(f, TagV("m:in.data")), bind, nil, nil)
			r.SawEngine(e)
			return os
		}
		for _, role := range roles {
			for _, f := range P.gemOps() {
				if f.Name() != "Disable" && !P.reaches(f, storesField(state)) {
					continue
				}
				os := run(f, nil, role, 0, 0)
				for _, o := range os {
					if o.Panicked {
						continue
					}
					m := parseA(o.A)
					ends(role, P.fname(f), P.pos(f.Pos()), m)
					if f.Name() == "Disable" && m["cas:"+enabled] == "0" {
						nLost++
						r.Check(m["st"] == NOTC, "lost", "Disable", P.pos(f.Pos()), "Disable can leave another state than NOT COMMUNICATING")
					}
				}
			}
			for _, g := range regs {
				if g.role != role {
					continue
				}
				if !P.reaches(g.fn, storesField(state)) {
					continue
				}
				n := 0
				for _, o := range run(g.fn, g.bind, role, g.s, g.f) {
					if o.Panicked || len(o.Rets) != 2 {
						continue
					}
					m := parseA(o.A)
					pos := P.pos(g.fn.Pos())
					if o.ret != nil {
						pos = P.ipos(o.ret)
					}
					ends(role, P.fname(g.fn), pos, m)
					if g.sf() == "S1F13" {
						n++
						ack := ackOf(tagOf(o.Rets[0]))
						in := m["st"] == COMM
						r.Check(lit(ack) != nil && (ack == "0") == in, "answer", "S1F13 as "+shortRole(role), pos, "S1F13 is answered with COMMACK "+ack+" and the state ends as "+names0(states, m["st"]))
						if m["by13"] == "1" {
							r.Check(ack == "0", "accepted", "S1F13 as "+shortRole(role), pos, "COMMUNICATING is entered although S1F13 is answered with COMMACK "+ack)
						}
					}
				}
				if g.sf() == "S1F13" {
					r.Check(n > 0, "answer", "S1F13 as "+shortRole(role), P.pos(g.fn.Pos()), "no answer")
				}
			}
		}
		for done := map[*ssa.Function]bool{}; len(done) < len(timers); {
			for _, f := range P.funcs {
				if !timers[f] || done[f] {
					continue
				}
				done[f] = true
				for _, role := range roles {
					for _, o := range run(f, nil, role, -1, 0) {
						if !o.Panicked {
							ends(role, P.fname(f), P.pos(f.Pos()), parseA(o.A))
						}
					}
				}
			}
		}
		// waiters
		wf := P.method(pkgGem, "GemHandler", "WaitForCommunicating")
		if r.Anchor(wf != nil, "GemHandler.WaitForCommunicating") {
			x := newCommModel(P, "DeviceHost", state, states)
			instr := x.hm.instr
			n := 0
			x.hm.instr = func(c *Ctx, ins ssa.Instruction) {
				switch y := ins.(type) {
				case *ssa.MakeChan:
					k, ok := c.Val(y.Size).IsInt()
					r.Check(ok && k >= 1, "waiter", "channel", P.ipos(ins), "the channel of a waiting caller is not buffered")
				case *ssa.Store:
					fa, ok := y.Addr.(*ssa.FieldAddr)
					if ok && isWaiterSlice(y.Val.Type()) && appends(y.Val) && !fromSlicing(y.Val) {
						n++
						m := parseA(c.A())
						good := false
						for k := range lockOf {
							good = good || m["h:"+k] == "1" && m["rc:"+k] == "1"
						}
						r.Check(good && m["st"] != COMM, "waiter", "registration in "+ownerField(fa), P.ipos(ins), "a waiting caller is registered without checking the state again under the lock under which callers are woken")
					}
				}
				instr(c, ins)
			}
			e := newGMEngine(P, x.gm)
			e.LoopArith = 3
			e.Run(wf, "")
			r.SawEngine(e)
			r.Check(n > 0, "waiter", "registration", P.pos(wf.Pos()), "no caller is registered")
		}
		r.Check(nRetry > 0, "retry", "the host goroutine", P.pos(stF.Pos()), "no goroutine sends S1F13 as host")
		r.Check(nLost > 1, "lost", "the monitor", P.pos(stF.Pos()), "no monitor observes the connection")
		r.Count("stores of COMMUNICATING", nComm)
		r.Floor("accepted", 3)
		r.Floor("answer", 2)
		r.Floor("retry", 2)
		r.Floor("lost", 2)
		r.Floor("wake", 3)
		r.Floor("waiter", 2)
	})
}

func timerText(t string) string {
	if t == "" {
		return " without a timer armed to try again"
	}
	return ""
}

func names0(states map[string]Val, v string) string {
	for n, c := range states {
		if c.C.ExactString() == v {
			return strings.TrimPrefix(n, "CommunicationState")
		}
	}
	return v
}

// appends: the value is the result of an append.
func appends(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

// fromSlicing: an append to a part of a slice, as in removing an element.
func fromSlicing(v ssa.Value) bool {
	c := v.(*ssa.Call)
	_, ok := c.Call.Args[0].(*ssa.Slice)
	return ok
}

// reaches: some instruction for which pred holds can be executed by f, by the
// library functions it calls or by the function values it creates.
func (P *Program) reaches(f *ssa.Function, pred func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		f = P.unbound(f)
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		var ops []*ssa.Value
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if pred(ins) {
					return true
				}
				ops = ins.Operands(ops[:0])
				for _, o := range ops {
					switch v := (*o).(type) {
					case *ssa.Function:
						if P.isLibFn(P.unbound(v)) && walk(v) {
							return true
						}
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok && walk(mc.Fn.(*ssa.Function)) {
					return true
				}
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, g := range P.impls(ci.Common()) {
						if walk(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// storesField: the instruction stores to a field.
func storesField(field string) func(ssa.Instruction) bool {
	return func(ins ssa.Instruction) bool {
		st, ok := ins.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && ownerField(fa) == field
	}
}
