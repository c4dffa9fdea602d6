package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sess follows the closing of a session. Its tokens: "won" (this path won the
// right to close), "d:x" (effect x has happened), "e:codec" (the codec failed
// and the session has not been closed since), "o:open" (seen open under the
// lock held since), and frames' "n:f"/"v:f" (field f is nil/set).
type sess struct {
	*frames
	r     *Report
	flags map[string]bool
	chans map[string]bool // channel fields of Session
	sends []map[string]bool
	sendP []string
	shut  map[string][]map[string]bool // queue field -> locks held at its close
	nwon  int
}

func delPrefix(a string, ps ...string) string {
	out := ""
	for _, t := range heldList(a) {
		drop := false
		for _, p := range ps {
			drop = drop || strings.HasPrefix(t, p)
		}
		if !drop {
			out = addHeld(out, t)
		}
	}
	return out
}

func addOnce(a, t string) string {
	if hasTok(a, t) {
		return a
	}
	return addHeld(a, t)
}

// flagField: the session field holding the atomic an operation is applied to.
func flagField(callee *ssa.Function, cc *ssa.CallCommon) (field, op string, ok bool) {
	if callee == nil || len(cc.Args) == 0 {
		return
	}
	n := callee.String()
	if !strings.HasPrefix(n, "sync/atomic.") && !strings.HasPrefix(n, "(*sync/atomic.") && !strings.HasPrefix(n, "(*go.uber.org/atomic.") {
		return
	}
	f := atomicField(cc.Args[0])
	if !strings.HasPrefix(f, "link.Session.") {
		return
	}
	name := callee.Name()
	switch {
	case strings.HasPrefix(name, "CompareAndSwap"), name == "CAS":
		op = "cas"
	case strings.HasPrefix(name, "Load"):
		op = "load"
	case strings.HasPrefix(name, "Swap"), strings.HasPrefix(name, "Store"), strings.HasPrefix(name, "Add"), strings.HasPrefix(name, "Or"), strings.HasPrefix(name, "And"), name == "Toggle":
		op = "other"
	default:
		return
	}
	return f, op, true
}

func (s *sess) complete(a string, pos string, who string) {
	if !hasTok(a, "won") {
		return
	}
	s.nwon++
	var missing []string
	for f := range s.chans {
		if !hasTok(a, "d:"+f) && !hasTok(a, "n:"+f) {
			missing = append(missing, "close of "+f)
		}
	}
	for t, what := range map[string]string{"d:codec": "close of the codec", "l:cb": "the close callbacks"} {
		if !hasTok(a, t) {
			missing = append(missing, what)
		}
	}
	dereg := hasTok(a, "d:dereg")
	for f := range s.more {
		dereg = dereg || hasTok(a, "n:"+f)
	}
	if !dereg {
		missing = append(missing, "deregistration")
	}
	sort.Strings(missing)
	s.r.Check(len(missing) == 0, "effects", who, pos, "a session is closed without "+strings.Join(missing, ", "))
}

func (s *sess) once(c *Ctx, site ssa.Instruction, tok, what string) {
	a := c.A()
	s.r.Check(hasTok(a, "won"), "guarded", s.P.fname(site.Parent())+" "+what, s.P.ipos(site), what+" without having won the session's close flag")
	s.r.Check(!hasTok(a, tok), "once", s.P.fname(site.Parent())+" "+what, s.P.ipos(site), what+" more than once")
	c.SetA(addOnce(a, tok))
}

func heldBy(a, p string) map[string]bool {
	m := map[string]bool{}
	for _, t := range heldList(a) {
		if strings.HasPrefix(t, p) {
			m[t[2:]] = true
		}
	}
	return m
}

func (s *sess) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	cc := site.Common()
	if fnPkg(site.Parent()).Path() != pkgLink {
		return s.frames.Call(c, site, callee, args)
	}
	if g, ok := site.(*ssa.Go); ok {
		fv := c.e.calleeVal(c.st, c.fr, &g.Call)
		if fv.K != KFunc && callee != nil {
			fv = FnV(callee)
		}
		if fv.K != KFunc || nested(c, s.P.unbound(fv.Fn)) || s.P.drains(fv.Fn, s.frames.queue) {
			return nil, false
		}
		s.dereg(c, s.P.unbound(fv.Fn))
		a := c.A()
		locks := ""
		for _, t := range heldList(a) {
			if t[1] == ':' && (t[0] == 'W' || t[0] == 'R') {
				locks = addHeld(locks, t)
			}
		}
		c.SetA(delPrefix(a, "W:", "R:", "o:"))
		os := c.e.callFn(c, site, fv, args)
		c.SetA(a)
		var out []CallRes
		seen := map[string]bool{}
		for _, o := range os {
			if o.Panicked {
				continue
			}
			na := delPrefix(o.A, "W:", "R:")
			for _, l := range heldList(locks) {
				na = addHeld(na, l)
			}
			if !seen[na] {
				seen[na] = true
				out = append(out, CallRes{A: na})
			}
		}
		if len(out) == 0 {
			return nil, false
		}
		return out, true
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "close":
			if f := chanField(cc.Args[0]); strings.HasPrefix(f, "link.Session.") {
				s.once(c, site, "d:"+f, "close of "+f)
				if s.sendq(f) {
					s.shut[f] = append(s.shut[f], heldBy(c.A(), "W:"))
				}
			}
		}
	}
	if op, _ := lockOp(cc); op == "W-" || op == "R-" {
		rs, ok := s.frames.Call(c, site, callee, args)
		for i := range rs {
			rs[i].A = delPrefix(rs[i].A, "o:")
		}
		return rs, ok
	}
	if f, op, ok := flagField(callee, cc); ok {
		s.flags[f] = true
		a := c.A()
		T, F := CInt(1), CInt(0)
		if b, ok := site.Value().Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			T, F = CBool(true), CBool(false)
		}
		switch op {
		case "cas":
			s.complete(a, s.P.ipos(site), s.P.fname(site.Parent()))
			na := delPrefix(a, "won", "d:", "e:", "l:", "o:")
			zero := func(v Val) bool {
				if n, ok := v.IsInt(); ok {
					return n == 0
				}
				b, ok := v.IsBool()
				return ok && !b
			}
			good := len(args) == 3 && zero(args[1]) && args[2].K == KConst && !zero(args[2])
			s.r.Check(good, "guarded", s.P.fname(site.Parent())+" flag", s.P.ipos(site), "the close flag is not taken from open to closed")
			return []CallRes{{A: addHeld(na, "won"), Ret: CBool(true)}, {A: na, Ret: CBool(false)}}, true
		case "load":
			if hasTok(a, "won") {
				return []CallRes{{A: a, Ret: T}}, true
			}
			oa := a
			if len(heldBy(a, "W:")) > 0 || len(heldBy(a, "R:")) > 0 {
				oa = addOnce(a, "o:open")
			}
			return []CallRes{{A: oa, Ret: F}, {A: a, Ret: T}}, true
		default:
			s.r.Check(false, "guarded", s.P.fname(site.Parent())+" flag", s.P.ipos(site), "the close flag is changed without a compare-and-swap")
			return nil, false
		}
	}
	if cc.IsInvoke() && typeKey(cc.Value.Type()) == pkgLink+".Codec" && sessionField(cc.Value) != "" {
		switch cc.Method.Name() {
		case "Close":
			s.once(c, site, "d:codec", "close of the codec")
			return []CallRes{{A: c.A(), Ret: Top}}, true
		case "Send":
			s.frames.Call(c, site, callee, args)
			return []CallRes{{A: c.A(), Ret: NilV}, {A: addOnce(c.A(), "e:codec"), Ret: NonNil}}, true
		case "Receive":
			s.frames.Call(c, site, callee, args)
			return []CallRes{{A: c.A(), Ret: TupleV(NonNil, NilV)}, {A: addOnce(c.A(), "e:codec"), Ret: TupleV(NilV, NonNil)}}, true
		}
	}
	if callee != nil {
		s.dereg(c, callee)
	}
	return s.frames.Call(c, site, callee, args)
}

func (s *sess) dereg(c *Ctx, f *ssa.Function) {
	mgr := false
	for _, p := range f.Params {
		mgr = mgr || typeKey(p.Type()) == pkgLink+".Manager"
	}
	if !mgr || !hasTok(c.A(), "won") {
		return
	}
	if s.P.reaches(f, func(ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		b, ok := ci.Common().Value.(*ssa.Builtin)
		if !ok || b.Name() != "delete" {
			return false
		}
		m, ok := ci.Common().Args[0].Type().Underlying().(*types.Map)
		return ok && typeKey(m.Elem()) == pkgLink+".Session"
	}) {
		c.SetA(addOnce(c.A(), "d:dereg"))
	}
}

func (s *sess) sendq(f string) bool { return s.frames.queue[f] }

// sessionField: the value is read from a field of a session.
func sessionField(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if f := ownerField(fa); strings.HasPrefix(f, "link.Session.") {
				return f
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if f := sessionField(e); f != "" {
				return f
			}
		}
	case *ssa.Call:
		// an accessor
		if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && typeKey(f.Signature.Recv().Type()) == pkgLink+".Session" {
			return "link.Session." + f.Name()
		}
	case *ssa.Parameter:
		if x.Parent().Signature.Recv() != nil && typeKey(x.Parent().Signature.Recv().Type()) == pkgLink+".Session" {
			return "link.Session." + x.Name()
		}
	}
	return ""
}

func (s *sess) Instr(c *Ctx, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Next:
		// another session
		if rg, ok := x.Iter.(*ssa.Range); ok {
			if m, ok := rg.X.Type().Underlying().(*types.Map); ok && typeKey(m.Elem()) == pkgLink+".Session" {
				s.complete(c.A(), s.P.ipos(ins), s.P.fname(ins.Parent()))
				c.SetA(delPrefix(c.A(), "n:", "v:", "o:", "won", "d:", "l:", "e:"))
			}
		}
	case *ssa.Alloc:
		if typeKey(x.Type()) == pkgLink+".Session" {
			s.complete(c.A(), s.P.ipos(ins), s.P.fname(ins.Parent()))
			c.SetA(delPrefix(c.A(), "n:", "v:", "o:", "won", "d:", "l:", "e:"))
		}
	case *ssa.Send:
		s.enqueue(c, ins, x.Chan)
	case *ssa.Select:
		for _, st := range x.States {
			if st.Dir == types.SendOnly {
				s.enqueue(c, ins, st.Chan)
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && hasTok(c.A(), "won") && isCallbackList(x.Type()) && strings.HasPrefix(ownerField(fa), "link.Session.") {
			c.SetA(addOnce(c.A(), "l:cb"))
		}
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && s.flags[ownerField(fa)] {
			if _, fresh := fa.X.(*ssa.Alloc); !fresh {
				s.r.Check(false, "guarded", s.P.fname(ins.Parent())+" flag", s.P.ipos(ins), "the close flag is changed without a compare-and-swap")
			}
		}
	}
	s.frames.Instr(c, ins)
}

func isCallbackList(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		t = x.Elem()
	case *types.Slice:
		t = x.Elem()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
	default:
		return false
	}
	if sg, ok := t.Underlying().(*types.Signature); ok {
		return sg.Params().Len() == 0
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if sg, ok := st.Field(i).Type().Underlying().(*types.Signature); ok && sg.Params().Len() == 0 {
			return true
		}
	}
	return false
}

func (s *sess) enqueue(c *Ctx, ins ssa.Instruction, ch ssa.Value) {
	f := chanField(ch)
	if !s.frames.queue[f] || fnPkg(ins.Parent()).Path() != pkgLink {
		return
	}
	a := c.A()
	held := heldBy(a, "W:")
	for l := range heldBy(a, "R:") {
		held[l] = true
	}
	s.r.Check(hasTok(a, "o:open"), "no-send-after-close", s.P.fname(ins.Parent()), s.P.ipos(ins), "a message is queued without having seen the session open under the lock held")
	s.sends = append(s.sends, held)
	s.sendP = append(s.sendP, s.P.ipos(ins))
}

func checkSessions(r *Report) {
	P := r.P
	fr, _ := newFrames(P)
	s := &sess{frames: fr, r: r, flags: map[string]bool{}, chans: map[string]bool{}, shut: map[string][]map[string]bool{}}
	fr.at = func(*Ctx, ssa.CallInstruction, string) {}
	fr.more = map[string]bool{}
	if n := P.named(pkgLink, "Session"); n != nil {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				name := "link.Session." + f.Name()
				if _, ok := f.Type().Underlying().(*types.Chan); ok {
					s.chans[name] = true
				}
				if typeKey(f.Type()) == pkgLink+".Manager" {
					fr.more[name] = true
				}
			}
		}
	}
	e := NewEngine(P, s)
	fr.engine = e
	e.MaxState = 400
	for _, f := range P.rootFunctions() {
		if fnPkg(f).Path() != pkgLink {
			continue
		}
		for _, o := range e.Run(f, "") {
			if o.Panicked {
				continue
			}
			pos := P.pos(f.Pos())
			if o.ret != nil {
				pos = P.ipos(o.ret)
			}
			s.complete(o.A, pos, P.fname(f))
			if f.Signature.Recv() != nil || f.Parent() != nil {
				r.Check(!hasTok(o.A, "e:codec"), "fail-closes", P.fname(f), pos, "the codec failed and the session is not closed")
			}
		}
	}
	r.SawEngine(e)
	cb := false
	if f := P.method(pkgLink, "Session", "Close"); f != nil {
		cb = P.reaches(f, func(ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil || fnPkg(ins.Parent()).Path() != pkgLink {
				return false
			}
			if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
				return false
			}
			return true
		})
		r.Check(cb, "effects", "close callbacks are called", P.pos(f.Pos()), "closing a session calls no close callback")
	}
	for f, l := range s.shut {
		for _, held := range l {
			ok := len(held) > 0
			at := ""
			for i, sh := range s.sends {
				common := false
				for k := range sh {
					common = common || held[k]
				}
				if !common {
					ok, at = false, s.sendP[i]
				}
			}
			r.Check(ok, "no-send-after-close", "close of "+f, at, "the send queue can be closed while a message is being queued")
		}
	}
}

func init() {
	register("C28", "Sessions are interpreted on every path with the close flag, the effects of closing and codec failures as tokens; every connection, codec, server and session obtained is followed until it is owned or closed.", func(r *Report) {
		r.Rule("guarded", "the effects of closing a session happen only after its close flag was won with a compare-and-swap from open to closed")
		r.Rule("once", "no effect of closing happens twice on a path")
		r.Rule("effects", "whoever wins the close flag closes every channel and the codec, calls the close callbacks and deregisters the session")
		r.Rule("fail-closes", "a session function does not return after the codec failed without closing the session")
		r.Rule("no-send-after-close", "a message is queued only with the session seen open under a lock that closing the queue takes exclusively")
		r.Rule("owned", "a connection, listener, codec, session or server that was obtained is closed, stored or returned on every path")
		r.Rule("handler-closes", "the function the HSMS protocol registers for accepted sessions closes its session on every path")
		r.Assume("sessions are compared by field, not by instance; a codec owns its connection once NewCodec succeeded")
		checkSessions(r)
		checkOwnership(r)
		r.Floor("guarded", 4)
		r.Floor("effects", 4)
		r.Floor("fail-closes", 5)
		r.Floor("no-send-after-close", 2)
		r.Floor("owned", 6)
		r.Floor("handler-closes", 1)
	})
}
