package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sendFail follows the operations that hand a message to the connection. Every
// step that may fail is forked; "failed" names the one that did, "sent" says
// that the message was handed on.
type sendFail struct {
	BaseClient
	P *Program
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// waits: the function waits with a time-out for something another goroutine
// supplies.
func (s *sendFail) waits(f *ssa.Function) bool {
	return s.P.reaches(f, func(ins ssa.Instruction) bool {
		sel, ok := ins.(*ssa.Select)
		if !ok || !sel.Blocking {
			return false
		}
		for _, st := range sel.States {
			if ch, ok := st.Chan.Type().Underlying().(*types.Chan); ok && st.Dir == types.RecvOnly && typeKey(ch.Elem()) == "time.Time" {
				return true
			}
		}
		return false
	})
}

func (s *sendFail) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if _, ok := site.Common().Value.(*ssa.Builtin); ok {
		return nil, false
	}
	name := callName(site, callee)
	sig := site.Common().Signature()
	res := sig.Results()
	n := res.Len()
	value := func(err Val) Val {
		if n == 1 {
			return err
		}
		var vs []Val
		for i := 0; i < n-1; i++ {
			vs = append(vs, Top)
		}
		return TupleV(append(vs, err)...)
	}
	if n == 0 || !isErrorType(res.At(n-1).Type()) {
		return nil, false
	}
	if strings.HasPrefix(name, "fmt.Errorf") || strings.HasPrefix(name, "errors.") {
		return []CallRes{{A: c.A(), Ret: value(TagV("=err:new"))}}, true
	}
	pk := fnPkg(site.Parent()).Path()
	m := ""
	if callee != nil {
		m = callee.Name()
	} else if site.Common().IsInvoke() {
		m = site.Common().Method.Name()
	}
	transmits := false
	switch {
	case callee != nil && s.P.isLibFn(callee) && len(callee.Blocks) > 0:
		if pk != pkgHsms && pk != pkgGem || !s.waits(callee) || fnPkg(callee).Path() == pkgHsms {
			return nil, false
		}
	case m == "Close" || strings.HasPrefix(name, "(*bytes.Buffer)"):
		return []CallRes{{A: c.A(), Ret: Top}}, true
	case pk != pkgCodec && pk != pkgLink:
		// a log writer and the like
		return []CallRes{{A: c.A(), Ret: Top}}, true
	default:
		transmits = true
	}
	if strings.Contains(c.A(), "failed=") {
		return []CallRes{{A: c.A(), Ret: Top}}, true
	}
	a := c.A()
	ok := a
	if transmits {
		ok = withSent(a, m)
	}
	if !hasFunc(name) {
		name = m
	}
	return []CallRes{{A: ok, Ret: value(NilV)}, {A: withA(a, "failed", shortName(name)), Ret: value(TagV("=err:step"))}}, true
}

// withSent adds a step to the ones the message was handed on by.
func withSent(a, step string) string {
	old := parseA(a)["sent"]
	if strings.Contains(","+old+",", ","+step+",") {
		return a
	}
	all := append(strings.Split(old, ","), step)
	sort.Strings(all)
	return withA(a, "sent", strings.Trim(strings.Join(all, ","), ","))
}

func hasFunc(n string) bool { return n != "" }

func shortName(n string) string {
	n = strings.NewReplacer("=", "", ";", "").Replace(n)
	return n[strings.LastIndex(n, "/")+1:]
}

func (s *sendFail) Instr(c *Ctx, ins ssa.Instruction) {
	if x, ok := ins.(*ssa.Send); ok {
		if fnPkg(ins.Parent()).Path() == pkgLink {
			_ = x
			c.SetA(withSent(c.A(), "chan"))
		}
	}
}

func (s *sendFail) Branch(c *Ctx, br *ssa.If, taken bool) bool {
	// the case of a select that was taken
	b, ok := br.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL {
		return true
	}
	ex, ok := b.X.(*ssa.Extract)
	if !ok || ex.Index != 0 || !taken {
		return true
	}
	sel, ok := ex.Tuple.(*ssa.Select)
	k, isC := constInt(b.Y)
	if ok && isC && k >= 0 && int(k) < len(sel.States) && sel.States[k].Dir == types.SendOnly && fnPkg(br.Parent()).Path() == pkgLink {
		c.SetA(withSent(c.A(), "chan"))
	}
	return true
}

// checkTransport: the operations below the GEM handler.
func checkTransport(r *Report) {
	P := r.P
	s := &sendFail{P: P}
	e := NewEngine(P, s)
	e.DispatchIface = false
	var ops []*ssa.Function
	for _, n := range []string{"SendDataMessage", "SendAndWait", "SendResponse"} {
		f := P.method(pkgHsms, "HsmsProtocol", n)
		if r.Anchor(f != nil, "HsmsProtocol."+n) {
			ops = append(ops, f)
		}
	}
	for _, t := range [][2]string{{pkgHsms, "HsmsConnection"}, {pkgLink, "Session"}} {
		f := P.method(t[0], t[1], "Send")
		if r.Anchor(f != nil, t[1]+".Send") {
			ops = append(ops, f)
		}
	}
	n := 0
	codecs := map[*ssa.Function]bool{}
	for _, t := range P.codecTypes() {
		if f := P.method(pkgCodec, t.Obj().Name(), "Send"); f != nil && len(f.Blocks) > 0 && P.isLibFn(f) {
			ops = append(ops, f)
			codecs[f] = true
			n++
		}
	}
	r.Anchor(n >= 4, "the Send methods of the codecs")
	for _, f := range ops {
		fails := map[string]bool{}
		type success struct {
			sent, pos, trace string
		}
		var good []success
		all := map[string]bool{}
		for _, o := range e.Run(f, "") {
			if o.Panicked || len(o.Rets) == 0 {
				continue
			}
			pos := P.pos(f.Pos())
			if o.ret != nil {
				pos = P.ipos(o.ret)
			}
			m := parseA(o.A)
			err := o.Rets[len(o.Rets)-1]
			if step := m["failed"]; step != "" {
				fails[step] = true
				r.Check(err.K != KNil && err.K != KTop, "step", P.fname(f)+" after "+step, pos, P.fname(f)+" can report success although "+step+" failed: "+traceString(o.tr))
				continue
			}
			if err.K == KNil {
				good = append(good, success{m["sent"], pos, traceString(o.tr)})
				for _, x := range strings.Split(m["sent"], ",") {
					all[x] = true
				}
				r.Check(m["sent"] != "", "sent", P.fname(f), pos, P.fname(f)+" reports success without having sent the message: "+traceString(o.tr))
			}
		}
		r.Check(len(fails) > 0, "step", P.fname(f)+" can fail", P.pos(f.Pos()), "no step of "+P.fname(f)+" can fail: the error of the transmission is lost")
		if codecs[f] {
			for _, g := range good {
				var left []string
				for x := range all {
					// what is written without a buffer needs no flush
					if x != "Flush" && !strings.Contains(","+g.sent+",", ","+x+",") {
						left = append(left, x)
					}
				}
				sort.Strings(left)
				r.Check(len(left) == 0, "sent", P.fname(f)+" in full", g.pos, P.fname(f)+" can report success without the step "+strings.Join(left, ", ")+" by which it sends: "+g.trace)
			}
		}
		r.Saw(f)
	}
	r.SawEngine(e)
	r.Anchor(len(e.Overflow) == 0, "a complete exploration of the sending operations")
}

// gemSend is an operation of the GEM handler that sends a message.
type gemSend struct {
	name  string
	host  bool
	reply *shape // the expected reply
	forms []*shape
	// ok: the reply holds what the operation returns
	ok   func(s *shape) bool
	args func(x *gx, st *State, f *ssa.Function) []Val
	a    string
}

func value(s *shape, kinds string) bool {
	return s != nil && s.kind != "" && strings.Contains(kinds, s.kind) && !s.none
}

func ackReply(s *shape) bool {
	return value(s, "B") || s.kind == "L" && len(s.sub) > 0 && value(s.sub[0], "B")
}

func listOf(n int, each func(*shape) bool) func(*shape) bool {
	return func(s *shape) bool {
		if s.kind != "L" || n >= 0 && len(s.sub) != n {
			return false
		}
		for _, x := range s.sub {
			if each != nil && !each(x) {
				return false
			}
		}
		return true
	}
}

func gemSends() []gemSend {
	A, B, U, L := sh("A"), sh("B"), sh("U"), func(s ...*shape) *shape { return sh("L", s...) }
	ids := func(n int) func(x *gx, st *State, f *ssa.Function) []Val {
		return func(x *gx, st *State, f *ssa.Function) []Val {
			o := x.e.symObj(st, f.Params[len(f.Params)-1], "ids")
			o.typ = f.Params[len(f.Params)-1].Type()
			for i := 0; i < n; i++ {
				st.mem[memKey{x.e.siteID(o), "[" + itoa(i) + "]"}] = TagV("id" + itoa(i))
			}
			out := make([]Val, len(f.Params))
			out[len(out)-1] = Val{K: KSlice, Site: o, Len: n}
			return out
		}
	}
	// a list of n elements of which nothing is known
	some := func(n int) func(x *gx, st *State, f *ssa.Function) []Val {
		return func(x *gx, st *State, f *ssa.Function) []Val {
			o := x.e.symObj(st, f.Params[len(f.Params)-1], "ids")
			o.typ = f.Params[len(f.Params)-1].Type()
			out := make([]Val, len(f.Params))
			out[len(out)-1] = Val{K: KSlice, Site: o, Len: n}
			return out
		}
	}
	tags := func(names ...string) func(x *gx, st *State, f *ssa.Function) []Val {
		return func(x *gx, st *State, f *ssa.Function) []Val {
			out := []Val{{}}
			for _, n := range names {
				v := NilV
				if n != "" {
					v = TagV(n)
				}
				out = append(out, v)
			}
			return out[:len(f.Params)]
		}
	}
	id := func(s *shape) bool { return value(s, "AUI") }
	entry := func(n int) func(s *shape) bool {
		return func(s *shape) bool { return s.kind == "L" && len(s.sub) >= n && id(s.sub[0]) }
	}
	alarm := func(s *shape) bool {
		return s.kind == "L" && len(s.sub) >= 3 && value(s.sub[0], "B") && value(s.sub[1], "UI")
	}
	report := func(s *shape) bool {
		return s.kind == "L" && len(s.sub) >= 2 && id(s.sub[0]) && s.sub[1].kind == "L"
	}
	strs := "f:is(id0|string)=1;f:is(id1|string)=1;f:is(ppid|string)=1;f:is(ceid|string)=1;f:is(cmd|string)=1;"
	return []gemSend{
		{name: "RequestStatusVariables", reply: L(A, U), ok: listOf(2, nil), args: ids(2)},
		{name: "RequestEquipmentConstants", reply: L(A, U), ok: listOf(2, nil), args: ids(2)},
		{name: "RequestStatusVariableInfo", reply: L(L(U, A, A)), ok: listOf(-1, entry(3)), args: ids(1)},
		{name: "RequestEquipmentConstantInfo", reply: L(L(A, A, U, U, U, A)), ok: listOf(-1, entry(6)), args: ids(1)},
		{name: "EnableEventReports", reply: B, ok: ackReply, args: ids(1)},
		{name: "DefineReports", reply: B, ok: ackReply, args: tags("")},
		{name: "LinkEventReports", reply: B, ok: ackReply, args: tags("")},
		{name: "UploadProcessProgram", reply: B, ok: ackReply, args: tags("ppid", "body")},
		{name: "SendRemoteCommand", reply: L(B, L(L(A, B))), ok: ackReply, args: tags("cmd", "")},
		{name: "RequestProcessProgram", reply: L(A, A), ok: func(s *shape) bool {
			return s.kind == "L" && len(s.sub) >= 2 && (s.sub[1].kind == "A" || s.sub[1].kind == "B")
		}, args: tags("ppid")},
		{name: "RequestCollectionEventReport", reply: L(U, U, L(L(U, L(A)))), ok: func(s *shape) bool {
			return s.kind == "L" && len(s.sub) >= 3 && id(s.sub[1]) && listOf(-1, report)(s.sub[2])
		}, args: tags("ceid")},
		{name: "SendEnableAlarm", reply: B, ok: ackReply, args: tags("", "enable")},
		{name: "RequestAlarmList", reply: L(L(B, U, A)), ok: listOf(-1, alarm), args: tags()},
		{name: "RequestEnabledAlarmList", reply: L(L(B, U, A)), ok: listOf(-1, alarm), args: tags()},
		{name: "RequestDateTime", reply: A, ok: func(s *shape) bool { return s.kind == "A" }, args: tags()},
		{name: "SetDateTime", reply: B, ok: ackReply, args: tags("time")},
		{name: "SendEquipmentConstantValues", reply: B, ok: ackReply, args: some(1)},
		{name: "RaiseAlarm", args: tags("alarm", "set")},
		{name: "ClearAlarm", args: tags("alarm")},
		{a: strs},
	}
}

func checkGemSends(r *Report) {
	P := r.P
	all := gemSends()
	a0 := all[len(all)-1].a
	for _, op := range all[:len(all)-1] {
		f := P.method(pkgGem, "GemHandler", op.name)
		if !r.Anchor(f != nil, "GemHandler."+op.name) {
			continue
		}
		pos := P.pos(f.Pos())
		forms := []*shape{nil}
		role := "DeviceEquipment"
		if op.reply != nil {
			role = "DeviceHost"
			forms = append([]*shape{op.reply}, op.reply.variants()...)
			forms = append(forms, op.forms...)
		}
		seen := map[string]bool{}
		good, failed := 0, 0
		for _, s := range forms {
			if s != nil {
				if seen[s.String()] {
					continue
				}
				seen[s.String()] = true
			}
			x := newGX(P, role, sh("E"), 1)
			x.reply = s
			x.setup = func(st *State) []Val { return op.args(x, st, f) }
			for _, o := range x.run(f, a0, nil, nil) {
				if o.Panicked || len(o.Rets) == 0 {
					continue
				}
				err := o.Rets[len(o.Rets)-1]
				m := parseA(o.A)
				if m["failed"] != "" {
					failed++
					r.Check(err.K != KNil && err.K != KTop, "reported", op.name, pos, op.name+" reports success after a failed send: "+traceString(o.tr))
					continue
				}
				if err.K != KNil {
					continue
				}
				if m["reqS"] == "" {
					continue
				}
				good++
				if s == nil {
					continue
				}
				if op.ok != nil {
					r.Check(op.ok(s), "understood", op.name, pos, op.name+" reports success for the reply "+s.String()+", which it cannot understand: "+traceString(o.tr))
				}
			}
			r.SawEngine(x.e)
			r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of "+op.name)
		}
		r.Check(failed > 0, "reported", op.name+" can fail", pos, "no send of "+op.name+" can fail")
		r.Check(good > 0, "reported", op.name+" can succeed", pos, op.name+" never reports success after sending")
	}
}

func init() {
	register("C37", "Every operation that sends is followed on every path with each of its steps failing in turn and with replies of every form.", func(r *Report) {
		r.Rule("step", "when a step of handing a message to the connection fails, or waiting for the reply ends without one, the operation returns an error")
		r.Rule("sent", "an operation of the transport returns success only after it handed the message on")
		r.Rule("reported", "an operation of the GEM handler returns an error when its message cannot be sent or its reply does not come")
		r.Rule("understood", "an operation of the GEM handler that returns without an error got a reply in which the values it returns are present, in the form of the message's definition")
		checkTransport(r)
		checkGemSends(r)
		r.Floor("step", 12)
		r.Floor("sent", 8)
		r.Floor("reported", 30)
		r.Floor("understood", 16)
	})
}
