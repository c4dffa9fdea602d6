package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// durs names the durations that timers are armed with: cfg(X) is the setting
// that SecsTimeout.X returns, mul(a^k) a multiple, at(now^d) the time d from
// now, fld(T.f) the content of a field, param(i) an argument of the root.
type durs struct {
	BaseClient
	P       *Program
	setting map[string]string // field of SecsTimeout -> accessor
	family  map[*ssa.Function]bool
	sink    func(c *Ctx, site ssa.CallInstruction, kind string, d Val, fn *ssa.Function)
	recv    func(c *Ctx, site ssa.CallInstruction)
	dial    func(c *Ctx, site ssa.CallInstruction) // a connection attempt
	dials   func(ins ssa.Instruction) bool
}

const second = 1000000000

// armers are the functions that take a duration, and where.
var armers = map[string]int{
	"time.AfterFunc": 0, "time.NewTicker": 0, "time.Tick": 0, "time.NewTimer": 0, "time.After": 0, "time.Sleep": 0,
	"(*time.Timer).Reset": 1, "(*time.Ticker).Reset": 1, "context.WithTimeout": 1, "net.DialTimeout": 2,
}

func isDeadline(m string) bool { return m == "SetReadDeadline" || m == "SetDeadline" }

// armsAt: the function has a call that arms a timer or sets a deadline.
func armsAt(site ssa.CallInstruction) bool {
	cc := site.Common()
	if cc.IsInvoke() {
		return isDeadline(cc.Method.Name())
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	if _, ok := armers[f.String()]; ok {
		return true
	}
	return isDeadline(f.Name())
}

func (d *durs) Enter(c *Ctx, site ssa.CallInstruction, callee *ssa.Function) bool {
	if callee == nil {
		return false
	}
	if d.family[callee] || typeKeyRecv(callee) == pkgHsms+".SecsTimeout" {
		return true
	}
	for _, b := range callee.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && armsAt(ci) {
				return true
			}
		}
	}
	sig := callee.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if typeKey(sig.Params().At(i).Type()) == "time.Duration" {
			return true
		}
	}
	if sig.Results().Len() > 0 {
		switch t := sig.Results().At(0).Type(); typeKey(t) {
		case "time.Duration", "time.Time":
			return true
		}
	}
	return false
}

func (d *durs) Load(c *Ctx, ld *ssa.UnOp) (Val, bool) {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return Top, false
	}
	if o := ownerField(fa); strings.HasPrefix(o, "hsms.SecsTimeout.") {
		if x := d.setting[o[strings.LastIndex(o, ".")+1:]]; x != "" {
			return TagV("cfg(" + x + ")"), true
		}
	}
	if typeKey(ld.Type()) == "time.Duration" {
		if v := c.e.load(c.st, c.Val(ld.X), ld.Type()); v.K != KTop {
			return v, true
		}
		return TagV("fld(" + ownerField(fa) + ")"), true
	}
	return Top, false
}

func (d *durs) Instr(c *Ctx, ins ssa.Instruction) {
	if st, ok := ins.(*ssa.Store); ok {
		d.state(c, st.Val)
	}
}

// state notes the communication state that is being entered.
func (d *durs) state(c *Ctx, v ssa.Value) {
	if typeKey(v.Type()) == pkgGem+".CommunicationState" {
		if n, ok := c.Val(v).IsInt(); ok {
			c.Put("cs", itoa(int(n)))
		}
	}
}

func (d *durs) Op(c *Ctx, ins ssa.Value) (Val, bool) {
	b, ok := ins.(*ssa.BinOp)
	if !ok || isString(b.Type()) {
		return Top, false
	}
	name := map[token.Token]string{token.MUL: "mul", token.ADD: "add", token.SUB: "sub", token.QUO: "quo"}[b.Op]
	l, r := c.Val(b.X), c.Val(b.Y)
	if name == "" || l.K != KTag && r.K != KTag || strings.HasPrefix(l.Tag, "?") || strings.HasPrefix(r.Tag, "?") {
		return Top, false
	}
	if l.K == KConst && (name == "mul" || name == "add") {
		l, r = r, l
	}
	if l.K != KTag && l.K != KConst || r.K != KTag && r.K != KConst {
		// something of an unknown size is mixed with a setting
		return TagV(name + "(" + tagOf(l) + "^" + tagOf(r) + ")"), len(tagOf(l)+tagOf(r)) < 200
	}
	if n, as := tagArgs(tagOf(l)); name == "mul" && n == "mul" && len(as) == 2 && r.K == KConst {
		k, err := strconv.ParseInt(as[1], 10, 64)
		m, ok := r.IsInt()
		if err == nil && ok {
			return TagV("mul(" + as[0] + "^" + strconv.FormatInt(k*m, 10) + ")"), true
		}
	}
	t := name + "(" + sanTag(tagOf(l)) + "^" + sanTag(tagOf(r)) + ")"
	return TagV(t), len(t) < 200
}

func (d *durs) Cond(c *Ctx, br *ssa.If, cv Val, taken bool) bool {
	if cv.K == KTag && (strings.HasPrefix(strings.TrimPrefix(cv.Tag, "!"), "cmp(") || strings.HasPrefix(strings.TrimPrefix(cv.Tag, "!"), "is(")) {
		return c.learn(cv.Tag, taken)
	}
	return true
}

func (d *durs) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	one := func(v Val) ([]CallRes, bool) { return []CallRes{{A: c.A(), Ret: v}}, true }
	cc := site.Common()
	if g, ok := site.(*ssa.Go); ok {
		fv := c.e.calleeVal(c.st, c.fr, &g.Call)
		if fv.K != KFunc && callee != nil {
			fv = FnV(callee)
		}
		if fv.K == KFunc && (d.family[fv.Fn] || d.family[d.P.unbound(fv.Fn)]) && !nested(c, d.P.unbound(fv.Fn)) {
			a := c.A()
			c.e.callFn(c, site, fv, args)
			c.SetA(a)
		}
		return nil, false
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") && len(args) == 2 {
		l, r := args[0], args[1]
		if l.K == KConst {
			l, r = r, l
		}
		if l.K != KTag || strings.HasPrefix(l.Tag, "?") || len(l.Tag) > 150 {
			return nil, false
		}
		if k, ok := r.IsInt(); ok && k == 0 && b.Name() == "max" {
			return one(l) // nothing that is armed when it is positive changes
		}
		return one(TagV(b.Name() + "(" + sanTag(l.Tag) + "^" + sanTag(tagOf(r)) + ")"))
	}
	name := callName(site, callee)
	if i, ok := armers[name]; ok && i < len(args) {
		var cb *ssa.Function
		if name == "time.AfterFunc" && args[1].K == KFunc {
			cb = d.P.unbound(args[1].Fn)
		} else if name == "time.AfterFunc" {
			if cb = d.P.funcOf(cc.Args[1]); cb != nil {
				cb = d.P.unbound(cb)
			}
		}
		d.sink(c, site, name, args[i], cb)
		if name == "time.Sleep" {
			return one(Top)
		}
		return nil, false
	}
	switch name {
	case "time.Now":
		return one(TagV("now"))
	case "(time.Time).Add":
		if args[0].K == KTag && (args[1].K == KTag || args[1].K == KConst) {
			return one(TagV("at(" + args[0].Tag + "^" + tagOf(args[1]) + ")"))
		}
		return one(Top)
	}
	if res := cc.Signature().Results(); callee != nil && d.P.isLibFn(callee) && res.Len() == 1 && typeKey(res.At(0).Type()) == "error" &&
		!d.Enter(c, site, callee) && d.P.syncReaches(callee, d.dials) {
		d.dial(c, site)
		c.Put("conn", "")
		a := c.A()
		c.Put("conn", "1")
		return []CallRes{{A: a, Ret: NonNil}, {A: c.A(), Ret: NilV}}, true
	}
	rt, m := recvMethod(site, callee)
	if isDeadline(m) && len(args) > 0 {
		d.sink(c, site, m, args[len(args)-1], nil)
		return []CallRes{{A: c.A(), Ret: NilV}, {A: c.A(), Ret: NonNil}}, true
	}
	if rt == tSession {
		switch m {
		case "Codec":
			return one(TagV("codec"))
		case "Receive":
			if d.recv != nil {
				d.recv(c, site)
			}
			return []CallRes{{A: c.A(), Ret: TupleV(NonNil, NilV)}, {A: c.A(), Ret: TupleV(NilV, NonNil)}}, true
		}
	}
	for _, a := range cc.Args {
		d.state(c, a)
	}
	return nil, false
}

// seconds lists the settings up to 100 s that a path allows.
func seconds(a, x string) map[int]bool {
	out := map[int]bool{}
next:
	for n := -2; n <= 100; n++ {
		for k, v := range parseA(a) {
			if !strings.HasPrefix(k, "f:") {
				continue
			}
			t, op, w, ok := splitCmp(k[2:])
			if !ok {
				continue
			}
			scale := int64(1)
			switch t {
			case "cfg(" + x + ")":
			case "mul(cfg(" + x + ")^1000000000)":
				scale = second
			default:
				continue
			}
			m, err := strconv.ParseInt(w, 10, 64)
			if err != nil {
				continue
			}
			is, s := false, int64(n)*scale
			switch op {
			case "lt":
				is = s < m
			case "le":
				is = s <= m
			case "eq":
				is = s == m
			}
			if is != (v == "1") {
				continue next
			}
		}
		out[n] = true
	}
	return out
}

// signs: positive and other settings that a path allows.
func signs(a, x string) (pos, non int) {
	for n := range seconds(a, x) {
		if n > 0 {
			pos++
		} else {
			non++
		}
	}
	return
}

func init() {
	register("C63", "Every call that arms a timer, sleeps or sets a read deadline is reached by interpreting the function it is in (and, if the duration is a parameter, its callers) with the settings as symbols; the duration is compared with the setting which the timer stands for: told from the timer's function, from what its loop sends, from the state entered.", func(r *Report) {
		P := r.P
		r.Rule("setting", "the NOT-SELECTED timer is armed with T7, the link test ticker with the link test interval, a read deadline with T8, the pause before connecting again with T5 or the back-off, the timer of WAIT CRA with T3 (45 s if it is not positive) and that of WAIT DELAY with the configured establishment wait, each in seconds")
		r.Rule("exact", "wherever a duration is made from one of these settings it is that number of seconds")
		r.Rule("disabled", "a timer of the HSMS layer is armed only on paths on which its setting is positive, and no positive setting is treated as disabled")
		r.Rule("each read", "with a positive T8 and a codec that knows deadlines, each receive is preceded by a deadline set since the one before")
		r.Rule("idle", "T8 does not run before the first byte of a message")
		r.Rule("pause", "between a connection that was established and the next attempt to connect there is a pause, unless T5 is not positive")
		r.Rule("argument", "WaitForCommunicating and DialTimeout wait as long as their argument says")
		r.Assume("the runtime's timers fire when they should; how long a wait really lasts is not decided")
		st := P.named(pkgHsms, "SecsTimeout")
		t7 := P.method(pkgHsms, "ConnectionStateMachine", "TimeoutT7")
		if !r.Anchor(st != nil && t7 != nil, "SecsTimeout and ConnectionStateMachine.TimeoutT7") {
			return
		}
		d := &durs{P: P, setting: map[string]string{}}
		for _, m := range P.methodsOf(pkgHsms, "SecsTimeout") {
			if len(m.Params) != 1 || m.Signature.Results().Len() != 1 {
				continue
			}
			for _, b := range m.Blocks {
				for _, ins := range b.Instrs {
					if fa, ok := ins.(*ssa.FieldAddr); ok {
						if o := ownerField(fa); strings.HasPrefix(o, "hsms.SecsTimeout.") {
							d.setting[o[strings.LastIndex(o, ".")+1:]] = m.Name()
						}
					}
				}
			}
		}
		callsTo := func(want *ssa.Function) func(ssa.Instruction) bool {
			return func(ins ssa.Instruction) bool {
				ci, ok := ins.(ssa.CallInstruction)
				return ok && ci.Common().StaticCallee() == want
			}
		}
		linkReq := P.fn(pkgAst, "NewHSMSMessageLinktestReq")
		r.Anchor(linkReq != nil, "ast.NewHSMSMessageLinktestReq")
		dials := func(ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() == nil {
				return false
			}
			n := ci.Common().StaticCallee().String()
			return n == "net.Dial" || n == "net.DialTimeout"
		}
		outer := func(f *ssa.Function) *ssa.Function {
			for f.Parent() != nil {
				f = f.Parent()
			}
			return f
		}
		d.dials = dials
		d.dial = func(c *Ctx, site ssa.CallInstruction) {
			if p, _ := signs(c.A(), "T5ConnSeparateTimeout"); p == 0 {
				return
			}
			r.Check(c.Get("conn") == "", "pause", P.fname(outer(c.Root())), P.ipos(site), "after a connection the next one is attempted without the pause of T5: "+c.Trace())
		}
		var waitCRA, waitDelay string
		for n, p := range map[string]*string{"CommunicationStateWaitCRA": &waitCRA, "CommunicationStateWaitDelay": &waitDelay} {
			if k, ok := P.byPkg[pkgGem].Members[n].(*ssa.NamedConst); ok {
				*p = k.Value.Value.ExactString()
			}
		}
		r.Anchor(waitCRA != "" && waitDelay != "", "the constants of WAIT CRA and WAIT DELAY")
		exact := map[string]bool{}   // kind and setting, seen exact
		sawWait := map[string]bool{} // fields that WAIT DELAY's timer takes its duration from
		var open map[*ssa.Function]bool
		kinds := map[*ssa.Function]map[string]bool{} // per root, the settings of its timers

		d.sink = func(c *Ctx, site ssa.CallInstruction, name string, v Val, cb *ssa.Function) {
			in := outer(site.Parent())
			root := outer(c.Root())
			pos := P.ipos(site)
			tag := tagOf(v)
			if strings.Contains(tag, "param(") {
				caller := false
				for _, s := range P.staticCallers(in) {
					caller = caller || s != nil
				}
				if !caller || root == in && root.Object() != nil && root.Object().Exported() {
					want := ""
					for i, p := range root.Params {
						if typeKey(p.Type()) == "time.Duration" {
							want = "param(" + itoa(i) + ")"
						}
					}
					r.Check(tag == want, "argument", P.fname(root), pos, P.fname(root)+" waits "+tag+" instead of the duration it is given")
				}
				open[in] = true
				if root != in {
					open[root] = true
				}
				return
			}
			if v.K == KConst && root.Object() != nil && root.Object().Exported() {
				for _, p := range root.Params {
					a, at := site.Common().Args, armers[name]
					if typeKey(p.Type()) == "time.Duration" && at < len(a) && joins(a[at], p, in, P) {
						r.Check(false, "argument", P.fname(root)+" fixed", pos, P.fname(root)+" waits a fixed "+tag+" ns instead of the duration it is given: "+c.Trace())
					}
				}
			}
			dl := isDeadline(name)
			if dl {
				if v.K == KStruct || v.K == KConst || v.K == KNil {
					return // no deadline
				}
				n, as := tagArgs(tag)
				if n == "at" && len(as) == 2 && as[0] == "now" {
					tag = as[1]
					c.Put("dl", "1")
				}
			}
			// which setting is it made from
			x, good := "", false
			if i := strings.Index(tag, "cfg("); i >= 0 {
				x = tag[i+4:]
				x = x[:strings.Index(x, ")")]
				good = tag == "mul(cfg("+x+")^1000000000)"
			}
			backoff := strings.Contains(tag, "cfg(ReconnectBackoff")
			if x != "" && !backoff {
				r.Check(good, "exact", P.fname(site.Parent())+" "+x, pos, "the duration "+tag+" is not the setting "+x+" in seconds")
			}
			if good && x == "T5ConnSeparateTimeout" {
				exact["T5"] = true
			}
			known := v.K == KTag || v.K == KConst
			want, kind := "", ""
			switch {
			case fnPkg(in) != nil && fnPkg(in).Path() == pkgHsms && cb != nil && P.reaches(cb, callsTo(t7)):
				want, kind = "T7NotSelectTimeout", "the NOT-SELECTED timer"
			case dl && fnPkg(in) != nil && fnPkg(in).Path() == pkgHsms:
				want, kind = "T8NetworkIntercharTimeout", "a read deadline"
			case (name == "time.NewTicker" || name == "time.Tick") && linkReq != nil && (P.syncReaches(in, callsTo(linkReq)) || P.syncReaches(root, callsTo(linkReq))):
				want, kind = "Linktest", "the link test ticker"
			case (name == "time.Sleep" || name == "time.After" || name == "time.NewTimer") && (P.syncReaches(in, dials) || P.syncReaches(root, dials)):
				c.Put("conn", "")
				if x != "" && !backoff {
					r.Check(x == "T5ConnSeparateTimeout", "setting", "pause "+P.fname(site.Parent()), pos, "the pause before connecting again is made from the setting "+x+" instead of T5: "+c.Trace())
				}
				return
			case name == "time.AfterFunc" && c.Get("cs") == waitCRA:
				if k, ok := v.IsInt(); ok {
					pos2, _ := signs(c.A(), "T3ReplyTimeout")
					r.Check(pos2 == 0 && k == 45*second, "setting", "WAIT CRA default", pos, "the timer of WAIT CRA is armed with a fixed "+strconv.FormatInt(k, 10)+" ns: "+c.Trace())
					return
				}
				if !known {
					r.Count("undecided", 1)
					return
				}
				p, non := signs(c.A(), "T3ReplyTimeout")
				if r.Check(good && x == "T3ReplyTimeout" && non == 0 && p > 0, "setting", "WAIT CRA", pos, "the timer of WAIT CRA is armed with "+tag+" instead of T3: "+c.Trace()) {
					exact["WAIT CRA"] = true
				}
				return
			case name == "time.AfterFunc" && c.Get("cs") == waitDelay:
				if !known {
					r.Count("undecided", 1)
					return
				}
				n, as := tagArgs(tag)
				if r.Check(n == "fld" && len(as) == 1, "setting", "WAIT DELAY", pos, "the timer of WAIT DELAY is armed with "+tag+": "+c.Trace()) {
					sawWait[as[0]] = true
					exact["WAIT DELAY"] = true
				}
				return
			}
			if want == "" {
				return
			}
			if kinds[root] == nil {
				kinds[root] = map[string]bool{}
			}
			kinds[root][want] = true
			c.Put("armed", "1")
			if !known {
				r.Count("undecided", 1)
				return
			}
			if r.Check(good && x == want, "setting", kind, pos, kind+" is armed with "+tag+" instead of "+want+": "+c.Trace()) {
				exact[want] = true
				_, non := signs(c.A(), want)
				r.Check(non == 0, "disabled", kind, pos, kind+" is armed although "+want+" may not be positive: "+c.Trace())
			}
		}
		d.recv = func(c *Ctx, site ssa.CallInstruction) {
			if fnPkg(outer(site.Parent())) == nil || fnPkg(outer(site.Parent())).Path() != pkgHsms {
				return
			}
			m := parseA(c.A())
			p, non := signs(c.A(), "T8NetworkIntercharTimeout")
			can := false
			for k, v := range m {
				can = can || strings.HasPrefix(k, "f:is(codec|") && v == "1"
			}
			if p > 0 && non == 0 && can {
				r.Check(m["dl"] != "1", "idle", "receive loop", P.ipos(site), "the T8 deadline is already running while the next message is awaited, so that a connection on which nothing is sent for T8 is closed: "+c.Trace())
				r.Check(m["dl"] == "1", "each read", P.fname(site.Parent()), P.ipos(site), "a message is received without a deadline set for it although T8 is positive: "+c.Trace())
			}
			c.Put("dl", "")
		}

		todo := map[*ssa.Function]bool{}
		for _, f := range P.funcs {
			if !P.isLibFn(f) || fnPkg(f) == nil || fnPkg(f).Path() == pkgHsms+"x" {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok && armsAt(ci) {
						todo[outer(f)] = true
					}
				}
			}
		}
		done := map[*ssa.Function]bool{}
		for round := 0; round < 4; round++ {
			var fs []*ssa.Function
			for f := range todo {
				if !done[f] {
					fs = append(fs, f)
				}
			}
			sort.Slice(fs, func(i, j int) bool { return P.fname(fs[i]) < P.fname(fs[j]) })
			todo = map[*ssa.Function]bool{}
			for _, f := range fs {
				done[f] = true
				open = map[*ssa.Function]bool{}
				d.family = map[*ssa.Function]bool{}
				var add func(f *ssa.Function)
				add = func(f *ssa.Function) {
					d.family[f] = true
					for _, a := range f.AnonFuncs {
						add(a)
					}
				}
				add(f)
				e := NewEngine(P, d)
				e.SymCmp = true
				args := make([]Val, len(f.Params))
				for i, p := range f.Params {
					switch p.Type().Underlying().(type) {
					case *types.Pointer:
						if i == 0 && f.Signature.Recv() != nil {
							args[i] = Val{K: KAddr, Site: p}
						}
					case *types.Basic:
						if typeKey(p.Type()) == "time.Duration" || isInteger(p.Type()) {
							args[i] = TagV("param(" + itoa(i) + ")")
						}
					}
				}
				for _, o := range e.Run(f, "", args...) {
					if o.Panicked {
						continue
					}
					for x := range kinds[f] {
						p, _ := signs(o.A, x)
						if parseA(o.A)["armed"] == "" && p > 0 && p < 100 {
							r.Bad("disabled", "positive "+x, P.pos(f.Pos()), P.fname(f)+" does not arm its timer for some positive settings of "+x+": "+traceString(o.tr))
						}
					}
				}
				r.SawEngine(e)
				// the durations that callers give
				for g := range open {
					for _, s := range P.staticCallers(g) {
						todo[outer(s.Parent())] = true
					}
				}
			}
		}
		// where the establishment wait comes from
		for f := range sawWait {
			n := 0
			for _, g := range P.funcs {
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						s, ok := ins.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := s.Addr.(*ssa.FieldAddr)
						if !ok || ownerField(fa) != f {
							continue
						}
						n++
						r.Check(fromField(s.Val, "gem.Options.EstablishCommunicationWait"), "setting", "establishment wait", P.ipos(s), "the wait of WAIT DELAY is stored from something else than Options.EstablishCommunicationWait")
					}
				}
			}
			r.Check(n > 0 || f == "gem.Options.EstablishCommunicationWait", "setting", "establishment wait stored", "-", "the wait of WAIT DELAY, "+f+", is never stored")
		}
		for _, x := range []string{"T7NotSelectTimeout", "T8NetworkIntercharTimeout", "Linktest", "T5", "WAIT CRA", "WAIT DELAY"} {
			r.Check(exact[x], "setting", x+" is used", "-", "no timer or wait is armed with "+x)
		}
		r.Floor("setting", 6)
		r.Floor("argument", 2)
	})
}

// joins: on other paths the value is the parameter (in, if it is not the
// parameter's function, is called with it).
func joins(v ssa.Value, p *ssa.Parameter, in *ssa.Function, P *Program) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == p || e != v && joins(e, p, in, P) {
				return true
			}
		}
	case *ssa.ChangeType:
		return joins(x.X, p, in, P)
	case *ssa.Parameter:
		if x == p {
			return true
		}
		if x.Parent() != in || p.Parent() == in {
			return false
		}
		for i, q := range in.Params {
			for _, s := range P.staticCallers(in) {
				if q == x && s != nil && s.Parent() == p.Parent() && i < len(s.Common().Args) && joins(s.Common().Args[i], p, p.Parent(), P) {
					return true
				}
			}
		}
	}
	return false
}

// fromField: the value is what the field holds.
func fromField(v ssa.Value, field string) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return ownerField(fa) == field
		}
	case *ssa.Field:
		st, ok := x.X.Type().Underlying().(*types.Struct)
		return ok && shortType(typeKey(x.X.Type()))+"."+st.Field(x.Field).Name() == field
	case *ssa.ChangeType:
		return fromField(x.X, field)
	}
	return false
}
