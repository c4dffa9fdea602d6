package main

import (
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// connectedFlag finds the atomic field that the exported Connected() reports.
func (P *Program) connectedFlag() string {
	f := P.method(pkgHsms, "HsmsProtocol", "Connected")
	if f == nil {
		return ""
	}
	out := ""
	h := newHM(P)
	h.acc = func(c *Ctx, site ssa.CallInstruction, method string, recv Val) ([]CallRes, bool) {
		if strings.HasPrefix(method, "Load:") {
			out = method[5:]
		}
		return nil, false
	}
	newHMEngine(P, h).Run(f, "", Val{K: KAddr, Site: f.Params[0]})
	return out
}

// connectedDefault: without an exported query, the flag is the Bool that both
// the establishment of a connection sets and every refusal of a send reads.
func (P *Program) connFlag() string {
	if f := P.connectedFlag(); f != "" {
		return f
	}
	set := map[string]bool{}
	if f := P.method(pkgHsms, "HsmsProtocol", "OnConnectionEstablished"); f != nil {
		h := newHM(P)
		h.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
			if strings.HasPrefix(kind, "store:") && len(args) == 1 {
				if b, ok := args[0].IsBool(); ok && b {
					set[kind[6:]] = true
				}
			}
		}
		newHMEngine(P, h).Run(f, "", Val{K: KAddr, Site: f.Params[0]})
	}
	for k := range set {
		return k
	}
	return ""
}

type ctlCase struct {
	v     avars
	name  string
	tx    []string // kinds, with "/0" or "/!0" for the status
	state []string // allowed final states
	close int      // 1: the connection must be closed, 0: must not be
}

func init() {
	register("C09", "Abstract interpretation of the receive loop for every kind of control message x connected flag x session id match x status x connection state: messages built and sent, state machine transitions and session closes are recorded on every path and compared with the table SEMI E37 prescribes.", func(r *Report) {
		P := r.P
		r.Rule("answer", "the messages transmitted in answer to a control message are exactly those of the table, built from that message and with the prescribed status")
		r.Rule("transition", "the connection state after processing is the one of the table")
		r.Rule("close", "the connection is closed exactly where the table says so")
		x := newRX(r)
		if x == nil {
			return
		}
		x.connF = P.connFlag()
		if !r.Anchor(x.connF != "", "the flag behind HsmsProtocol (connected)") {
			return
		}
		NC, NS, SE := stNotConnected, stNotSelected, stSelected
		var cases []ctlCase
		add := func(name string, v avars, cl int, tx []string, st ...string) {
			v["case"] = strconv.Itoa(len(cases))
			if v["sid cfg"] == "" {
				v["sid cfg"], v["sid in"] = "5", "5"
			}
			cases = append(cases, ctlCase{v, name, tx, st, cl})
			x.variants = append(x.variants, v)
		}
		for _, S := range []string{NS, SE} {
			add("select.req", avars{"k": "select.req", "conn": "1", "S": S}, 0, []string{"select.rsp/0"}, SE)
			add("select.req with a wrong session id", avars{"k": "select.req", "conn": "1", "S": S, "sid cfg": "5", "sid in": "7"}, 1, []string{"select.rsp/!0"}, NC)
			add("deselect.req", avars{"k": "deselect.req", "conn": "1", "S": S}, 0, []string{"deselect.rsp/0"}, NS)
			add("linktest.req", avars{"k": "linktest.req", "conn": "1", "S": S, "sid cfg": "5", "sid in": "65535"}, 0, []string{"linktest.rsp"}, S)
			add("separate.req", avars{"k": "separate.req", "conn": "1", "S": S}, 1, nil, NC)
			for _, st := range []string{"0", "1", "3", "255"} {
				to, cl, dto := SE, 0, NS
				if st != "0" {
					to, cl, dto = NC, 1, S
				}
				add("select.rsp with status "+st, avars{"k": "select.rsp", "conn": "1", "S": S, "status": st}, cl, nil, to)
				add("deselect.rsp with status "+st, avars{"k": "deselect.rsp", "conn": "1", "S": S, "status": st}, 0, nil, dto)
			}
			add("linktest.rsp", avars{"k": "linktest.rsp", "conn": "1", "S": S}, 0, nil, S)
			add("reject.req", avars{"k": "reject.req", "conn": "1", "S": S, "status": "4"}, 0, nil, S)
		}
		for _, k := range []string{"select.req", "deselect.req", "linktest.req"} {
			add(k+" before the connection is up", avars{"k": k, "conn": "0", "S": NC}, 0, []string{"reject.req"}, NC)
		}
		at := map[string]string{}
		sent := map[string]bool{}
		x.done = func(m avars, where string) {
			i, _ := strconv.Atoi(m["case"])
			c := cases[i]
			pos := at[m["case"]]
			if pos == "" {
				pos = P.pos(x.root.Pos())
			}
			got := strings.Trim(m["sent"], ",")
			var want []string
			for _, w := range c.tx {
				want = append(want, w)
			}
			ok := len(want) == len(c.tx)
			var g []string
			if got != "" {
				g = strings.Split(got, ",")
			}
			ok = len(g) == len(want)
			for j := 0; ok && j < len(g); j++ {
				k, st, _ := strings.Cut(g[j], "/")
				wk, ws, _ := strings.Cut(want[j], "/")
				ok = k == wk
				switch ws {
				case "0":
					ok = ok && st == "0"
				case "!0":
					ok = ok && st != "0" && st != ""
				}
			}
			S := c.v["S"]
			r.Check(ok, "answer", c.name+" in "+S, pos, c.name+" received in "+S+" is answered with ["+got+"], expected ["+strings.Join(want, " ")+"] (/x is the status)")
			r.Check(len(c.state) == 1 && m["S"] == c.state[0], "transition", c.name+" in "+S, pos, c.name+" received in "+S+" leads to "+m["S"]+", expected "+strings.Join(c.state, "/"))
			if c.close == 1 {
				r.Check(m["close"] != "", "close", c.name+" in "+S, pos, c.name+" received in "+S+" does not close the connection")
			} else {
				r.Check(m["close"] == "", "close", c.name+" in "+S, pos, c.name+" received in "+S+" closes the connection")
			}
			sent[c.name] = true
		}
		x.hm.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
			if site == nil {
				return
			}
			id := c.Get("case")
			if id == "" {
				return
			}
			switch kind {
			case "store:" + x.connF:
				if b, ok := args[0].IsBool(); ok {
					v := "0"
					if b {
						v = "1"
					}
					c.Put("conn", v)
				}
			case "close":
				c.Put("close", "1")
			case "tx":
				at[id] = P.ipos(site)
				t := tagOf(payloadOf(args))
				what := strings.TrimPrefix(t, "bytes:")
				k := msgKind(what)
				a := attr(what, "args")
				st := ""
				if j := strings.LastIndex(a, ","); j >= 0 {
					st = a[j+1:]
				}
				r.Check(k != "" && k != "data" && strings.HasPrefix(a, "m:in."), "answer", "derived from the request in "+P.fname(c.fn), P.ipos(site), "the message sent in answer to a "+c.Get("k")+" is "+t+", not built from the message received")
				if c.Get("close") != "" {
					k = "(after the connection was closed) " + k
				}
				c.Put("sent", c.Get("sent")+","+k+"/"+st)
			}
		}
		x.run()
		for _, c := range cases {
			r.Anchor(sent[c.name], "the processing of "+c.name)
		}
		r.Floor("answer", 10)
		r.Floor("transition", 10)
	})

	register("C10", "The state machine definition is evaluated from the source and compared with the E37 relation; every callback and every path on which the receive loop ends is interpreted abstractly, with the state, the T7 timer, the connected flag and the link test as typestates.", func(r *Report) {
		P := r.P
		r.Rule("relation", "the transitions defined are exactly those of E37 and the initial state is NOT-CONNECTED")
		r.Rule("method", "each transition method of the state machine requests its own event")
		r.Rule("t7-armed", "after entering NOT-SELECTED the T7 timer runs with the T7 duration (when it is positive)")
		r.Rule("t7-disarmed", "entering SELECTED or NOT-CONNECTED stops the T7 timer")
		r.Rule("disconnected", "entering NOT-CONNECTED clears the connected flag and stops the link test")
		r.Rule("loop-end", "the state is NOT-CONNECTED whenever the receive loop of an established connection ends")
		tab := P.fsmTable()
		if !r.Anchor(tab.site != nil, "the state machine definition (fsm.NewFSM)") {
			return
		}
		pos := P.ipos(tab.site)
		NC, NS, SE := stNotConnected, stNotSelected, stSelected
		r.Check(tab.initial == NC, "relation", "initial", pos, "the initial state is "+tab.initial)
		// the relation per exported method
		want := map[string]map[string]string{
			"Connect":    {NC: NS},
			"Disconnect": {NS: NC, SE: NC},
			"Select":     {NS: SE},
			"Deselect":   {SE: NS},
			"TimeoutT7":  {NS: NC},
		}
		evOf := map[string]string{}
		for name, rel := range want {
			f := P.method(pkgHsms, "ConnectionStateMachine", name)
			if !r.Anchor(f != nil, "ConnectionStateMachine."+name) {
				continue
			}
			for _, S := range []string{NC, NS, SE} {
				h := newHM(P)
				h.noCallbacks = true
				h.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
					if kind == "fsm" {
						s, _ := args[0].IsStr()
						evOf[name] = s
						c.Put("asked", "1")
					}
				}
				e := newHMEngine(P, h)
				for _, o := range e.Run(f, "S="+S+";", Val{K: KAddr, Site: f.Params[0]}) {
					if o.Panicked {
						continue
					}
					m := parseA(o.A)
					to, allowed := rel[S]
					if allowed {
						r.Check(m["S"] == to, "method", name+" in "+S, P.pos(f.Pos()), name+" in state "+S+" leads to "+m["S"]+", expected "+to)
						r.Check(len(o.Rets) == 0 || o.Rets[0].K == KNil, "method", name+" result in "+S, P.pos(f.Pos()), name+" in state "+S+" reports an error")
					} else {
						r.Check(m["S"] == S, "method", name+" in "+S, P.pos(f.Pos()), name+" in state "+S+" leads to "+m["S"]+", expected no transition")
						r.Check(len(o.Rets) == 0 || o.Rets[0].nonnil(), "method", name+" result in "+S, P.pos(f.Pos()), name+" in state "+S+" does not report an error")
					}
				}
				r.SawEngine(e)
			}
		}
		// nothing else is defined
		allowed := map[string]bool{}
		for name, rel := range want {
			for s, d := range rel {
				allowed[s+"|"+evOf[name]+"|"+d] = true
			}
		}
		var ks []string
		for k := range tab.trans {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r.Check(allowed[k+"|"+tab.trans[k]], "relation", k, pos, "the machine defines the transition "+k+" -> "+tab.trans[k]+", which E37 does not have")
		}
		c10Callbacks(r, evOf)
		c10LoopEnd(r)
		r.Floor("relation", 6)
		r.Floor("method", 15)
	})
}

// c10Callbacks runs every transition from every state with its callbacks.
func c10Callbacks(r *Report, evOf map[string]string) {
	P := r.P
	connF := P.connFlag()
	if !r.Anchor(connF != "", "the connected flag") {
		return
	}
	ltStop, stops := P.linktestStop(), P.stopFields()
	for _, name := range []string{"Connect", "Disconnect", "Select", "Deselect", "TimeoutT7"} {
		f := P.method(pkgHsms, "ConnectionStateMachine", name)
		if f == nil {
			continue
		}
		for _, S := range []string{stNotConnected, stNotSelected, stSelected} {
			h := newHM(P)
			rxLoad := (&rx{hm: h}).doLoad
			h.load = func(c *Ctx, ld *ssa.UnOp) (Val, bool) {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && stops[ownerField(fa)] {
					return NonNil, true
				}
				return rxLoad(c, ld)
			}
			at := P.pos(f.Pos())
			h.extra = func(c *Ctx, site ssa.CallInstruction, n string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
				if n == "(*time.Timer).Stop" {
					at = P.ipos(site)
					c.Put("t7", "stopped")
					return []CallRes{{A: c.A(), Ret: Top}}, true
				}
				if ltStop[site] {
					c.Put("lt", "stopped")
				}
				if n == "(*time.Ticker).Stop" {
					c.Put("lt", "stopped")
				}
				return P.timeoutConst(c, callee)
			}
			h.instr = func(c *Ctx, ins ssa.Instruction) {
				if ltStop[ins] {
					c.Put("lt", "stopped")
				}
			}
			h.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
				switch kind {
				case "afterfunc":
					at = P.ipos(site)
					d, _ := args[0].IsInt()
					c.Put("t7", "armed "+strconv.FormatInt(d, 10))
				case "store:" + connF:
					if b, ok := args[0].IsBool(); ok && !b {
						c.Put("conn", "cleared")
					} else {
						c.Put("conn", "set")
					}
				}
			}
			e := newHMEngine(P, h)
			for _, o := range e.Run(f, "S="+S+";", Val{K: KAddr, Site: f.Params[0]}) {
				m := parseA(o.A)
				if o.Panicked || m["S"] == S {
					continue
				}
				key := name + " from " + S
				switch m["S"] {
				case stNotSelected:
					r.Check(m["t7"] == "armed 7000000000", "t7-armed", key, at, "entering NOT-SELECTED by "+key+" leaves the T7 timer '"+m["t7"]+"', expected armed with T7 (7000000000 ns in the model)")
				case stSelected:
					r.Check(m["t7"] == "stopped", "t7-disarmed", key, at, "entering SELECTED by "+key+" leaves the T7 timer '"+m["t7"]+"'")
				case stNotConnected:
					r.Check(m["t7"] == "stopped", "t7-disarmed", key, at, "entering NOT-CONNECTED by "+key+" leaves the T7 timer '"+m["t7"]+"'")
					r.Check(m["conn"] == "cleared", "disconnected", key+": flag", at, "entering NOT-CONNECTED by "+key+" does not clear the connected flag")
					r.Check(m["lt"] == "stopped", "disconnected", key+": link test", at, "entering NOT-CONNECTED by "+key+" does not stop the link test")
				}
			}
			r.SawEngine(e)
		}
	}
	r.Floor("t7-armed", 2)
	r.Floor("t7-disarmed", 4)
	r.Floor("disconnected", 6)
}

// timeoutConst gives each SecsTimeout accessor a distinct number: T<n> -> n.
func (P *Program) timeoutConst(c *Ctx, callee *ssa.Function) ([]CallRes, bool) {
	if callee == nil || typeKeyRecv(callee) != pkgHsms+".SecsTimeout" || len(callee.Params) != 1 {
		return nil, false
	}
	n := callee.Name()
	if len(n) > 1 && n[0] == 'T' && n[1] >= '0' && n[1] <= '9' {
		return []CallRes{{A: c.A(), Ret: CInt(int64(n[1] - '0'))}}, true
	}
	if n == "Linktest" {
		return []CallRes{{A: c.A(), Ret: CInt(11)}}, true
	}
	return nil, false
}

// linktestStop: the instructions that signal the link-test loop to end. The
// loop is the function that ranges over / selects on a Ticker's channel; every
// other channel it selects on is a stop channel, and a send to or a close of
// the struct field such a channel is loaded from is a stop signal.
func (P *Program) linktestStop() map[ssa.Instruction]bool {
	fields := P.stopFields()
	out := map[ssa.Instruction]bool{}
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Send:
					if fields[chanField(x.Chan)] {
						out[ins] = true
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Send != nil && fields[chanField(s.Chan)] {
							out[ins] = true
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && fields[chanField(x.Common().Args[0])] {
						out[ins] = true
					}
				}
			}
		}
	}
	return out
}

func chanField(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if strings.HasSuffix(typeKey(fa.X.Type()), "time.Ticker") {
				return ""
			}
			return ownerField(fa)
		}
	case *ssa.ChangeType:
		return chanField(x.X)
	case *ssa.MakeInterface:
		return chanField(x.X)
	}
	return ""
}

// c10LoopEnd: the state when the receive loop's function returns.
func c10LoopEnd(r *Report) {
	P := r.P
	x := newRX(r)
	if x == nil {
		return
	}
	x.variants = []avars{}
	h := x.hm
	h.recv = func(c *Ctx) []CallRes {
		// the state may have become anything meanwhile, and after the message
		a := withA(c.A(), "S", "")
		return []CallRes{{A: a, Ret: TupleV(TagV("m:in.data"), NilV)}, {A: a, Ret: TupleV(NilV, NonNil)}}
	}
	h.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
		if kind == "fsm" && c.Get("up") == "" {
			c.Put("up", "1")
		}
	}
	h.acc = func(c *Ctx, site ssa.CallInstruction, method string, recv Val) ([]CallRes, bool) {
		if strings.HasPrefix(method, "Load:") {
			return nil, false
		}
		return x.doAcc(c, site, method, recv)
	}
	e := newHMEngine(P, h)
	args := make([]Val, len(x.root.Params))
	args[0] = Val{K: KAddr, Site: x.root.Params[0]}
	for i := 1; i < len(args); i++ {
		args[i] = NonNil
	}
	n := 0
	for _, o := range e.Run(x.root, "", args...) {
		m := parseA(o.A)
		if o.Panicked || m["up"] == "" {
			continue
		}
		n++
		pos := P.pos(x.root.Pos())
		if o.ret != nil {
			pos = P.ipos(o.ret)
		}
		r.Check(m["S"] == stNotConnected, "loop-end", P.fname(x.root), pos, "the receive loop can end with the state machine in '"+m["S"]+"' (empty: unknown): "+traceString(o.tr))
	}
	r.SawEngine(e)
	r.Anchor(n > 0, "a path on which the receive loop ends")
}
