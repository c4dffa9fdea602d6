package main

import (
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const stSelected = "CONNECTED_SELECTED"
const stNotSelected = "CONNECTED_NOT-SELECTED"
const stNotConnected = "NOT-CONNECTED"

// rx analyses the receive loop message by message: at every Receive the
// automaton is reset to one of the given variants of the next message, and
// `done` is told the automaton state in which its processing ended.
type rx struct {
	*hm
	r        *Report
	root     *ssa.Function
	variants []avars // variables of each possible next message; "k" is its kind
	done     func(m avars, where string)
	handlers bool // handlers may be registered
	connF    string
}

func newRX(r *Report) *rx {
	x := &rx{hm: newHM(r.P), r: r, handlers: true}
	x.root = r.P.method(pkgHsms, "HsmsProtocol", "OnConnectionEstablishedAndStartReceiver")
	if !r.Anchor(x.root != nil, "HsmsProtocol.OnConnectionEstablishedAndStartReceiver (the receive loop)") {
		return nil
	}
	x.hm.recv = x.doRecv
	x.hm.fork = x.doFork
	x.hm.acc = x.doAcc
	x.hm.load = x.doLoad
	return x
}

// sessionsExist: sessions and timers held in fields are there.
func (x *rx) doLoad(c *Ctx, ld *ssa.UnOp) (Val, bool) {
	switch typeKey(ld.Type()) {
	case tSession, "time.Timer", "time.Ticker":
		if isFieldLoad(ld) {
			return NonNil, true
		}
	}
	return Top, false
}

func isFieldLoad(ld *ssa.UnOp) bool {
	_, ok := ld.X.(*ssa.FieldAddr)
	return ok
}

func (x *rx) doRecv(c *Ctx) []CallRes {
	m := parseA(c.A())
	if m["k"] != "" && m["k"] != "err" {
		x.done(m, "the next Receive")
	}
	var out []CallRes
	keep := avars{}
	for k, v := range m {
		if strings.HasPrefix(k, "keep ") {
			keep[k] = v
		}
	}
	for _, v := range x.variants {
		n := avars{}
		for k, w := range keep {
			n[k] = w
		}
		for k, w := range v {
			n[k] = w
		}
		out = append(out, CallRes{A: n.String(), Ret: TupleV(TagV("m:in."+v["k"]), NilV)})
	}
	e := avars{"k": "err"}
	for k, w := range keep {
		e[k] = w
	}
	out = append(out, CallRes{A: e.String(), Ret: TupleV(NilV, NonNil)})
	return out
}

func (x *rx) doAcc(c *Ctx, site ssa.CallInstruction, method string, recv Val) ([]CallRes, bool) {
	one := func(v Val) ([]CallRes, bool) { return []CallRes{{A: c.A(), Ret: v}}, true }
	m := parseA(c.A())
	if strings.HasPrefix(method, "Load:") {
		f := method[5:]
		if site != nil && len(site.Common().Args) > 0 {
			if !strings.HasSuffix(typeKey(site.Common().Args[0].Type()), ".Bool") {
				if v := m["sid cfg"]; v != "" {
					n, _ := strconv.Atoi(v)
					return one(CInt(int64(n)))
				}
				return nil, false
			}
		}
		if f == x.connF && m["conn"] != "" {
			return one(CBool(m["conn"] == "1"))
		}
		return one(CBool(true))
	}
	if recv.K != KTag || !strings.HasPrefix(recv.Tag, "m:in.") {
		return nil, false
	}
	kind := recv.Tag[5:]
	num := func(k string) ([]CallRes, bool) {
		if v := m[k]; v != "" {
			n, _ := strconv.Atoi(v)
			return one(CInt(int64(n)))
		}
		return nil, false
	}
	switch method {
	case "Type":
		if kind == "data" {
			return one(CStr("data message"))
		}
		return one(CStr(kind))
	case "StreamCode":
		return num("st")
	case "FunctionCode":
		return num("fn")
	case "SessionID":
		return num("sid in")
	case "Status":
		return num("status")
	}
	return nil, false
}

func (x *rx) doFork(c *Ctx, ins ssa.Instruction) ([]CallRes, bool) {
	ret := func(ok bool, comma bool, v Val) Val {
		if comma {
			return TupleV(v, CBool(ok))
		}
		return v
	}
	switch y := ins.(type) {
	case *ssa.Lookup:
		switch {
		case isTable(y.X.Type()):
			k := tagOf(c.sysOf(c.Val(y.Index)))
			return []CallRes{
				{A: withA(c.A(), "q", k), Ret: ret(true, y.CommaOk, TagV("q["+k+"]"))},
				{A: withA(c.A(), "q", "none"), Ret: ret(false, y.CommaOk, NilV)},
			}, true
		case isHandlerMap(y.X.Type()):
			k := c.e.key(c.Val(y.Index))
			out := []CallRes{{A: withA(c.A(), "h", "none"), Ret: ret(false, y.CommaOk, NilV)}}
			if x.handlers {
				out = append(out, CallRes{A: withA(c.A(), "h", k), Ret: ret(true, y.CommaOk, TagV("handler["+k+"]"))})
			}
			return out, true
		}
	case *ssa.UnOp:
		if typeKey(y.Type()) != tHandler || !isFieldLoad(y) {
			return nil, false
		}
		d := c.Get("d")
		var out []CallRes
		if d != "set" {
			out = append(out, CallRes{A: withA(c.A(), "d", "nil"), Ret: NilV})
		}
		if d != "nil" && x.handlers {
			out = append(out, CallRes{A: withA(c.A(), "d", "set"), Ret: TagV("defaulthandler")})
		}
		return out, true
	}
	return nil, false
}

func (x *rx) run() *Engine {
	e := newHMEngine(x.r.P, x.hm)
	args := make([]Val, len(x.root.Params))
	args[0] = Val{K: KAddr, Site: x.root.Params[0]}
	for i := 1; i < len(args); i++ {
		args[i] = NonNil
	}
	for _, o := range e.Run(x.root, "", args...) {
		if o.Panicked {
			continue
		}
		m := parseA(o.A)
		if m["k"] != "" && m["k"] != "err" {
			x.done(m, "the end of the loop")
		}
	}
	x.r.SawEngine(e)
	x.r.Anchor(len(e.Overflow) == 0, "an exact exploration of the receive loop (too many states)")
	return e
}

func inc(c *Ctx, k string) {
	n, _ := strconv.Atoi(c.Get(k))
	if n < 3 {
		c.Put(k, strconv.Itoa(n+1))
	}
}

var newRe = regexp.MustCompile(`new s=(\S+) f=(\S+) w=([^ })]+)`)

func init() {
	register("C08", "Path-sensitive analysis of every path from every entry point of the protocol and GEM layers: the connection state is a tracked fact that only a query of the state machine (or a transition) establishes and that every blocking operation forgets; each transmission of a data message and each delivery of a received one must happen where the fact is SELECTED.", func(r *Report) {
		P := r.P
		r.Rule("send-selected", "a data message is handed to the session only where the connection state is known to be SELECTED")
		r.Rule("deliver-selected", "a received data message is given to a handler or to a waiting caller only where the connection state is known to be SELECTED")
		r.Rule("refused-with-error", "an exported operation that sends a data message returns a non-nil error on every path on which it sends nothing")
		r.Assume("between the check and the transmission another goroutine may leave SELECTED; the property is about the check")
		x := newRX(r)
		if x == nil {
			return
		}
		for _, k := range []string{"data", "select.req", "select.rsp", "deselect.rsp", "separate.req", "linktest.rsp"} {
			x.variants = append(x.variants, avars{"k": k})
		}
		x.done = func(avars, string) {}
		x.hm.acc = func(c *Ctx, site ssa.CallInstruction, method string, recv Val) ([]CallRes, bool) {
			if strings.HasPrefix(method, "Load:") {
				return nil, false
			}
			return x.doAcc(c, site, method, recv)
		}
		x.hm.load = nil
		x.hm.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
			if site == nil {
				return
			}
			pos := P.ipos(site)
			key := P.fname(c.fn) + " from " + P.fname(c.Root())
			msg := func(what string) string {
				s := c.Get("S")
				if s == "" {
					s = "not checked on this path"
				}
				return what + " while the connection state is " + s + " (via " + strings.Join(c.Stack(), " < ") + ")"
			}
			switch kind {
			case "recv", "get", "block":
				c.Put("S", "")
			case "tx":
				c.Put("tx", "1")
				p := payloadOf(args)
				if p.K == KTag && strings.HasPrefix(p.Tag, "bytes:ctl") || rawSend(c, p) {
					return
				}
				r.Check(c.Get("S") == stSelected, "send-selected", key, pos, msg("a data message is sent"))
			case "put":
				v := payloadOf(args)
				if v.K == KTag && msgKind(v.Tag) != "" && msgKind(v.Tag) != "data" {
					return
				}
				r.Check(c.Get("S") == stSelected, "deliver-selected", "put "+key, pos, msg("a received data message is given to a waiting caller"))
			case "handler":
				r.Check(c.Get("S") == stSelected, "deliver-selected", "handler "+key, pos, msg("a received data message is given to a handler"))
			}
		}
		e := newHMEngine(P, x.hm)
		for _, f := range P.protoRoots() {
			os := e.Run(f, "")
			if typeKeyRecv(f) != tProto || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() == 0 || !takesData(f) {
				continue
			}
			for _, o := range os {
				if o.Panicked || parseA(o.A)["tx"] != "" {
					continue
				}
				last := o.Rets[len(o.Rets)-1]
				pos := P.pos(f.Pos())
				if o.ret != nil {
					pos = P.ipos(o.ret)
				}
				r.Check(last.nonnil(), "refused-with-error", P.fname(f), pos, "returns without having sent the message and without a non-nil error")
			}
		}
		r.SawEngine(e)
		r.Floor("send-selected", 4)
		r.Floor("deliver-selected", 2)
		r.Floor("refused-with-error", 2)
	})

	register("C07", "Abstract interpretation of the receive loop, message by message: streams and functions are enumerated representatives, table and handler look-ups are forked, and the disposition of each message - waiter, specific handler, default handler, stream 9 error - is read off every path, together with the provenance of the bytes of each reply.", func(r *Report) {
		P := r.P
		r.Rule("waiter", "an even-function message is looked up in the table of open transactions by its own system bytes and, if an entry exists, given to it and to nobody else")
		r.Rule("primary", "an odd-function message is never given to a waiter; it goes to exactly the handler registered for its stream and function, else to the default handler")
		r.Rule("key", "look-ups use the key under which RegisterHandler stores a handler for that stream and function")
		r.Rule("reply", "each reply has the system bytes of the message it answers and the configured session id, and a response returned by a handler is sent exactly once")
		x := newRX(r)
		if x == nil {
			return
		}
		regKey := P.registeredKeys(r)
		for _, st := range []string{"1", "9", "77"} {
			for _, fn := range []string{"1", "2", "0", "255"} {
				x.variants = append(x.variants, avars{"k": "data", "st": st, "fn": fn, "S": stSelected})
			}
		}
		at := ""
		name := func(m avars) string { return "S" + m["st"] + "F" + m["fn"] }
		x.done = func(m avars, where string) {
			pos := at
			if pos == "" {
				pos = P.pos(x.root.Pos())
			}
			n, _ := strconv.Atoi(m["fn"])
			even := n%2 == 0
			good := "u32(sys(m:in.data))"
			where = " by " + where + " [q=" + m["q"] + " h=" + m["h"] + " d=" + m["d"] + "]"
			if even {
				switch {
				case m["q"] == "":
					r.Bad("waiter", "lookup", pos, "a secondary message ("+name(m)+") is not looked up in the table of open transactions"+where)
				case m["q"] == "none":
					r.Check(m["put"] == "", "waiter", "none", pos, "a message is put into a queue although there is no entry")
				default:
					r.Check(m["q"] == good, "waiter", "key", pos, "the table of open transactions is searched with "+m["q"]+" instead of the message's own system bytes")
					r.Check(m["put"] == "1" && m["hcall"] == "" && m["tx"] == "", "waiter", "delivered", pos, "a reply ("+name(m)+") whose waiter exists is given to it "+orZero(m["put"])+" times and to handlers "+orZero(m["hcall"])+" times"+where)
				}
				return
			}
			r.Check(m["put"] == "", "primary", "not to waiter", pos, "a primary message ("+name(m)+") is given to a waiting caller"+where)
			switch {
			case m["h"] == "":
				r.Bad("primary", "lookup", pos, "no handler is looked up for a primary message ("+name(m)+")"+where)
			case m["h"] != "none":
				r.Check(m["hcall"] == "1" && m["hwho"] == "specific", "primary", "specific", pos, "the handler registered for "+name(m)+" is called "+orZero(m["hcall"])+" times (last called: "+m["hwho"]+")"+where)
				r.Check(m["h"] == regKey(m["st"], m["fn"]), "key", "S"+m["st"], pos, "handlers are looked up with key "+m["h"]+" but registered for "+name(m)+" under "+regKey(m["st"], m["fn"]))
			case m["d"] == "set":
				r.Check(m["hcall"] == "1" && m["hwho"] == "default", "primary", "default", pos, "without a specific handler the default handler is called "+orZero(m["hcall"])+" times for "+name(m)+where)
			case m["d"] == "":
				r.Bad("primary", "default unused", pos, "the default handler is not considered for an unhandled "+name(m)+where)
			default:
				r.Check(m["hcall"] == "", "primary", "unhandled", pos, "a handler is called for "+name(m)+" although none is registered")
			}
			if m["rsp"] != "" {
				r.Check(m["tx"] == "1", "reply", "sent once", pos, "the response of the handler of "+name(m)+" is sent "+orZero(m["tx"])+" times")
			} else if m["hcall"] != "" {
				r.Check(m["tx"] == "", "reply", "no response", pos, "a message is sent although the handler of "+name(m)+" returned no response")
			}
		}
		x.hm.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
			if site == nil {
				return
			}
			pos := P.ipos(site)
			switch kind {
			case "put":
				at = pos
				inc(c, "put")
				q := tagOf(args[0])
				r.Check(strings.HasPrefix(q, "q["), "waiter", "queue "+P.fname(c.fn), pos, "puts a message into "+q)
				r.Check(tagOf(payloadOf(args)) == "m:in.data", "waiter", "payload "+P.fname(c.fn), pos, "puts "+tagOf(payloadOf(args))+" instead of the received message")
			case "handler":
				at = pos
				inc(c, "hcall")
				switch t := tagOf(args[0]); {
				case t == "defaulthandler":
					c.Put("hwho", "default")
				case strings.HasPrefix(t, "handler["):
					c.Put("hwho", "specific")
				default:
					c.Put("hwho", "unknown")
				}
				r.Check(len(args) > 1 && tagOf(args[1]) == "m:in.data", "primary", "argument "+P.fname(c.fn), pos, "the handler is called with something else than the received message")
			case "tx":
				at = pos
				inc(c, "tx")
				p := payloadOf(args)
				t := tagOf(p)
				r.Check(attr(t, "sys") == "sys(m:in.data)", "reply", "system bytes "+P.fname(c.fn), pos, "a reply is sent with system bytes "+attr(t, "sys")+" ("+t+")")
				r.Check(strings.HasPrefix(attr(t, "sid"), "?hsms.HsmsProtocol."), "reply", "session id "+P.fname(c.fn), pos, "a reply is sent with session id "+attr(t, "sid")+" instead of the configured one")
			}
		}
		x.run()
		r.Floor("waiter", 5)
		r.Floor("primary", 5)
		r.Floor("reply", 4)
		r.Floor("key", 2)
	})

	register("C25", "Enumeration of all 128 streams and representative functions through the receive loop by abstract interpretation (no handler registered), path analysis of the T3 expiry with bit-level provenance of the ten SHEAD bytes, and evaluation of the constants of every S9 builder.", func(r *Report) {
		P := r.P
		r.Rule("unhandled", "an unhandled odd-function message is answered with S9F3 (stream not recognised) or S9F5 (recognised), an even-function one and anything on stream 9 with nothing")
		r.Rule("no-wait", "every stream 9 message is sent without wait bit")
		r.Rule("builder", "BuildS9F<n> builds a stream 9 message with function n and no wait bit")
		r.Rule("t3", "when the wait for a reply fails while still selected, exactly one S9F9 is sent before the error is returned, and none otherwise")
		r.Rule("shead", "the ten bytes reported by S9F9 are the header of the request: session id, stream with wait bit, function, 0, 0, system bytes")
		known := map[int]bool{1: true, 2: true, 3: true, 4: true, 5: true, 6: true, 7: true, 8: true, 10: true, 12: true, 13: true, 14: true, 15: true, 16: true, 17: true, 21: true}
		r.Assume("the recognised streams are those SEMI E5 defines (1-10, 12-17, 21; 11 is not in use)")
		x := newRX(r)
		if x == nil {
			return
		}
		x.handlers = false
		for st := 0; st < 128; st++ {
			fns := []string{"1", "2"}
			if st == 9 || st == 2 || st == 77 {
				fns = []string{"0", "1", "2", "3", "5", "9", "10", "254", "255"}
			}
			for _, fn := range fns {
				x.variants = append(x.variants, avars{"k": "data", "st": strconv.Itoa(st), "fn": fn, "S": stSelected})
			}
		}
		at := P.pos(x.root.Pos())
		x.done = func(m avars, where string) {
			st, _ := strconv.Atoi(m["st"])
			fn, _ := strconv.Atoi(m["fn"])
			want := ""
			switch {
			case m["put"] != "", fn%2 == 0, st == 9:
			case known[st]:
				want = "S9F5"
			default:
				want = "S9F3"
			}
			got := strings.Trim(m["sent"], ",")
			cls := "even function"
			if fn%2 == 1 {
				cls = "unknown stream"
				if st == 9 {
					cls = "stream 9"
				} else if known[st] {
					cls = "known stream"
				}
			}
			r.Check(got == want, "unhandled", cls, at, "an unhandled S"+m["st"]+"F"+m["fn"]+" is answered with ["+got+"], expected ["+want+"]")
		}
		sent := func(c *Ctx, site ssa.CallInstruction, t string) string {
			pos := P.ipos(site)
			m := newRe.FindStringSubmatch(t)
			if m == nil {
				return "?"
			}
			if m[1] == "9" {
				w := attr(t, "wait")
				if w == "" {
					w = m[3]
				}
				r.Check(w == "0", "no-wait", P.fname(c.fn), pos, "a stream 9 message is sent with wait bit "+w)
			}
			return "S" + m[1] + "F" + m[2]
		}
		x.hm.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
			switch kind {
			case "put":
				c.Put("put", "1")
			case "tx":
				at = P.ipos(site)
				c.Put("sent", c.Get("sent")+","+sent(c, site, tagOf(payloadOf(args))))
			}
		}
		x.run()
		r.Floor("unhandled", 4)
		r.Floor("no-wait", 1)
		builderConsts(r)
		t3Rule(r, sent)
	})
}

func orZero(s string) string {
	if s == "" {
		return "0"
	}
	return s
}

func takesData(f *ssa.Function) bool {
	for _, p := range f.Params[1:] {
		if typeKey(p.Type()) == tData {
			return true
		}
	}
	return false
}

// registeredKeys: the key RegisterHandler stores a handler under.
func (P *Program) registeredKeys(r *Report) func(st, fn string) string {
	f := P.method(pkgHsms, "HsmsProtocol", "RegisterHandler")
	cache := map[string]string{}
	return func(st, fn string) string {
		k := st + "/" + fn
		if v, ok := cache[k]; ok {
			return v
		}
		got := "(none)"
		if f != nil && len(f.Params) == 4 {
			h := newHM(P)
			h.instr = func(c *Ctx, ins ssa.Instruction) {
				if mu, ok := ins.(*ssa.MapUpdate); ok && isHandlerMap(mu.Map.Type()) {
					got = c.e.key(c.Val(mu.Key))
				}
			}
			s, _ := strconv.Atoi(st)
			n, _ := strconv.Atoi(fn)
			e := newHMEngine(P, h)
			e.Run(f, "", Val{K: KAddr, Site: f.Params[0]}, CInt(int64(s)), CInt(int64(n)), NonNil)
		}
		cache[k] = got
		return got
	}
}

var buildS9 = regexp.MustCompile(`^BuildS9F(\d+)$`)

func builderConsts(r *Report) {
	P := r.P
	for _, f := range P.funcs {
		m := buildS9.FindStringSubmatch(f.Name())
		if m == nil || fnPkg(f).Path() != pkgHsms || f.Parent() != nil {
			continue
		}
		h := newHM(P)
		e := newHMEngine(P, h)
		for _, o := range e.Run(f, "") {
			if o.Panicked || len(o.Rets) != 1 {
				continue
			}
			t := tagOf(o.Rets[0])
			g := newRe.FindStringSubmatch(t)
			ok := g != nil && g[1] == "9" && g[2] == m[1] && (attr(t, "wait") == "" && g[3] == "0" || attr(t, "wait") == "0")
			r.Check(ok, "builder", f.Name(), P.pos(f.Pos()), f.Name()+" builds "+t)
		}
		r.SawEngine(e)
	}
	r.Floor("builder", 7)
}

// t3Rule analyses SendAndWait with the connection up.
func t3Rule(r *Report, sent func(*Ctx, ssa.CallInstruction, string) string) {
	P := r.P
	f := P.method(pkgHsms, "HsmsProtocol", "SendAndWait")
	if !r.Anchor(f != nil && len(f.Params) == 2, "HsmsProtocol.SendAndWait") {
		return
	}
	for _, wait := range []string{"true", "false", "optional"} {
		h := newHM(P)
		x := &rx{hm: h, r: r}
		h.load = x.doLoad
		h.acc = func(c *Ctx, site ssa.CallInstruction, method string, recv Val) ([]CallRes, bool) {
			one := func(v Val) ([]CallRes, bool) { return []CallRes{{A: c.A(), Ret: v}}, true }
			if strings.HasPrefix(method, "Load:") {
				if strings.HasSuffix(typeKey(site.Common().Args[0].Type()), ".Bool") {
					return one(CBool(true))
				}
				return nil, false
			}
			t := tagOf(recv)
			if recv.K != KTag || msgKind(t) != "data" {
				return nil, false
			}
			switch method {
			case "WaitBit":
				switch attr(t, "wait") {
				case "0":
					return one(CStr("false"))
				case "1":
					return one(CStr("true"))
				}
				return one(CStr(wait))
			case "StreamCode", "FunctionCode":
				return one(TagV(method))
			case "SessionID":
				if s := attr(t, "sid"); s != "" {
					return one(TagV(s))
				}
			case "SystemBytes":
				if s := attr(t, "sys"); s != "" {
					return one(TagV("SYS(" + s + ")"))
				}
			}
			return nil, false
		}
		var pos string
		h.extra = func(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
			if m, ok := c.e.binaryNode(c, callee, args); ok {
				return []CallRes{{A: c.A(), Ret: TagV("node{" + m + "}")}}, true
			}
			if callee != nil && callee.Signature.Recv() == nil && fnPkg(callee).Path() == pkgAst && len(args) == 8 {
				if s, _ := args[1].IsInt(); s == 9 {
					if n, _ := args[2].IsInt(); n == 9 {
						c.Put("head", strings.ReplaceAll(tagOf(args[5]), ";", "|"))
					}
				}
			}
			return nil, false
		}
		h.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
			switch kind {
			case "get":
				pos = P.ipos(site)
				c.Put("S", "")
				c.Put("got", "1")
			case "tx":
				t := tagOf(payloadOf(args))
				if c.Get("got") == "" {
					fr := freshIn(t)
					if len(fr) == 1 {
						c.Put("req", fr[0])
					}
					c.Put("rwait", attr(t, "wait"))
					return
				}
				c.Put("sent", c.Get("sent")+","+sent(c, site, t))
				if newRe.MatchString(t) {
					hd := c.Get("head")
					W := wait
					if c.Get("rwait") == "1" {
						W = "true"
					}
					want := sheadWant(W == "true", c.Get("req"))
					r.Check(hd == want[0] || hd == want[1], "shead", "wait="+W, P.ipos(site), "the header reported by S9F9 is ["+hd+"], expected ["+want[0]+"]")
				}
			}
		}
		e := newHMEngine(P, h)
		for _, o := range e.Run(f, "", Val{K: KAddr, Site: f.Params[0]}, TagV("m:out.data")) {
			m := parseA(o.A)
			if o.Panicked || m["got"] == "" {
				continue
			}
			last := o.Rets[len(o.Rets)-1]
			s9 := strings.Trim(m["sent"], ",")
			if m["expired"] == "1" {
				if m["S"] == stSelected || m["S"] == "" {
					r.Check(s9 == "S9F9", "t3", "expired", pos, "when the wait for the reply fails ["+s9+"] is sent instead of one S9F9")
				} else {
					r.Check(s9 == "" || s9 == "S9F9", "t3", "expired, deselected", pos, "when the wait for the reply fails ["+s9+"] is sent")
				}
				r.Check(last.nonnil(), "t3", "error", pos, "the caller gets no error when the wait for the reply fails")
			} else {
				r.Check(s9 == "", "t3", "answered", pos, "["+s9+"] is sent although the reply arrived")
			}
		}
		r.SawEngine(e)
	}
	r.Floor("t3", 3)
	r.Floor("shead", 1)
}

// sheadWant: the expected header bytes; the top bit of the stream byte may
// also be left to the stream code, which is below 128, when the wait bit is 0.
func sheadWant(w bool, req string) [2]string {
	mk := func(streamByte string) string {
		s := []string{"bits:?hsms.HsmsProtocol.sessionID#8x8", "bits:?hsms.HsmsProtocol.sessionID#0x8", streamByte, "bits:FunctionCode#0x8", "0", "0"}
		for i := 0; i < 4; i++ {
			s = append(s, "SYS("+req+")["+strconv.Itoa(i)+"]")
		}
		return "node{" + strings.Join(s, ",") + "}"
	}
	if w {
		return [2]string{mk("bits:StreamCode#0x7+#1x1"), mk("bits:StreamCode#0x7+#1x1")}
	}
	return [2]string{mk("bits:StreamCode#0x8"), mk("bits:StreamCode#0x7+#0x1")}
}

// binaryNode: the elements a binary item is built from.
func (e *Engine) binaryNode(c *Ctx, callee *ssa.Function, args []Val) (string, bool) {
	if callee == nil || callee.Signature.Recv() != nil || fnPkg(callee) == nil || fnPkg(callee).Path() != pkgAst || callee.Name() != "NewBinaryNode" || len(args) != 1 || args[0].K != KSlice {
		return "", false
	}
	var parts []string
	for i := 0; i < args[0].Len; i++ {
		v := e.load(c.st, Val{K: KAddr, Site: args[0].Site, Path: args[0].Path + "[" + itoa(args[0].Lo+i) + "]"}, anyType)
		parts = append(parts, tagOf(v))
	}
	return strings.Join(parts, ","), true
}
