package main

import (
	"go/token"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "Abstract interpretation of the receive loop and of every handler NewGemHandler registers (both roles), following every call made on the receiving goroutine and not entering goroutines started there: any operation that waits - for a queue, a channel, a condition, a timer or another Receive - is reported with its call path.", func(r *Report) {
		P := r.P
		r.Rule("no-wait", "no operation that can wait for a reply, a channel, a condition or time is executed while an incoming message is being processed")
		r.Assume("application callbacks and loggers are outside the library; the time a socket write takes is not a wait for another message")
		bad := func(c *Ctx, pos, what string) {
			r.Bad("no-wait", P.fname(c.fn)+" "+what, pos, what+" while an incoming message is being processed (via "+strings.Join(c.Stack(), " < ")+")")
		}
		hook := func(h *hm, on func(c *Ctx) bool) {
			h.instr = func(c *Ctx, ins ssa.Instruction) {
				if !on(c) {
					return
				}
				switch y := ins.(type) {
				case *ssa.UnOp:
					if y.Op == token.ARROW {
						bad(c, P.ipos(ins), "receives from a channel")
					}
				case *ssa.Send:
					bad(c, P.ipos(ins), "sends to a channel")
				case *ssa.Select:
					if y.Blocking {
						bad(c, P.ipos(ins), "waits in a select")
					}
				}
			}
		}
		// 1. the receive loop
		x := newRX(r)
		if x == nil {
			return
		}
		for _, k := range []string{"data", "select.req", "select.rsp", "deselect.req", "deselect.rsp", "linktest.req", "linktest.rsp", "separate.req", "reject.req", "undefined"} {
			x.variants = append(x.variants, avars{"k": k})
		}
		processed := map[string]bool{}
		x.done = func(m avars, where string) {
			processed[m["k"]] = true
			r.Good("no-wait", "processing of "+m["k"], P.pos(x.root.Pos()))
		}
		on := func(c *Ctx) bool { k := c.Get("k"); return k != "" && k != "err" }
		hook(x.hm, on)
		x.hm.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
			if site == nil || !on(c) {
				return
			}
			switch kind {
			case "get":
				bad(c, P.ipos(site), "waits for a reply")
			case "block":
				bad(c, P.ipos(site), "waits ("+callName(site, site.Common().StaticCallee())+")")
			case "recv":
				if c.Get("rsite") == "" || c.Get("rsite") != P.ipos(site) {
					if c.fn != x.root && c.Get("rsite") != "" {
						bad(c, P.ipos(site), "receives from the connection")
					}
				}
			}
		}
		x.run()
		for _, v := range x.variants {
			r.Anchor(processed[v["k"]], "the processing of a "+v["k"]+" message")
		}
		// 2. the handlers of the GEM layer
		regs := P.gemRegs(r)
		for _, g := range regs {
			m := newGM(P, g.role)
			m.hm.extra = m.more
			hook(m.hm, func(*Ctx) bool { return true })
			m.hm.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
				switch kind {
				case "get":
					bad(c, P.ipos(site), "waits for a reply")
				case "block":
					bad(c, P.ipos(site), "waits ("+callName(site, site.Common().StaticCallee())+")")
				case "recv":
					bad(c, P.ipos(site), "receives from the connection")
				}
			}
			e := newHMEngine(P, m.hm)
			e.run(g.fn, nil, nil, "", gemHandlerArgs(g.fn, TagV("m:in.data")), g.bind, nil, nil)
			r.Good("no-wait", "handler of "+g.sf()+" as "+shortRole(g.role), g.pos)
			r.SawEngine(e)
		}
		r.Floor("no-wait", 20)
	})

	register("C19", "Every handler NewGemHandler registers is interpreted abstractly as its role for a nil and a non-nil message; stream, function and wait bit of every message it returns or the library sends are constants read from the construction.", func(r *Report) {
		P := r.P
		r.Rule("secondary", "each non-nil reply of the handler of SxFy is an SxF(y+1) without wait bit")
		r.Rule("answered", "the handler of a request that must be answered never returns nil")
		r.Rule("primary", "each message sent on the library's own initiative has an odd function")
		must := map[string]bool{}
		for _, s := range strings.Fields("S1F1 S1F3 S1F11 S1F13 S1F15 S1F17 S2F13 S2F15 S2F17 S2F29 S2F31 S2F33 S2F35 S2F37 S2F41 S5F1 S5F3 S5F5 S5F7 S6F11 S6F15 S7F3 S7F5") {
			must[s] = true
		}
		n := 0
		primary := func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
			if how == "SendResponse" {
				return
			}
			_, f, _, ok := newData(tagOf(msg))
			k, _ := strconv.Atoi(f)
			if !ok && len(c.fn.Params) > 0 && typeKeyRecv(c.Root()) != tGem {
				return
			}
			r.Check(ok && k%2 == 1, "primary", P.fname(c.fn), P.ipos(site), "sends "+tagOf(msg)+" as a primary message")
		}
		for _, g := range P.gemRegs(r) {
			for _, in := range []Val{TagV("m:in.data"), NilV} {
				m := newGM(P, g.role)
				m.followGo = true
				m.send = primary
				e := newHMEngine(P, m.hm)
				pos := P.pos(g.fn.Pos())
				key := g.sf() + " as " + shortRole(g.role)
				for _, o := range e.run(g.fn, nil, nil, "", gemHandlerArgs(g.fn, in), g.bind, nil, nil) {
					if o.Panicked || len(o.Rets) != 2 {
						continue
					}
					n++
					at := pos
					if o.ret != nil {
						at = P.ipos(o.ret)
					}
					v := o.Rets[0]
					if v.K == KNil || v.K == KTop && !v.nonnil() && tagOf(v) == "unknown" {
						if v.K == KNil {
							if must[g.sf()] {
								r.Bad("answered", key, at, "the handler of "+g.sf()+" ("+P.fname(g.fn)+") can return without a reply")
							}
							continue
						}
					}
					s, f, w, ok := newData(tagOf(v))
					r.Check(ok, "secondary", key+": known", at, "the handler of "+g.sf()+" ("+P.fname(g.fn)+") returns "+tagOf(v)+", whose stream and function are not constants")
					if !ok {
						continue
					}
					r.Check(s == strconv.FormatInt(g.s, 10) && f == strconv.FormatInt(g.f+1, 10), "secondary", key, at, "the handler of "+g.sf()+" ("+P.fname(g.fn)+") replies with S"+s+"F"+f)
					r.Check(w == "0", "secondary", key+": wait bit", at, "the reply of the handler of "+g.sf()+" ("+P.fname(g.fn)+") has wait bit "+w)
					if must[g.sf()] {
						r.Good("answered", key, at)
					}
				}
				r.SawEngine(e)
			}
		}
		for _, role := range roles {
			for _, f := range P.gemOps() {
				m := newGM(P, role)
				m.followGo = true
				m.send = primary
				e := newHMEngine(P, m.hm)
				e.Run(f, "")
				r.SawEngine(e)
			}
		}
		r.Count("return paths", n)
		r.Floor("secondary", 40)
		r.Floor("answered", 20)
		r.Floor("primary", 15)
	})

	register("C20", "NewGemHandler is interpreted abstractly as each role and its registrations recorded on every path; the stream and function of every primary the library can send as a role are collected by interpreting every exported operation and every goroutine and timer entry as that role.", func(r *Report) {
		P := r.P
		r.Rule("registered", "each role registers exactly the handlers of the list, on every path on which a handler is created")
		r.Rule("own-operation", "no two registrations of a role share an operation")
		r.Rule("served", "every primary message a role can send is served by the other role")
		want := map[string]string{
			"DeviceEquipment": "S1F1 S1F3 S1F11 S1F13 S1F14 S1F15 S1F17 S2F13 S2F15 S2F17 S2F29 S2F31 S2F33 S2F35 S2F37 S2F41 S5F3 S5F5 S5F7 S6F15 S7F3 S7F5",
			"DeviceHost":      "S1F1 S1F13 S1F14 S5F1 S6F11",
		}
		regs := P.gemRegs(r)
		has := map[string]gemReg{}
		for _, g := range regs {
			has[g.role+g.sf()] = g
		}
		f0 := P.fn(pkgGem, "NewGemHandler")
		if f0 == nil {
			return
		}
		pos := P.pos(f0.Pos())
		for _, role := range roles {
			in := map[string]bool{}
			for _, sf := range strings.Fields(want[role]) {
				in[sf] = true
				g, ok := has[role+sf]
				r.Check(ok, "registered", sf+" as "+shortRole(role), pos, "no handler of "+sf+" is registered on a "+shortRole(role)+" handler")
				if ok {
					r.Check(!strings.HasPrefix(g.pos, "?"), "registered", sf+" as "+shortRole(role), strings.TrimPrefix(g.pos, "?"), "the registration of "+sf+" is skipped on some path of NewGemHandler as "+shortRole(role))
				}
			}
			by := map[*ssa.Function]string{}
			for _, g := range regs {
				if g.role != role {
					continue
				}
				p := strings.TrimPrefix(g.pos, "?")
				r.Check(in[g.sf()], "registered", g.sf()+" as "+shortRole(role), p, g.sf()+" is registered on a "+shortRole(role)+" handler, which must not serve it")
				if o, dup := by[g.fn]; dup {
					r.Bad("own-operation", g.sf()+" as "+shortRole(role), p, g.sf()+" is served by "+P.fname(g.fn)+", which serves "+o)
				} else {
					r.Good("own-operation", g.sf()+" as "+shortRole(role), p)
				}
				by[g.fn] = g.sf()
			}
		}
		for i, role := range roles {
			other := roles[1-i]
			sent := map[string]string{}
			run := func(f *ssa.Function, bind []Val) {
				m := newGM(P, role)
				m.followGo = true
				m.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
					s, f, _, ok := newData(tagOf(msg))
					if ok && how != "SendResponse" {
						sent["S"+s+"F"+f] = P.ipos(site)
					}
				}
				e := newHMEngine(P, m.hm)
				e.run(f, nil, nil, "", gemHandlerArgs(f, TagV("m:in.data")), bind, nil, nil)
				r.SawEngine(e)
			}
			for _, f := range P.gemOps() {
				run(f, nil)
			}
			for _, g := range regs {
				if g.role == role {
					run(g.fn, g.bind)
				}
			}
			var ks []string
			for k := range sent {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, sf := range ks {
				_, ok := has[other+sf]
				r.Check(ok, "served", sf+" to "+shortRole(other), sent[sf], "a "+shortRole(role)+" can send "+sf+" but a "+shortRole(other)+" registers no handler of it")
			}
		}
		r.Floor("registered", 27)
		r.Floor("own-operation", 20)
		r.Floor("served", 12)
	})
}
