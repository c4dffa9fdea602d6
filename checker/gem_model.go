package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The GEM model: handlers and operations of the GEM layer run as one of the
// two roles; messages that the library builds are data{...} tags, sending is
// an event, application callbacks are opaque.

const (
	tGem        = pkgGem + ".GemHandler"
	tDeviceType = pkgGem + ".DeviceType"
)

var roles = []string{"DeviceHost", "DeviceEquipment"}

// gemReg is one handler registration made by NewGemHandler.
type gemReg struct {
	role string
	s, f int64
	fn   *ssa.Function
	bind []Val
	pos  string
}

func (g gemReg) sf() string {
	return "S" + strconv.FormatInt(g.s, 10) + "F" + strconv.FormatInt(g.f, 10)
}

// roleConst is the value of the exported role constant.
func (P *Program) roleConst(role string) (Val, bool) {
	pk := P.byPkg[pkgGem]
	if pk == nil {
		return Top, false
	}
	c, ok := pk.Pkg.Scope().Lookup(role).(*types.Const)
	if !ok {
		return Top, false
	}
	return Val{K: KConst, C: constant.ToInt(c.Val())}, true
}

// gm is an hm running as a given role.
type gm struct {
	*hm
	role string
	dev  Val
	// send: SendAndWait, SendDataMessage or SendResponse with the message
	send func(c *Ctx, site ssa.CallInstruction, how string, msg Val)
	// the item model (gem_items.go)
	items    bool
	getOK    func(c *Ctx, path string) (known, ok bool)
	size     func(c *Ctx, path string) (Val, bool)
	onBuild  func(c *Ctx, site ssa.CallInstruction, item string)
	inS, inF int64
	// more is consulted first
	more func(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool)
}

func newGM(P *Program, role string) *gm {
	g := &gm{hm: newHM(P), role: role}
	g.dev, _ = P.roleConst(role)
	g.hm.load = func(c *Ctx, ld *ssa.UnOp) (Val, bool) {
		if typeKey(ld.Type()) == tDeviceType && isFieldLoad(ld) {
			return g.dev, true
		}
		return Top, false
	}
	g.hm.extra = g.call
	g.hm.recv = func(c *Ctx) []CallRes { return []CallRes{{A: c.A(), Ret: TupleV(Top, Top)}} }
	return g
}

func (g *gm) call(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if g.more != nil {
		if rs, ok := g.more(c, site, name, callee, args); ok {
			return rs, true
		}
	}
	if g.items {
		if rs, ok := g.itemCall(c, site, name, callee, args); ok {
			return rs, true
		}
	}
	if callee == nil || typeKeyRecv(callee) != tProto {
		return nil, false
	}
	if rs, ok := g.callSend(c, site, callee, args); ok {
		return rs, true
	}
	one := func(v ...CallRes) ([]CallRes, bool) { return v, true }
	res := callee.Signature.Results()
	switch callee.Name() {
	case "RegisterHandler", "RegisterDefaultHandler", "Enable", "Disable", "SetLogger", "ConfigureLogging":
		return one(CallRes{A: c.A(), Ret: Top})
	}
	if res.Len() > 0 {
		return one(CallRes{A: c.A(), Ret: Top})
	}
	return nil, false
}

// callSend: the operations that send a message.
func (g *gm) callSend(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	one := func(v ...CallRes) ([]CallRes, bool) { return v, true }
	res := callee.Signature.Results()
	switch callee.Name() {
	case "SendAndWait", "SendDataMessage", "SendResponse":
		if g.send != nil && len(args) >= 2 {
			g.send(c, site, callee.Name(), args[1])
		}
		if g.items && len(args) >= 2 {
			s, f, _, _ := newData(tagOf(args[1]))
			m := parseA(c.A())
			m["reqS"], m["reqF"] = s, f
			delete(m, "code:m:reply.data:StreamCode")
			delete(m, "code:m:reply.data:FunctionCode")
			c.SetA(m.String())
			c.forgetFacts("(reply")
		}
		a := c.A()
		if res.Len() == 2 {
			return one(CallRes{A: a, Ret: TupleV(TagV("m:reply.data"), NilV)}, CallRes{A: withA(a, "failed", "1"), Ret: TupleV(NilV, TagV("=err:send"))})
		}
		return one(CallRes{A: a, Ret: NilV}, CallRes{A: withA(a, "failed", "1"), Ret: TagV("=err:send")})
	}
	return nil, false
}

// gemRegs runs NewGemHandler as each role and records the registrations.
func (P *Program) gemRegs(r *Report) []gemReg {
	f := P.fn(pkgGem, "NewGemHandler")
	if !r.Anchor(f != nil, "gem.NewGemHandler") {
		return nil
	}
	var out []gemReg
	seen := map[string]bool{}
	for _, role := range roles {
		g := newGM(P, role)
		if !r.Anchor(g.dev.K == KConst, "the role constant gem."+role) {
			return nil
		}
		bad := false
		g.more = func(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
			if callee == nil || typeKeyRecv(callee) != tProto || callee.Name() != "RegisterHandler" || len(args) != 4 {
				return nil, false
			}
			s, ok1 := args[1].IsInt()
			fu, ok2 := args[2].IsInt()
			if !ok1 || !ok2 || args[3].K != KFunc {
				bad = true
				return nil, false
			}
			k := role + "/" + strconv.FormatInt(s, 10) + "/" + strconv.FormatInt(fu, 10)
			c.Put("reg "+strconv.FormatInt(s, 10)+"/"+strconv.FormatInt(fu, 10), "1")
			if !seen[k] {
				seen[k] = true
				fn, bind := args[3].Fn, args[3].E
				if u := P.unbound(fn); u != fn {
					fn, bind = u, nil
				}
				out = append(out, gemReg{role, s, fu, fn, bind, P.ipos(site)})
			}
			return nil, false
		}
		e := newHMEngine(P, g.hm)
		e.LoopArith = 128
		for _, o := range e.Run(f, "") {
			if o.Panicked || len(o.Rets) != 2 || o.Rets[0].K == KNil {
				continue
			}
			m := parseA(o.A)
			for _, x := range out {
				if x.role == role && m["reg "+strconv.FormatInt(x.s, 10)+"/"+strconv.FormatInt(x.f, 10)] == "" {
					seen["missing "+role+x.sf()] = true
				}
			}
		}
		r.SawEngine(e)
		r.Anchor(!bad, "a constant stream, function and handler at every registration as "+role)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.role != b.role {
			return a.role < b.role
		}
		if a.s != b.s {
			return a.s < b.s
		}
		return a.f < b.f
	})
	// registrations that some successful path of NewGemHandler skips
	for i := range out {
		if seen["missing "+out[i].role+out[i].sf()] {
			out[i].pos = "?" + out[i].pos
		}
	}
	return out
}

// gemHandlerArgs: arguments for running a registered handler.
func gemHandlerArgs(fn *ssa.Function, msg Val) []Val {
	args := make([]Val, len(fn.Params))
	for i, p := range fn.Params {
		if typeKey(p.Type()) == tData {
			args[i] = msg
		} else if i == 0 && fn.Signature.Recv() != nil {
			args[i] = Val{K: KAddr, Site: p}
		}
	}
	return args
}

// newData reads a data{new s= f= w=} tag.
func newData(t string) (s, f, w string, ok bool) {
	m := newRe.FindStringSubmatch(t)
	if m == nil {
		return
	}
	w = m[3]
	if a := attr(t, "wait"); a != "" {
		w = a
	}
	return m[1], m[2], w, true
}

// gemOps: the exported operations of the GEM handler.
func (P *Program) gemOps() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.methodsOf(pkgGem, "GemHandler") {
		if f.Object() != nil && f.Object().Exported() {
			out = append(out, f)
		}
	}
	return out
}

func shortRole(r string) string { return strings.ToLower(strings.TrimPrefix(r, "Device")) }
