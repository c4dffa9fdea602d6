package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// own follows connections, listeners, codecs, sessions and servers from where
// they are obtained to where they are owned or closed. A token "r:tag" stands
// for an open resource.
type own struct {
	BaseClient
	P     *Program
	keep  bool // storing a resource somewhere does not discharge it
	count int
	enter func(c *Ctx, callee *ssa.Function) bool
}

// source classifies a call that yields a resource and an error.
func (o *own) source(site ssa.CallInstruction, callee *ssa.Function) string {
	cc := site.Common()
	pk := fnPkg(site.Parent()).Path()
	if cc.IsInvoke() {
		switch {
		case cc.Method.Name() == "Accept" && returns(cc.Method.Type(), "net.Conn"):
			return "conn"
		case returns(cc.Method.Type(), pkgLink+".Codec"):
			return "codec"
		}
		return ""
	}
	if callee == nil {
		return ""
	}
	if !o.P.isLibFn(callee) {
		switch {
		case returns(callee.Signature, "net.Conn"):
			return "conn"
		case returns(callee.Signature, "net.Listener"):
			return "listener"
		}
		return ""
	}
	if pk != pkgLink && fnPkg(callee).Path() == pkgLink {
		switch {
		case returns(callee.Signature, pkgLink+".Session"):
			return "session"
		case returns(callee.Signature, pkgLink+".Server"):
			return "server"
		}
	}
	return ""
}

// returns: the first of two results has the type, the second is an error.
func returns(t types.Type, tk string) bool {
	s, ok := t.(*types.Signature)
	return ok && s.Results().Len() == 2 && typeKey(s.Results().At(0).Type()) == tk && typeKey(s.Results().At(1).Type()) == "error"
}

func (o *own) drop(c *Ctx, v Val) {
	if v.K == KTag && strings.HasPrefix(v.Tag, "res:") {
		c.SetA(delPrefix(c.A(), "r:"+v.Tag))
	}
}

func (o *own) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	cc := site.Common()
	if g, ok := site.(*ssa.Go); ok {
		fv := c.e.calleeVal(c.st, c.fr, &g.Call)
		if fv.K != KFunc && callee != nil {
			fv = FnV(callee)
		}
		if fv.K != KFunc || nested(c, o.P.unbound(fv.Fn)) {
			return nil, false
		}
		takes := false
		for _, v := range append(append([]Val{}, args...), fv.E...) {
			takes = takes || v.K == KTag && strings.HasPrefix(v.Tag, "res:")
			if v.K == KAddr && v.Path == "" {
				if al, ok := v.Site.(*ssa.Alloc); ok {
					x := c.e.load(c.st, v, al.Type().Underlying().(*types.Pointer).Elem())
					takes = takes || x.K == KTag && strings.HasPrefix(x.Tag, "res:")
				}
			}
		}
		if !takes {
			return nil, false
		}
		var out []CallRes
		seen := map[string]bool{}
		for _, x := range c.e.callFn(c, site, fv, args) {
			if !x.Panicked && !seen[x.A] {
				seen[x.A] = true
				out = append(out, CallRes{A: x.A})
			}
		}
		return out, len(out) > 0
	}
	if cc.IsInvoke() && cc.Method.Name() == "Close" && cc.Signature().Params().Len() == 0 {
		o.drop(c, c.Val(cc.Value))
		return []CallRes{{A: c.A(), Ret: Top}}, true
	}
	if callee != nil && len(args) > 0 && fnPkg(callee) != nil {
		switch callee.Name() {
		case "Close":
			if args[0].K == KTag {
				o.drop(c, args[0])
				return []CallRes{{A: c.A(), Ret: Top}}, true
			}
		case "Stop":
			if typeKey(callee.Params[0].Type()) == pkgLink+".Server" && args[0].K == KTag {
				o.drop(c, args[0])
				return []CallRes{{A: c.A(), Ret: Top}}, true
			}
		}
	}
	if k := o.source(site, callee); k != "" {
		o.count++
		v := TagV("res:" + k + "@" + o.P.ipos(site))
		a := c.A()
		na := addOnce(a, "r:"+v.Tag)
		if k == "codec" {
			// a codec owns its connection
			for _, x := range args {
				if x.K == KTag && strings.HasPrefix(x.Tag, "res:") {
					na = delPrefix(na, "r:"+x.Tag)
				}
			}
		}
		return []CallRes{{A: na, Ret: TupleV(v, NilV)}, {A: a, Ret: TupleV(NilV, NonNil)}}, true
	}
	return nil, false
}

func (o *own) Enter(c *Ctx, site ssa.CallInstruction, callee *ssa.Function) bool {
	if callee.Parent() != nil {
		return true
	}
	if o.enter != nil && o.enter(c, callee) {
		return true
	}
	for _, a := range site.Common().Args {
		if v := c.Val(a); v.K == KTag && strings.HasPrefix(v.Tag, "res:") {
			return true
		}
	}
	return false
}

func (o *own) Instr(c *Ctx, ins ssa.Instruction) {
	if o.keep {
		return
	}
	switch x := ins.(type) {
	case *ssa.Store:
		switch x.Addr.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			if v := c.Val(x.Val); !(v.K == KTag && strings.HasPrefix(v.Tag, "res:server")) {
				o.drop(c, v)
			}
		}
	case *ssa.MapUpdate:
		o.drop(c, c.Val(x.Value))
	case *ssa.Send:
		o.drop(c, c.Val(x.X))
	}
}

func checkOwnership(r *Report) {
	P := r.P
	o := &own{P: P}
	isSource := func(ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && o.source(ci, ci.Common().StaticCallee()) != ""
	}
	memo := map[*ssa.Function]bool{}
	o.enter = func(c *Ctx, callee *ssa.Function) bool {
		pk := fnPkg(callee).Path()
		if pk == pkgLink {
			return true
		}
		v, ok := memo[callee]
		if !ok {
			v = P.reaches(callee, isSource)
			memo[callee] = v
		}
		return v
	}
	e := NewEngine(P, o)
	for _, f := range P.funcs {
		pk := fnPkg(f).Path()
		if pk == pkgCodec || pk == pkgAst || pk == pkgPHsms || pk == pkgPSml {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				direct = direct || isSource(ins)
			}
		}
		if !direct && !(pk == pkgLink && P.reaches(f, isSource)) {
			continue
		}
		for _, x := range e.Run(f, "") {
			if x.Panicked {
				continue
			}
			a := x.A
			for _, v := range x.Rets {
				if v.K == KTag {
					a = delPrefix(a, "r:"+v.Tag)
				}
			}
			left := ""
			for _, t := range heldList(a) {
				left = strings.TrimPrefix(t, "r:res:")
			}
			pos := P.pos(f.Pos())
			if x.ret != nil {
				pos = P.ipos(x.ret)
			}
			r.Check(left == "", "owned", P.fname(f), pos, "returns without closing or handing over the "+strings.Replace(left, "@", " obtained at ", 1))
		}
	}
	r.SawEngine(e)
	r.Count("places that obtain a resource", o.count)

	// whoever is handed a session by a server or a dialler closes it
	for _, f := range P.funcs {
		if fnPkg(f).Path() != pkgHsms {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				h, ok := ins.(*ssa.MakeInterface)
				if !ok || typeKey(h.X.Type()) != pkgLink+".HandlerFunc" {
					continue
				}
				ct, ok := h.X.(*ssa.ChangeType)
				if !ok {
					continue
				}
				var hf *ssa.Function
				switch y := ct.X.(type) {
				case *ssa.MakeClosure:
					hf = P.unbound(y.Fn.(*ssa.Function))
				case *ssa.Function:
					hf = y
				}
				if hf == nil {
					r.Check(false, "handler-closes", P.fname(f), P.ipos(ins), "the function that handles accepted sessions is not known")
					continue
				}
				k := &own{P: P, keep: true}
				k.enter = func(*Ctx, *ssa.Function) bool { return false }
				ke := NewEngine(P, k)
				tag := TagV("res:session@its caller")
				args := make([]Val, len(hf.Params))
				for i, p := range hf.Params {
					if typeKey(p.Type()) == pkgLink+".Session" {
						args[i] = tag
					} else if i == 0 {
						args[i] = Val{K: KAddr, Site: p}
					}
				}
				for _, x := range ke.Run(hf, "r:"+tag.Tag, args...) {
					if x.Panicked {
						continue
					}
					pos := P.pos(hf.Pos())
					if x.ret != nil {
						pos = P.ipos(x.ret)
					}
					r.Check(x.A == "", "handler-closes", P.fname(hf), pos, "returns without closing the session it was given")
				}
				r.SawEngine(ke)
			}
		}
	}
}
