package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// frames observes the calls that write or read frames and log entries,
// with the locks held there.
type frames struct {
	*lockAnalysis
	users bool            // analysing the other packages
	more  map[string]bool // further fields whose presence is followed
	queue map[string]bool // the fields holding a session's send queue
	at    func(c *Ctx, site ssa.CallInstruction, kind string)
	goAt  func(c *Ctx, site *ssa.Go, f *ssa.Function)
}

// ioKind classifies a call: a frame handed to, or taken from, a codec outside
// the codecs themselves, or bytes written to a writer the library was given.
func ioKind(P *Program, site ssa.CallInstruction) string {
	cc := site.Common()
	pk := fnPkg(site.Parent()).Path()
	if cc.IsInvoke() {
		if t := typeKey(cc.Value.Type()); t == pkgLink+".Codec" || t == pkgLink+".DeadlineCodec" {
			if pk != pkgCodec && (cc.Method.Name() == "Send" || cc.Method.Name() == "Receive") {
				return cc.Method.Name()
			}
			return ""
		}
		if isWriterCall(cc) {
			return "write"
		}
		return ""
	}
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil || P.isLibFn(f) {
		return ""
	}
	for _, a := range cc.Args {
		if isGivenWriter(a) {
			switch p := f.Pkg.Pkg.Path(); p {
			case "fmt", "io", "bufio", "encoding/binary", "encoding/hex":
				if f.Name() != "NewWriter" && f.Name() != "NewWriterSize" {
					return "write"
				}
			}
		}
	}
	return ""
}

func isWriterCall(cc *ssa.CallCommon) bool {
	m := cc.Method
	if m.Name() != "Write" && m.Name() != "WriteString" {
		return false
	}
	s := m.Type().(*types.Signature)
	return s.Params().Len() == 1 && s.Results().Len() == 2
}

// isGivenWriter: an interface value with a Write method that is not made of a
// concrete value right here.
func isGivenWriter(v ssa.Value) bool {
	i, ok := v.Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	has := false
	for k := 0; k < i.NumMethods(); k++ {
		has = has || i.Method(k).Name() == "Write"
	}
	if !has {
		return false
	}
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.MakeInterface:
			return false
		}
		return true
	}
}

func (f *frames) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if g, ok := site.(*ssa.Go); ok {
		if f.goAt != nil {
			fn := callee
			if fn == nil {
				if v := c.Val(g.Call.Value); v.K == KFunc {
					fn = v.Fn
				}
			}
			if fn != nil {
				f.goAt(c, g, fn)
			}
		}
	} else if k := ioKind(f.P, site); k != "" && f.users == (fnPkg(site.Parent()).Path() != pkgLink) {
		f.at(c, site, k)
	}
	return f.lockAnalysis.Call(c, site, callee, args)
}

// Instr: what is known of one session does not hold for the next one made.
func (f *frames) Instr(c *Ctx, ins ssa.Instruction) {
	if al, ok := ins.(*ssa.Alloc); ok && typeKey(al.Type()) == pkgLink+".Session" {
		a := ""
		for _, t := range heldList(c.A()) {
			if t[1] == ':' && (t[0] == 'n' || t[0] == 'v' || t[0] == 'g') {
				continue
			}
			a = addHeld(a, t)
		}
		c.SetA(a)
	}
	f.lockAnalysis.Instr(c, ins)
}

func (f *frames) Fork(c *Ctx, ins ssa.Instruction) ([]CallRes, bool) {
	ld, ok := ins.(*ssa.UnOp)
	if !ok {
		return nil, false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || f.users || !f.queue[ownerField(fa)] && !f.more[ownerField(fa)] {
		return nil, false
	}
	a := c.A()
	n, v := "n:"+ownerField(fa), "v:"+ownerField(fa)
	if hasTok(a, n) {
		return []CallRes{{A: a, Ret: NilV}}, true
	}
	if hasTok(a, v) {
		return []CallRes{{A: a, Ret: NonNil}}, true
	}
	return []CallRes{{A: addHeld(a, n), Ret: NilV}, {A: addHeld(a, v), Ret: NonNil}}, true
}

func hasTok(a, t string) bool {
	for _, x := range heldList(a) {
		if x == t {
			return true
		}
	}
	return false
}

// sendQueues: the channel fields into which Session.Send queues messages.
func (P *Program) sendQueues() map[string]bool {
	out := map[string]bool{}
	for _, f := range P.funcs {
		if fnPkg(f).Path() != pkgLink {
			continue
		}
		add := func(ch ssa.Value) {
			if n := chanField(ch); n != "" && strings.HasPrefix(n, "link.Session.") {
				out[n] = true
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Send:
					add(x.Chan)
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly {
							add(s.Chan)
						}
					}
				}
			}
		}
	}
	return out
}

func newFrames(P *Program) (*frames, *Engine) {
	la := &lockAnalysis{P: P, acc: map[string]*access{}, edges: map[string]*lockEdge{}, issues: map[string]*lockIssue{},
		shared: P.sharedTypes(), optCalls: map[string][]bool{}, handed: map[string]*lockIssue{}, callouts: map[string]*lockIssue{}, blocking: map[string]*lockIssue{}, dynSites: map[ssa.Instruction]bool{}, acqSites: map[ssa.Instruction]bool{}}
	la.cbs = P.fsmCallbacks()
	f := &frames{lockAnalysis: la, queue: P.sendQueues()}
	e := NewEngine(P, f)
	la.engine = e
	e.MaxState = 200
	return f, e
}

func init() {
	register("C32", "The calls that hand frames to a codec, take frames from it, or write to a message log are located in every calling context together with the locks held there; codecs' write calls are counted along every path.", func(r *Report) {
		P := r.P
		r.Rule("send-lock", "every hand-over of a frame to a session's codec by a caller's goroutine happens with the same exclusive lock held, and only on sessions without a send queue")
		r.Rule("send-loop", "the goroutine that hands over queued frames is started at most once per session, when the session is made, and only for sessions with a queue")
		r.Rule("recv-lock", "every read of a frame from a session's codec happens with the same exclusive lock held")
		r.Rule("log-lock", "every write to a message log happens with the same exclusive lock held")
		r.Rule("log-whole", "one log entry is written with one write")
		r.Rule("one-write", "a codec writes a frame with one write call")
		r.Rule("whole", "what a codec is given is written whole")
		r.Assume("locks are identified by the field that holds them; a writer configured by the application is used by one protocol instance")
		fr, e := newFrames(P)
		type occ struct {
			site ssa.CallInstruction
			root *ssa.Function
			held []string
			noq  bool
		}
		kinds := map[string][]occ{}
		fr.at = func(c *Ctx, site ssa.CallInstruction, kind string) {
			if kind == "write" && fnPkg(site.Parent()).Path() == pkgCodec {
				return
			}
			o := occ{site: site, root: c.Root()}
			for _, h := range heldList(c.A()) {
				if strings.HasPrefix(h, "W:") {
					o.held = append(o.held, h[2:])
				}
				if strings.HasPrefix(h, "n:") {
					o.noq = true
				}
			}
			kinds[kind] = append(kinds[kind], o)
		}
		// goroutines that hand over frames
		sends := func(f *ssa.Function) bool { return P.drains(f, fr.queue) }
		loops := map[*ssa.Function]bool{}
		fr.goAt = func(c *Ctx, site *ssa.Go, f *ssa.Function) {
			if fnPkg(f).Path() != pkgLink || !sends(f) {
				return
			}
			loops[P.unbound(f)] = true
			key := P.fname(site.Parent()) + " starts " + P.fname(f)
			var recv Val
			if len(site.Call.Args) > 0 {
				recv = c.Val(site.Call.Args[0])
			} else if v := c.Val(site.Call.Value); v.K == KFunc && len(v.E) > 0 {
				recv = v.E[0]
			}
			al, fresh := recv.Site.(*ssa.Alloc)
			if fresh && recv.Path == "" {
				if pt, ok := al.Type().(*types.Pointer).Elem().(*types.Pointer); ok { // a captured variable
					recv = c.e.load(c.st, recv, pt)
					_, fresh = recv.Site.(*ssa.Alloc)
				}
			}
			r.Check(recv.K == KAddr && fresh, "send-loop", key, P.ipos(site), "a goroutine that writes frames is started for a session that may already have one")
			r.Check(!hasTok(c.A(), "g:started"), "send-loop", key+" once", P.ipos(site), "more than one goroutine that writes frames is started")
			if recv.K == KAddr && fresh {
				q := false
				for n := range fr.queue {
					name := n[strings.LastIndex(n, ".")+1:]
					v := c.e.load(c.st, Val{K: KAddr, Site: recv.Site, Path: recv.Path + "." + name}, types.NewChan(types.SendRecv, types.NewInterfaceType(nil, nil)))
					q = q || v.nonnil()
				}
				r.Check(q || hasTokPrefix(c.A(), "v:"), "send-loop", key+" queue", P.ipos(site), "a goroutine that writes frames is started for a session without a send queue, whose callers write frames themselves")
			}
			if !hasTok(c.A(), "g:started") {
				c.SetA(addHeld(c.A(), "g:started"))
			}
		}
		// the sessions by themselves, each with and without a queue, then their users
		for _, f := range P.rootFunctions() {
			if fnPkg(f).Path() == pkgLink {
				e.Run(f, "")
			}
		}
		r.SawEngine(e)
		fr.users = true
		e2 := NewEngine(P, fr)
		fr.engine = e2
		for _, f := range P.rootFunctions() {
			switch fnPkg(f).Path() {
			case pkgAst, pkgPHsms, pkgPSml, pkgCodec, pkgLink:
				continue
			}
			e2.Run(f, "")
		}
		r.SawEngine(e2)
		// the most often held lock stands for the intended one
		mode := func(os []occ) string {
			n := map[string]int{}
			best := ""
			for _, o := range os {
				for _, h := range o.held {
					n[h]++
				}
			}
			for _, h := range sortedKeys(n) {
				if best == "" || n[h] > n[best] {
					best = h
				}
			}
			return best
		}
		locked := func(rule string, os []occ, what string) {
			m := mode(os)
			for _, o := range os {
				has := false
				for _, h := range o.held {
					has = has || h == m
				}
				r.Check(m != "" && has, rule, P.fname(o.site.Parent())+" "+what, P.ipos(o.site), what+" without an exclusive lock common to all such places (from "+P.fname(o.root)+")")
			}
		}
		var direct []occ
		for _, o := range kinds["Send"] {
			if loops[o.root] {
				continue
			}
			direct = append(direct, o)
			r.Check(o.noq, "send-lock", P.fname(o.site.Parent())+" only without a queue", P.ipos(o.site), "a frame is handed to the codec by a caller although a goroutine may be writing queued frames")
		}
		locked("send-lock", direct, "a frame is handed to the codec")
		locked("recv-lock", kinds["Receive"], "a frame is read from the codec")
		locked("log-lock", kinds["write"], "a log entry is written")
		r.Count("contexts of frame and log writes", len(kinds["Send"])+len(kinds["Receive"])+len(kinds["write"]))

		// one write per log entry
		isMsg := func(f *ssa.Function) bool {
			for _, p := range f.Params {
				switch typeKey(p.Type()) {
				case pkgAst + ".HSMSMessage", pkgAst + ".DataMessage", pkgAst + ".ControlMessage":
					return true
				}
			}
			return false
		}
		writers := map[*ssa.Function]bool{}
		var writeSites func(f *ssa.Function, codec bool) []ssa.Instruction
		writeSites = func(f *ssa.Function, codec bool) []ssa.Instruction {
			var out []ssa.Instruction
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if ioKind(P, ci) == "write" || ci.Common().StaticCallee() != nil && writers[ci.Common().StaticCallee()] {
						out = append(out, ins)
					}
				}
			}
			return out
		}
		for ch := true; ch; {
			ch = false
			for _, f := range P.funcs {
				pk := fnPkg(f).Path()
				if pk != pkgHsms && pk != pkgGem && pk != pkgCodec || writers[f] {
					continue
				}
				if len(writeSites(f, false)) > 0 && !isMsg(f) && !(pk == pkgCodec && f.Name() == "Write") {
					writers[f] = true
					ch = true
				}
			}
		}
		for _, f := range P.funcs {
			pk := fnPkg(f).Path()
			if pk != pkgHsms && pk != pkgGem && pk != pkgCodec {
				continue
			}
			ws := writeSites(f, false)
			if len(ws) == 0 {
				continue
			}
			rule, what := "log-whole", "a log entry"
			if pk == pkgCodec {
				rule, what = "one-write", "a frame"
			}
			for _, w := range ws {
				bad := ssa.Instruction(nil)
				for _, x := range ws {
					if instrReaches(w, x) {
						bad = x
					}
				}
				pos := P.ipos(w)
				if bad != nil {
					pos = P.ipos(bad)
				}
				r.Check(bad == nil, rule, P.fname(f), pos, what+" can be written in more than one piece")
				if pk == pkgCodec {
					if ci := w.(ssa.CallInstruction); ci.Common().IsInvoke() && len(ci.Common().Args) == 1 {
						r.Check(!partOf(ci.Common().Args[0]), "whole", P.fname(f), P.ipos(w), "only a part of the frame is written")
					}
				}
			}
		}
		r.Floor("send-lock", 2)
		r.Floor("send-loop", 3)
		r.Floor("recv-lock", 1)
		r.Floor("log-lock", 1)
		r.Floor("log-whole", 1)
		r.Floor("one-write", 2)
	})
}

// drains: the function takes messages out of a session's send queue, itself or
// in functions it calls.
func (P *Program) drains(f *ssa.Function, queue map[string]bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		f = P.unbound(f)
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.UnOp:
					if x.Op == token.ARROW && queue[chanField(x.X)] {
						return true
					}
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.RecvOnly && queue[chanField(s.Chan)] {
							return true
						}
					}
				case *ssa.Next, *ssa.Range:
				case *ssa.Go:
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil && P.isLibFn(g) && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// partOf: a slice expression with bounds.
func partOf(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && (s.Low != nil || s.High != nil)
}

func hasTokPrefix(a, p string) bool {
	for _, x := range heldList(a) {
		if strings.HasPrefix(x, p) {
			return true
		}
	}
	return false
}

// instrReaches: b can be executed after a in the same activation.
func instrReaches(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		ia, ib := -1, -1
		for i, x := range a.Block().Instrs {
			if x == a {
				ia = i
			}
			if x == b {
				ib = i
			}
		}
		if ia < ib {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b.Block() {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range a.Block().Succs {
		if walk(s) {
			return true
		}
	}
	return false
}
