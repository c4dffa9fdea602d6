package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tickLoop is a select that waits for a ticker, with the other channels it
// receives from.
type tickLoop struct {
	sel   *ssa.Select
	stops []tickStop
}

type tickStop struct {
	idx    int
	makes  []*ssa.MakeChan // where the channel is made, if it is made for this loop
	fields []string        // the fields the loop reads its channel from when it waits
	other  bool            // something else (a context, an unknown channel)
}

func isTickerC(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && strings.HasSuffix(typeKey(fa.X.Type()), "time.Ticker")
}

// chanOrigins resolves a channel to where it comes from.
func (P *Program) chanOrigins(v ssa.Value, out *tickStop, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.ChangeType:
		P.chanOrigins(x.X, out, seen)
	case *ssa.MakeChan:
		out.makes = append(out.makes, x)
	case *ssa.Phi:
		for _, e := range x.Edges {
			P.chanOrigins(e, out, seen)
		}
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if st := storedBefore(x, a); st != nil {
				P.chanOrigins(st, out, seen)
				break
			}
			out.fields = append(out.fields, ownerField(a))
		case *ssa.Alloc, *ssa.FreeVar:
			P.cellStores(a, seen, func(w ssa.Value) { P.chanOrigins(w, out, seen) })
		default:
			out.other = true
		}
	case *ssa.FreeVar:
		P.bindings(x, func(w ssa.Value) { P.chanOrigins(w, out, seen) })
	case *ssa.Call:
		P.returned(x, 0, out, func(w ssa.Value) { P.chanOrigins(w, out, seen) })
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			P.returned(c, x.Index, out, func(w ssa.Value) { P.chanOrigins(w, out, seen) })
		} else {
			out.other = true
		}
	case *ssa.Parameter:
		n := 0
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			for _, ci := range P.staticCallers(x.Parent()) {
				if as := ci.Common().Args; i < len(as) {
					n++
					P.chanOrigins(as[i], out, seen)
				}
			}
		}
		if n == 0 {
			out.other = true
		}
	default:
		out.other = true
	}
}

// storedBefore: the value that the same block has stored in a field before it
// reads it, with no call in between.
func storedBefore(ld *ssa.UnOp, a *ssa.FieldAddr) ssa.Value {
	var last ssa.Value
	for _, ins := range ld.Block().Instrs {
		switch x := ins.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == a.X && fa.Field == a.Field {
				last = x.Val
			}
		case ssa.CallInstruction:
			last = nil
		}
		if ins == ssa.Instruction(ld) {
			return last
		}
	}
	return nil
}

// returned: the values that a call of a function of the program may return.
func (P *Program) returned(c *ssa.Call, i int, out *tickStop, do func(ssa.Value)) {
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 {
		out.other = true
		return
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			do(ret.Results[i])
		}
	}
}

// bindings: what a captured variable is bound to where its closure is made.
func (P *Program) bindings(fv *ssa.FreeVar, do func(ssa.Value)) {
	fn := fv.Parent()
	if fn.Parent() == nil {
		return
	}
	for i, w := range fn.FreeVars {
		if w != fv {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) && i < len(mc.Bindings) {
					do(mc.Bindings[i])
				}
			}
		}
	}
}

// cellStores: the values stored in a local variable or a captured one.
func (P *Program) cellStores(v ssa.Value, seen map[ssa.Value]bool, do func(ssa.Value)) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FreeVar:
		P.bindings(x, func(w ssa.Value) { P.cellStores(w, seen, do) })
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Addr == ssa.Value(x) {
					do(y.Val)
				}
			case *ssa.MakeClosure:
				fn := y.Fn.(*ssa.Function)
				for i, b := range y.Bindings {
					if b == ssa.Value(x) && i < len(fn.FreeVars) {
						for _, r2 := range *fn.FreeVars[i].Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fn.FreeVars[i]) {
								do(st.Val)
							}
						}
					}
				}
			}
		}
	}
}

func (P *Program) tickLoops() []tickLoop {
	var out []tickLoop
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				sel, ok := ins.(*ssa.Select)
				if !ok {
					continue
				}
				l := tickLoop{sel: sel}
				tick := false
				for i, s := range sel.States {
					if s.Dir != types.RecvOnly {
						continue
					}
					if isTickerC(s.Chan) {
						tick = true
						continue
					}
					st := tickStop{idx: i}
					P.chanOrigins(s.Chan, &st, map[ssa.Value]bool{})
					l.stops = append(l.stops, st)
				}
				if tick {
					out = append(out, l)
				}
			}
		}
	}
	return out
}

// chanStores: the fields that the channel made here is stored in.
func (P *Program) chanStores(m *ssa.MakeChan) []string {
	set := map[string]bool{}
	for _, fn := range P.funcs {
		if fnPkg(fn) != fnPkg(m.Parent()) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := st.Val.Type().Underlying().(*types.Chan); !ok {
					continue
				}
				var o tickStop
				P.chanOrigins(st.Val, &o, map[ssa.Value]bool{})
				for _, x := range o.makes {
					if x == m {
						set[ownerField(fa)] = true
					}
				}
			}
		}
	}
	return sortedKeys(set)
}

// stopFields: the fields that hold the stop channels of ticker loops.
func (P *Program) stopFields() map[string]bool {
	out := map[string]bool{}
	for _, l := range P.tickLoops() {
		for _, s := range l.stops {
			for _, f := range s.fields {
				out[f] = true
			}
			for _, m := range s.makes {
				for _, f := range P.chanStores(m) {
					out[f] = true
				}
			}
		}
	}
	return out
}

// localTimers follows timers from where they are made: stopped, or kept in a
// field.
type localTimers struct {
	BaseClient
	P     *Program
	made  map[ssa.Instruction]bool
	loose map[string]ssa.Instruction // fields that own the timers stored in them
	relev func(*ssa.Function) bool
}

func timerSource(name string) string {
	switch name {
	case "time.NewTimer", "time.AfterFunc":
		return "timer"
	case "time.NewTicker":
		return "ticker"
	}
	return ""
}

func (l *localTimers) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if callee == nil {
		return nil, false
	}
	n := callee.String()
	if k := timerSource(n); k != "" {
		if _, ok := site.(*ssa.Call); ok {
			l.made[site] = true
			v := TagV("res:" + k + "@" + l.P.ipos(site))
			return []CallRes{{A: addOnce(c.A(), "t:"+v.Tag), Ret: v}}, true
		}
	}
	if (n == "(*time.Timer).Stop" || n == "(*time.Ticker).Stop") && len(args) == 1 {
		if args[0].K == KTag {
			c.SetA(delPrefix(c.A(), "t:"+args[0].Tag))
		}
		return []CallRes{{A: c.A(), Ret: Top}}, true
	}
	return nil, false
}

func (l *localTimers) Enter(c *Ctx, site ssa.CallInstruction, callee *ssa.Function) bool {
	if callee.Parent() != nil || l.relev(callee) {
		return true
	}
	for _, a := range site.Common().Args {
		if v := c.Val(a); v.K == KTag && strings.HasPrefix(v.Tag, "res:") {
			return true
		}
	}
	return false
}

func (l *localTimers) Instr(c *Ctx, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			if v := c.Val(x.Val); v.K == KTag && strings.HasPrefix(v.Tag, "res:") {
				c.SetA(addOnce(c.A(), "f:"+ownerField(fa)+"="+v.Tag))
			}
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			l.took(c, x.X)
		}
	case *ssa.Select:
		// one of the cases is taken; the timer is spent only if it is the only
		// one
		if len(x.States) == 1 && x.Blocking {
			l.took(c, x.States[0].Chan)
		}
	}
}

func (l *localTimers) took(c *Ctx, ch ssa.Value) {
	if u, ok := ch.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && typeKey(fa.X.Type()) == "time.Timer" {
			if v := c.Val(fa.X); v.K == KTag {
				c.SetA(delPrefix(c.A(), "t:"+v.Tag))
			}
		}
	}
}

// handles follows the timers and stop channels that are kept in fields: what
// a field held before is stopped before (or together with) its replacement,
// and when the state kept beside it changes.
type handles struct {
	BaseClient
	P      *Program
	r      *Report
	fields map[string]bool
	owner  map[string]bool            // types that have such fields
	state  map[string]bool            // state fields kept beside timers
	relev  func(*ssa.Function) bool   //
	armed  map[*ssa.Function][]string // timer function -> state it is armed in
	saw    map[ssa.Instruction]bool
	bad    map[string]ssa.Instruction
	msg    map[string]string
	onStop func(c *Ctx, ins ssa.Instruction, f string)
}

func ownerOf(field string) string { return field[:strings.LastIndex(field, ".")] }

func (h *handles) gen(c *Ctx, o string) string {
	g := c.Get("g:" + o)
	if g == "" {
		g = "0"
	}
	return g
}

// fieldTag: the field and generation a value was loaded from.
func fieldTag(v Val) (kind, f, g string) {
	if v.K != KTag || !strings.HasPrefix(v.Tag, "?h:") && !strings.HasPrefix(v.Tag, "?s:") {
		return "", "", ""
	}
	i := strings.LastIndex(v.Tag, "#")
	return v.Tag[1:2], v.Tag[3:i], v.Tag[i+1:]
}

func (h *handles) Load(c *Ctx, ld *ssa.UnOp) (Val, bool) {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return Top, false
	}
	f := ownerField(fa)
	switch {
	case h.fields[f]:
		if c.Get("cur:"+f) != "" {
			return Top, false
		}
		return TagV("?h:" + f + "#" + h.gen(c, ownerOf(f))), true
	case h.state[f]:
		if c.Get("wr:"+f) != "" {
			return Top, false
		}
		return TagV("?s:" + f + "#" + h.gen(c, ownerOf(f))), true
	}
	return Top, false
}

func (h *handles) quiet(c *Ctx, ins ssa.Instruction, v Val) {
	k, f, g := fieldTag(v)
	if k != "h" {
		return
	}
	if h.onStop != nil {
		h.onStop(c, ins, f)
	}
	if g == h.gen(c, ownerOf(f)) {
		c.Put("q:"+f, "1")
	}
	if w := c.Get("owe:" + f); w != "" && w[:strings.Index(w, "|")] == g {
		c.Put("owe:"+f, "")
	}
}

func (h *handles) fault(key string, ins ssa.Instruction, msg string) {
	if h.bad[key] == nil {
		h.bad[key], h.msg[key] = ins, msg
	}
}

func (h *handles) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if op, lk := lockOp(site.Common()); op != "" {
		if _, isGo := site.(*ssa.Go); isGo {
			return nil, false
		}
		o := lockName(c, lk)
		if i := strings.LastIndex(o, "."); i >= 0 {
			o = o[:i]
		}
		if h.owner[o] {
			switch op {
			case "W+", "R+":
				h.section(c, site, o)
			case "W-", "R-":
				h.leave(c, site, o)
				h.section(c, site, o)
			}
		}
		return []CallRes{{A: c.A(), Ret: Top}}, true
	}
	if b, ok := site.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
		h.quiet(c, site, c.Val(site.Common().Args[0]))
		return nil, false
	}
	if callee == nil {
		return nil, false
	}
	switch callee.String() {
	case "(*time.Timer).Stop", "(*time.Ticker).Stop":
		h.quiet(c, site, args[0])
		return []CallRes{{A: c.A(), Ret: Top}}, true
	case "time.AfterFunc":
		if args[1].K == KFunc {
			f := h.P.unbound(args[1].Fn)
			if h.armed[f] == nil {
				h.armed[f] = []string{}
			}
			m := parseA(c.A())
			for sf := range h.state {
				w := m["wr:"+sf]
				if w == "" {
					w = m["eq:"+sf]
				}
				if w != "" && !strings.HasPrefix(w, "?") {
					h.armed[f] = addStr(h.armed[f], sf+"="+w)
				}
			}
		}
		return []CallRes{{A: c.A(), Ret: NonNil}}, true
	}
	return nil, false
}

func addStr(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	l = append(l, s)
	sort.Strings(l)
	return l
}

// section starts a new critical section: what was learned before says nothing
// about the fields any more.
func (h *handles) section(c *Ctx, ins ssa.Instruction, o string) {
	m := parseA(c.A())
	for k := range m {
		for _, p := range []string{"q:", "cur:", "wr:", "eq:"} {
			if strings.HasPrefix(k, p) && ownerOf(k[len(p):]) == o {
				delete(m, k)
			}
		}
	}
	n, _ := strconv.Atoi(m["g:"+o])
	m["g:"+o] = strconv.Itoa((n + 1) % 5)
	c.SetA(m.String())
}

// leave checks what a critical section owes when it ends.
func (h *handles) leave(c *Ctx, ins ssa.Instruction, o string) {
	m := parseA(c.A())
	for sf := range h.state {
		w := m["wr:"+sf]
		if ownerOf(sf) != o || w == "" || m["eq:"+sf] == w {
			continue
		}
		for f := range h.fields {
			if ownerOf(f) == o && m["q:"+f] == "" && m["owe:"+f] == "" {
				h.fault("state "+sf+" "+f+" in "+h.P.fname(c.fn), ins, "the state "+sf+" changes but the timer in "+f+" is left running")
			}
		}
	}
}

func valKey(v Val) string {
	if v.K == KConst && v.C != nil {
		return v.C.ExactString()
	}
	return "?"
}

func (h *handles) Instr(c *Ctx, ins ssa.Instruction) {
	st, ok := ins.(*ssa.Store)
	if !ok {
		return
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	f := ownerField(fa)
	if !h.fields[f] && !h.state[f] || c.unpublished(c.Val(fa.X)) {
		h.saw[ins] = true
		return
	}
	h.saw[ins] = true
	if h.state[f] {
		k := valKey(c.Val(st.Val))
		if k == "?" {
			k = "?" + st.Val.Name()
		}
		c.Put("wr:"+f, k)
		return
	}
	if k, g, n := fieldTag(c.Val(st.Val)); k == "h" && g == f && n == h.gen(c, ownerOf(f)) {
		return // written back
	}
	m := parseA(c.A())
	if m["q:"+f] == "" && m["owe:"+f] == "" {
		if m["cur:"+f] != "" && m["cur:"+f] != "nil" {
			h.fault("replaced "+f+" in "+h.P.fname(c.fn), ins, "what was just stored in "+f+" is overwritten without being stopped")
		} else if m["cur:"+f] == "" {
			m["owe:"+f] = h.gen(c, ownerOf(f)) + "|" + h.P.ipos(ins)
		}
	}
	if c.Val(st.Val).K == KNil {
		m["cur:"+f] = "nil"
	} else {
		m["cur:"+f] = "set"
		if m["q:"+f] != "" {
			delete(m, "q:"+f)
			m["q:"+f] = "1"
		}
	}
	c.SetA(m.String())
}

// Cond learns from comparisons before their operands are refined.
func (h *handles) Cond(c *Ctx, br *ssa.If, _ Val, taken bool) bool {
	b, ok := br.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return true
	}
	if (b.Op == token.EQL) != taken {
		return true
	}
	for _, xy := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		x, y := c.Val(xy[0]), c.Val(xy[1])
		k, f, g := fieldTag(x)
		switch {
		case k == "h" && y.K == KNil:
			if g == h.gen(c, ownerOf(f)) {
				c.Put("q:"+f, "1")
			}
			if w := c.Get("owe:" + f); w != "" && w[:strings.Index(w, "|")] == g {
				c.Put("owe:"+f, "")
			}
			if h.onStop != nil {
				h.onStop(c, br, f)
			}
		case k == "s" && g == h.gen(c, ownerOf(f)):
			w := valKey(y)
			if w == "?" {
				w = "?" + xy[1].Name()
			}
			c.Put("eq:"+f, w)
		}
	}
	return true
}

func (h *handles) Enter(c *Ctx, site ssa.CallInstruction, callee *ssa.Function) bool {
	return callee.Parent() != nil || h.relev(callee)
}

// late follows a timer's function: nothing happens before the state was seen
// to be the one the timer was armed in, or the state machine took the event.
type late struct {
	*hm
	r     *Report
	state map[string]bool
	want  map[string]bool // "field=value"
	src   string          // state of the connection the event is defined in
	bad   ssa.Instruction
	what  string
	seen  int
}

func (l *late) ok(c *Ctx) bool {
	m := parseA(c.A())
	if m["chk"] != "" {
		return true
	}
	return m["fsmed"] != "" && m["S"] != "" || l.src != "" && m["S"] == l.src
}

func (l *late) effect(c *Ctx, ins ssa.Instruction, what string) {
	l.seen++
	if !l.ok(c) && l.bad == nil {
		l.bad, l.what = ins, what
	}
}

func (l *late) Instr(c *Ctx, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Store:
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			if !c.unpublished(c.Val(a.X)) && !l.P.localAlloc(a.X) {
				l.effect(c, ins, "writes "+ownerField(a))
			}
		case *ssa.Global:
			l.effect(c, ins, "writes "+a.Name())
		}
	case *ssa.MapUpdate:
		l.effect(c, ins, "updates a map")
	case *ssa.Send:
		l.effect(c, ins, "sends on a channel")
	case *ssa.Go:
		l.effect(c, ins, "starts a goroutine")
	}
	l.hm.Instr(c, ins)
}

func (P *Program) localAlloc(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func (l *late) Cond(c *Ctx, br *ssa.If, cond Val, taken bool) bool {
	if b, ok := br.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (b.Op == token.EQL) == taken {
		for _, xy := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			x, y := c.Val(xy[0]), c.Val(xy[1])
			if k, f, _ := fieldTag(x); k == "s" && l.want[f+"="+valKey(y)] {
				c.Put("chk", "1")
			}
		}
	}
	return l.hm.Cond(c, br, cond, taken)
}

func checkTimers(r *Report) {
	P := r.P
	loops := P.tickLoops()
	// 1. where timers are made
	isSrc := func(ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && ci.Common().StaticCallee() != nil && timerSource(ci.Common().StaticCallee().String()) != ""
	}
	memo := map[*ssa.Function]bool{}
	l := &localTimers{P: P, made: map[ssa.Instruction]bool{}, loose: map[string]ssa.Instruction{}}
	l.relev = func(f *ssa.Function) bool {
		v, ok := memo[f]
		if !ok {
			v = P.syncReaches(f, isSrc)
			memo[f] = v
		}
		return v
	}
	owning := map[string]bool{}
	le := NewEngine(P, l)
	for _, f := range P.funcs {
		direct := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				direct = direct || isSrc(ins)
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().String() == "time.Tick" {
					r.Check(false, "owned", P.fname(f), P.ipos(ins), "a ticker made by time.Tick can never be stopped")
				}
			}
		}
		if !direct {
			continue
		}
		for _, x := range le.Run(f, "") {
			if x.Panicked {
				continue
			}
			a := x.A
			for _, v := range x.Rets {
				if v.K == KTag {
					a = delPrefix(a, "t:"+v.Tag)
				}
			}
			left := ""
			for _, t := range heldList(a) {
				if !strings.HasPrefix(t, "t:") {
					continue
				}
				kept := false
				for _, u := range heldList(a) {
					if strings.HasPrefix(u, "f:") && strings.HasSuffix(u, "="+t[2:]) {
						owning[u[2:strings.Index(u, "=")]] = true
						kept = true
					}
				}
				if !kept {
					left = t[len("t:res:"):]
				}
			}
			pos := P.pos(f.Pos())
			if x.ret != nil {
				pos = P.ipos(x.ret)
			}
			r.Check(left == "", "owned", P.fname(f), pos, "returns without stopping or keeping the "+strings.Replace(left, "@", " made at ", 1))
		}
	}
	r.SawEngine(le)
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if isSrc(ins) && !l.made[ins] {
					r.Check(false, "owned", P.fname(f), P.ipos(ins), "a timer is made on no path followed, or by a deferred call or goroutine")
				}
			}
		}
	}
	// 2. the loops of tickers
	fields := map[string]bool{}
	for f := range owning {
		fields[f] = true
	}
	for _, lp := range loops {
		fn := lp.sel.Parent()
		good := ""
		for _, s := range lp.stops {
			if !selectLeaves(lp.sel, s.idx) {
				continue
			}
			if s.other {
				good = "x"
				continue
			}
			if len(s.fields) > 0 {
				if good == "" {
					good = "field " + s.fields[0]
				}
				continue
			}
			for _, m := range s.makes {
				for _, f := range P.chanStores(m) {
					fields[f] = true
					good = "x"
				}
			}
		}
		r.Check(good != "", "loop", P.fname(fn), P.ipos(lp.sel), "the loop of a ticker has no stop signal that ends it")
		r.Check(good == "" || good == "x", "loop", P.fname(fn)+" own signal", P.ipos(lp.sel), "the loop waits on whatever channel is in "+strings.TrimPrefix(good, "field ")+", which it shares with other loops")
	}
	// 3. the fields
	h := &handles{P: P, r: r, fields: fields, owner: map[string]bool{}, state: map[string]bool{}, armed: map[*ssa.Function][]string{}, saw: map[ssa.Instruction]bool{}, bad: map[string]ssa.Instruction{}, msg: map[string]string{}}
	timerOwner := map[string]bool{}
	for f := range fields {
		h.owner[ownerOf(f)] = true
		if owning[f] {
			timerOwner[ownerOf(f)] = true
		}
	}
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !timerOwner[ownerOf(ownerField(fa))] {
					continue
				}
				if n, ok := fieldType(fa).(*types.Named); ok && isInteger(n) && n.Obj().Pkg() != nil && len(P.constsOf(n.Obj().Pkg().Path(), n.Obj().Name())) > 1 {
					h.state[ownerField(fa)] = true
				}
			}
		}
	}
	relevant := func(ins ssa.Instruction) bool {
		switch x := ins.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				return h.fields[ownerField(fa)] || h.state[ownerField(fa)]
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				return h.fields[ownerField(fa)]
			}
		}
		return false
	}
	memo2 := map[*ssa.Function]bool{}
	h.relev = func(f *ssa.Function) bool {
		v, ok := memo2[f]
		if !ok {
			v = P.syncReaches(f, relevant)
			memo2[f] = v
		}
		return v
	}
	he := NewEngine(P, h)
	roots := P.rootFunctions()
	for _, f := range roots {
		if !h.relev(f) {
			continue
		}
		for _, x := range he.Run(f, "") {
			if x.Panicked {
				continue
			}
			for k, v := range parseA(x.A) {
				if strings.HasPrefix(k, "owe:") {
					at := v[strings.Index(v, "|")+1:]
					r.Check(false, "replaced", k[4:]+" at "+at, at, "what "+k[4:]+" held before is forgotten without being stopped (reached from "+P.fname(f)+")")
				}
			}
		}
	}
	r.SawEngine(he)
	for _, k := range sortedInsKeys(h.bad) {
		rule := "replaced"
		if strings.HasPrefix(k, "state ") {
			rule = "left"
		}
		r.Check(false, rule, k, P.ipos(h.bad[k]), h.msg[k])
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !h.fields[ownerField(fa)] && !h.state[ownerField(fa)] {
					continue
				}
				rule := "replaced"
				if h.state[ownerField(fa)] {
					rule = "left"
				}
				r.Check(h.saw[ins], rule, P.fname(f)+" "+ownerField(fa), P.ipos(ins), "this store is on no path that was followed")
			}
		}
	}
	checkRegistration(r, h, loops)
	checkLate(r, h)
	r.Floor("owned", 4)
	r.Floor("loop", 4)
	r.Floor("replaced", 6)
	r.Floor("left", 2)
}

func sortedInsKeys(m map[string]ssa.Instruction) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// selectLeaves: when case i of the select is taken, the select is not reached
// again.
func selectLeaves(sel *ssa.Select, i int) bool {
	var starts []*ssa.BasicBlock
	for _, ref := range *sel.Referrers() {
		ex, ok := ref.(*ssa.Extract)
		if !ok || ex.Index != 0 {
			continue
		}
		for _, r2 := range *ex.Referrers() {
			b, ok := r2.(*ssa.BinOp)
			if !ok || b.Op != token.EQL {
				continue
			}
			k, ok := b.Y.(*ssa.Const)
			if !ok || k.Value == nil || k.Int64() != int64(i) {
				continue
			}
			for _, r3 := range *b.Referrers() {
				if br, ok := r3.(*ssa.If); ok {
					starts = append(starts, br.Block().Succs[0])
				}
			}
		}
	}
	if len(starts) == 0 {
		return false
	}
	type step struct{ b, from *ssa.BasicBlock }
	seen := map[step]bool{}
	var walk func(b, from *ssa.BasicBlock) bool
	walk = func(b, from *ssa.BasicBlock) bool {
		if b == sel.Block() {
			return false
		}
		if seen[step{b, from}] {
			return true
		}
		seen[step{b, from}] = true
		next := b.Succs
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			// a flag set by the case itself
			if v, ok := phiConst(br.Cond, b, from); ok {
				next = next[:1]
				if !v {
					next = b.Succs[1:]
				}
			}
		}
		for _, s := range next {
			if !walk(s, b) {
				return false
			}
		}
		return true
	}
	for _, b := range starts {
		if !walk(b, b) {
			return false
		}
	}
	return true
}

// phiConst: the condition of block b when it is entered from another block.
func phiConst(v ssa.Value, b, from *ssa.BasicBlock) (bool, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			r, ok := phiConst(x.X, b, from)
			return !r, ok
		}
	case *ssa.Phi:
		if x.Block() != b {
			return false, false
		}
		for i, p := range b.Preds {
			if p != from {
				continue
			}
			if k, ok := x.Edges[i].(*ssa.Const); ok && k.Value != nil {
				return k.Value.ExactString() == "true", true
			}
		}
	}
	return false, false
}

// registration: after a stop channel is registered (or under the same lock)
// the flag that whoever closes the channel clears too is seen set, so that
// a loop cannot be started for something that has already ended.
type registration struct {
	handles
	sel    map[*ssa.Select]bool
	start  func(*ssa.Function) bool
	flags  map[string]map[string]bool
	report func(c *Ctx, ins ssa.Instruction, f string, ok bool)
}

func (g *registration) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if f, op := atomicOp(site, callee); op != "" {
		switch op {
		case "Load":
			return []CallRes{{A: withA(c.A(), "on:"+f, "1"), Ret: CBool(true)}, {A: withA(c.A(), "on:"+f, ""), Ret: CBool(false)}}, true
		case "CompareAndSwap":
			nv := truth(args[2])
			y := withA(c.A(), "on:"+f, "")
			if nv == "0" {
				y = withA(y, "off:"+f, "1")
			}
			return []CallRes{{A: y, Ret: CBool(true)}, {A: c.A(), Ret: CBool(false)}}, true
		case "Store", "Swap":
			if truth(args[len(args)-1]) == "0" {
				c.Put("off:"+f, "1")
			} else {
				c.Put("off:"+f, "")
			}
			c.Put("on:"+f, "")
			return []CallRes{{A: c.A(), Ret: Top}}, true
		}
	}
	if gs, ok := site.(*ssa.Go); ok {
		fv := c.e.calleeVal(c.st, c.fr, &gs.Call)
		if fv.K != KFunc && callee != nil {
			fv = FnV(callee)
		}
		if fv.K == KFunc && g.start(g.P.unbound(fv.Fn)) {
			for k := range parseA(c.A()) {
				if strings.HasPrefix(k, "reg:") {
					g.check(c, site, k[4:])
				}
			}
		}
		return nil, false
	}
	op, lk := lockOp(site.Common())
	rs, ok := g.handles.Call(c, site, callee, args)
	if op == "W+" {
		o := lockName(c, lk)
		if i := strings.LastIndex(o, "."); i >= 0 && g.owner[o[:i]] {
			m := parseA(rs[0].A)
			for k := range m {
				if strings.HasPrefix(k, "on:") {
					delete(m, k)
				}
			}
			rs[0].A = m.String()
		}
	}
	return rs, ok
}

func (g *registration) check(c *Ctx, ins ssa.Instruction, f string) {
	m := parseA(c.A())
	ok := false
	for fl := range g.flags[f] {
		ok = ok || m["on:"+fl] == "1"
	}
	g.report(c, ins, f, ok)
}

func (g *registration) Instr(c *Ctx, ins ssa.Instruction) {
	if st, ok := ins.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok && g.fields[ownerField(fa)] {
			if c.Val(st.Val).K == KNil {
				c.Put("reg:"+ownerField(fa), "")
			} else {
				c.Put("reg:"+ownerField(fa), "1")
			}
		}
	}
	if sel, ok := ins.(*ssa.Select); ok && g.sel[sel] {
		for k := range parseA(c.A()) {
			if strings.HasPrefix(k, "reg:") {
				g.check(c, ins, k[4:])
				c.Put(k, "")
			}
		}
	}
	g.handles.Instr(c, ins)
}

func checkRegistration(r *Report, h *handles, loops []tickLoop) {
	P := r.P
	chans := map[string]bool{}
	starts := map[*ssa.Function]bool{}
	sels := map[*ssa.Select]bool{}
	for _, lp := range loops {
		sels[lp.sel] = true
		starts[lp.sel.Parent()] = true
		for _, s := range lp.stops {
			for _, m := range s.makes {
				for _, f := range P.chanStores(m) {
					chans[f] = true
				}
			}
		}
	}
	isSel := func(ins ssa.Instruction) bool {
		s, ok := ins.(*ssa.Select)
		return ok && sels[s]
	}
	newReg := func() *registration {
		g := &registration{handles: *h, sel: sels, flags: map[string]map[string]bool{}}
		g.fields, g.owner, g.state = chans, map[string]bool{}, map[string]bool{}
		g.bad, g.msg, g.saw, g.armed = map[string]ssa.Instruction{}, map[string]string{}, map[ssa.Instruction]bool{}, map[*ssa.Function][]string{}
		for f := range chans {
			g.owner[ownerOf(f)] = true
		}
		g.start = func(f *ssa.Function) bool { return P.syncReaches(f, isSel) }
		return g
	}
	rel := func(ins ssa.Instruction) bool {
		if isSel(ins) {
			return true
		}
		switch x := ins.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				return chans[ownerField(fa)]
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				return chans[ownerField(fa)]
			}
		}
		return false
	}
	memo := map[*ssa.Function]bool{}
	relev := func(f *ssa.Function) bool {
		v, ok := memo[f]
		if !ok {
			v = P.syncReaches(f, rel)
			memo[f] = v
		}
		return v
	}
	// who ends the loop: entering NOT-CONNECTED, and Disable
	enders := map[*ssa.Function]string{}
	for _, cb := range P.wiredCallbacks() {
		if cb.fn != nil && cb.key == "enter_"+stNotConnected {
			enders[cb.fn] = "entering NOT-CONNECTED"
		}
	}
	if f := P.method(pkgGem, "GemHandler", "Disable"); f != nil {
		enders[f] = "Disable of the GEM handler"
	}
	flags := map[string]map[string]bool{}
	for _, f := range sortedFuncs(enders) {
		if !relev(f) {
			continue
		}
		g := newReg()
		g.relev = relev
		g.report = func(*Ctx, ssa.Instruction, string, bool) {}
		ends := map[string]bool{}
		g.onStop = func(c *Ctx, ins ssa.Instruction, fl string) {
			if fl[:strings.Index(fl, ".")] == fnPkg(f).Name() {
				ends[fl] = true
				c.Put("end:"+fl, "1")
			}
		}
		e := NewEngine(P, g)
		outs := e.Run(f, "")
		for fl := range ends {
			for _, x := range outs {
				m := parseA(x.A)
				if x.Panicked || m["end:"+fl] == "" {
					continue
				}
				set := map[string]bool{}
				for k, v := range m {
					if strings.HasPrefix(k, "off:") && v == "1" {
						set[k[4:]] = true
					}
				}
				if flags[fl] == nil {
					flags[fl] = set
					continue
				}
				for k := range flags[fl] {
					if !set[k] {
						delete(flags[fl], k)
					}
				}
			}
		}
		r.SawEngine(e)
	}
	for _, f := range sortedKeys(chans) {
		r.Check(len(flags[f]) > 0, "started", f, "", "nothing that ends the loop whose stop signal is in "+f+" also clears a flag that a new loop could check")
	}
	seen := map[string]bool{}
	g := newReg()
	g.relev = relev
	g.flags = flags
	g.report = func(c *Ctx, ins ssa.Instruction, f string, ok bool) {
		seen[f] = true
		r.Check(ok, "started", f+" in "+P.fname(ins.Parent()), P.ipos(ins), "the loop is started without checking, after its stop signal is registered in "+f+" or under the same lock, that what it serves has not ended meanwhile")
	}
	e := NewEngine(P, g)
	for _, f := range P.rootFunctions() {
		if relev(f) {
			e.Run(f, "")
		}
	}
	r.SawEngine(e)
	for _, f := range sortedKeys(chans) {
		r.Check(seen[f], "started", f+" seen", "", "no path that registers a stop signal in "+f+" and starts the loop was found")
	}
	r.Floor("started", 4)
}

func checkLate(r *Report, h *handles) {
	P := r.P
	for _, f := range sortedFuncs(h.armed) {
		want := map[string]bool{}
		for _, w := range h.armed[f] {
			want[w] = true
		}
		l := &late{hm: newHM(P), r: r, state: h.state, want: want, src: stNotSelected}
		if len(want) > 0 {
			l.src = ""
		}
		l.load = func(c *Ctx, ld *ssa.UnOp) (Val, bool) {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok && l.state[ownerField(fa)] {
				return TagV("?s:" + ownerField(fa) + "#0"), true
			}
			return Top, false
		}
		l.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
			switch {
			case kind == "fsm":
				c.Put("fsmed", "1")
			case strings.HasPrefix(kind, "store:"), kind == "close", kind == "tx", kind == "afterfunc", kind == "go":
				l.effect(c, site, "does "+kind)
			}
		}
		l.extra = func(c *Ctx, site ssa.CallInstruction, n string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
			if fl, op := atomicOp(site, callee); op != "" && op != "Load" {
				l.effect(c, site, "changes "+fl)
			}
			if b, ok := site.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
				l.effect(c, site, "closes a channel")
			}
			if n == "(*time.Timer).Stop" {
				l.effect(c, site, "stops a timer")
			}
			return nil, false
		}
		e := newHMEngine(P, l)
		e.Run(f, "")
		r.SawEngine(e)
		at := P.pos(f.Pos())
		if l.bad != nil {
			at = P.ipos(l.bad)
		}
		r.Check(l.bad == nil, "late", P.fname(f), at, "a timer that fires late "+l.what+" before the state it was armed in was checked")
		r.Check(l.seen > 0, "late", P.fname(f)+" acts", P.pos(f.Pos()), "the timer function does nothing")
		r.Check(len(want) > 0 || fnPkg(f).Path() == pkgHsms, "late", P.fname(f)+" state", P.pos(f.Pos()), "the state this timer is armed in is not known")
	}
	r.Floor("late", 6)
}

func init() {
	register("C30", "Every timer, ticker and stop channel is followed from where it is made through the fields that keep it (typestate per critical section) to where it is stopped; the functions of timers are interpreted up to their first effect.", func(r *Report) {
		r.Rule("owned", "a timer or ticker is stopped or spent on every path from where it is made, or kept in a field")
		r.Rule("loop", "the loop of a ticker ends on a stop signal made for that loop")
		r.Rule("replaced", "a timer or stop signal kept in a field is stopped when it is replaced or forgotten, within the same critical section or by whoever took it out")
		r.Rule("left", "when the state kept beside timers changes, each of them is stopped in the same critical section")
		r.Rule("started", "a ticker loop starts only after its stop signal is registered and what it serves was seen not to have ended")
		r.Rule("late", "a timer's function does nothing before it has seen the state the timer was armed in, or the state machine has accepted its event")
		checkTimers(r)
	})
}
