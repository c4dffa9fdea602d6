package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The HSMS model: a client of the engine that turns the calls of the session,
// transaction and state-machine types into events, and gives messages,
// identifiers and encoded frames symbolic names ("tags") so that a property
// can say which message's bytes were sent or which identifier was used.
//
//	m:<x>            a message named x (m:in = the received message)
//	data{...}        a data message derived by the library
//	ctl{kind ...}    a control message built by the library
//	bytes:<tag>      its encoding
//	sys(<tag>)       its system bytes; u32(..) as a number
//	fresh@<pos>      an identifier taken from the system counter

const (
	tSession = pkgLink + ".Session"
	tDeque   = pkgUtils + ".Deque"
	tCSM     = pkgHsms + ".ConnectionStateMachine"
	tProto   = pkgHsms + ".HsmsProtocol"
	tData    = pkgAst + ".DataMessage"
	tCtl     = pkgAst + ".ControlMessage"
	tMsgIf   = pkgAst + ".HSMSMessage"
	tHandler = pkgHsms + ".DataMessageHandler"
)

// avars is the automaton state: sorted "k=v;" pairs.
type avars map[string]string

func parseA(a string) avars {
	m := avars{}
	for _, p := range strings.Split(a, ";") {
		if i := strings.Index(p, "="); i > 0 {
			m[p[:i]] = p[i+1:]
		}
	}
	return m
}

func (m avars) String() string {
	ks := make([]string, 0, len(m))
	for k, v := range m {
		if v != "" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k + "=" + m[k] + ";")
	}
	return b.String()
}

func (c *Ctx) Get(k string) string { return parseA(c.A())[k] }
func (c *Ctx) Put(k, v string) {
	m := parseA(c.A())
	m[k] = v
	c.SetA(m.String())
}

func withA(a, k, v string) string {
	m := parseA(a)
	m[k] = v
	return m.String()
}

// fsmTable is a state machine definition found in the source.
type fsmTable struct {
	initial string
	trans   map[string]string // "src|event" -> dst
	states  []string
	site    ssa.Instruction
}

// hm is the HSMS model client. Properties embed it.
type hm struct {
	BaseClient
	P   *Program
	tab *fsmTable
	cbs map[string]*ssa.Function
	// ev is told about events; it may change the automaton state through c
	ev func(c *Ctx, site ssa.CallInstruction, kind string, args []Val)
	// acc may answer accessor calls on messages: method name and receiver
	acc func(c *Ctx, site ssa.CallInstruction, method string, recv Val) ([]CallRes, bool)
	// recv supplies the results of Session.Receive
	recv func(c *Ctx) []CallRes
	// handlers: descend into gem handlers called through the table?
	noCallbacks bool
	followGo    bool // analyse goroutine and timer bodies where they are started
	instr       func(c *Ctx, ins ssa.Instruction)
	load        func(c *Ctx, ld *ssa.UnOp) (Val, bool)
	extra       func(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool)
	enter       func(c *Ctx, site ssa.CallInstruction, callee *ssa.Function) bool
	fork        func(c *Ctx, ins ssa.Instruction) ([]CallRes, bool)
	branch      func(c *Ctx, br *ssa.If, taken bool) bool
	startA      func(a string) string // automaton state a goroutine or timer starts in
	followed    func(c *Ctx, site ssa.CallInstruction, fn *ssa.Function, os []Outcome)
	factOK      func(cond string) bool // which symbolic conditions are remembered
}

func (h *hm) Fork(c *Ctx, ins ssa.Instruction) ([]CallRes, bool) {
	if h.fork != nil {
		return h.fork(c, ins)
	}
	return nil, false
}

func (h *hm) Branch(c *Ctx, br *ssa.If, taken bool) bool {
	if h.branch != nil {
		return h.branch(c, br, taken)
	}
	return true
}

func newHM(P *Program) *hm {
	h := &hm{P: P, cbs: map[string]*ssa.Function{}}
	h.tab = P.fsmTable()
	for _, cb := range P.wiredCallbacks() {
		h.cbs[cb.key] = cb.fn
	}
	return h
}

// wiredCallbacks: the callbacks the protocol registers (not the machine's own
// defaults, which apply only when none are given).
func (P *Program) wiredCallbacks() []cbEntry {
	var out []cbEntry
	for _, cb := range P.fsmCallbacks() {
		f := cb.in
		for f.Parent() != nil {
			f = f.Parent()
		}
		if P.reachesNewFSM(f) && P.takesCallbacks(f) {
			continue // defaults
		}
		out = append(out, cb)
	}
	return out
}

func (P *Program) reachesNewFSM(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.String() == "github.com/looplab/fsm.NewFSM" {
					return true
				}
			}
		}
	}
	return false
}

func (P *Program) takesCallbacks(f *ssa.Function) bool {
	for _, p := range f.Params {
		if strings.HasSuffix(typeKey(p.Type()), "looplab/fsm.Callbacks") {
			return true
		}
	}
	return false
}

// fsmTable evaluates the arguments of fsm.NewFSM.
func (P *Program) fsmTable() *fsmTable {
	t := &fsmTable{trans: map[string]string{}}
	for _, fn := range P.funcs {
		if !P.reachesNewFSM(fn) {
			continue
		}
		cl := &fsmGrab{t: t}
		e := NewEngine(P, cl)
		e.Run(fn, "")
	}
	set := map[string]bool{}
	if t.initial != "" {
		set[t.initial] = true
	}
	for k, d := range t.trans {
		set[d] = true
		set[k[:strings.Index(k, "|")]] = true
	}
	for s := range set {
		t.states = append(t.states, s)
	}
	sort.Strings(t.states)
	return t
}

type fsmGrab struct {
	BaseClient
	t *fsmTable
}

func (g *fsmGrab) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if callee == nil || callee.String() != "github.com/looplab/fsm.NewFSM" || len(args) < 2 {
		return nil, false
	}
	g.t.site = site
	g.t.initial, _ = args[0].IsStr()
	ev := args[1]
	if ev.K != KSlice {
		g.t.trans["?|?"] = "?"
		return nil, false
	}
	for i := 0; i < ev.Len; i++ {
		base := Val{K: KAddr, Site: ev.Site, Path: ev.Path + "[" + itoa(i+ev.Lo) + "]"}
		name, _ := c.e.load(c.st, Val{K: KAddr, Site: base.Site, Path: base.Path + ".Name"}, types.Typ[types.String]).IsStr()
		dst, _ := c.e.load(c.st, Val{K: KAddr, Site: base.Site, Path: base.Path + ".Dst"}, types.Typ[types.String]).IsStr()
		src := c.e.load(c.st, Val{K: KAddr, Site: base.Site, Path: base.Path + ".Src"}, types.NewSlice(types.Typ[types.String]))
		if src.K != KSlice || name == "" {
			g.t.trans["?|"+name] = dst
			continue
		}
		for j := 0; j < src.Len; j++ {
			s, _ := c.e.load(c.st, Val{K: KAddr, Site: src.Site, Path: src.Path + "[" + itoa(j+src.Lo) + "]"}, types.Typ[types.String]).IsStr()
			g.t.trans[s+"|"+name] = dst
		}
	}
	return nil, false
}

func itoa(i int) string {
	return strconv.Itoa(i)
}

// callName is the full name of what a call calls: "(*pkg.T).M", "pkg.F", or
// "iface:pkg.I.M".
func callName(site ssa.CallInstruction, callee *ssa.Function) string {
	cc := site.Common()
	if callee != nil {
		return callee.String()
	}
	if cc.IsInvoke() {
		return "iface:" + typeKey(cc.Value.Type()) + "." + cc.Method.Name()
	}
	return ""
}

// recvType and method of a call of a named type's method.
func recvMethod(site ssa.CallInstruction, callee *ssa.Function) (string, string) {
	cc := site.Common()
	if callee != nil {
		if r := callee.Signature.Recv(); r != nil {
			return typeKey(r.Type()), callee.Name()
		}
		return "", callee.Name()
	}
	if cc.IsInvoke() {
		return typeKey(cc.Value.Type()), cc.Method.Name()
	}
	return "", ""
}

// follow analyses a function that will run on another goroutine as if it ran
// at the point where it is started, without effect on that point.
func (h *hm) follow(c *Ctx, site ssa.CallInstruction, fv Val, args []Val) {
	if fv.K != KFunc || nested(c, c.e.P.unbound(fv.Fn)) {
		return
	}
	a := c.A()
	if h.startA != nil {
		c.SetA(h.startA(a))
	}
	os := c.e.callFn(c, site, fv, args)
	c.SetA(a)
	if h.followed != nil {
		h.followed(c, site, c.e.P.unbound(fv.Fn), os)
	}
}

func (h *hm) fire(c *Ctx, site ssa.CallInstruction, kind string, args ...Val) {
	if h.ev != nil {
		h.ev(c, site, kind, args)
	}
}

func (h *hm) Instr(c *Ctx, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.MapUpdate:
		if isTable(x.Map.Type()) {
			if h.ev != nil {
				h.ev(c, nil, "reg", []Val{c.sysOf(c.Val(x.Key)), c.Val(x.Value)})
			}
		}
	}
	if h.instr != nil {
		h.instr(c, ins)
	}
}

func (h *hm) Load(c *Ctx, ld *ssa.UnOp) (Val, bool) {
	if h.load != nil {
		return h.load(c, ld)
	}
	return Top, false
}

func (h *hm) Enter(c *Ctx, site ssa.CallInstruction, callee *ssa.Function) bool {
	if h.enter != nil && !h.enter(c, site, callee) {
		return false
	}
	switch fnPkg(callee).Path() {
	case pkgAst, pkgPHsms, pkgPSml, pkgLink, pkgCodec, pkgUtils:
		return false
	}
	return true
}

// isTable: the table of open transactions, map[uint32]*utils.Deque.
func isTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && typeKey(m.Elem()) == tDeque
}

func isHandlerMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && typeKey(m.Elem()) == tHandler
}

// sysOf normalises a value that stands for system bytes or an identifier: a
// slice of the four big-endian bytes of a number is that number.
func (c *Ctx) sysOf(v Val) Val {
	if v.K != KSlice || v.Len != 4 {
		return v
	}
	u32 := types.Typ[types.Uint32]
	bs := make([]Bit, 32)
	for i := 0; i < 4; i++ {
		b := c.e.load(c.st, Val{K: KAddr, Site: v.Site, Path: v.Path + "[" + itoa(v.Lo+i) + "]"}, types.Typ[types.Uint8])
		eb, ok := c.e.toBits(b, types.Typ[types.Uint8])
		if !ok {
			return v
		}
		copy(bs[(3-i)*8:], eb)
	}
	o := c.e.fromBits(bs, u32)
	if o.K == KTag && strings.HasPrefix(o.Tag, "u32(") {
		return TagV(strings.TrimSuffix(strings.TrimPrefix(o.Tag, "u32("), ")"))
	}
	return o
}

// putBE stores the big-endian bytes of a number into a slice.
func (c *Ctx) putBE(dst, v Val, t types.Type) {
	w, _ := intWidth(t)
	bs, ok := c.e.toBits(v, t)
	if dst.K != KSlice || !ok || dst.Len < w/8 {
		c.e.escape(c.st, dst)
		return
	}
	for i := 0; i < w/8; i++ {
		lo := w - 8 - 8*i
		c.e.store(c.st, Val{K: KAddr, Site: dst.Site, Path: dst.Path + "[" + itoa(dst.Lo+i) + "]"}, c.e.fromBits(append([]Bit(nil), bs[lo:lo+8]...), types.Typ[types.Uint8]))
	}
}

// getBE reads n big-endian bytes of a slice as a number.
func (c *Ctx) getBE(v Val, w int, t types.Type) Val {
	switch v.K {
	case KTag:
		return TagV("u" + itoa(w) + "(" + subTag(v.Tag, 0, w/8) + ")")
	case KSlice:
		if v.Len < w/8 {
			return Top
		}
		bs := make([]Bit, w)
		for i := 0; i < w/8; i++ {
			b := c.e.load(c.st, Val{K: KAddr, Site: v.Site, Path: v.Path + "[" + itoa(v.Lo+i) + "]"}, types.Typ[types.Uint8])
			eb, ok := c.e.toBits(b, types.Typ[types.Uint8])
			if !ok {
				return Top
			}
			copy(bs[w-8-8*i:], eb)
		}
		return c.e.fromBits(bs, t)
	}
	return Top
}

func tagOf(v Val) string {
	switch v.K {
	case KTag:
		return v.Tag
	case KConst:
		return v.C.ExactString()
	case KNil:
		return "nil"
	case KBits:
		return "bits:" + strings.ReplaceAll(strings.TrimSpace(bitsKey(v.B)), " ", "+")
	}
	return "unknown"
}

func (h *hm) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if g, isGo := site.(*ssa.Go); isGo {
		h.fire(c, site, "go", args...)
		if h.followGo {
			fv := c.e.calleeVal(c.st, c.fr, &g.Call)
			if fv.K != KFunc && callee != nil {
				fv = FnV(callee)
			}
			h.follow(c, site, fv, args)
		}
		return nil, false
	}
	cc := site.Common()
	name := callName(site, callee)
	if h.extra != nil {
		if rs, ok := h.extra(c, site, name, callee, args); ok {
			return rs, true
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "delete" && len(cc.Args) == 2 && isTable(cc.Args[0].Type()) {
			h.fire(c, site, "unreg", c.sysOf(args[1]))
		}
		return nil, false
	}
	one := func(v Val) ([]CallRes, bool) { return []CallRes{{A: c.A(), Ret: v}}, true }
	rt, m := recvMethod(site, callee)
	switch rt {
	case tSession:
		switch m {
		case "Receive":
			h.fire(c, site, "recv")
			if h.recv != nil {
				return h.recv(c), true
			}
			a := c.A()
			return []CallRes{{A: a, Ret: TupleV(TagV("m:in"), NilV)}, {A: a, Ret: TupleV(NilV, NonNil)}}, true
		case "Send":
			h.fire(c, site, "tx", args...)
			a := c.A()
			return []CallRes{{A: a, Ret: NilV}, {A: a, Ret: NonNil}}, true
		case "Close":
			h.fire(c, site, "close", args...)
			return one(Top)
		case "IsClosed":
			return one(Top)
		}
	case tDeque:
		switch m {
		case "Get":
			h.fire(c, site, "get", args...)
			a := c.A()
			return []CallRes{{A: a, Ret: TupleV(TagV("m:reply"), NilV)}, {A: withA(a, "expired", "1"), Ret: TupleV(NilV, NonNil)}}, true
		case "Put":
			h.fire(c, site, "put", args...)
			return one(Top)
		}
	case tCSM:
		if m == "CurrentState" && len(cc.Args) == 1 {
			return h.current(c, site), true
		}
	case tData, tCtl, tMsgIf:
		var recv Val
		if cc.IsInvoke() {
			recv = c.Val(cc.Value)
		} else if len(args) > 0 {
			recv = args[0]
		}
		rest := args
		if !cc.IsInvoke() && len(rest) > 0 {
			rest = rest[1:]
		}
		if h.acc != nil {
			if rs, ok := h.acc(c, site, m, recv); ok {
				return rs, true
			}
		}
		rn := tagOf(recv)
		switch m {
		case "ToBytes":
			if recv.K != KTag {
				rn = "data{unknown}"
				if rt == tCtl {
					rn = "ctl{unknown}"
				}
			}
			return one(TagV("bytes:" + rn))
		case "SystemBytes":
			return one(TagV("sys(" + rn + ")"))
		case "SetSessionIDAndSystemBytes":
			if len(rest) == 2 {
				return one(TagV("data{of=" + strip(rn) + " sid=" + tagOf(rest[0]) + " sys=" + tagOf(c.sysOf(rest[1])) + "}"))
			}
		case "SetWaitBit":
			w := "?"
			if len(rest) == 1 {
				if b, ok := rest[0].IsBool(); ok {
					w = "0"
					if b {
						w = "1"
					}
				}
			}
			if recv.K == KTag && strings.HasPrefix(rn, "data{") {
				return one(TagV(setAttr(rn, "wait", w)))
			}
			return one(TagV("data{of=" + strip(rn) + " wait=" + w + "}"))
		case "WaitBit":
			return nil, false
		}
		return nil, false
	}
	if callee != nil && callee.Signature.Recv() == nil && fnPkg(callee).Path() == pkgUtils {
		if r := callee.Signature.Results(); r.Len() == 1 && typeKey(r.At(0).Type()) == tDeque {
			return one(TagV("q@" + h.P.ipos(site)))
		}
	}
	switch name {
	case "(*github.com/looplab/fsm.FSM).Current":
		return h.current(c, site), true
	case "(*github.com/looplab/fsm.FSM).Event":
		return h.event(c, site, args), true
	case "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint64":
		t := callee.Signature.Results().At(0).Type()
		w, _ := intWidth(t)
		return one(c.getBE(args[1], w, t))
	case "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint64":
		c.putBE(args[1], args[2], callee.Signature.Params().At(1).Type())
		return one(Top)
	case "(encoding/binary.bigEndian).AppendUint32":
		return one(args[2])
	case "time.Sleep", "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
		h.fire(c, site, "block", args...)
		return one(Top)
	case "time.AfterFunc":
		h.fire(c, site, "afterfunc", args...)
		if h.followGo && len(args) == 2 {
			h.follow(c, site, args[1], nil)
		}
		return nil, false
	}
	if strings.HasPrefix(name, "(*go.uber.org/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
		if rs, ok := h.atomicCall(c, site, callee, args); ok {
			return rs, true
		}
	}
	if callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == pkgAst && callee.Signature.Recv() == nil {
		if res := callee.Signature.Results(); res.Len() == 1 {
			switch typeKey(res.At(0).Type()) {
			case tMsgIf, tCtl:
				var parts []string
				for _, a := range args {
					parts = append(parts, tagOf(c.sysOf(a)))
				}
				v := "ctl{" + ctlKind(callee.Name()) + " args=" + strings.Join(parts, ",") + "}"
				h.fire(c, site, "build", append([]Val{TagV(v)}, args...)...)
				return one(TagV(v))
			case tData:
				v := "data{new"
				if len(args) >= 4 {
					v += " s=" + tagOf(args[1]) + " f=" + tagOf(args[2]) + " w=" + tagOf(args[3])
				}
				if len(args) >= 8 {
					v += " sid=" + tagOf(args[6]) + " sys=" + tagOf(c.sysOf(args[7]))
				}
				return one(TagV(v + "}"))
			}
		}
	}
	if !cc.IsInvoke() && callee == nil {
		hv := c.Val(cc.Value)
		if typeKey(cc.Value.Type()) == tHandler || hv.K == KTag && (hv.Tag == "defaulthandler" || strings.HasPrefix(hv.Tag, "handler[")) {
			h.fire(c, site, "handler", append([]Val{hv}, args...)...)
			a := c.A()
			return []CallRes{{A: withA(a, "rsp", "1"), Ret: TupleV(TagV("m:response.data"), NilV)}, {A: a, Ret: TupleV(NilV, NilV)}, {A: a, Ret: TupleV(NilV, NonNil)}}, true
		}
	}
	return nil, false
}

var anyType = types.NewInterfaceType(nil, nil)

// Assert: the dynamic types of tagged messages.
func (h *hm) Assert(c *Ctx, x *ssa.TypeAssert, v Val) (bool, bool) {
	if v.K != KTag {
		return false, false
	}
	kind := msgKind(v.Tag)
	if kind == "" {
		return false, false
	}
	switch typeKey(x.AssertedType) {
	case tMsgIf:
		return true, true
	case tData:
		return kind == "data", true
	case tCtl:
		return kind != "data", true
	}
	return false, false
}

// msgKind: "data", "select.req", ... of a message tag; "" if not known.
func msgKind(tag string) string {
	switch {
	case strings.HasPrefix(tag, "data{"):
		return "data"
	case strings.HasPrefix(tag, "ctl{"):
		s := tag[4:]
		if i := strings.IndexAny(s, " }"); i >= 0 {
			return s[:i]
		}
	case strings.HasPrefix(tag, "m:"):
		if i := strings.Index(tag, "."); i >= 0 {
			return tag[i+1:]
		}
	}
	return ""
}

func strip(s string) string {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "data{"), "}")
	return "(" + s + ")"
}

// attr reads "k=v" at the top level of a data{...} tag.
func attr(tag, k string) string {
	depth := 0
	s := tag
	if i := strings.Index(s, "{"); i >= 0 {
		s = s[i+1:]
	}
	start := 0
	out := ""
	flush := func(end int) {
		w := s[start:end]
		if strings.HasPrefix(w, k+"=") {
			out = w[len(k)+1:]
		}
	}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '{', '[':
			depth++
		case ')', ']':
			depth--
		case '}':
			if depth == 0 {
				flush(i)
				return out
			}
			depth--
		case ' ':
			if depth == 0 {
				flush(i)
				start = i + 1
			}
		}
	}
	return out
}

func setAttr(tag, k, v string) string {
	old := attr(tag, k)
	if old != "" {
		return strings.Replace(tag, " "+k+"="+old, " "+k+"="+v, 1)
	}
	return strings.TrimSuffix(tag, "}") + " " + k + "=" + v + "}"
}

// ctlKind: "NewHSMSMessageSelectRsp" -> "select.rsp".
func ctlKind(fn string) string {
	n := strings.TrimPrefix(fn, "NewHSMSMessage")
	n = strings.TrimSuffix(n, "FromMsg")
	for _, s := range []string{"Req", "Rsp"} {
		if strings.HasSuffix(n, s) {
			return strings.ToLower(strings.TrimSuffix(n, s)) + "." + strings.ToLower(s)
		}
	}
	return "?" + fn
}

func (h *hm) atomicCall(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	cc := site.Common()
	if len(cc.Args) == 0 {
		return nil, false
	}
	f := atomicField(cc.Args[0])
	switch callee.Name() {
	case "Inc", "Add":
		if strings.Contains(callee.String(), "int32") || strings.Contains(callee.String(), "int64") || strings.Contains(callee.String(), "Int32") || strings.Contains(callee.String(), "Int64") {
			v := TagV("fresh@" + h.P.ipos(site))
			h.fire(c, site, "fresh", v)
			return []CallRes{{A: c.A(), Ret: v}}, true
		}
	case "Store":
		if len(args) == 2 {
			h.fire(c, site, "store:"+f, args[1])
		}
		return []CallRes{{A: c.A(), Ret: Top}}, true
	case "Load":
		if h.acc != nil {
			if rs, ok := h.acc(c, site, "Load:"+f, Top); ok {
				return rs, true
			}
		}
		return []CallRes{{A: c.A(), Ret: TagV("?" + f)}}, true
	}
	return nil, false
}

// atomicField names the field an atomic is held in.
func atomicField(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return ownerField(x)
	case *ssa.UnOp:
		return atomicField(x.X)
	}
	return "?"
}

// current models a query of the connection state.
func (h *hm) current(c *Ctx, site ssa.CallInstruction) []CallRes {
	m := parseA(c.A())
	if s := m["S"]; s != "" {
		return []CallRes{{A: c.A(), Ret: CStr(s)}}
	}
	var out []CallRes
	for _, s := range h.tab.states {
		out = append(out, CallRes{A: withA(c.A(), "S", s), Ret: CStr(s)})
	}
	return out
}

// event models a transition request.
func (h *hm) event(c *Ctx, site ssa.CallInstruction, args []Val) []CallRes {
	name := "?"
	for _, a := range args {
		if s, ok := a.IsStr(); ok {
			name = s
		}
	}
	h.fire(c, site, "fsm", CStr(name))
	base := c.A()
	m := parseA(base)
	var srcs []string
	if s := m["S"]; s != "" {
		srcs = []string{s}
	} else {
		srcs = h.tab.states
	}
	var out []CallRes
	refused := false
	for _, s := range srcs {
		d, ok := h.tab.trans[s+"|"+name]
		if !ok {
			if len(srcs) == 1 {
				out = append(out, CallRes{A: base, Ret: NonNil})
			} else if !refused {
				refused = true
				out = append(out, CallRes{A: base, Ret: NonNil})
			}
			continue
		}
		as := []string{withA(base, "S", s)}
		run := func(key string) {
			f := h.cbs[key]
			if f == nil || h.noCallbacks || !h.P.isLibFn(f) || nested(c, f) {
				return
			}
			var next []string
			seen := map[string]bool{}
			for _, a := range as {
				for _, o := range c.e.runFrom(c, site, f, a, nil, nil) {
					if !o.Panicked && !seen[o.A] {
						seen[o.A] = true
						next = append(next, o.A)
					}
				}
			}
			as = next
		}
		if d != s {
			run("leave_" + s)
			run("leave_state")
		}
		for i := range as {
			as[i] = withA(as[i], "S", d)
		}
		if d != s {
			run("enter_" + d)
			run(d)
			run("enter_state")
		}
		for _, a := range as {
			out = append(out, CallRes{A: a, Ret: NilV})
		}
	}
	return out
}
