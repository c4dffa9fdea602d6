package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tLogCfg = pkgHsms + ".LoggingConfig"

func isMsgType(t types.Type) bool {
	switch typeKey(t) {
	case tData, tCtl, tMsgIf:
		return true
	}
	return false
}

// loadsConfig: the instruction reads the logging configuration from where it is
// kept.
func loadsConfig(ins ssa.Instruction) bool {
	ld, ok := ins.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	for v := ld.X; ; {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		if p, ok := fa.Type().Underlying().(*types.Pointer); ok && typeKey(p.Elem()) == tLogCfg && typeKey(fa.X.Type()) != tLogCfg {
			return true
		}
		v = fa.X
	}
}

func writesOut(P *Program) func(ssa.Instruction) bool {
	return func(ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		return ok && fnPkg(ins.Parent()).Path() == pkgHsms && ioKind(P, ci) == "write"
	}
}

// logGates: the innermost functions that are given a message, consult the
// logging configuration and write to the log.
func (P *Program) logGates() []*ssa.Function {
	in := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		if fnPkg(f).Path() != pkgHsms || f.Parent() != nil {
			continue
		}
		msg := false
		for _, p := range f.Params {
			msg = msg || isMsgType(p.Type())
		}
		if msg && P.reaches(f, loadsConfig) && P.reaches(f, writesOut(P)) {
			in[f] = true
		}
	}
	var out []*ssa.Function
	for f := range in {
		inner := true
		for g := range in {
			if g != f && P.reaches(f, func(ins ssa.Instruction) bool {
				ci, ok := ins.(ssa.CallInstruction)
				return ok && ci.Common().StaticCallee() == g
			}) && !P.reaches(g, func(ins ssa.Instruction) bool {
				ci, ok := ins.(ssa.CallInstruction)
				return ok && ci.Common().StaticCallee() == f
			}) {
				inner = false
			}
		}
		if inner {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// logCase is one configuration a gate is followed under.
type logCase struct {
	name              string
	on, writer, incl  bool
	mode              string
	excl              bool
	wantSML, wantBin  bool
	expectDA, expectC bool // a data / a control message is to be logged
}

func (l *logCase) field(P *Program, name string, t types.Type) Val {
	switch {
	case name == "Enabled":
		return CBool(l.on)
	case name == "Mode":
		return P.constsOf(pkgHsms, "LoggingMode")[l.mode]
	case name == "IncludeControlMessages":
		return CBool(l.incl)
	case name == "ExcludedControlMessageTypes":
		if l.excl {
			return TagV("excluded")
		}
		return NilV
	case name == "Writer":
		if l.writer {
			return NonNil
		}
		return NilV
	}
	return Top
}

// logTaint names what a value was rendered from.
func logTaint(c *Ctx, v Val) string {
	if v.K == KTag {
		switch v.Tag {
		case "the SML text", "the bytes":
			return v.Tag
		}
	}
	if v.K == KSlice {
		if es, ok := c.elems(v, anyType); ok {
			for _, x := range es {
				if t := logTaint(c, x); t != "" {
					return t
				}
			}
		}
	}
	return ""
}

func isBuffer(t types.Type) bool {
	switch typeKey(t) {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}

// followGate runs a gate under one configuration with one kind of message and
// reports each way out: how often it wrote, what it rendered.
func followGate(P *Program, f *ssa.Function, l *logCase, kind string, out func(o Outcome, m avars), at func(site ssa.CallInstruction, m avars)) *Engine {
	h := newHM(P)
	st, _ := P.named(pkgHsms, "LoggingConfig").Underlying().(*types.Struct)
	cfg := Val{K: KStruct, F: map[string]Val{}}
	for i := 0; st != nil && i < st.NumFields(); i++ {
		cfg.F["."+st.Field(i).Name()] = l.field(P, st.Field(i).Name(), st.Field(i).Type())
	}
	h.fork = func(c *Ctx, ins ssa.Instruction) ([]CallRes, bool) {
		a := c.A()
		switch x := ins.(type) {
		case *ssa.UnOp:
			if loadsConfig(x) {
				path := ""
				for v := x.X; ; {
					fa := v.(*ssa.FieldAddr)
					if typeKey(fa.X.Type()) != tLogCfg {
						break
					}
					path = "." + fieldName(fa.X.Type(), fa.Field) + path
					v = fa.X
				}
				if path == "" {
					return []CallRes{{A: a, Ret: cfg}}, true
				}
				if v, ok := cfg.F[path]; ok {
					return []CallRes{{A: a, Ret: v}}, true
				}
			}
		case *ssa.Lookup:
			v := c.Val(x.X)
			if v.K != KTag || v.Tag != "excluded" {
				return nil, false
			}
			k := c.Val(x.Index)
			ok := "1"
			if k.K != KTag || !strings.Contains(k.Tag, "the type") {
				ok = "?"
			}
			yes, no := withA(a, "ex", ok), withA(a, "ex", "0")
			if x.CommaOk {
				return []CallRes{{A: yes, Ret: TupleV(Top, CBool(true))}, {A: no, Ret: TupleV(Top, CBool(false))}}, true
			}
			return []CallRes{{A: yes, Ret: CBool(true)}, {A: no, Ret: CBool(false)}}, true
		}
		return nil, false
	}
	h.branch = func(c *Ctx, br *ssa.If, taken bool) bool {
		// rendered text is never empty
		if b, ok := br.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			for _, p := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if s, ok := c.Val(p[1]).IsStr(); ok && s == "" {
					if v := c.Val(p[0]); v.K == KTag {
						return taken == (b.Op == token.NEQ)
					}
				}
			}
		}
		return true
	}
	h.extra = func(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
		a := c.A()
		one := func(v Val) ([]CallRes, bool) { return []CallRes{{A: c.A(), Ret: v}}, true }
		cc := site.Common()
		if ioKind(P, site) == "write" {
			if c.Get("w") == "" {
				c.Put("w", "1")
			} else {
				c.Put("w", "2")
			}
			at(site, parseA(c.A()))
			return one(Top)
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" && len(args) == 1 && args[0].K == KTag {
				return one(CInt(1))
			}
			return nil, false
		}
		taint := ""
		for _, x := range args {
			if t := logTaint(c, x); t != "" {
				taint = t
			}
		}
		typed := ""
		for _, x := range args {
			if x.K == KTag && strings.Contains(x.Tag, "the type") {
				typed = x.Tag
			}
		}
		switch rt, m := recvMethod(site, callee); rt {
		case tData, tCtl, tMsgIf:
			switch m {
			case "ToBytes":
				return []CallRes{{A: withA(a, "bin", "1"), Ret: TagV("the bytes")}}, true
			case "String":
				return []CallRes{{A: withA(a, "sml", "1"), Ret: TagV("the SML text")}}, true
			case "Type":
				return one(TagV("the type"))
			}
			return one(Top)
		}
		if callee == nil {
			return nil, false
		}
		if len(cc.Args) > 0 {
			buf := isBuffer(cc.Args[0].Type())
			if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok && isBuffer(mi.X.Type()) && !P.isLibFn(callee) {
				buf = true
			}
			if buf && !P.isLibFn(callee) {
				switch callee.Name() {
				case "Len":
					if c.Get("b") == "" {
						return one(CInt(0))
					}
					return one(CInt(1))
				case "String", "Bytes":
					return one(TagV("the entry"))
				case "Reset":
					c.Put("b", "")
					c.Put("c", "")
					return one(Top)
				case "Grow":
					return one(Top)
				}
				c.Put("b", "1")
				if taint != "" && !strings.Contains(c.Get("c"), taint) {
					c.Put("c", c.Get("c")+taint)
				}
				return one(Top)
			}
		}
		// renderings of renderings
		if callee.Signature.Recv() == nil && callee.Signature.Results().Len() == 1 {
			switch t := callee.Signature.Results().At(0).Type().Underlying().(type) {
			case *types.Basic:
				if t.Info()&types.IsString == 0 {
					break
				}
				plain := true
				for _, p := range cc.Args {
					plain = plain && !isMsgType(p.Type()) && !isBuffer(p.Type()) && typeKey(p.Type()) != tLogCfg
				}
				if !plain {
					break
				}
				if taint != "" {
					return one(TagV(taint))
				}
				if typed != "" {
					return one(TagV(typed))
				}
				if !P.isLibFn(callee) {
					return one(TagV("?text"))
				}
			}
		}
		return nil, false
	}
	e := newHMEngine(P, h)
	e.SymCmp = true
	args := make([]Val, len(f.Params))
	for i, p := range f.Params {
		switch {
		case isMsgType(p.Type()):
			args[i] = TagV("m:log." + kind)
		case i == 0 && f.Signature.Recv() != nil:
			args[i] = Val{K: KAddr, Site: p}
		}
	}
	for _, o := range e.Run(f, "", args...) {
		if !o.Panicked {
			out(o, parseA(o.A))
		}
	}
	return e
}

func init() {
	register("C38", "Every function that consults the logging configuration and writes to the message log is followed under every combination of the configuration's switches; the paths that send or receive a data message are followed to the calls that offer it to the log.", func(r *Report) {
		P := r.P
		r.Rule("gate", "nothing is written to the message log except by functions that consult the configuration for the message at hand")
		r.Rule("off", "nothing is written while logging is disabled or there is no writer")
		r.Rule("control", "a control message is written only if included and its type is not in the excluded set")
		r.Rule("once", "what is to be logged is written with exactly one entry")
		r.Rule("mode", "the SML text appears in the modes SML and Both and the bytes in the modes Binary and Both, and in no other")
		r.Rule("tx", "a data message that is sent is offered to the log exactly once")
		r.Rule("rx", "a data message that is received is offered to the log exactly once")
		r.Rule("direction", "the direction named for a message received is never the one named for a message sent")
		r.Rule("config", "the configuration given is the one consulted")
		gates := P.logGates()
		if !r.Anchor(len(gates) > 0, "functions that consult hsms.LoggingConfig for a message and write") {
			return
		}
		isGate := map[*ssa.Function]bool{}
		for _, g := range gates {
			isGate[g] = true
		}
		for _, f := range P.funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if !writesOut(P)(ins) {
						continue
					}
					bad := P.outside(f, isGate)
					r.Check(bad == nil, "gate", P.fname(f), P.ipos(ins), "an entry can be written for "+fnameOr(P, bad)+" without consulting the configuration")
				}
			}
		}
		var cases []*logCase
		cases = append(cases, &logCase{name: "disabled", writer: true, incl: true, mode: "LoggingModeBoth"},
			&logCase{name: "no writer", on: true, incl: true, mode: "LoggingModeBoth"})
		for _, m := range []string{"LoggingModeUnset", "LoggingModeSML", "LoggingModeBinary", "LoggingModeBoth"} {
			for _, in := range []bool{false, true} {
				for _, ex := range []bool{false, true} {
					l := &logCase{on: true, writer: true, incl: in, excl: ex, mode: m, expectDA: true, expectC: in}
					l.wantSML = m != "LoggingModeBinary"
					l.wantBin = m == "LoggingModeBinary" || m == "LoggingModeBoth"
					l.name = strings.TrimPrefix(m, "LoggingMode")
					if !in {
						l.name += ", control messages not included"
					}
					if ex {
						l.name += ", some types excluded"
					}
					cases = append(cases, l)
				}
			}
		}
		handlesData := map[*ssa.Function]bool{}
		handlesCtl := map[*ssa.Function]bool{}
		for _, g := range gates {
			for _, kind := range []string{"data", "select.req"} {
				takes := false
				for _, p := range g.Params {
					switch typeKey(p.Type()) {
					case tMsgIf:
						takes = true
					case tData:
						takes = takes || kind == "data"
					case tCtl:
						takes = takes || kind != "data"
					}
				}
				if !takes {
					continue
				}
				// does it log this kind at all?
				logs := false
				for _, l := range cases {
					e := followGate(P, g, l, kind, func(o Outcome, m avars) { logs = logs || m["w"] != "" }, func(ssa.CallInstruction, avars) {})
					r.SawEngine(e)
				}
				if !logs {
					continue
				}
				if kind == "data" {
					handlesData[g] = true
				} else {
					handlesCtl[g] = true
				}
				for _, l := range cases {
					l := l
					n := 0
					want := l.expectDA
					if kind != "data" {
						want = l.expectC
					}
					id := P.fname(g) + " " + kind + " [" + l.name + "]"
					sawEx := false
					followGate(P, g, l, kind, func(o Outcome, m avars) {
						n++
						pos := P.pos(g.Pos())
						if o.ret != nil {
							pos = P.ipos(o.ret)
						}
						r.Check(m["w"] != "2", "once", id, pos, "more than one entry is written")
						sawEx = sawEx || m["ex"] == "1"
						switch {
						case !want || kind != "data" && m["ex"] == "1":
						default:
							r.Check(m["w"] != "", "once", id, pos, "nothing is written on some path")
							if m["w"] != "" && l.wantSML && kind == "data" {
								r.Check(m["sml"] == "1", "mode", id, pos, "the SML text is not rendered")
							}
							if m["w"] != "" && l.wantBin {
								r.Check(m["bin"] == "1", "mode", id, pos, "the bytes are not rendered")
							}
						}
					}, func(site ssa.CallInstruction, m avars) {
						pos := P.ipos(site)
						if !l.on || !l.writer {
							r.Check(false, "off", id, pos, "an entry is written although the log is off ("+l.name+")")
						}
						if kind != "data" {
							r.Check(l.incl || !l.on, "control", id, pos, "a control message is written although control messages are not included")
							r.Check(m["ex"] != "1", "control", id, pos, "a control message whose type is excluded is written")
						}
						if !l.wantSML && l.on && l.writer {
							r.Check(!strings.Contains(m["c"], "SML"), "mode", id, pos, "the SML text is written in mode "+l.mode)
						}
						if !l.wantBin && l.on && l.writer {
							r.Check(!strings.Contains(m["c"], "bytes"), "mode", id, pos, "the bytes are written in mode "+l.mode)
						}
					})
					r.Check(n > 0, "once", id+" followed", P.pos(g.Pos()), "the function could not be followed")
					if !l.on || !l.writer {
						r.Check(true, "off", id, P.pos(g.Pos()), "")
					}
					if kind != "data" && l.excl && l.incl {
						r.Check(sawEx, "control", id+" looked up", P.pos(g.Pos()), "the type of the message is not looked up in the excluded set")
					}
				}
			}
		}
		r.Check(len(handlesData) > 0, "gate", "data messages", "", "no function logs data messages")
		r.Check(len(handlesCtl) > 0, "gate", "control messages", "", "no function logs control messages")
		checkLogConfig(r)
		checkLogCoverage(r, handlesData)
		r.Floor("gate", 4)
		r.Floor("off", 4)
		r.Floor("control", 6)
		r.Floor("mode", 10)
		r.Floor("once", 20)
		r.Floor("tx", 4)
		r.Floor("rx", 2)
		r.Floor("direction", 1)
		r.Floor("config", 4)
	})
}

func fnameOr(P *Program, f *ssa.Function) string {
	if f == nil {
		return ""
	}
	return P.fname(f)
}

// outside: a function through which f can be reached without passing one of
// the gates; nil if there is none.
func (P *Program) outside(f *ssa.Function, gate map[*ssa.Function]bool) *ssa.Function {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) *ssa.Function
	walk = func(f *ssa.Function) *ssa.Function {
		if gate[f] || seen[f] {
			return nil
		}
		seen[f] = true
		var callers []*ssa.Function
		for _, ci := range P.staticCallers(f) {
			callers = append(callers, ci.Parent())
		}
		if p := f.Parent(); p != nil {
			callers = append(callers, p)
		}
		if len(callers) == 0 || f.Parent() == nil && token.IsExported(f.Name()) {
			return f
		}
		for _, g := range callers {
			if b := walk(g); b != nil {
				return b
			}
		}
		return nil
	}
	return walk(f)
}

// cfgStore follows a configuration into the field it is kept in.
type cfgStore struct {
	BaseClient
	P    *Program
	call func(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val)
	set  func(c *Ctx, ins ssa.Instruction, field string, v Val)
}

func (s *cfgStore) Enter(c *Ctx, site ssa.CallInstruction, callee *ssa.Function) bool {
	switch fnPkg(callee).Path() {
	case pkgHsms:
		return s.set != nil
	case pkgGem:
		for _, p := range callee.Params {
			if k := typeKey(p.Type()); k == pkgGem+".Options" || k == pkgGem+".LoggingOptions" || k == tLogCfg {
				return true
			}
		}
		for i := 0; i < callee.Signature.Results().Len(); i++ {
			if typeKey(callee.Signature.Results().At(i).Type()) == tLogCfg {
				return true
			}
		}
		return s.P.reaches(callee, func(ins ssa.Instruction) bool {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return false
			}
			t, m := recvMethod(ci, ci.Common().StaticCallee())
			return t == tProto && m == "ConfigureLogging"
		})
	}
	return false
}

func (s *cfgStore) Call(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	if _, ok := site.(*ssa.Go); ok {
		return nil, false
	}
	if callee != nil && s.call != nil {
		s.call(c, site, callee, args)
	}
	if callee != nil {
		switch callee.String() {
		case "strings.ToLower":
			return []CallRes{{A: c.A(), Ret: TagV("lower case")}}, true
		case "strings.TrimSpace":
			if len(args) == 1 && args[0].K == KTag {
				return []CallRes{{A: c.A(), Ret: args[0]}}, true
			}
		}
	}
	if b, ok := site.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" && len(args) == 1 && args[0].K == KTag {
		return []CallRes{{A: c.A(), Ret: CInt(1)}}, true
	}
	return nil, false
}

func (s *cfgStore) Instr(c *Ctx, ins ssa.Instruction) {
	if s.set == nil {
		return
	}
	switch x := ins.(type) {
	case *ssa.MapUpdate:
		if t := x.Map.Type().Underlying().String(); t == "map[string]struct{}" {
			s.set(c, ins, "key", c.Val(x.Key))
		}
	case *ssa.Store:
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		p, ok := fa.Type().Underlying().(*types.Pointer)
		if ok && typeKey(p.Elem()) == tLogCfg && typeKey(fa.X.Type()) != tLogCfg {
			v := c.Val(x.Val)
			st := p.Elem().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				s.set(c, ins, st.Field(i).Name(), c.e.subVal(v, "."+st.Field(i).Name(), st.Field(i).Type()))
			}
			return
		}
		if in, ok := fa.X.(*ssa.FieldAddr); ok && typeKey(fa.X.Type()) == tLogCfg && typeKey(in.X.Type()) != tLogCfg {
			s.set(c, ins, fieldName(fa.X.Type(), fa.Field), c.Val(x.Val))
		}
	}
}

// checkLogConfig: the configuration given to ConfigureLogging, and the logging
// options given to a GEM handler, are the ones kept.
func checkLogConfig(r *Report) {
	P := r.P
	modes := P.constsOf(pkgHsms, "LoggingMode")
	same := func(r *Report, id, pos, field string, got Val, l *logCase) {
		switch field {
		case "Enabled", "IncludeControlMessages":
			if field == "IncludeControlMessages" && !l.on {
				return
			}
			want := l.on
			if field == "IncludeControlMessages" {
				want = l.incl
			}
			b, ok := got.IsBool()
			r.Check(ok && b == want, "config", id+" "+field, pos, field+" is not kept as given ("+l.name+")")
		case "Mode":
			if !l.on {
				return
			}
			ok := got.K == KConst && got.C != nil && (got.C.ExactString() == modes[l.mode].C.ExactString() || l.mode == "LoggingModeUnset" && got.C.ExactString() == modes["LoggingModeSML"].C.ExactString())
			r.Check(ok, "config", id+" Mode", pos, "the mode is not kept as given ("+l.name+")")
		case "Writer":
			if l.on && l.writer {
				r.Check(got.K != KNil, "config", id+" Writer", pos, "the writer given is dropped ("+l.name+")")
			}
		case "ExcludedControlMessageTypes":
			if l.on && l.excl {
				r.Check(got.K != KNil, "config", id+" ExcludedControlMessageTypes", pos, "the excluded types given are dropped ("+l.name+")")
			}
		}
	}
	var cases []*logCase
	for i := 0; i < 64; i++ {
		l := &logCase{on: i&1 == 0, writer: i&8 == 0, incl: i&2 != 0, excl: i&4 != 0, mode: []string{"LoggingModeUnset", "LoggingModeSML", "LoggingModeBinary", "LoggingModeBoth"}[i/16]}
		l.name = l.mode
		cases = append(cases, l)
	}
	conf := P.method(pkgHsms, "HsmsProtocol", "ConfigureLogging")
	if !r.Anchor(conf != nil && len(conf.Params) == 2, "HsmsProtocol.ConfigureLogging") {
		return
	}
	st, _ := P.named(pkgHsms, "LoggingConfig").Underlying().(*types.Struct)
	for _, l := range cases {
		l := l
		cfg := Val{K: KStruct, F: map[string]Val{}}
		for i := 0; i < st.NumFields(); i++ {
			cfg.F["."+st.Field(i).Name()] = l.field(P, st.Field(i).Name(), st.Field(i).Type())
		}
		s := &cfgStore{P: P}
		s.set = func(c *Ctx, ins ssa.Instruction, field string, v Val) {
			if field == "key" {
				r.Check(v.K == KTag && v.Tag == "lower case", "config", "excluded types", P.ipos(ins), "an excluded type is kept as written, not in lower case as it is looked up")
				return
			}
			c.SetA(addOnce(c.A(), "s:"+field))
			same(r, P.fname(conf), P.ipos(ins), field, v, l)
		}
		e := NewEngine(P, s)
		for _, o := range e.Run(conf, "", Val{K: KAddr, Site: conf.Params[0]}, cfg) {
			if o.Panicked {
				continue
			}
			for _, f := range []string{"Enabled", "Mode", "IncludeControlMessages", "ExcludedControlMessageTypes", "Writer"} {
				r.Check(hasTok(o.A, "s:"+f), "config", P.fname(conf)+" keeps "+f, P.pos(conf.Pos()), "ConfigureLogging does not keep "+f)
			}
		}
		r.SawEngine(e)
	}
	// every other place that changes the configuration is a constructor
	for _, f := range P.funcs {
		if f == conf {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				base, in := fa.X, false
				if typeKey(fa.X.Type()) == tLogCfg {
					if i2, ok := fa.X.(*ssa.FieldAddr); ok {
						in, base = true, i2.X
					}
				} else if p, ok := fa.Type().Underlying().(*types.Pointer); ok && typeKey(p.Elem()) == tLogCfg {
					in = true
				}
				if !in {
					continue
				}
				r.Check(P.madeHere(base, f) || P.outside(f, map[*ssa.Function]bool{conf: true}) == nil, "config", P.fname(f)+" "+fieldName(fa.X.Type(), fa.Field), P.ipos(ins), "the configuration is changed by something else than ConfigureLogging")
			}
		}
	}
	// the options of a GEM handler
	ngh := P.fn(pkgGem, "NewGemHandler")
	if !r.Anchor(ngh != nil && len(ngh.Params) == 1, "gem.NewGemHandler") {
		return
	}
	for _, l := range cases {
		l := l
		opt := Val{K: KStruct, F: map[string]Val{".Protocol": NonNil, ".Logging.LogFile": CStr("")}}
		for _, f := range []string{"Enabled", "Mode", "IncludeControlMessages", "Writer"} {
			opt.F[".Logging."+f] = l.field(P, f, nil)
		}
		s := &cfgStore{P: P}
		n := 0
		s.call = func(c *Ctx, site ssa.CallInstruction, callee *ssa.Function, args []Val) {
			if callee != conf || len(args) != 2 {
				return
			}
			n++
			for _, f := range []string{"Enabled", "Mode", "IncludeControlMessages", "Writer"} {
				same(r, P.fname(ngh), P.ipos(site), f, c.e.subVal(args[1], "."+f, fieldOf(st, f)), l)
			}
			c.SetA(addOnce(c.A(), "configured"))
		}
		e := NewEngine(P, s)
		for _, o := range e.Run(ngh, "", opt) {
			if o.Panicked || len(o.Rets) == 0 || o.Rets[len(o.Rets)-1].K != KNil {
				continue
			}
			r.Check(hasTok(o.A, "configured"), "config", P.fname(ngh)+" configures", P.pos(ngh.Pos()), "a handler is made without configuring the log")
		}
		r.SawEngine(e)
	}
}

// madeHere: the address is that of an object allocated in f.
func (P *Program) madeHere(v ssa.Value, f *ssa.Function) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return P.madeHere(x.X, f)
	case *ssa.UnOp:
		return false
	}
	return false
}

// checkLogCoverage: sends and receptions against calls of the gates.
func checkLogCoverage(r *Report, gates map[*ssa.Function]bool) {
	P := r.P
	dirs := map[string]map[string]string{"tx": {}, "rx": {}}
	directionOf := func(args []Val) string {
		out := ""
		for _, a := range args {
			if s, ok := a.IsStr(); ok {
				out += s
			} else if a.K == KConst {
				out += a.C.ExactString()
			}
		}
		return out
	}
	logged := func(args []Val, callee *ssa.Function) Val {
		for i, p := range callee.Params {
			if isMsgType(p.Type()) && i < len(args) {
				return args[i]
			}
		}
		return Top
	}
	isData := func(t string) bool { return strings.HasPrefix(t, "data{") || msgKind(t) == "data" || t == "?" }
	key := func(p, t string) string { return p + strings.NewReplacer(";", "_", "=", "_").Replace(t) }

	// sending
	h := newHM(P)
	h.extra = func(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
		if !gates[callee] {
			return nil, false
		}
		t := tagOf(logged(args, callee))
		d := directionOf(args)
		if strings.HasPrefix(t, "m:in") {
			return []CallRes{{A: c.A(), Ret: Top}}, true
		}
		if isData(t) {
			dirs["tx"][d] = P.ipos(site)
			switch {
			case c.Get(key("X:", t)) != "":
				c.Put(key("X:", t), "")
			case c.Get(key("L:", t)) != "":
				r.Check(false, "tx", P.fname(c.fn)+" once", P.ipos(site), "the message is offered to the log twice (via "+strings.Join(c.Stack(), " < ")+")")
			default:
				c.Put(key("L:", t), "1")
			}
		}
		return []CallRes{{A: c.A(), Ret: Top}}, true
	}
	h.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
		if kind == "recv" {
			// the next message: one that could not be sent is forgotten
			m := parseA(c.A())
			for k := range m {
				if strings.HasPrefix(k, "L:") {
					delete(m, k)
				}
			}
			c.SetA(m.String())
		}
		if kind != "tx" {
			return
		}
		p := payloadOf(args)
		t := strings.TrimPrefix(tagOf(p), "bytes:")
		if strings.HasPrefix(t, "ctl{") {
			return
		}
		if p.K != KTag {
			for _, q := range c.Root().Params {
				if types.IsInterface(q.Type()) && !isMsgType(q.Type()) {
					return // bytes the caller supplies
				}
			}
			r.Check(false, "tx", P.fname(c.Root()), P.ipos(site), "what is sent cannot be told")
			return
		}
		switch {
		case c.Get(key("L:", t)) != "":
			r.Check(true, "tx", P.fname(c.Root())+" "+strings.Join(c.Stack(), "<"), P.ipos(site), "")
			c.Put(key("L:", t), "")
		case c.Get(key("X:", t)) != "":
			r.Check(false, "tx", P.fname(c.fn), P.ipos(site), "two data messages are sent and none is offered to the log (via "+strings.Join(c.Stack(), " < ")+")")
		default:
			c.Put(key("X:", t), "1")
		}
	}
	// the receive loop is followed on its own
	loop := P.method(pkgHsms, "HsmsProtocol", "OnConnectionEstablishedAndStartReceiver")
	h.enter = func(c *Ctx, site ssa.CallInstruction, callee *ssa.Function) bool { return callee != loop }
	e := newHMEngine(P, h)
	sends := func(ins ssa.Instruction) bool {
		ci, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		t, m := recvMethod(ci, ci.Common().StaticCallee())
		return t == tSession && m == "Send"
	}
	for _, f := range P.protoRoots() {
		if fnPkg(f).Path() != pkgHsms || !P.reaches(f, sends) {
			continue
		}
		for _, o := range e.Run(f, "") {
			if o.Panicked {
				continue
			}
			for k := range parseA(o.A) {
				if strings.HasPrefix(k, "X:") {
					r.Check(false, "tx", P.fname(f), P.pos(f.Pos()), "a data message ("+k[2:]+") is sent and not offered to the log")
				}
			}
		}
	}
	r.SawEngine(e)

	// receiving
	x := newRX(r)
	if x == nil {
		return
	}
	for _, st := range []string{"1", "9", "77"} {
		for _, fn := range []string{"1", "2", "255", "0"} {
			for _, s := range []string{stSelected, stNotSelected} {
				x.variants = append(x.variants, avars{"k": "data", "st": st, "fn": fn, "S": s})
			}
		}
	}
	at := P.pos(x.root.Pos())
	x.done = func(m avars, where string) {
		if m["k"] != "data" {
			return
		}
		id := "S" + m["st"] + "F" + m["fn"] + " " + m["S"]
		r.Check(m["logs"] == "1", "rx", id, at, "a received "+id+" is offered to the log "+map[string]string{"": "never", "2": "twice"}[m["logs"]])
	}
	inner := x.hm.extra
	x.hm.extra = func(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
		if gates[callee] {
			t := tagOf(logged(args, callee))
			if strings.HasPrefix(t, "m:in.data") {
				dirs["rx"][directionOf(args)] = P.ipos(site)
				if c.Get("logs") == "" {
					c.Put("logs", "1")
				} else {
					c.Put("logs", "2")
				}
			}
			return []CallRes{{A: c.A(), Ret: Top}}, true
		}
		if inner != nil {
			return inner(c, site, name, callee, args)
		}
		return nil, false
	}
	x.run()
	for d, pos := range dirs["rx"] {
		_, both := dirs["tx"][d]
		r.Check(!both, "direction", "received", pos, "a message received is logged with the direction of messages sent ("+d+")")
	}
}

func fieldOf(st *types.Struct, name string) types.Type {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}
