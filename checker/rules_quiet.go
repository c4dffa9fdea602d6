package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// stdWriter: a function that writes to the standard streams or the global
// logger, or ends the process, by itself.
func stdWriter(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	n, p := f.Name(), f.Pkg.Pkg.Path()
	if f.Signature.Recv() != nil {
		return ""
	}
	switch p {
	case "fmt":
		switch n {
		case "Print", "Printf", "Println":
			return "writes to standard output"
		}
	case "log":
		switch n {
		case "New":
		default:
			if token.IsExported(n) && n != "init" {
				return "uses the process-global logger"
			}
		}
	case "log/slog":
		switch n {
		case "Debug", "DebugContext", "Info", "InfoContext", "Warn", "WarnContext", "Error", "ErrorContext", "Log", "LogAttrs", "Default", "SetDefault":
			return "uses the process-global logger"
		}
	case "go.uber.org/zap":
		switch n {
		case "L", "S", "ReplaceGlobals", "RedirectStdLog":
			return "uses the process-global logger"
		}
	case "os":
		if n == "Exit" {
			return "ends the process"
		}
		if n == "NewFile" {
			return "opens a file descriptor of the process"
		}
	case "syscall":
		switch n {
		case "Exit", "Kill", "Write":
			return "acts on the process directly"
		}
	case "runtime/debug":
		switch n {
		case "PrintStack":
			return "writes to standard error"
		}
	}
	return ""
}

// streamMaker: a function of another module whose result writes to a standard
// stream.
func streamMaker(f *ssa.Function) bool {
	if f.Pkg == nil || f.Signature.Recv() != nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "go.uber.org/zap":
		return f.Name() == "NewProduction" || f.Name() == "NewDevelopment" || f.Name() == "NewExample" || f.Name() == "Must"
	}
	return false
}

func isStdStream(v ssa.Value) bool {
	g, ok := v.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr")
}

func init() {
	register("C18", "Every instruction of every library function is examined for uses of the standard streams, the process-global loggers and process termination; where a standard stream is mentioned the value is followed through the program to the places it can reach.", func(r *Report) {
		P := r.P
		r.Rule("direct", "no function calls, or passes on, a function that prints to the standard streams, uses a process-global logger or ends the process")
		r.Rule("stream", "a standard stream only ever becomes the writer of a message log configuration, or the output of a logger in a logger constructor")
		r.Rule("off", "message logging is never switched on by a constant in the library, only by what the application configured")
		r.Rule("default", "the library itself never calls a logger constructor that can write to a standard stream")
		logger, _ := P.named(pkgCommon, "Logger").Underlying().(*types.Interface)
		cfg := P.named(pkgHsms, "LoggingConfig")
		if !r.Anchor(logger != nil && cfg != nil, "common.Logger and hsms.LoggingConfig") {
			return
		}
		// logger constructors: exported functions that return a Logger
		returnsLogger := func(f *ssa.Function) bool {
			rs := f.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				if types.Implements(rs.At(i).Type(), logger) {
					return true
				}
			}
			return false
		}
		isCtor := func(f *ssa.Function) bool { return f.Signature.Recv() == nil && f.Parent() == nil && returnsLogger(f) }
		writerField := func(t types.Type) bool {
			i, ok := t.Underlying().(*types.Interface)
			if !ok {
				return false
			}
			for k := 0; k < i.NumMethods(); k++ {
				if i.Method(k).Name() == "Write" {
					return true
				}
			}
			return false
		}
		// follow a standard stream
		noisy := map[*ssa.Function]bool{}
		var follow func(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) (bad ssa.Instruction, why string)
		follow = func(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) (ssa.Instruction, string) {
			if seen[v] || v.Referrers() == nil {
				return nil, ""
			}
			seen[v] = true
			for _, ref := range *v.Referrers() {
				switch x := ref.(type) {
				case *ssa.DebugRef, *ssa.BinOp:
				case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.TypeAssert, *ssa.Extract:
					if b, w := follow(f, x.(ssa.Value), seen); b != nil {
						return b, w
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if b, w := follow(f, x, seen); b != nil {
							return b, w
						}
					}
				case *ssa.Store:
					if x.Val != v {
						continue
					}
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						t := a.X.Type().Underlying().(*types.Pointer).Elem()
						if typeKey(t) != typeKey(cfg) || !writerField(fieldType(a)) {
							if !isCtor(f) {
								return x, "is stored in " + ownerField(a)
							}
							noisy[f] = true
						}
					case *ssa.Alloc:
						if b, w := follow(f, a, seen); b != nil {
							return b, w
						}
					default:
						if !isCtor(f) {
							return x, "is stored"
						}
						noisy[f] = true
					}
				case *ssa.Return:
					if isCtor(f) {
						noisy[f] = true
						continue
					}
					if token.IsExported(f.Name()) || P.addrTake[f] {
						return x, "is handed out"
					}
					for _, c := range P.staticCallers(f) {
						if cv, ok := c.(ssa.Value); ok {
							if b, w := follow(c.Parent(), cv, seen); b != nil {
								return b, w
							}
						}
					}
				case ssa.CallInstruction:
					if isCtor(f) {
						noisy[f] = true
						continue
					}
					cc := x.Common()
					callee := cc.StaticCallee()
					if callee != nil && P.isLibFn(callee) && !cc.IsInvoke() {
						for i, a := range cc.Args {
							if a == v && i < len(callee.Params) {
								if isCtor(callee) {
									return x, "becomes the output of a logger"
								}
								if b, w := follow(callee, callee.Params[i], seen); b != nil {
									return b, w
								}
							}
						}
						continue
					}
					return x, "is used directly"
				default:
					return ref, "is used"
				}
			}
			return nil, ""
		}
		// first pass: uses
		for _, f := range P.funcs {
			r.Saw(f)
			bad := ""
			var at ssa.Instruction
			var ops []*ssa.Value
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "Enabled" && typeKey(fa.X.Type().Underlying().(*types.Pointer).Elem()) == typeKey(cfg) {
							k, isC := st.Val.(*ssa.Const)
							on := isC && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value)
							r.Check(!on, "off", P.fname(f)+" sets LoggingConfig.Enabled", P.ipos(ins), "the library switches message logging on by itself")
						}
					}
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
							bad, at = "calls "+bi.Name(), ins
						}
					}
					ops = ins.Operands(ops[:0])
					for _, o := range ops {
						if g, ok := (*o).(*ssa.Function); ok {
							if w := stdWriter(g); w != "" {
								bad, at = "uses "+g.String()+", which "+w, ins
							}
							if streamMaker(g) {
								if isCtor(f) {
									noisy[f] = true
								} else {
									bad, at = "uses "+g.String()+", whose output is a standard stream", ins
								}
							}
							if g.Pkg != nil && g.Pkg.Pkg.Path() == "log" && g.Name() == "New" && !isCtor(f) && f.Name() != "init" {
								r.Count("log.New outside a constructor", 1)
							}
						}
						if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "log/slog" {
							bad, at = "uses the process-global logger", ins
						}
						if isStdStream(*o) {
							pos := P.ipos(ins)
							if ld, ok := ins.(*ssa.UnOp); ok && ld.Op == token.MUL {
								x, why := follow(f, ld, map[ssa.Value]bool{})
								if x != nil {
									pos = P.ipos(x)
								}
								r.Check(x == nil, "stream", P.fname(f)+" uses "+(*o).Name(), pos, "the standard stream "+(*o).Name()+" "+why)
							} else {
								r.Bad("stream", P.fname(f)+" uses "+(*o).Name(), pos, "the standard stream is replaced or its address is taken")
							}
						}
					}
				}
			}
			pos := P.pos(f.Pos())
			if at != nil {
				pos = P.ipos(at)
			}
			r.Check(bad == "", "direct", P.fname(f), pos, bad)
		}
		// a constructor that calls a noisy constructor is noisy too
		for ch := true; ch; {
			ch = false
			for _, f := range P.funcs {
				if !isCtor(f) || noisy[f] {
					continue
				}
				for _, g := range P.usedFuncs(f) {
					if noisy[g] {
						noisy[f], ch = true, true
					}
				}
			}
		}
		for _, f := range P.funcs {
			if noisy[f] {
				continue
			}
			used := P.usedFuncs(f)
			if f.Name() == "init" && f.Parent() == nil {
				// package variables may hold a constructor, but not use it
				used = nil
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil {
							used = append(used, ci.Common().StaticCallee())
						}
					}
				}
			}
			for _, g := range used {
				if isCtor(g) {
					r.Check(!noisy[g], "default", P.fname(f)+" uses "+P.fname(g), P.pos(f.Pos()), "the library creates a logger that writes to a standard stream by itself")
				}
			}
		}
		r.Count("logger constructors that can write to a standard stream", len(noisy))
		r.Floor("direct", 400)
		r.Floor("stream", 1)
		r.Floor("off", 1)
		r.Floor("default", 1)
	})
}

func fieldType(a *ssa.FieldAddr) types.Type {
	return a.Type().Underlying().(*types.Pointer).Elem()
}

// staticCallers: the calls of f in the library.
func (P *Program) staticCallers(f *ssa.Function) []ssa.CallInstruction {
	if P.callers == nil {
		P.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range P.funcs {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if c := ci.Common().StaticCallee(); c != nil {
							P.callers[c] = append(P.callers[c], ci)
						}
					}
				}
			}
		}
	}
	return P.callers[f]
}

// usedFuncs: the functions f calls or mentions, also through package
// variables that hold a function.
func (P *Program) usedFuncs(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		g = P.unbound(g)
		if g != nil && !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	var ops []*ssa.Value
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ops = ins.Operands(ops[:0])
			for _, o := range ops {
				switch x := (*o).(type) {
				case *ssa.Function:
					add(x)
				case *ssa.Global:
					for _, g := range P.initialFns(x) {
						add(g)
					}
				}
			}
		}
	}
	return out
}

// initialFns: the functions that are stored in a package variable.
func (P *Program) initialFns(g *ssa.Global) []*ssa.Function {
	if P.varFns == nil {
		P.varFns = map[*ssa.Global][]*ssa.Function{}
		for _, f := range P.funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					st, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					if x, ok := st.Addr.(*ssa.Global); ok {
						if h, ok := st.Val.(*ssa.Function); ok {
							P.varFns[x] = append(P.varFns[x], h)
						}
					}
				}
			}
		}
	}
	return P.varFns[g]
}
