package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/younglifestyle/secs4go"

// Package paths of the library.
const (
	pkgLink   = modPath
	pkgCodec  = modPath + "/codec"
	pkgCommon = modPath + "/common"
	pkgHsms   = modPath + "/hsms"
	pkgGem    = modPath + "/gem"
	pkgUtils  = modPath + "/utils"
	pkgAst    = modPath + "/lib-secs2-hsms-go/pkg/ast"
	pkgPHsms  = modPath + "/lib-secs2-hsms-go/pkg/parser/hsms"
	pkgPSml   = modPath + "/lib-secs2-hsms-go/pkg/parser/sml"
	pkgSecs   = modPath + "/secs"
)

var libPkgs = []string{pkgLink, pkgCodec, pkgCommon, pkgHsms, pkgGem, pkgUtils, pkgAst, pkgPHsms, pkgPSml, pkgSecs}

// Program is the resolved, type-checked program under analysis.
type Program struct {
	repo  string
	pkgs  []*packages.Package
	prog  *ssa.Program
	byPkg map[string]*ssa.Package
	typ   map[string]*packages.Package
	fset  *token.FileSet

	// funcs are all source functions of the library packages, including
	// methods and anonymous functions, in a deterministic order.
	funcs []*ssa.Function
	isLib map[*ssa.Function]bool

	cha        *callgraph.Graph
	implsMap   map[string][]*ssa.Function
	addrTake   map[*ssa.Function]bool
	globals    map[*ssa.Global]Val
	globalMaps map[string]map[string]Val
	mapBad     map[*ssa.Global]bool
	madeIface  map[string]bool
	initOnly   map[string]bool // struct fields written only during construction
	callers    map[*ssa.Function][]ssa.CallInstruction
	varFns     map[*ssa.Global][]*ssa.Function
}

func loadProgram(repo string) (*Program, error) {
	fset := token.NewFileSet()
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") {
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=readonly")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Fset: fset, Tests: false, Env: env}
	pats := []string{}
	for _, p := range libPkgs {
		pats = append(pats, p)
	}
	// also pick up any package added to the library later
	more, err := packages.Load(&packages.Config{Mode: packages.NeedName | packages.NeedFiles, Dir: repo, Env: env}, "./...")
	if err == nil {
		for _, m := range more {
			if strings.Contains(m.PkgPath, "/verification") || strings.Contains(m.PkgPath, "/example") || m.Name == "main" {
				continue
			}
			known := false
			for _, p := range libPkgs {
				if p == m.PkgPath {
					known = true
				}
			}
			if !known && len(m.GoFiles) > 0 {
				pats = append(pats, m.PkgPath)
			}
		}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the library does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ssapkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{repo: repo, pkgs: pkgs, prog: prog, byPkg: map[string]*ssa.Package{}, typ: map[string]*packages.Package{}, fset: fset, isLib: map[*ssa.Function]bool{}}
	for i, sp := range ssapkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		P.byPkg[pkgs[i].PkgPath] = sp
		P.typ[pkgs[i].PkgPath] = pkgs[i]
	}
	for _, p := range libPkgs {
		if P.byPkg[p] == nil {
			if p == pkgSecs {
				continue
			}
			return nil, fmt.Errorf("library package %s not found", p)
		}
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if fn.Blocks == nil || fn.Pkg == nil && fn.Parent() == nil && fn.Origin() == nil {
			// wrappers and thunks have no Pkg; they are resolved on demand
			continue
		}
		pk := fnPkg(fn)
		if pk == nil || P.byPkg[pk.Path()] == nil {
			continue
		}
		P.isLib[fn] = true
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		P.funcs = append(P.funcs, fn)
	}
	sort.Slice(P.funcs, func(i, j int) bool {
		a, b := P.funcs[i], P.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	P.computeAddrTaken()
	P.computeGlobals()
	P.computeInitOnly()
	return P, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	if fn.Origin() != nil {
		return fnPkg(fn.Origin())
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

// CHA returns the class-hierarchy call graph (sound for dynamic calls).
func (P *Program) CHA() *callgraph.Graph {
	if P.cha == nil {
		P.cha = cha.CallGraph(P.prog)
	}
	return P.cha
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := P.fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(P.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (P *Program) ipos(i ssa.Instruction) string {
	if i == nil {
		return "-"
	}
	if p := i.Pos(); p.IsValid() {
		return P.pos(p)
	}
	// nearest instruction with a position
	b := i.Block()
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return P.pos(x.Pos())
			}
		}
	}
	if i.Parent() != nil {
		return P.pos(i.Parent().Pos())
	}
	return "-"
}

// fname is a short readable name for a function.
func (P *Program) fname(fn *ssa.Function) string {
	if fn == nil {
		return "<dynamic>"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/lib-secs2-hsms-go/pkg/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "link")
	return s
}

// method returns the SSA function of method name on *T (or T).
func (P *Program) method(pkg, typ, name string) *ssa.Function {
	sp := P.byPkg[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	named, ok := o.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < named.NumMethods(); i++ {
		if m := named.Method(i); m.Name() == name {
			return P.prog.FuncValue(m)
		}
	}
	return nil
}

// fn returns the package-level function.
func (P *Program) fn(pkg, name string) *ssa.Function {
	sp := P.byPkg[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (P *Program) named(pkg, typ string) *types.Named {
	sp := P.byPkg[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// methodsOf returns the declared methods of a named type, sorted by name.
func (P *Program) methodsOf(pkg, typ string) []*ssa.Function {
	n := P.named(pkg, typ)
	if n == nil {
		return nil
	}
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := P.prog.FuncValue(n.Method(i)); f != nil && f.Blocks != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// computeAddrTaken finds functions used as values (closures, method values,
// arguments), i.e. which may be called from unknown contexts.
func (P *Program) computeAddrTaken() {
	P.addrTake = map[*ssa.Function]bool{}
	for fn := range P.isLib {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok {
					if !c.Common().IsInvoke() {
						callee = c.Common().Value
					}
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					v := *op
					if v == callee {
						// direct call position only counts if it is
						// also an argument
						n := 0
						if c, ok := ins.(ssa.CallInstruction); ok {
							for _, a := range c.Common().Args {
								if a == v {
									n++
								}
							}
						}
						if n == 0 {
							continue
						}
					}
					switch x := v.(type) {
					case *ssa.Function:
						P.addrTake[x] = true
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					onlyCalled := true
					for _, r := range *mc.Referrers() {
						if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(mc) {
							used := false
							for _, a := range c.Common().Args {
								if a == ssa.Value(mc) {
									used = true
								}
							}
							if !used {
								continue
							}
						}
						onlyCalled = false
					}
					if !onlyCalled {
						P.addrTake[f] = true
						// bound method wrapper: the method itself escapes
						if strings.HasPrefix(f.Synthetic, "bound method wrapper") {
							if o, ok := f.Object().(*types.Func); ok {
								if m := P.prog.FuncValue(o); m != nil {
									P.addrTake[m] = true
								}
							}
						}
					} else {
						delete(P.addrTake, f)
					}
				}
			}
		}
	}
}

// impls resolves an interface method call to the library methods that can
// implement it.
func (P *Program) impls(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		return nil
	}
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := types.TypeString(c.Value.Type(), nil) + "#" + c.Method.Name()
	if P.implsMap == nil {
		P.implsMap = map[string][]*ssa.Function{}
	}
	if r, ok := P.implsMap[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, path := range P.libPaths() {
		sc := P.byPkg[path].Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if tn.Pkg().Path() == pkgLink && tn.Name() == "Session" && typeKey(c.Value.Type()) == pkgLink+".Codec" {
				continue // a Session has the methods of a Codec but is never used as one
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(t, iface) && P.converted(t) {
					if sel := types.NewMethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
						if f := P.prog.MethodValue(sel); f != nil {
							// unwrap promoted/pointer wrappers
							if o, ok := sel.Obj().(*types.Func); ok {
								if g := P.prog.FuncValue(o); g != nil && g.Blocks != nil {
									f = g
								}
							}
							dup := false
							for _, x := range out {
								if x == f {
									dup = true
								}
							}
							if !dup && f.Blocks != nil && P.isLibFn(f) {
								out = append(out, f)
							}
						}
					}
					break
				}
			}
		}
	}
	P.implsMap[key] = out
	return out
}

// converted reports whether a value of type t is ever converted to an
// interface by library code; other types cannot be behind an interface value
// (applications pass their own types, which are not library code).
func (P *Program) converted(t types.Type) bool {
	if P.madeIface == nil {
		P.madeIface = map[string]bool{}
		for _, fn := range P.funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if mi, ok := ins.(*ssa.MakeInterface); ok {
						P.madeIface[types.TypeString(mi.X.Type(), nil)] = true
					}
				}
			}
		}
	}
	return P.madeIface[types.TypeString(t, nil)]
}

func (P *Program) libPaths() []string {
	var out []string
	for k := range P.byPkg {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (P *Program) isLibFn(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	pk := fnPkg(fn)
	if pk == nil {
		return false
	}
	return P.byPkg[pk.Path()] != nil
}

// typeKey gives "pkg.T" for (pointers to) named types.
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	}
	return ""
}

func shortType(k string) string {
	k = strings.ReplaceAll(k, modPath+"/lib-secs2-hsms-go/pkg/", "")
	k = strings.ReplaceAll(k, modPath+"/", "")
	if strings.HasPrefix(k, modPath+".") {
		k = "link." + strings.TrimPrefix(k, modPath+".")
	}
	return k
}

// calleeFull is the full name of a statically known callee
// ("(*pkg.T).M" / "pkg.F"), or "" for dynamic ones; for interface calls it is
// "(pkg.I).M".
func calleeFull(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return "builtin." + v.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}
