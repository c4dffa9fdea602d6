package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cbEntry is one state-machine callback registration.
type cbEntry struct {
	key string
	fn  *ssa.Function // the method or closure
	ins ssa.Instruction
	in  *ssa.Function
}

// constOf evaluates a value built from constants and constant globals.
func (P *Program) constOf(v ssa.Value) (Val, bool) {
	return P.constExpr(nil, v, 0)
}

// funcOf resolves a function value to its target (unwrapping method values).
func (P *Program) funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return P.funcOf(x.X)
	case *ssa.MakeInterface:
		return P.funcOf(x.X)
	case *ssa.Function:
		return P.unbound(x)
	case *ssa.MakeClosure:
		return P.unbound(x.Fn.(*ssa.Function))
	}
	return nil
}

func (P *Program) unbound(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" {
		if o, ok := f.Object().(*types.Func); ok {
			if m := P.prog.FuncValue(o); m != nil {
				return m
			}
		}
	}
	return f
}

// fsmCallbacks collects every entry put into a fsm.Callbacks map.
func (P *Program) fsmCallbacks() []cbEntry {
	var out []cbEntry
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				if !strings.HasSuffix(typeKey(mu.Map.Type()), "looplab/fsm.Callbacks") {
					continue
				}
				e := cbEntry{fn: P.funcOf(mu.Value), ins: mu, in: fn}
				if v, ok := P.constOf(mu.Key); ok {
					e.key, _ = v.IsStr()
				}
				out = append(out, e)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ins.Pos() < out[j].ins.Pos() })
	return out
}
