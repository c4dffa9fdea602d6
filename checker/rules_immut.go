package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C15: ownership analysis of the immutable types of package ast. A value is
// traced back to the objects it can refer to; what an immutable object's
// fields refer to ("rep") may be read, and shared with other immutable
// objects, but not written, handed out or taken over from a caller.

const immPkg = "github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"

type immObj struct {
	kind string    // rep, fresh, param, global, ext
	v    ssa.Value // the creating instruction, parameter or global
	deep bool      // reachable from an element, not the thing itself
}

type imm struct {
	P       *Program
	r       *Report
	pk      *ssa.Package
	fns     []*ssa.Function
	types   map[*types.Named]bool
	ifaces  map[*types.Named]bool
	callers map[*ssa.Function][]ssa.CallInstruction
	fstores map[string][]ssa.Value // stores to fields of other structs, by type and field
	owned   map[ssa.Value]bool     // fresh objects that became part of an immutable object
	binds   map[*ssa.Function][]*ssa.MakeClosure
	dyn     []ssa.CallInstruction // calls of function values
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func structOf(t types.Type) *types.Struct {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func newImm(P *Program, r *Report) *imm {
	x := &imm{P: P, r: r, pk: P.byPkg[immPkg], types: map[*types.Named]bool{}, ifaces: map[*types.Named]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, fstores: map[string][]ssa.Value{}, owned: map[ssa.Value]bool{}, binds: map[*ssa.Function][]*ssa.MakeClosure{}}
	if !r.Anchor(x.pk != nil, "package ast") {
		return nil
	}
	for _, n := range []string{"ItemNode", "HSMSMessage"} {
		t := P.named(immPkg, n)
		if !r.Anchor(t != nil && types.IsInterface(t), "interface ast."+n) {
			return nil
		}
		x.ifaces[t] = true
	}
	sc := x.pk.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(t) || t.TypeParams().Len() > 0 {
			continue
		}
		for i := range x.ifaces {
			it := i.Underlying().(*types.Interface)
			if types.Implements(t, it) || types.Implements(types.NewPointer(t), it) {
				x.types[t] = true
			}
		}
	}
	// the structs they are made of
	for again := true; again; {
		again = false
		for t := range x.types {
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if n := namedOf(s.Field(i).Type()); n != nil && n.Obj().Pkg() == x.pk.Pkg && structOf(n) != nil && !x.types[n] {
					x.types[n] = true
					again = true
				}
			}
		}
	}
	for fn := range P.isLib {
		if p := fnPkg(fn); p != nil && p == x.pk.Pkg && fn.Blocks != nil {
			x.fns = append(x.fns, fn)
		}
	}
	sort.Slice(x.fns, func(i, j int) bool { return P.fname(x.fns[i]) < P.fname(x.fns[j]) })
	for _, fn := range x.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					if f := in.Common().StaticCallee(); f != nil {
						x.callers[f] = append(x.callers[f], in)
					} else if !in.Common().IsInvoke() {
						if _, ok := in.Common().Value.(*ssa.Builtin); !ok {
							x.dyn = append(x.dyn, in)
						}
					}
				case *ssa.MakeClosure:
					f := in.Fn.(*ssa.Function)
					x.binds[f] = append(x.binds[f], in)
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						if n := namedOf(fa.X.Type()); n != nil && !x.types[n] {
							k := fmt.Sprintf("%s.%d", n.String(), fa.Field)
							x.fstores[k] = append(x.fstores[k], in.Val)
						}
					}
				}
			}
		}
	}
	return x
}

func (x *imm) immNamed(t types.Type) *types.Named {
	if n := namedOf(t); n != nil && x.types[n] {
		return n
	}
	return nil
}

// mutable: a value of type t gives access to memory that can be written.
func (x *imm) mutable(t types.Type) bool {
	t = types.Unalias(t)
	if x.immNamed(t) != nil {
		return false
	}
	if n, ok := t.(*types.Named); ok && x.ifaces[n] {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Pointer:
		return true
	case *types.Interface:
		return !types.Identical(u, types.Universe.Lookup("error").Type().Underlying())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if x.mutable(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return x.mutable(u.Elem())
	}
	return false
}

// entry: the function can be called by code the analysis does not see.
func (x *imm) entry(fn *ssa.Function) bool {
	if fn.Object() == nil {
		return false // closures are called through values; see below
	}
	if !token.IsExported(fn.Name()) {
		return x.P.addrTake[fn]
	}
	return true
}

// owner tells whether the object a pointer refers to may already be shared:
// it is not one this function (or its callers) created and has not published.
func (x *imm) shared(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc:
		return false
	case *ssa.Const:
		return false
	case *ssa.FieldAddr:
		return x.shared(v.X, seen)
	case *ssa.IndexAddr:
		return x.shared(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if x.shared(e, seen) {
				return true
			}
		}
		return false
	case *ssa.MakeInterface:
		return x.shared(v.X, seen)
	case *ssa.ChangeInterface:
		return x.shared(v.X, seen)
	case *ssa.ChangeType:
		return x.shared(v.X, seen)
	case *ssa.TypeAssert:
		return x.shared(v.X, seen)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return x.sharedCall(c, v.Index, seen)
		}
		return x.shared(v.Tuple, seen)
	case *ssa.Call:
		return x.sharedCall(v, 0, seen)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if vals, ok := x.cell(v.X); ok {
				for _, w := range vals {
					if x.shared(w, seen) {
						return true
					}
				}
				return false
			}
		}
	case *ssa.Parameter:
		fn := v.Parent()
		if x.entry(fn) {
			return true
		}
		args, ok := x.args(v)
		if !ok {
			return true
		}
		for _, a := range args {
			if x.shared(a, seen) {
				return true
			}
		}
		return false
	case *ssa.FreeVar:
		for _, b := range x.bound(v) {
			if x.shared(b, seen) {
				return true
			}
		}
		return false
	}
	return true
}

func (x *imm) sharedCall(c *ssa.Call, i int, seen map[ssa.Value]bool) bool {
	f := c.Call.StaticCallee()
	if f == nil || fnPkg(f) != x.pk.Pkg || f.Blocks == nil {
		return true
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			if x.shared(ret.Results[i], seen) {
				return true
			}
		}
	}
	return false
}

// args gives what callers pass for a parameter of an unexported function.
func (x *imm) args(p *ssa.Parameter) ([]ssa.Value, bool) {
	fn := p.Parent()
	for i, q := range fn.Params {
		if q != p {
			continue
		}
		var out []ssa.Value
		for _, c := range x.callers[fn] {
			a := c.Common().Args
			if i >= len(a) {
				return nil, false
			}
			out = append(out, a[i])
		}
		if len(out) == 0 && fn.Parent() != nil {
			// a closure, called through a value of its type
			for _, c := range x.dyn {
				if a := c.Common(); types.Identical(a.Value.Type().Underlying(), fn.Signature) && i < len(a.Args) {
					out = append(out, a.Args[i])
				}
			}
			if len(out) == 0 {
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

func (x *imm) bound(v *ssa.FreeVar) []ssa.Value {
	fn := v.Parent()
	var out []ssa.Value
	for i, f := range fn.FreeVars {
		if f == v {
			for _, m := range x.binds[fn] {
				out = append(out, m.Bindings[i])
			}
		}
	}
	return out
}

// cell gives the values stored in a local variable that lives in memory.
func (x *imm) cell(addr ssa.Value) ([]ssa.Value, bool) {
	var allocs []ssa.Value
	switch a := addr.(type) {
	case *ssa.Alloc:
		allocs = []ssa.Value{a}
	case *ssa.FreeVar:
		allocs = x.bound(a)
	default:
		return nil, false
	}
	var out []ssa.Value
	var visit func(v ssa.Value, depth int)
	visit = func(v ssa.Value, depth int) {
		if v.Referrers() == nil || depth > 4 {
			return
		}
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v {
					out = append(out, in.Val)
				}
			case *ssa.MakeClosure:
				f := in.Fn.(*ssa.Function)
				for i, b := range in.Bindings {
					if b == v {
						visit(f.FreeVars[i], depth+1)
					}
				}
			}
		}
	}
	for _, a := range allocs {
		if _, ok := a.(*ssa.Alloc); !ok {
			return nil, false
		}
		visit(a, 0)
	}
	return out, true
}

type immSet map[immObj]bool

func (s immSet) add(t immSet, deep bool) {
	for o := range t {
		if deep {
			o.deep = true
		}
		s[o] = true
	}
}

// elem: what an element taken out of such a container refers to.
func (s immSet) elem() immSet {
	out := immSet{}
	for o := range s {
		if o.kind != "fresh" || o.deep {
			o.deep = false
			out[o] = true
		}
	}
	return out
}

// origins traces a value to the objects it can refer to.
func (x *imm) origins(v ssa.Value, seen map[ssa.Value]bool) immSet {
	out := immSet{}
	if seen[v] || !x.mutableOrAddr(v) {
		return out
	}
	seen[v] = true
	defer delete(seen, v)
	switch v := v.(type) {
	case *ssa.Const:
	case *ssa.Global:
		out[immObj{"global", v, false}] = true
	case *ssa.Function, *ssa.Builtin:
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		out[immObj{"fresh", v, false}] = true
		x.elements(v, out, seen)
	case *ssa.Alloc:
		out[immObj{"fresh", v, false}] = true
		x.elements(v, out, seen)
	case *ssa.MakeClosure:
		for _, b := range v.Bindings {
			out.add(x.origins(b, seen), true)
		}
	case *ssa.Slice:
		out.add(x.origins(v.X, seen), false)
	case *ssa.ChangeType:
		out.add(x.origins(v.X, seen), false)
	case *ssa.ChangeInterface:
		out.add(x.origins(v.X, seen), false)
	case *ssa.SliceToArrayPointer:
		out.add(x.origins(v.X, seen), false)
	case *ssa.Convert, *ssa.MultiConvert:
		out[immObj{"fresh", v, false}] = true
	case *ssa.MakeInterface:
		out.add(x.origins(v.X, seen), false)
	case *ssa.TypeAssert:
		out.add(x.origins(v.X, seen), false)
	case *ssa.Phi:
		for _, e := range v.Edges {
			out.add(x.origins(e, seen), false)
		}
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			x.callOrigins(t, v.Index, out, seen)
		case *ssa.TypeAssert:
			out.add(x.origins(t.X, seen), false)
		case *ssa.Lookup:
			out.add(x.origins(t.X, seen).elem(), false)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				out.add(x.origins(rg.X, seen).elem(), false)
			}
		case *ssa.UnOp:
			out[immObj{"ext", v, false}] = true
		}
	case *ssa.Call:
		x.callOrigins(v, 0, out, seen)
	case *ssa.Lookup:
		out.add(x.origins(v.X, seen).elem(), false)
	case *ssa.Index:
		out.add(x.origins(v.X, seen).elem(), false)
	case *ssa.Field:
		if x.immNamed(v.X.Type()) != nil {
			out[immObj{"rep", v, false}] = true
		} else {
			out.add(x.fieldOrigins(v.X.Type(), v.Field, seen), false)
		}
	case *ssa.FieldAddr:
		if x.immNamed(v.X.Type()) != nil {
			if x.shared(v.X, map[ssa.Value]bool{}) {
				out[immObj{"rep", v, false}] = true
			} else {
				out[immObj{"fresh", v, false}] = true
			}
		} else {
			out.add(x.origins(v.X, seen), false)
		}
	case *ssa.IndexAddr:
		out.add(x.origins(v.X, seen), false)
	case *ssa.UnOp:
		if v.Op == token.ARROW {
			out[immObj{"ext", v, false}] = true
			break
		}
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			if x.immNamed(a.X.Type()) != nil {
				out.add(x.repField(a, seen), false)
			} else if namedOf(a.X.Type()) != nil {
				out.add(x.fieldOrigins(a.X.Type(), a.Field, seen), false)
			} else {
				out.add(x.origins(a.X, seen).elem(), false)
			}
		case *ssa.IndexAddr:
			out.add(x.origins(a.X, seen).elem(), false)
		case *ssa.Global:
			out[immObj{"global", a, false}] = true
		default:
			if vals, ok := x.cell(v.X); ok {
				for _, w := range vals {
					out.add(x.origins(w, seen), false)
				}
				if len(vals) == 0 {
					out.add(x.origins(v.X, seen), false)
				}
			} else {
				out.add(x.origins(v.X, seen).elem(), false)
			}
		}
	case *ssa.Parameter:
		fn := v.Parent()
		if x.entry(fn) {
			out[immObj{"param", v, false}] = true
			break
		}
		args, ok := x.args(v)
		if !ok {
			out[immObj{"ext", v, false}] = true
			break
		}
		for _, a := range args {
			out.add(x.origins(a, seen), false)
		}
	case *ssa.FreeVar:
		for _, b := range x.bound(v) {
			out.add(x.origins(b, seen), false)
		}
	default:
		out[immObj{"ext", v, false}] = true
	}
	return out
}

func (x *imm) mutableOrAddr(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global:
		return true
	}
	return x.mutable(v.Type())
}

// repField: what a field of an immutable object refers to. A field of an
// object made here refers to what was stored in it here.
func (x *imm) repField(a *ssa.FieldAddr, seen map[ssa.Value]bool) immSet {
	out := immSet{}
	al, ok := a.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		out[immObj{"rep", a, false}] = true
		return out
	}
	for _, in := range *al.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == ssa.Value(al) {
				out[immObj{"rep", a, false}] = true // a copy of another object
			}
		case *ssa.FieldAddr:
			if in.Field != a.Field || in.Referrers() == nil {
				continue
			}
			for _, s := range *in.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(in) {
					out.add(x.origins(st.Val, seen), false)
				}
			}
		}
	}
	return out
}

func (x *imm) fieldOrigins(t types.Type, field int, seen map[ssa.Value]bool) immSet {
	out := immSet{}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() != x.pk.Pkg {
		out[immObj{"ext", nil, false}] = true
		return out
	}
	for _, v := range x.fstores[fmt.Sprintf("%s.%d", n.String(), field)] {
		out.add(x.origins(v, seen), false)
	}
	return out
}

// elements adds, as deep, what is stored in a container made here.
func (x *imm) elements(v ssa.Value, out immSet, seen map[ssa.Value]bool) {
	var visit func(w ssa.Value, d int)
	visit = func(w ssa.Value, d int) {
		if w.Referrers() == nil || d > 6 {
			return
		}
		for _, in := range *w.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == w && w != v && x.mutable(in.Val.Type()) {
					out.add(x.origins(in.Val, seen), true)
				}
			case *ssa.MapUpdate:
				if in.Map == w && x.mutable(in.Value.Type()) {
					out.add(x.origins(in.Value, seen), true)
				}
			case *ssa.IndexAddr:
				if in.X == w {
					visit(in, d+1)
				}
			case *ssa.FieldAddr:
				if x.immNamed(in.X.Type()) == nil {
					visit(in, d+1)
				}
			case *ssa.Slice:
				visit(in, d+1)
			case *ssa.Phi:
				visit(in, d+1)
			case *ssa.Call:
				if isBuiltinCall(in, "append") {
					if in.Call.Args[0] == w {
						visit(in, d+1)
					}
				}
			}
		}
	}
	visit(v, 0)
}

func isBuiltinCall(c *ssa.Call, name string) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

var immFresh = map[string]bool{
	"slices.Clone": true, "bytes.Clone": true, "maps.Clone": true, "slices.Concat": true, "slices.Collect": true, "slices.Sorted": true, "bytes.Join": true, "bytes.Repeat": true, "slices.Repeat": true,
	"encoding/hex.DecodeString": true, "strings.Split": true, "strings.Fields": true, "regexp.MustCompile": true, "regexp.Compile": true,
}

func fullName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	if p := fnPkg(f); p != nil {
		if rc := f.Signature.Recv(); rc != nil {
			return typeKey(rc.Type()) + "." + f.Name()
		}
		return p.Path() + "." + f.Name()
	}
	return f.Name()
}

func (x *imm) callOrigins(c *ssa.Call, i int, out immSet, seen map[ssa.Value]bool) {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			out.add(x.origins(cc.Args[0], seen), false)
			out[immObj{"fresh", c, false}] = true
			if s, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok && x.mutable(s.Elem()) {
				out.add(x.origins(cc.Args[1], seen).elem(), true)
			}
		}
		return
	}
	if cc.IsInvoke() {
		if n := namedOf(cc.Value.Type()); n != nil && x.ifaces[n] {
			out[immObj{"fresh", c, false}] = true // by this property itself
			return
		}
		out[immObj{"ext", c, false}] = true
		return
	}
	f := cc.StaticCallee()
	if f == nil {
		out[immObj{"ext", c, false}] = true
		return
	}
	if fnPkg(f) != x.pk.Pkg || f.Blocks == nil {
		out[immObj{"fresh", c, false}] = true
		if !immFresh[fullName(f)] {
			for _, a := range cc.Args {
				out.add(x.origins(a, seen), false)
			}
		}
		return
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(ret.Results) {
			continue
		}
		for o := range x.origins(ret.Results[i], seen) {
			switch {
			case o.kind == "fresh" && o.v != nil && o.v.Parent() == f && x.owned[o.v]:
				o.kind = "rep"
			case o.kind == "fresh" && o.v != nil && o.v.Parent() == f:
				o.v = c // one object per call
			case o.kind == "param":
				if p, ok := o.v.(*ssa.Parameter); ok && p.Parent() == f {
					for j, q := range f.Params {
						if q == p && j < len(cc.Args) {
							out.add(x.origins(cc.Args[j], seen), o.deep)
						}
					}
					continue
				}
			}
			out[o] = true
		}
	}
}

func (x *imm) bad(s immSet, writes bool) (string, bool) {
	for o := range s {
		if writes && o.deep {
			continue
		}
		switch {
		case o.kind == "rep":
			return "data of an immutable object", true
		case o.kind == "fresh" && !writes && x.owned[o.v]:
			return "data that was made part of an immutable object", true
		case o.kind == "global" && x.owned[o.v]:
			return "a package variable that immutable objects refer to", true
		}
	}
	return "", false
}

// writesArg: positions of arguments a function of another package writes to;
// readers names functions known to read their arguments only.
var immWriters = map[string][]int{
	"sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0}, "sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0}, "slices.Insert": {0}, "slices.Delete": {0}, "slices.DeleteFunc": {0}, "slices.Replace": {0}, "slices.Compact": {0}, "slices.CompactFunc": {0},
	"maps.Copy": {0}, "maps.DeleteFunc": {0}, "maps.Insert": {0},
	"encoding/binary.bigEndian.PutUint16": {1}, "encoding/binary.bigEndian.PutUint32": {1}, "encoding/binary.bigEndian.PutUint64": {1},
	"encoding/binary.littleEndian.PutUint16": {1}, "encoding/binary.littleEndian.PutUint32": {1}, "encoding/binary.littleEndian.PutUint64": {1},
	"encoding/binary.PutUvarint": {0}, "encoding/binary.PutVarint": {0}, "encoding/binary.Encode": {0},
	"encoding/binary.bigEndian.AppendUint16": {1}, "encoding/binary.bigEndian.AppendUint32": {1}, "encoding/binary.bigEndian.AppendUint64": {1},
	"strconv.AppendInt": {0}, "strconv.AppendUint": {0}, "strconv.AppendFloat": {0}, "strconv.AppendBool": {0}, "strconv.AppendQuote": {0}, "fmt.Appendf": {0}, "fmt.Append": {0}, "fmt.Appendln": {0},
	"encoding/hex.Encode": {0}, "encoding/hex.Decode": {0}, "io.ReadFull": {1}, "crypto/rand.Read": {0}, "math/rand.Read": {0},
	"slices.Grow": {}, "slices.Clip": {},
}

var immReadPkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "bytes": true, "errors": true, "regexp": true, "unicode": true, "unicode/utf8": true, "math": true, "sort": true, "slices": true, "maps": true, "encoding/hex": true, "encoding/binary": true, "hash/crc32": true, "reflect": true, "unicode/utf16": true, "cmp": true, "math/bits": true}

func init() {
	register("C15", "Items and messages are traced by ownership: what their fields refer to is only read, shared with other items and messages, or copied.", func(r *Report) {
		P := r.P
		r.Rule("write", "no function writes to an item or message it did not itself create, nor to the slices and maps one refers to (stores, map updates, delete, copy, append in place, functions of other packages that write)")
		r.Rule("handout", "nothing an item or message refers to is returned by an exported function or method, stored outside the items and messages, sent, or passed to code that is not known to read only")
		r.Rule("take-over", "what a constructor stores in an item or message is made by the package or belongs to another item or message: never a caller's slice or map")
		r.Rule("field", "no field of an item or message can be assigned from outside the package")
		r.Assume("elements of type ItemNode supplied by an application are immutable themselves; package unsafe and reflection are not used to write")
		x := newImm(P, r)
		if x == nil {
			return
		}
		r.Saw(x.fns...)
		org := func(v ssa.Value) immSet { return x.origins(v, map[ssa.Value]bool{}) }
		for t := range x.types {
			s, ok := t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				r.Check(!f.Exported() || f.Embedded() && x.immNamed(f.Type()) != nil, "field", t.Obj().Name()+"."+f.Name(), P.pos(f.Pos()), "field "+f.Name()+" of "+t.Obj().Name()+" is exported, so anyone can change it")
			}
		}
		// what is stored in them; twice, because ownership feeds back
		for round := 0; round < 3; round++ {
			x.eachIngest(func(fn *ssa.Function, in ssa.Instruction, v ssa.Value) {
				for o := range org(v) {
					if (o.kind == "fresh" || o.kind == "global") && o.v != nil {
						x.owned[o.v] = true
					}
				}
			})
		}
		x.eachIngest(func(fn *ssa.Function, in ssa.Instruction, v ssa.Value) {
			why := ""
			for o := range org(v) {
				switch o.kind {
				case "param":
					why = "the caller's " + o.v.Name()
				case "ext":
					why = "something made elsewhere"
				}
			}
			r.Check(why == "", "take-over", P.fname(fn)+":"+x.key(in), P.ipos(in), "an item or message keeps "+why+" without copying it")
		})
		for _, fn := range x.fns {
			n := map[string]int{}
			key := func(in ssa.Instruction, what string) string {
				k := P.fname(fn) + ":" + what
				n[k]++
				return fmt.Sprintf("%s#%d", k, n[k])
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					x.instr(fn, in, org, key)
				}
			}
		}
		r.Floor("write", 40)
		r.Floor("handout", 40)
		r.Floor("take-over", 12)
		r.Floor("field", 20)
	})
}

func (x *imm) key(in ssa.Instruction) string {
	if st, ok := in.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			if s := structOf(fa.X.Type()); s != nil {
				return typeKey(fa.X.Type()) + "." + s.Field(fa.Field).Name()
			}
		}
	}
	return "value"
}

// eachIngest visits the values stored in fields of immutable objects.
func (x *imm) eachIngest(f func(*ssa.Function, ssa.Instruction, ssa.Value)) {
	for _, fn := range x.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !x.mutable(st.Val.Type()) {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && x.immNamed(fa.X.Type()) != nil {
					f(fn, in, st.Val)
				}
			}
		}
	}
}

func (x *imm) instr(fn *ssa.Function, in ssa.Instruction, org func(ssa.Value) immSet, key func(ssa.Instruction, string) string) {
	P, r := x.P, x.r
	write := func(v ssa.Value, what string) {
		why, bad := x.bad(org(v), true)
		r.Check(!bad, "write", key(in, what), P.ipos(in), P.fname(fn)+" "+what+" "+why)
	}
	handout := func(v ssa.Value, what string) {
		if !x.mutable(v.Type()) {
			return
		}
		why, bad := x.bad(org(v), false)
		r.Check(!bad, "handout", key(in, what), P.ipos(in), P.fname(fn)+" "+what+" "+why)
	}
	switch in := in.(type) {
	case *ssa.Store:
		switch a := in.Addr.(type) {
		case *ssa.FieldAddr:
			if x.inImm(a) {
				r.Check(!x.shared(a.X, map[ssa.Value]bool{}), "write", key(in, "store"), P.ipos(in), P.fname(fn)+" assigns a field of an item or message that it did not create")
				return
			}
			if x.mutable(in.Val.Type()) {
				if n := namedOf(a.X.Type()); n == nil || n.Obj().Pkg() != x.pk.Pkg || token.IsExported(n.Obj().Name()) || x.shared(a.X, map[ssa.Value]bool{}) && n.Obj().Exported() {
					handout(in.Val, "stores in another object")
				}
			}
		case *ssa.IndexAddr:
			if x.inImm(a) {
				r.Check(!x.shared(a.X, map[ssa.Value]bool{}), "write", key(in, "store"), P.ipos(in), P.fname(fn)+" assigns an element of an item or message that it did not create")
				return
			}
			write(a.X, "writes an element of")
			if x.mutable(in.Val.Type()) && !x.local(org(a.X)) {
				handout(in.Val, "stores in another object")
			}
		case *ssa.Global:
			handout(in.Val, "keeps in a package variable")
		case *ssa.Alloc, *ssa.FreeVar:
			// a local variable; an immutable struct in it is a copy
			if x.immNamed(in.Addr.Type()) != nil {
				r.Check(!x.shared(in.Addr, map[ssa.Value]bool{}), "write", key(in, "store"), P.ipos(in), P.fname(fn)+" overwrites an item or message that it did not create")
			}
		default:
			if x.immNamed(in.Addr.Type()) != nil {
				r.Check(!x.shared(in.Addr, map[ssa.Value]bool{}), "write", key(in, "store"), P.ipos(in), P.fname(fn)+" overwrites an item or message that it did not create")
				return
			}
			write(in.Addr, "writes through a pointer to")
			handout(in.Val, "stores in another object")
		}
	case *ssa.MapUpdate:
		write(in.Map, "changes a map of")
		if x.mutable(in.Value.Type()) && !x.local(org(in.Map)) {
			handout(in.Value, "stores in another object")
		}
	case *ssa.Send:
		handout(in.X, "sends")
	case *ssa.Return:
		if x.entry(fn) || fn.Parent() != nil && len(x.callers[fn]) == 0 {
			for _, v := range in.Results {
				handout(v, "returns")
			}
		}
	case ssa.CallInstruction:
		cc := in.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				write(cc.Args[0], "removes from")
			case "copy":
				write(cc.Args[0], "copies into")
			case "append":
				a := cc.Args[0]
				if s, ok := a.(*ssa.Slice); ok && s.Max != nil {
					return // the result never shares the spare capacity
				}
				write(a, "appends in place to")
			}
			return
		}
		if cc.IsInvoke() {
			for _, a := range cc.Args {
				if n := namedOf(cc.Value.Type()); n != nil && x.ifaces[n] {
					// methods of items and messages; judged where they are declared
					write(a, "passes to a method")
					continue
				}
				handout(a, "passes to "+cc.Method.Name())
			}
			return
		}
		f := cc.StaticCallee()
		if f == nil {
			for _, a := range cc.Args {
				handout(a, "passes to a function value")
			}
			return
		}
		if fnPkg(f) == x.pk.Pkg && f.Blocks != nil {
			return
		}
		name := fullName(f)
		pos, writer := immWriters[name]
		isW := map[int]bool{}
		for _, i := range pos {
			isW[i] = true
			if i < len(cc.Args) {
				write(cc.Args[i], "lets "+name+" write to")
			}
		}
		p := fnPkg(f)
		if writer || p != nil && immReadPkgs[p.Path()] {
			return
		}
		for _, a := range cc.Args {
			handout(a, "passes to "+name)
		}
	}
}

// inImm: the address lies within an immutable object.
func (x *imm) inImm(a ssa.Value) bool {
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			if x.immNamed(v.X.Type()) != nil {
				return true
			}
			a = v.X
		case *ssa.IndexAddr:
			if _, ok := v.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			a = v.X
		default:
			return false
		}
	}
}

// local: every object is one made in this package.
func (x *imm) local(s immSet) bool {
	for o := range s {
		if !o.deep && o.kind != "fresh" {
			return false
		}
	}
	return true
}
