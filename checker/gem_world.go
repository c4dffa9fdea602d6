package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The GEM world: handlers and operations of the GEM layer are followed
// exactly on small requests against a symbolic equipment, whose registries
// may or may not hold what a request names.

// shape is the form of a received item: its kind (L, A, U, I, B, T, F, E) and,
// for lists, its items. kind "" is any item.
type shape struct {
	kind string
	sub  []*shape
	as   string // the path of the item that has the same value
	none bool   // the item has no value
}

func sh(kind string, sub ...*shape) *shape { return &shape{kind: kind, sub: sub} }

var kindNode = map[string]string{"L": "ListNode", "A": "ASCIINode", "U": "UintNode", "I": "IntNode", "B": "BinaryNode", "T": "BooleanNode", "F": "FloatNode", "E": "emptyItemNode"}
var kindType = map[string]string{"L": "list", "A": "ascii", "U": "u4", "I": "i4", "B": "binary", "T": "boolean", "F": "f4", "E": "empty"}
var kindVals = map[string]string{"A": "string", "U": "[]uint64", "I": "[]int64", "B": "[]int", "T": "[]bool", "F": "[]float64"}

// at finds the shape of an item path ("in/0/1").
func (s *shape) at(p string) *shape {
	if s == nil {
		return nil
	}
	parts := strings.Split(p, "/")[1:]
	for _, x := range parts {
		if s == nil || s.kind != "L" {
			return nil
		}
		n := lit0(x)
		if n < 0 || int(n) >= len(s.sub) {
			return nil
		}
		s = s.sub[n]
	}
	return s
}

func (s *shape) String() string {
	switch {
	case s.as != "":
		return s.kind + "=" + s.as
	case s.kind == "":
		return "any"
	case s.none:
		return s.kind + "[]"
	case s.kind != "L":
		return s.kind
	}
	var parts []string
	for _, x := range s.sub {
		parts = append(parts, x.String())
	}
	return "<" + strings.Join(parts, " ") + ">"
}

// leaves lists the paths of the items that are not lists.
func (s *shape) leaves(p string) []string {
	if s.kind != "L" {
		return []string{p}
	}
	var out []string
	for i, x := range s.sub {
		out = append(out, x.leaves(p+"/"+itoa(i))...)
	}
	return out
}

// variants lists the shape with each of its items in turn replaced by others:
// every kind of item, items without a value, lists of other lengths.
func (s *shape) variants() []*shape {
	none := func(k string) *shape { return &shape{kind: k, none: true} }
	var out []*shape
	for _, k := range []string{"A", "U", "I", "B", "T", "F", "E", "L"} {
		if k != s.kind || k == "L" && len(s.sub) > 0 {
			out = append(out, sh(k))
		}
	}
	out = append(out, none("U"), none("I"), none("B"), none("T"), sh("L", sh("U")), sh("L", sh("U"), sh("U")), sh("L", sh("A"), sh("L")), sh("L", sh("L")))
	for i, x := range s.sub {
		if x.as != "" {
			continue
		}
		for _, y := range x.variants() {
			sub := append([]*shape{}, s.sub...)
			sub[i] = y
			out = append(out, &shape{kind: s.kind, sub: sub})
		}
	}
	return out
}

func same(kind, path string) *shape { return &shape{kind: kind, as: path} }

// gx is a gm that runs in exact mode.
type gx struct {
	*gm
	e     *Engine
	form  *shape // of the received message
	reply *shape // of the reply to a request
	nList int    // entries of the lists that symbolic objects hold
	// app: an application callback is called
	app func(c *Ctx, site ssa.CallInstruction, tag string, args []Val) ([]CallRes, bool)
	// fired: an event of the handler is fired with this data
	fired func(c *Ctx, site ssa.CallInstruction, data Val)
	// lib: a call outside the library; op: an operation on strings
	lib func(c *Ctx, site ssa.CallInstruction, name string, args []Val) ([]CallRes, bool)
	op  func(c *Ctx, ins ssa.Value) (Val, bool)
	// crash: an instruction that certainly panics on the path
	crash func(c *Ctx, ins ssa.Instruction, what string)
	root  *instSite
	// maxSteps ends a run that does not end by itself
	maxSteps int
	types    map[string]string // the named types of symbolic functions
	// setup prepares the memory and the arguments of a run
	setup func(st *State) []Val
	ids   bool // see mayNil
	field func(c *Ctx, obj *instSite, path string, t types.Type) (Val, bool)
}

func newGX(P *Program, role string, form *shape, nList int) *gx {
	x := &gx{gm: newGM(P, role).withItems(), form: form, nList: nList}
	x.gm.more = x.call
	x.gm.factOK = func(string) bool { return true }
	return x
}

func (x *gx) shapeAt(p string) *shape {
	switch {
	case p == "in" || strings.HasPrefix(p, "in/"):
		return x.form.at(p)
	case p == "reply" || strings.HasPrefix(p, "reply/"):
		return x.reply.at(p)
	}
	return nil
}

// run follows fn with the handler as a symbolic object.
func (x *gx) run(fn *ssa.Function, a string, args []Val, bind []Val) []Outcome {
	e := newGMEngine(x.P, x.gm)
	e.C = x
	e.Exact = true
	e.LoopArith = 256
	e.MaxState = 60000
	e.MaxSteps = x.maxSteps
	x.e = e
	base := fn.Params[0]
	st := &State{mem: map[memKey]Val{}}
	x.root = e.symObj(st, base, "g")
	if p, ok := base.Type().Underlying().(*types.Pointer); ok {
		x.root.typ = p.Elem()
	}
	if x.setup != nil {
		args = x.setup(st)
	}
	as := make([]Val, len(fn.Params))
	copy(as, args)
	if x.crash == nil || typeKey(base.Type()) == pkgGem+".GemHandler" {
		as[0] = Val{K: KAddr, Site: x.root}
	}
	return e.run(fn, nil, nil, a, as, bind, st.mem, nil)
}

// Assert: the kinds of items that the form fixes.
func (x *gx) Assert(c *Ctx, ta *ssa.TypeAssert, v Val) (bool, bool) {
	if v.K == KTag {
		t := typeKey(ta.AssertedType)
		if p := itemPath(v); p != "" && strings.HasPrefix(v.Tag, "item(") {
			if t == tItem {
				return true, true
			}
			if s := x.shapeAt(p); s != nil && s.kind != "" {
				return t == pkgAst+"."+kindNode[s.kind], true
			}
			if k := c.Get("k:" + p); k != "" {
				return t == pkgAst+"."+kindNode[k], true
			}
		}
		if strings.HasPrefix(v.Tag, "vals(") {
			p := strings.TrimSuffix(v.Tag[5:], ")")
			want := types.TypeString(ta.AssertedType, nil)
			if s := x.shapeAt(p); s != nil && s.kind != "" {
				return kindVals[s.kind] == want, true
			}
			if k := c.Get("k:" + p); k != "" {
				return kindVals[k] == want, true
			}
			for k, n := range kindNode {
				if parseA(c.A()).fact("is(item("+p+")|"+pkgAst+"."+n+")") == 1 {
					return kindVals[k] == want, true
				}
			}
		}
	}
	if v.K == KConst {
		if b, ok := ta.AssertedType.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0:
				_, is := v.IsStr()
				return is, true
			case b.Info()&types.IsBoolean != 0:
				_, is := v.IsBool()
				return is, true
			}
		}
	}
	return x.gm.Assert(c, ta, v)
}

// size decides how many items an item of unknown form has.
func (x *gx) sizes(c *Ctx, p string) []CallRes {
	if s := x.shapeAt(p); s != nil && s.kind != "" {
		n := len(s.sub)
		if s.kind != "L" && s.kind != "E" && !s.none {
			n = 1
		}
		return []CallRes{{A: c.A(), Ret: CInt(int64(n))}}
	}
	if v := c.Get("sz:" + p); v != "" {
		return []CallRes{{A: c.A(), Ret: CInt(lit0(v))}}
	}
	var out []CallRes
	for _, n := range []string{"0", "1", "2"} {
		out = append(out, CallRes{A: withA(c.A(), "sz:"+p, n), Ret: CInt(lit0(n))})
	}
	return out
}

func (x *gx) call(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	one := func(v Val) ([]CallRes, bool) { return []CallRes{{A: c.A(), Ret: v}}, true }
	cc := site.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	if x.crash != nil {
		if w := x.callCrashes(c, site, callee, args); w != "" {
			x.crash(c, site, w)
		}
	}
	if x.lib != nil {
		if rs, ok := x.lib(c, site, name, args); ok {
			return rs, true
		}
	}
	switch name {
	case "fmt.Sprintf", "fmt.Sprint":
		i := 0
		f := ""
		if name == "fmt.Sprintf" {
			i = 1
			s, ok := args[0].IsStr()
			if !ok {
				return nil, false
			}
			f = s
		}
		es, ok := c.elems(args[i], anyType)
		if !ok {
			return nil, false
		}
		var parts []string
		all := true
		for _, v := range es {
			t := itemVal(v)
			if t == "?" {
				return nil, false
			}
			if v.K != KConst {
				all = false
			}
			parts = append(parts, t)
		}
		if all {
			return nil, false
		}
		return one(TagV("fmt(" + sanTag(f) + "|" + strings.Join(parts, "|") + ")"))
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints":
		return one(Top)
	}
	if callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == pkgCommon {
		if _, m := recvMethod(site, callee); m == "Fire" && len(args) == 2 {
			if x.fired != nil {
				x.fired(c, site, args[1])
			}
			return one(Top)
		}
	}
	// application callbacks
	if callee == nil && !cc.IsInvoke() {
		if fv := c.e.calleeVal(c.st, c.fr, cc); fv.K == KTag && strings.HasPrefix(fv.Tag, "?g") {
			if x.app != nil {
				if rs, ok := x.app(c, site, fv.Tag, args); ok {
					return rs, true
				}
			}
			return x.appResults(c, site, fv.Tag), true
		}
	}
	rt, m := recvMethod(site, callee)
	if !strings.HasPrefix(rt, pkgAst+".") {
		return nil, false
	}
	var recv Val
	rest := args
	if cc.IsInvoke() {
		recv = c.Val(cc.Value)
	} else if len(args) > 0 {
		recv, rest = args[0], args[1:]
	}
	p := itemPath(recv)
	if p == "" || x.shapeAt(p) == nil && !strings.HasPrefix(p, "in") {
		return nil, false
	}
	switch m {
	case "Get":
		idx, ok := c.elems(rest[0], types.Typ[types.Int])
		if !ok {
			return nil, false
		}
		if len(idx) == 0 {
			return one(TupleV(TagV("item("+p+")"), NilV))
		}
		n, ok := idx[0].IsInt()
		if !ok || len(idx) > 1 {
			return nil, false
		}
		var out []CallRes
		for _, r := range x.sizes(c, p) {
			sz, _ := r.Ret.IsInt()
			s := x.shapeAt(p)
			isList := s == nil || s.kind == "" || s.kind == "L"
			if n >= 0 && n < sz && isList {
				r.Ret = TupleV(TagV("item("+p+"/"+itoa(int(n))+")"), NilV)
			} else {
				r.Ret = TupleV(NilV, TagV("=err:get"))
			}
			out = append(out, r)
		}
		return out, true
	case "Size":
		return x.sizes(c, p), true
	case "Type":
		if s := x.shapeAt(p); s != nil && s.kind != "" {
			return one(CStr(kindType[s.kind]))
		}
		if k := c.Get("k:" + p); k != "" {
			return one(CStr(kindType[k]))
		}
		var ks []string
		for k := range kindType {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var out []CallRes
		a := c.A()
		for _, k := range ks {
			if k == "F" {
				continue
			}
			c.SetA(a)
			if !c.learn("is(item("+p+")|"+pkgAst+"."+kindNode[k]+")", true) {
				continue
			}
			c.Put("k:"+p, k)
			out = append(out, CallRes{A: c.A(), Ret: CStr(kindType[k])})
		}
		c.SetA(a)
		return out, true
	case "Values":
		if s := x.shapeAt(p); s != nil && s.kind != "" {
			// an item of a fixed form has a value
			c.learn("cmp(len(vals("+p+")) eq 0)", s.none)
			c.learn("cmp(len(vals("+p+")) lt 1)", s.none)
			c.learn("cmp(len(vals("+p+")) le 0)", s.none)
		}
		if s := x.shapeAt(p); s != nil && s.as != "" {
			p = s.as
		}
		return one(TagV("vals(" + p + ")"))
	}
	return nil, false
}

// appResults: what an application callback may return.
func (x *gx) appResults(c *Ctx, site ssa.CallInstruction, tag string) []CallRes {
	res := site.Common().Signature().Results()
	t := strings.TrimPrefix(tag, "?")
	mk := func(err bool) Val {
		vs := make([]Val, res.Len())
		for i := range vs {
			rt, t := res.At(i).Type(), t
			if i > 0 {
				t += "#" + itoa(i)
			}
			switch {
			case types.TypeString(rt, nil) == "error":
				vs[i] = NilV
				if err {
					vs[i] = TagV("=err:app")
				}
			case types.IsInterface(rt):
				vs[i] = TagV("?ret(" + t + ")")
			default:
				if _, ok := rt.Underlying().(*types.Struct); ok {
					vs[i] = x.structOf("ret("+t+")", rt)
				} else {
					vs[i] = TagV("ret(" + t + ")")
				}
			}
		}
		if len(vs) == 1 {
			return vs[0]
		}
		return TupleV(vs...)
	}
	if res.Len() == 0 {
		return []CallRes{{A: c.A(), Ret: Top}}
	}
	if types.TypeString(res.At(res.Len()-1).Type(), nil) == "error" {
		return []CallRes{{A: c.A(), Ret: mk(false)}, {A: withA(c.A(), "apperr", "1"), Ret: mk(true)}}
	}
	return []CallRes{{A: c.A(), Ret: mk(false)}}
}

// structOf: a struct whose fields are named after it.
func (x *gx) structOf(name string, t types.Type) Val {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return TagV(name)
	}
	out := Val{K: KStruct, F: map[string]Val{}, Len: 1}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if v := x.structOf(name+"."+f.Name(), f.Type()); v.K == KStruct {
			for r, y := range v.F {
				out.F["."+f.Name()+r] = y
			}
		} else {
			switch f.Type().Underlying().(type) {
			case *types.Interface, *types.Signature, *types.Slice, *types.Map, *types.Pointer:
				v = x.mayNil(name+"."+f.Name(), f.Type())
			}
			out.F["."+f.Name()] = v
		}
	}
	return out
}

// mayNil is a symbolic value of a type that has nil. The item with the id of
// something registered is never nil: with ids, that is presumed of the items
// in the structs that registered objects embed.
func (x *gx) mayNil(name string, t types.Type) Val {
	if rest := name[strings.LastIndex(name, "}")+1:]; x.ids && strings.Contains(name, "{") && strings.Count(rest, ".") >= 2 && types.TypeString(t, nil) == tItem {
		return TagV("id!" + name)
	}
	return TagV("?" + name)
}

// Instr: values that become interfaces keep their type.
func (x *gx) Instr(c *Ctx, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.Lookup:
		if x.op != nil && isString(i.X.Type()) {
			x.op(c, i)
		}
	case *ssa.Index:
		if x.op != nil && isString(i.X.Type()) {
			x.op(c, i)
		}
	case *ssa.Range:
		if x.op != nil && isString(i.X.Type()) {
			x.op(c, i)
		}
	}
	if mi, ok := ins.(*ssa.MakeInterface); ok {
		if b, ok := mi.X.Type().(*types.Basic); ok {
			if v := c.Val(mi.X); v.K == KTag && !strings.HasPrefix(v.Tag, "?") {
				c.learn("is("+v.Tag+"|"+b.Name()+")", true)
			}
		}
	}
	if x.crash != nil {
		if w := x.crashes(c, ins); w != "" {
			x.crash(c, ins, w)
		}
	}
	x.gm.Instr(c, ins)
}

// Op: operations on strings.
func (x *gx) Op(c *Ctx, ins ssa.Value) (Val, bool) {
	if x.op == nil || !isString(ins.Type()) {
		return Top, false
	}
	return x.op(c, ins)
}

// Cond: whether a symbolic function, interface or pointer is nil is decided
// once.
func (x *gx) Cond(c *Ctx, br *ssa.If, cv Val, taken bool) bool {
	cond, neg := br.Cond, false
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		cond, neg = u.X, true
	}
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		v, w := c.Val(b.X), c.Val(b.Y)
		if v.K == KNil {
			v, w = w, v
		}
		if v.K == KTag && strings.HasPrefix(v.Tag, "?") && w.K == KNil {
			return c.learn("nil("+v.Tag+")", (b.Op == token.EQL) == (taken != neg))
		}
	}
	return x.gm.Cond(c, br, cv, taken)
}

// isNil: what a path knows about a symbolic function, interface or pointer.
func (x *gx) isNil(a, tag string) (is, known bool) {
	f := parseA(a).fact("nil(" + tag + ")")
	return f == 1, f != 0
}

// SymWorld

func (x *gx) named(c *Ctx, name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return TagV(name)
	case *types.Map:
		o := x.e.symObj(c.st, x.root.Value, name)
		o.typ = t
		return Val{K: KMap, Site: o}
	case *types.Pointer:
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgGem {
			o := x.e.symObj(c.st, x.root.Value, name)
			o.typ = u.Elem()
			return Val{K: KAddr, Site: o}
		}
		return TagV("?" + name)
	case *types.Slice:
		o := x.e.symObj(c.st, x.root.Value, name)
		o.typ = t
		id := x.e.siteID(o)
		for i := 0; i < x.nList; i++ {
			k := memKey{id, "[" + itoa(i) + "]"}
			if _, ok := c.st.mem[k]; !ok {
				c.st.mem[k] = x.named(c, name+"["+itoa(i)+"]", u.Elem())
			}
		}
		return Val{K: KSlice, Site: o, Len: x.nList}
	case *types.Struct:
		return x.structOf(name, t)
	case *types.Interface, *types.Signature:
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if x.types == nil {
				x.types = map[string]string{}
			}
			x.types["?"+name] = n.Obj().Name()
		}
		return x.mayNil(name, t)
	}
	return Top
}

func (x *gx) Field(c *Ctx, obj *instSite, path string, t types.Type) Val {
	if x.field != nil {
		if v, ok := x.field(c, obj, path, t); ok {
			return v
		}
	}
	if obj.key.K != KTop && strings.HasSuffix(path, ".key") && types.TypeString(t, nil) == "string" {
		return obj.key // entries are registered under their own key
	}
	return x.named(c, obj.name+path, t)
}

func (x *gx) Entry(c *Ctx, m *instSite, key Val, elem types.Type) Val {
	if mt, ok := m.typ.Underlying().(*types.Map); ok {
		elem = mt.Elem()
	}
	v := x.named(c, m.name+"{"+tagOf(key)+"}", elem)
	if v.K == KAddr {
		v.Site.(*instSite).key = key
	}
	return v
}

func (x *gx) Others(c *Ctx, m *instSite) []Val {
	return []Val{TagV("other(" + m.name + ")")}
}

// registry finds a map of the handler by the type of its entries in the
// memory at the end of a run: the map, and whether it is still the one the
// run started from.
func (x *gx) registry(mem map[memKey]Val, elem string) (m Val, orig, found bool) {
	for k, v := range mem {
		if v.K != KMap || !strings.HasPrefix(k.path, ".") {
			continue
		}
		if _, pinned := mem[memKey{k.site, "pin"}]; !pinned {
			continue
		}
		mt, ok := v.Site.Type().Underlying().(*types.Map)
		if !ok || typeKey(mt.Elem()) != elem {
			continue
		}
		o, is := v.Site.(*instSite)
		return v, is && o.typ != nil, true
	}
	return Top, false, false
}

// changes lists what differs between the memory at the end of a run and the
// symbolic contents it started from, in the objects the handler owns.
func (x *gx) changes(mem map[memKey]Val) []string {
	var out []string
	st := &State{mem: map[memKey]Val{}}
	c := &Ctx{e: x.e, st: st}
	var ks []memKey
	for k := range mem {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].site != ks[j].site {
			return ks[i].site < ks[j].site
		}
		return ks[i].path < ks[j].path
	})
	for _, k := range ks {
		if _, pinned := mem[memKey{k.site, "pin"}]; !pinned {
			continue
		}
		o, ok := x.e.siteVals[k.site-1].(*instSite)
		if !ok || o.typ == nil {
			continue
		}
		v := mem[k]
		switch {
		case strings.HasPrefix(k.path, "{"):
			mt, ok := o.typ.Underlying().(*types.Map)
			if !ok {
				continue
			}
			was, known := mem[memKey{k.site, "i" + k.path}]
			if !known {
				out = append(out, "sets "+o.name+k.path)
				continue
			}
			want := absent
			if !isAbsent(was) {
				want = x.Entry(c, o, keyVal(k.path), mt.Elem())
			}
			if x.e.key(want) != x.e.key(v) {
				out = append(out, "changes "+o.name+k.path)
			}
		case strings.HasPrefix(k.path, "[") || strings.HasPrefix(k.path, "."):
			want := x.initial(c, o, k.path)
			if want.K != KTop && x.e.key(want) != x.e.key(v) {
				out = append(out, "changes "+o.name+k.path)
			}
		case k.path == "cleared":
			out = append(out, "clears "+o.name)
		case k.path == "?":
			out = append(out, "changes "+o.name)
		}
	}
	return out
}

// initial is the content an object's field or element had at the start.
func (x *gx) initial(c *Ctx, o *instSite, path string) Val {
	t := o.typ
	if strings.HasPrefix(path, "[") {
		if s, ok := t.Underlying().(*types.Slice); ok {
			return x.named(c, o.name+path, s.Elem())
		}
		return Top
	}
	for _, f := range strings.Split(path[1:], ".") {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return Top
		}
		var ft types.Type
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				ft = st.Field(i).Type()
			}
		}
		if ft == nil {
			return Top
		}
		t = ft
	}
	return x.Field(c, o, path, t)
}
