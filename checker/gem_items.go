package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The item model: SECS-II items that the GEM layer builds and reads.
//
// Built items are named by their structure - L(..), B(..), U4(..), I4(..),
// A(..), BOOL(..), F4(..), E() - and a message built from one carries it as
// body=. Items of a received message are named by their position: item(in/1/0)
// is item 0 of item 1 of the message "in"; vals(..) are its values.

const tItem = pkgAst + ".ItemNode"

func isItem(v Val) bool { return v.K == KTag && itemKind(v.Tag) != "" }

// itemKind: the node type of a built item ("" if not one).
func itemKind(t string) string {
	i := strings.Index(t, "(")
	if i <= 0 || !strings.HasSuffix(t, ")") {
		return ""
	}
	switch t[:i] {
	case "L":
		return "ListNode"
	case "B":
		return "BinaryNode"
	case "A":
		return "ASCIINode"
	case "BOOL":
		return "BooleanNode"
	case "E":
		return "emptyItemNode"
	case "U1", "U2", "U4", "U8", "U?":
		return "UintNode"
	case "I1", "I2", "I4", "I8", "I?":
		return "IntNode"
	case "F4", "F8", "F?":
		return "FloatNode"
	}
	return ""
}

// itemArgs splits the top-level arguments of an item name.
func itemArgs(t string) []string {
	i := strings.Index(t, "(")
	if i < 0 || !strings.HasSuffix(t, ")") {
		return nil
	}
	in := t[i+1 : len(t)-1]
	if in == "" {
		return nil
	}
	var out []string
	d, st := 0, 0
	for j := 0; j < len(in); j++ {
		switch in[j] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, in[st:j])
				st = j + 1
			}
		}
	}
	return append(out, in[st:])
}

// elems reads the elements of a variadic or slice argument.
func (c *Ctx) elems(v Val, t types.Type) ([]Val, bool) {
	switch v.K {
	case KNil:
		return nil, true
	case KSlice:
		if c.st.mem[memKey{c.e.siteID(v.Site), "!"}].Tag != "live" {
			return nil, false
		}
		out := make([]Val, v.Len)
		for i := range out {
			out[i] = c.e.load(c.st, Val{K: KAddr, Site: v.Site, Path: v.Path + "[" + itoa(v.Lo+i) + "]"}, t)
		}
		return out, true
	}
	return nil, false
}

func itemVal(v Val) string {
	switch v.K {
	case KTag:
		return sanTag(v.Tag)
	case KConst:
		s := sanTag(v.C.ExactString())
		return strings.NewReplacer("(", "_", ")", "_", "{", "_", "}", "_", "[", "_", "]", "_", ",", "_").Replace(s)
	case KBits:
		return sanTag(tagOf(v))
	}
	return "?"
}

// itemCall models the item factories and accessors.
func (g *gm) itemCall(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
	one := func(v Val) ([]CallRes, bool) { return []CallRes{{A: c.A(), Ret: v}}, true }
	cc := site.Common()
	switch name {
	case "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Strings":
		if len(args) > 0 && args[0].K == KSlice && args[0].Len < 2 {
			return one(Top)
		}
	case "fmt.Errorf":
		// an error that wraps a known one
		if f, ok := args[0].IsStr(); ok && strings.Contains(f, "%w") && len(args) == 2 {
			if es, ok := c.elems(args[1], anyType); ok {
				for _, v := range es {
					if strings.HasPrefix(tagOf(v), "=err:") {
						return one(v)
					}
				}
			}
		}
	case "errors.Is":
		if len(args) == 2 && args[0].K == KTag && args[1].K == KTag && strings.HasPrefix(args[0].Tag, "=err:") && strings.HasPrefix(args[1].Tag, "=err:") {
			return one(CBool(args[0].Tag == args[1].Tag))
		}
	}
	if callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == pkgAst && callee.Signature.Recv() == nil {
		res := callee.Signature.Results()
		if res.Len() != 1 {
			return nil, false
		}
		switch typeKey(res.At(0).Type()) {
		case tItem:
			kind := ""
			vs := args
			switch callee.Name() {
			case "NewListNode":
				kind = "L"
			case "NewBinaryNode":
				kind = "B"
			case "NewBooleanNode":
				kind = "BOOL"
			case "NewEmptyItemNode":
				return one(TagV("E()"))
			case "NewASCIINode":
				return one(TagV("A(" + itemVal(args[0]) + ")"))
			case "NewUintNode", "NewIntNode", "NewFloatNode":
				kind = callee.Name()[3:4]
				if n, ok := args[0].IsInt(); ok {
					kind += itoa(int(n))
				} else {
					kind += "?"
				}
				vs = args[1:]
			default:
				return one(TagV("node?" + callee.Name()))
			}
			var es []Val
			ok := true
			if len(vs) == 1 {
				es, ok = c.elems(vs[0], anyType)
			}
			if !ok {
				g.built(c, site, kind+"(*)")
				return one(TagV(kind + "(*)"))
			}
			var parts []string
			for _, v := range es {
				parts = append(parts, itemVal(v))
			}
			t := kind + "(" + strings.Join(parts, ",") + ")"
			g.built(c, site, t)
			return one(TagV(t))
		case tData:
			v := "data{new"
			if len(args) >= 6 {
				v += " s=" + tagOf(args[1]) + " f=" + tagOf(args[2]) + " w=" + tagOf(args[3]) + " body=" + itemVal(args[5])
			}
			if len(args) >= 8 {
				v += " sid=" + tagOf(args[6]) + " sys=" + tagOf(c.sysOf(args[7]))
			}
			return one(TagV(v + "}"))
		}
		return nil, false
	}
	// accessors
	rt, m := recvMethod(site, callee)
	if !strings.HasPrefix(rt, pkgAst+".") {
		return nil, false
	}
	var recv Val
	rest := args
	if cc.IsInvoke() {
		recv = c.Val(cc.Value)
	} else if len(args) > 0 {
		recv, rest = args[0], args[1:]
	}
	p := itemPath(recv)
	switch m {
	case "Get":
		if len(rest) != 1 {
			break
		}
		idx, ok := c.elems(rest[0], types.Typ[types.Int])
		if p == "" || !ok {
			return []CallRes{{A: c.A(), Ret: TupleV(TagV("item(?)"), NilV)}, {A: c.A(), Ret: TupleV(NilV, TagV("=err:get"))}}, true
		}
		if len(idx) == 0 && rt == tData {
			return one(TupleV(TagV("item("+p+")"), NilV))
		}
		for _, i := range idx {
			n := "?"
			if k, ok := i.IsInt(); ok {
				n = itoa(int(k))
			}
			p += "/" + n
		}
		v := TupleV(TagV("item("+p+")"), NilV)
		if g.getOK != nil {
			if known, yes := g.getOK(c, p); known {
				if yes {
					return one(v)
				}
				return one(TupleV(NilV, TagV("=err:get")))
			}
		}
		return []CallRes{{A: c.A(), Ret: v}, {A: c.A(), Ret: TupleV(NilV, TagV("=err:get"))}}, true
	case "Values":
		if p != "" {
			return one(TagV("vals(" + p + ")"))
		}
		if isItem(recv) {
			return one(TagV("valsof(" + recv.Tag + ")"))
		}
		return one(NonNil)
	case "Size":
		if p != "" {
			if g.size != nil {
				if v, ok := g.size(c, p); ok {
					return one(v)
				}
			}
			return one(TagV("size(" + p + ")"))
		}
		return one(Top)
	case "Type":
		if p != "" {
			return one(TagV("type(" + p + ")"))
		}
		return one(Top)
	case "StreamCode", "FunctionCode":
		if recv.K == KTag && (recv.Tag == "m:reply.data" || recv.Tag == "m:in.data") {
			return g.codeOf(c, recv.Tag, m)
		}
	}
	return nil, false
}

// codeOf: the stream or function of a received message is the expected one
// or another.
func (g *gm) codeOf(c *Ctx, tag, m string) ([]CallRes, bool) {
	k := "code:" + tag + ":" + m
	if v := c.Get(k); v != "" {
		return []CallRes{{A: c.A(), Ret: CInt(lit0(v))}}, true
	}
	want := int64(-1)
	if tag == "m:reply.data" {
		s, f := c.Get("reqS"), c.Get("reqF")
		if s == "" {
			return nil, false
		}
		want = lit0(s)
		if m == "FunctionCode" {
			want = lit0(f) + 1
		}
	} else if g.inS != 0 {
		want = g.inS
		if m == "FunctionCode" {
			want = g.inF
		}
		return []CallRes{{A: c.A(), Ret: CInt(want)}}, true
	} else {
		return nil, false
	}
	var out []CallRes
	other := []int64{want, 0, 77, 78} // another even or odd number, an abort
	if m == "StreamCode" {
		other = []int64{want, 77}
	}
	for _, n := range other {
		out = append(out, CallRes{A: withA(c.A(), k, itoa(int(n))), Ret: CInt(n)})
	}
	return out, true
}

func lit0(s string) int64 {
	n, err := strconv.ParseInt(s, 0, 64)
	if err != nil {
		return -1
	}
	return n
}

// itemPath: the position a received item or message tag names.
func itemPath(v Val) string {
	if v.K != KTag {
		return ""
	}
	switch v.Tag {
	case "m:in.data":
		return "in"
	case "m:reply.data":
		return "reply"
	}
	if strings.HasPrefix(v.Tag, "item(") {
		return strings.TrimSuffix(v.Tag[5:], ")")
	}
	return ""
}

func (g *gm) built(c *Ctx, site ssa.CallInstruction, t string) {
	if g.onBuild != nil {
		g.onBuild(c, site, t)
	}
}

// Assert: built items have known types.
func (g *gm) Assert(c *Ctx, x *ssa.TypeAssert, v Val) (bool, bool) {
	if g.items && isItem(v) {
		switch k := typeKey(x.AssertedType); {
		case k == tItem:
			return true, true
		case strings.HasPrefix(k, pkgAst+"."):
			return k == pkgAst+"."+itemKind(v.Tag), true
		}
		return false, false
	}
	if g.items && v.K == KTag {
		// a remembered outcome
		t := typeKey(x.AssertedType)
		if t == "" {
			t = types.TypeString(x.AssertedType, nil)
		}
		if types.IsInterface(x.AssertedType) && strings.HasPrefix(v.Tag, "item(") && t == tItem {
			return true, true
		}
		if f := parseA(c.A()).fact("is(" + v.Tag + "|" + t + ")"); f != 0 {
			return f == 1, true
		}
	}
	return g.hm.Assert(c, x, v)
}

// withItems switches the item model on.
func (g *gm) withItems() *gm {
	g.items = true
	if g.factOK == nil {
		g.factOK = func(cond string) bool {
			return strings.Contains(cond, "(in") || strings.Contains(cond, "(reply")
		}
	}
	return g
}

// newGMEngine is an engine for a gm; with items, comparisons are symbolic.
func newGMEngine(P *Program, g *gm) *Engine {
	e := newHMEngine(P, g)
	e.SymCmp = g.items
	return e
}
