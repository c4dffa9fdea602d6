package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic conditions: with Engine.SymCmp a comparison of a named value with
// a constant (or another named value) is itself a named boolean, so that what
// a branch taught survives being returned from a helper, stored or negated.
//
//	cmp(T eq c)   cmp(T lt c)   cmp(T le c)
//	bit(S,i)      bit i of the source S
//	is(T|type)    a successful type assertion
//	!X            negation

func negCond(t string) string {
	if strings.HasPrefix(t, "!") {
		return t[1:]
	}
	return "!" + t
}

func sanTag(s string) string {
	return strings.NewReplacer("=", "~", ";", ",", " ", "_").Replace(s)
}

func condName(v Val) string {
	switch v.K {
	case KConst:
		return sanTag(v.C.ExactString())
	case KTag:
		return v.Tag
	case KBits:
		return sanTag(tagOf(v))
	}
	return ""
}

func (e *Engine) symCmp(op token.Token, l, r Val, t types.Type) Val {
	named := func(v Val) bool { return (v.K == KTag || v.K == KBits) && !strings.HasPrefix(v.Tag, "?") }
	if !named(l) && !named(r) {
		return Top
	}
	if s, i, v, ok := e.bitTest(op, l, r, t, true); ok && !strings.HasPrefix(s, "?") && (l.K == KBits || r.K == KBits) {
		c := "bit(" + s + "," + itoa(i) + ")"
		if !v {
			c = negCond(c)
		}
		return TagV(c)
	}
	if !named(l) {
		l, r = r, l
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if r.K != KConst && r.K != KTag && r.K != KBits || r.K == KTag && strings.HasPrefix(r.Tag, "?") {
		return Top
	}
	// a boolean compared with a constant is itself or its negation
	if b, ok := r.IsBool(); ok && l.K == KTag && (op == token.EQL || op == token.NEQ) {
		if b == (op == token.EQL) {
			return l
		}
		return TagV(negCond(l.Tag))
	}
	a, b := condName(l), condName(r)
	mk := func(o string) string { return "cmp(" + a + " " + o + " " + b + ")" }
	switch op {
	case token.EQL:
		return TagV(mk("eq"))
	case token.NEQ:
		return TagV(negCond(mk("eq")))
	case token.LSS:
		return TagV(mk("lt"))
	case token.GEQ:
		return TagV(negCond(mk("lt")))
	case token.LEQ:
		return TagV(mk("le"))
	case token.GTR:
		return TagV(negCond(mk("le")))
	}
	return Top
}

// splitCmp: "cmp(T eq c)" -> T, eq, c.
func splitCmp(c string) (t, op, k string, ok bool) {
	if !strings.HasPrefix(c, "cmp(") {
		return
	}
	in := strings.TrimSuffix(c[4:], ")")
	for _, o := range []string{" eq ", " lt ", " le "} {
		if i := strings.LastIndex(in, o); i > 0 {
			return in[:i], strings.TrimSpace(o), in[i+len(o):], true
		}
	}
	return
}

func splitIs(c string) (t, ty string, ok bool) {
	if !strings.HasPrefix(c, "is(") {
		return
	}
	in := strings.TrimSuffix(c[3:], ")")
	if i := strings.LastIndex(in, "|"); i > 0 {
		return in[:i], in[i+1:], true
	}
	return
}

// facts of an automaton state, stored under "f:<condition>".

func factKey(c string) string { return "f:" + strings.NewReplacer("=", "~", ";", ",").Replace(c) }

// fact says what is known of a condition: +1 true, -1 false, 0 unknown.
func (m avars) fact(c string) int {
	neg := 1
	if strings.HasPrefix(c, "!") {
		neg, c = -1, c[1:]
	}
	switch m[factKey(c)] {
	case "1":
		return neg
	case "0":
		return -neg
	}
	if t, op, k, ok := splitCmp(c); ok {
		pre := factKey("cmp(" + t + " eq ")
		for x, v := range m {
			if !strings.HasPrefix(x, pre) || v != "1" {
				continue
			}
			o := strings.TrimSuffix(x[len(pre):], ")")
			if op == "eq" {
				if o != k && isLit(o) && isLit(k) {
					return -neg
				}
				continue
			}
			a, b := lit(o), lit(k)
			if a == nil || b == nil || a.Kind() != b.Kind() {
				continue
			}
			tok := token.LSS
			if op == "le" {
				tok = token.LEQ
			}
			if constant.Compare(a, tok, b) {
				return neg
			}
			return -neg
		}
	}
	if t, _, ok := splitIs(c); ok {
		pre := factKey("is(" + t + "|")
		for x, v := range m {
			if strings.HasPrefix(x, pre) && v == "1" {
				return -neg // of another type
			}
		}
	}
	return 0
}

func lit(s string) constant.Value {
	if s == "" || s[0] != '-' && (s[0] < '0' || s[0] > '9') {
		return nil
	}
	v := constant.MakeFromLiteral(strings.TrimPrefix(s, "-"), token.INT, 0)
	if v.Kind() == constant.Unknown {
		return nil
	}
	if s[0] == '-' {
		v = constant.UnaryOp(token.SUB, v, 0)
	}
	return v
}

func isLit(s string) bool { return s != "" && (s[0] == '"' || lit(s) != nil) }

// learn records a condition; false means it contradicts what is known.
func (c *Ctx) learn(cond string, val bool) bool {
	m := parseA(c.A())
	switch m.fact(cond) {
	case 1:
		return val
	case -1:
		return !val
	}
	if strings.HasPrefix(cond, "!") {
		cond, val = cond[1:], !val
	}
	v := "0"
	if val {
		v = "1"
	}
	m[factKey(cond)] = v
	c.SetA(m.String())
	return true
}

// forgetFacts drops what is known about conditions that mention a name.
func (c *Ctx) forgetFacts(name string) {
	m := parseA(c.A())
	ch := false
	for k := range m {
		if strings.HasPrefix(k, "f:") && strings.Contains(k, name) {
			delete(m, k)
			ch = true
		}
	}
	if ch {
		c.SetA(m.String())
	}
}

func (h *hm) Cond(c *Ctx, br *ssa.If, cv Val, taken bool) bool {
	if !c.e.SymCmp || cv.K != KTag || cv.Tag == "" || strings.Contains(cv.Tag, "?") {
		return true
	}
	if h.factOK != nil && !h.factOK(cv.Tag) {
		// still prune on what is known
		f := parseA(c.A()).fact(cv.Tag)
		return f == 0 || (f == 1) == taken
	}
	return c.learn(cv.Tag, taken)
}
