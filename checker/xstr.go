package main

import (
	"math/big"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Predicates on strings of unknown bytes: every unknown byte is put into one
// of the intervals that the predicate does not look into, and a representative
// of the interval decides.

// splitAt puts an unknown integer into one of the intervals that start at the
// cuts.
func (x *xrun) splitAt(a xInt, cuts []int64) (rep int64) {
	a = x.simpKeep(a)
	if a.con {
		return x.bigOf(a).Int64()
	}
	lo, hi, key := x.rangeOf(a)
	var parts []ival
	at := lo
	for _, c := range cuts {
		b := big.NewInt(c)
		if b.Cmp(at) <= 0 {
			continue
		}
		if b.Cmp(hi) > 0 {
			break
		}
		parts = append(parts, ival{at, new(big.Int).Sub(b, big.NewInt(1))})
		at = b
	}
	parts = append(parts, ival{at, hi})
	k := 0
	if len(parts) > 1 {
		k = x.choose(len(parts))
	}
	x.setRange(a, key, parts[k].lo, parts[k].hi)
	return parts[k].lo.Int64()
}

func sortCuts(m map[int64]bool) []int64 {
	var out []int64
	for c := range m {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

var runePreds = map[string]func(rune) bool{
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsControl": unicode.IsControl,
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct,
	"unicode.IsGraphic": unicode.IsGraphic,
}

var predCuts = map[string][]int64{}

// runePred decides unicode.IsX(r).
func (x *xrun) runePred(name string, r xInt) (xBool, bool) {
	f := runePreds[name]
	if f == nil {
		return xBool{}, false
	}
	cuts, ok := predCuts[name]
	if !ok {
		last := f(0)
		for c := rune(1); c <= utf8.MaxRune; c++ {
			if v := f(c); v != last {
				cuts = append(cuts, int64(c))
				last = v
			}
		}
		predCuts[name] = cuts
	}
	return xbool(f(rune(x.splitAt(r, cuts)))), true
}

// reps gives a representative string; the bytes of a string of unknown bytes
// are split at the characters in cuts.
func (x *xrun) reps(s xStr, cuts map[int64]bool) string {
	b := x.strBytes(s)
	cuts[0x80] = true
	cs := sortCuts(cuts)
	out := make([]byte, len(b))
	for i, c := range b {
		out[i] = byte(x.splitAt(c, cs))
	}
	return string(out)
}

func charCuts(p string) map[int64]bool {
	m := map[int64]bool{}
	for _, c := range []byte(p) {
		m[int64(c)], m[int64(c)+1] = true, true
	}
	return m
}

func reCuts(re *regexp.Regexp) map[int64]bool {
	m := map[int64]bool{}
	t, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		return m
	}
	p, err := syntax.Compile(t.Simplify())
	if err != nil {
		return m
	}
	for _, i := range p.Inst {
		if i.Op == syntax.InstEmptyWidth {
			e := syntax.EmptyOp(i.Arg)
			if e&(syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
				m['\n'], m['\n'+1] = true, true
			}
			if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				for _, c := range "0:A[_`a{" {
					m[int64(c)] = true
				}
			}
			continue
		}
		if i.Op == syntax.InstRuneAnyNotNL {
			m['\n'], m['\n'+1] = true, true
		}
		if len(i.Rune) == 1 {
			r := i.Rune[0]
			fold := []rune{r}
			if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
				fold = append(fold, unicode.ToLower(r), unicode.ToUpper(r))
			}
			for _, f := range fold {
				m[int64(f)], m[int64(f)+1] = true, true
			}
			continue
		}
		for k, r := range i.Rune {
			if k%2 == 0 {
				m[int64(r)] = true
			} else {
				m[int64(r)+1] = true
			}
		}
	}
	return m
}

// strPred decides a function of a string of unknown bytes and a known one.
func (x *xrun) strPred(name string, args []xv) (xv, bool) {
	s, ok := args[0].(xStr)
	if ok && len(args) == 1 && (name == "strings.Fields" || name == "strings.TrimSpace") {
		args = append(args[:1:1], xStr{s: "\t\n\v\f\r "})
	}
	if !ok || s.sym != "" || len(args) < 2 {
		return nil, false
	}
	if f, is := args[1].(xFunc); is {
		b := x.strBytes(s)
		for i := 0; i < len(b); {
			r, n := x.nextRune(b, i)
			var v xv
			if len(f.fn.Blocks) > 0 && (x.P.isLibFn(f.fn) || f.fn.Synthetic != "") {
				v = x.call(f.fn, []xv{r}, f.b, nil)
			} else if p, ok := x.runePred(f.fn.String(), r); ok {
				v = p
			}
			p, ok := v.(xBool)
			if !ok {
				return nil, false
			}
			if x.decide(p) {
				if name == "strings.ContainsFunc" {
					return xbool(true), true
				}
				return xint(int64(i)), true
			}
			i += n
		}
		if name == "strings.ContainsFunc" {
			return xbool(false), true
		}
		return xint(-1), true
	}
	var p string
	switch a := args[1].(type) {
	case xStr:
		if p, ok = a.concrete(); !ok {
			return nil, false
		}
	case xInt:
		if a = x.simpKeep(a); !a.con {
			return nil, false
		}
		p = string(rune(x.bigOf(a).Int64()))
	default:
		return nil, false
	}
	cuts := charCuts(p)
	if name == "strings.EqualFold" {
		cuts = charCuts(strings.ToLower(p) + strings.ToUpper(p))
	}
	c, con := s.concrete()
	if !con {
		c = x.reps(s, cuts)
	}
	switch name {
	case "strings.HasPrefix":
		return xbool(strings.HasPrefix(c, p)), true
	case "strings.HasSuffix":
		return xbool(strings.HasSuffix(c, p)), true
	case "strings.Contains", "strings.ContainsRune":
		return xbool(strings.Contains(c, p)), true
	case "strings.ContainsAny":
		return xbool(strings.ContainsAny(c, p)), true
	case "strings.EqualFold":
		return xbool(strings.EqualFold(c, p)), true
	case "strings.Index", "strings.IndexRune", "strings.IndexByte":
		return xint(int64(strings.Index(c, p))), true
	case "strings.IndexAny":
		return xint(int64(strings.IndexAny(c, p))), true
	case "strings.LastIndex", "strings.LastIndexByte":
		return xint(int64(strings.LastIndex(c, p))), true
	case "strings.Count":
		return xint(int64(strings.Count(c, p))), true
	case "strings.TrimPrefix", "strings.TrimSuffix":
		b := x.strBytes(s)
		if name == "strings.TrimPrefix" && strings.HasPrefix(c, p) {
			b = b[len(p):]
		}
		if name == "strings.TrimSuffix" && strings.HasSuffix(c, p) {
			b = b[:len(b)-len(p)]
		}
		return x.mkStr(b), true
	}
	b := x.strBytes(s)
	sub := func(i, j int) xv { return x.mkStr(b[i:j]) }
	switch name {
	case "strings.CutPrefix":
		if strings.HasPrefix(c, p) {
			return xTuple{sub(len(p), len(b)), xbool(true)}, true
		}
		return xTuple{s, xbool(false)}, true
	case "strings.CutSuffix":
		if strings.HasSuffix(c, p) {
			return xTuple{sub(0, len(b)-len(p)), xbool(true)}, true
		}
		return xTuple{s, xbool(false)}, true
	case "strings.Cut":
		if i := strings.Index(c, p); i >= 0 {
			return xTuple{sub(0, i), sub(i+len(p), len(b)), xbool(true)}, true
		}
		return xTuple{s, xStr{}, xbool(false)}, true
	case "strings.TrimLeft", "strings.TrimRight", "strings.Trim":
		i, j := 0, len(c)
		if name != "strings.TrimRight" {
			i = len(c) - len(strings.TrimLeft(c, p))
		}
		if name != "strings.TrimLeft" {
			j = max(i, len(strings.TrimRight(c, p)))
		}
		return sub(i, j), true
	case "strings.TrimSpace":
		i := len(c) - len(strings.TrimLeftFunc(c, unicode.IsSpace))
		return sub(i, max(i, len(strings.TrimRightFunc(c, unicode.IsSpace)))), true
	case "strings.Split", "strings.SplitN":
		n := -1
		if name == "strings.SplitN" {
			n = x.concreteInt(args[2], "a number of parts")
		}
		if n == 0 {
			return xNil{}, true
		}
		if p == "" {
			return nil, false
		}
		var out []xv
		at := 0
		for _, q := range strings.SplitN(c, p, n) {
			out = append(out, sub(at, at+len(q)))
			at += len(q) + len(p)
		}
		return x.sliceOf(out...), true
	case "strings.Fields":
		var out []xv
		at := 0
		for _, q := range strings.Fields(c) {
			at += strings.Index(c[at:], q)
			out = append(out, sub(at, at+len(q)))
			at += len(q)
		}
		return x.sliceOf(out...), true
	}
	return nil, false
}
