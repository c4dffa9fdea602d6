package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Names of texts and times: ft(T^layout) is a formatted time, tm(layout^text)
// the time a text says in UTC, cat(a^b) two texts, sub(text^lo^hi) a part.

// tagArgs splits name(a^b^...).
func tagArgs(tag string) (string, []string) {
	i := strings.Index(tag, "(")
	if i < 0 || !strings.HasSuffix(tag, ")") {
		return tag, nil
	}
	in := tag[i+1 : len(tag)-1]
	var out []string
	d, st := 0, 0
	for j := 0; j < len(in); j++ {
		switch in[j] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '^':
			if d == 0 {
				out = append(out, in[st:j])
				st = j + 1
			}
		}
	}
	return tag[:i], append(out, in[st:])
}

var layoutParts = []string{"2006", "002", "January", "Jan", "Monday", "Mon", "MST", ".000000000", ".000000", ".000", ".00", ".0", "Z0700", "-0700", "-07", "_2", "01", "02", "03", "04", "05", "06", "15", "PM", "pm", "1", "2", "3", "4", "5"}

// textPart is a component of a time, or a character (of is then empty).
type textPart struct{ of, what string }

func layoutText(t, layout string) []textPart {
	var out []textPart
next:
	for layout != "" {
		for _, p := range layoutParts {
			if strings.HasPrefix(layout, p) {
				out = append(out, textPart{t, p})
				layout = layout[len(p):]
				continue next
			}
		}
		out = append(out, textPart{"", layout[:1]})
		layout = layout[1:]
	}
	return out
}

// clockText is what a text consists of; ok is false if something in it is
// not known.
func clockText(tag string) (out []textPart, ok bool) {
	if s, err := strconv.Unquote(tag); err == nil {
		for i := range s {
			out = append(out, textPart{"", s[i : i+1]})
		}
		return out, true
	}
	n, as := tagArgs(tag)
	switch {
	case n == "ft" && len(as) == 2:
		return layoutText(as[0], as[1]), true
	case n == "cat" && len(as) == 2:
		l, ok1 := clockText(as[0])
		r, ok2 := clockText(as[1])
		return append(l, r...), ok1 && ok2
	case strings.HasPrefix(tag, "fmt("):
		as := strings.Split(tag[4:len(tag)-1], "|")
		f := as[0]
		as = as[1:]
		for f != "" {
			if f[0] != '%' {
				out = append(out, textPart{"", f[:1]})
				f = f[1:]
				continue
			}
			j := strings.IndexAny(f, "dsv")
			if j < 0 || len(as) == 0 {
				return nil, false
			}
			verb, a := f[:j+1], as[0]
			f, as = f[j+1:], as[1:]
			if s, err := strconv.Unquote(a); err == nil && (verb == "%s" || verb == "%v") {
				for i := range s {
					out = append(out, textPart{"", s[i : i+1]})
				}
				continue
			}
			if verb == "%s" || verb == "%v" {
				if strings.HasPrefix(a, "ft(") || strings.HasPrefix(a, "cat(") || strings.HasPrefix(a, "fmt(") {
					if strings.Contains(a, "|") {
						return nil, false
					}
					p, ok := clockText(a)
					if !ok {
						return nil, false
					}
					out = append(out, p...)
					continue
				}
			}
			k, of := tagArgs(a)
			what := map[string]string{"year%04d": "2006", "month%02d": "01", "day%02d": "02", "hour%02d": "15", "minute%02d": "04", "second%02d": "05"}[k+verb]
			switch {
			case what != "" && len(of) == 1:
				out = append(out, textPart{of[0], what})
			case verb == "%s" || verb == "%v":
				return nil, false
			case verb == "%02d":
				out = append(out, textPart{"", "0"}, textPart{"", "0"})
			default:
				out = append(out, textPart{a, verb})
			}
		}
		return out, true
	}
	return nil, false
}

// timeParts is a time's components as years, months, days, hours, minutes
// and seconds.
var timeParts = []string{"2006", "01", "02", "15", "04", "05"}

// reads: the text is the time's 14 digits and two more.
func reads(parts []textPart, t string) (bool, string) {
	for i, w := range timeParts {
		if i >= len(parts) || parts[i].what != w || parts[i].of == "" {
			return false, "is not YYYYMMDDhhmmss and two digits"
		}
		if parts[i].of != t {
			return false, "tells the time " + parts[i].of + " instead of " + t
		}
	}
	rest := parts[len(timeParts):]
	if len(rest) != 2 {
		return false, "is not YYYYMMDDhhmmss and two digits"
	}
	for _, p := range rest {
		if p.of != "" || p.what < "0" || p.what > "9" {
			return false, "is not YYYYMMDDhhmmss and two digits"
		}
	}
	return true, ""
}

// lengths lists which lengths of a text, up to 20, a path allows.
func lengths(a, tag string) map[int]bool {
	out := map[int]bool{}
next:
	for n := 0; n <= 20; n++ {
		for k, v := range parseA(a) {
			rest, ok := strings.CutPrefix(k, "f:cmp(len("+tag+") ")
			if !ok {
				continue
			}
			w := strings.Fields(strings.TrimSuffix(rest, ")"))
			if len(w) != 2 {
				continue
			}
			m, err := strconv.Atoi(w[1])
			if err != nil {
				continue
			}
			is := false
			switch w[0] {
			case "lt":
				is = n < m
			case "le":
				is = n <= m
			case "eq":
				is = n == m
			default:
				continue
			}
			if is != (v == "1") {
				continue next
			}
		}
		out[n] = true
	}
	return out
}

// clockWorld teaches an exploration the standard library's clock.
func clockWorld(x *gx) {
	x.op = func(c *Ctx, ins ssa.Value) (Val, bool) {
		switch i := ins.(type) {
		case *ssa.Lookup, *ssa.Index, *ssa.Range:
			c.Put("other", "1") // the text is judged by its characters
		case *ssa.BinOp:
			l, r := c.Val(i.X), c.Val(i.Y)
			if i.Op != token.ADD || l.K == KConst && r.K == KConst || l.K != KConst && l.K != KTag || r.K != KConst && r.K != KTag {
				return Top, false
			}
			return TagV("cat(" + quoted(l) + "^" + quoted(r) + ")"), true
		case *ssa.Slice:
			b := c.Val(i.X)
			if b.K != KTag {
				return Top, false
			}
			lo, hi := 0, -1
			for k, v := range []ssa.Value{i.Low, i.High} {
				if v == nil {
					continue
				}
				n, ok := c.Val(v).IsInt()
				if !ok {
					return Top, false
				}
				if k == 0 {
					lo = int(n)
				} else {
					hi = int(n)
				}
			}
			if lo == 0 && hi < 0 {
				return b, true
			}
			if n, as := tagArgs(b.Tag); n == "sub" && len(as) == 3 {
				was, _ := strconv.Atoi(as[1])
				end, _ := strconv.Atoi(as[2])
				lo += was
				if hi >= 0 {
					hi += was
				} else {
					hi = end
				}
				return TagV("sub(" + as[0] + "^" + itoa(lo) + "^" + itoa(hi) + ")"), true
			}
			return TagV("sub(" + b.Tag + "^" + itoa(lo) + "^" + itoa(hi) + ")"), true
		}
		return Top, false
	}
	x.lib = func(c *Ctx, site ssa.CallInstruction, name string, args []Val) ([]CallRes, bool) {
		one := func(v Val) ([]CallRes, bool) { return []CallRes{{A: c.A(), Ret: v}}, true }
		switch name {
		case "time.Now":
			return one(TagV("systemtime"))
		case "time.Parse", "time.ParseInLocation":
			layout, ok := args[0].IsStr()
			if !ok || args[1].K != KTag {
				return nil, false
			}
			k := "tm"
			if len(args) == 3 {
				k = "tmin_" + globalName(site.Common().Args[2])
				if k == "tmin_time.UTC" {
					k = "tm"
				}
			}
			return []CallRes{
				{A: c.A(), Ret: TupleV(TagV(k+"("+sanTag(layout)+"^"+args[1].Tag+")"), NilV)},
				{A: withA(c.A(), "parsebad", "1"), Ret: TupleV(TagV("notime"), TagV("=err:parse"))},
			}, true
		}
		callee := site.Common().StaticCallee()
		if callee != nil && !x.P.isLibFn(callee) {
			for _, a := range args {
				if a.K == KTag && strings.Contains(a.Tag, "vals(in)") && !strings.Contains(a.Tag, "tm(") {
					c.Put("other", "1") // or by another function
				}
			}
		}
		if callee == nil || callee.Signature.Recv() == nil || typeKey(callee.Signature.Recv().Type()) != "time.Time" || len(args) == 0 || args[0].K != KTag {
			return nil, false
		}
		t := args[0].Tag
		switch m := callee.Name(); m {
		case "Format":
			layout, ok := args[1].IsStr()
			if !ok {
				return nil, false
			}
			return one(TagV("ft(" + t + "^" + sanTag(layout) + ")"))
		case "Year", "Month", "Day", "Hour", "Minute", "Second":
			return one(TagV(strings.ToLower(m) + "(" + t + ")"))
		case "Date":
			return one(TupleV(TagV("year("+t+")"), TagV("month("+t+")"), TagV("day("+t+")")))
		case "Clock":
			return one(TupleV(TagV("hour("+t+")"), TagV("minute("+t+")"), TagV("second("+t+")")))
		case "Round", "Truncate":
			if n, ok := args[1].IsInt(); ok && n == 0 {
				return one(args[0])
			}
		case "IsZero":
			return nil, false
		}
		res := callee.Signature.Results()
		if res.Len() == 1 && typeKey(res.At(0).Type()) == "time.Time" {
			if len(args) > 1 {
				return one(TagV(callee.Name() + "(" + t + "^" + tagOf(args[1]) + ")"))
			}
			return one(TagV(callee.Name() + "(" + t + ")"))
		}
		return nil, false
	}
}

func quoted(v Val) string {
	if v.K == KConst && v.C.Kind() == constant.String {
		return sanTag(v.C.ExactString())
	}
	return tagOf(v)
}

func globalName(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil {
			return g.Pkg.Pkg.Path() + "." + g.Name()
		}
	}
	return "unknown"
}

func init() {
	register("C64", "The handlers of S2F17 and S2F31, GetEquipmentTime, the setters of the clock's callbacks and the host's two clock operations are interpreted without merging, with symbolic times and texts: formatting and parsing with the standard library's layouts, slices, concatenations and Sprintf yield names that say which components of which time a text consists of, and which part of which text a time was read from.", func(r *Report) {
		P := r.P
		r.Rule("reported", "S2F18 and GetEquipmentTime tell the components year, month, day, hour, minute and second, in this order and format, of the time that the time provider returned on the path (of the system time, if it is nil), and two digits more")
		r.Rule("set", "on every path of S2F31, the handler of clock synchronization is called at most once, and with the time that the first 14 characters of the received text say; it is called whenever the body is a text of at least 14 characters that parses and a handler is set; TIACK is the handler's code if it returned no error, and another than 0 if it returned one or was not called")
		r.Rule("callbacks", "SetTimeProvider and SetClockSyncHandler store their argument where the two requests look for it, and change nothing else")
		r.Rule("host", "SetDateTime sends the text it is given and returns the reply's code; RequestDateTime returns the reply's text, and succeeds for nothing but a text")
		r.Assume("the standard library formats and parses times as documented")
		r.Assume("a time computed in ways the interpretation does not know is not judged (counted as undecided)")
		A, B, U := sh("A"), sh("B"), sh("U")
		where := map[string]map[string]bool{} // callback type -> names of the function called
		note := func(kind, tag string) {
			if where[kind] == nil {
				where[kind] = map[string]bool{}
			}
			where[kind][tag] = true
		}
		provider := func(x *gx) {
			x.app = func(c *Ctx, site ssa.CallInstruction, tag string, args []Val) ([]CallRes, bool) {
				if appKind(site) == "TimeProvider" {
					note("TimeProvider", tag)
					return []CallRes{{A: withA(c.A(), "prov", "1"), Ret: TagV("providertime")}}, true
				}
				return nil, false
			}
		}
		// unset: the path knows that a callback is nil
		unset := func(x *gx, a, kind string) bool {
			for name, t := range x.types {
				if is, known := x.isNil(a, name); t == kind && known && is {
					return true
				}
			}
			return false
		}
		text := func(x *gx, o Outcome, tag, what, pos string) {
			parts, ok := clockText(tag)
			if !ok {
				r.Count("undecided", 1)
				return
			}
			want := "systemtime"
			if parseA(o.A)["prov"] != "" {
				want = "providertime"
			} else {
				r.Check(unset(x, o.A, "TimeProvider"), "reported", what+" asks the provider", pos, what+" is answered without a call of the time provider, which may be set: "+traceString(o.tr))
			}
			okText, why := reads(parts, want)
			r.Check(okText, "reported", what+" "+want, pos, what+" tells a text which "+why+": "+traceString(o.tr))
		}
		n := 0
		for _, h := range P.gemRegs(r) {
			if h.role != "DeviceEquipment" {
				continue
			}
			pos := P.pos(h.fn.Pos())
			switch h.sf() {
			case "S2F17":
				n++
				for _, s := range []*shape{sh("E"), sh("L"), A} {
					x := newGX(P, h.role, s, 1)
					clockWorld(x)
					provider(x)
					for _, o := range x.handle(h) {
						if o.Panicked || len(o.Rets) == 0 {
							continue
						}
						b := attr(tagOf(o.Rets[0]), "body")
						if as := itemArgs(b); r.Check(strings.HasPrefix(b, "A(") && len(as) == 1, "reported", "S2F18 form", pos, "S2F17 is answered with "+b) {
							text(x, o, as[0], "S2F17", pos)
						}
						r.Check(len(x.changes(o.Mem)) == 0, "reported", "S2F17 changes nothing", pos, "S2F17 "+strings.Join(x.changes(o.Mem), ", "))
					}
					r.SawEngine(x.e)
					r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of S2F17")
				}
			case "S2F31":
				n++
				seen := map[string]bool{}
				for _, s := range []*shape{A, sh("L", A)} {
					for _, s := range append([]*shape{s}, s.variants()...) {
						if seen[s.String()] {
							continue
						}
						seen[s.String()] = true
						x := newGX(P, h.role, s, 1)
						clockWorld(x)
						isText := s.kind == "A" && !s.none
						hn := ""
						x.app = func(c *Ctx, site ssa.CallInstruction, tag string, args []Val) ([]CallRes, bool) {
							if appKind(site) != "ClockSyncHandler" || len(args) != 1 {
								return nil, false
							}
							note("ClockSyncHandler", tag)
							hn = tag
							ip := P.ipos(site)
							r.Check(c.Get("cs") == "", "set", "once", ip, "the handler of clock synchronization is called twice for one S2F31")
							c.Put("cs", "1")
							r.Check(isText, "set", "texts only: "+s.String(), ip, "the handler of clock synchronization is called for an S2F31 with the body "+s.String())
							t := tagOf(args[0])
							for {
								m, as := tagArgs(t)
								if (m == "UTC" || m == "Local" || m == "In") && len(as) > 0 {
									t = as[0] // the same time
									continue
								}
								break
							}
							m, as := tagArgs(t)
							if args[0].K != KTag || strings.Contains(t, "unknown") {
								r.Count("undecided", 1)
								return nil, false
							}
							good := false
							if m == "tm" && len(as) == 2 {
								good = true
								lp := layoutText("t", as[0])
								for i, w := range timeParts {
									good = good && i < len(lp) && lp[i].what == w
								}
								good = good && len(lp) == len(timeParts)
								switch as[1] {
								case "sub(vals(in)^0^14)":
								case "vals(in)":
									ls := lengths(c.A(), "vals(in)")
									for l := range ls {
										good = good && l <= 14
									}
								default:
									good = false
								}
							}
							r.Check(good, "set", "time", ip, "the handler of clock synchronization is given "+t+", which is not the time that the first 14 characters of the text say (in UTC): "+c.Trace())
							return nil, false
						}
						for _, o := range x.handle(h) {
							if o.Panicked || len(o.Rets) == 0 {
								continue
							}
							m := parseA(o.A)
							b := attr(tagOf(o.Rets[0]), "body")
							as := itemArgs(b)
							if !r.Check(strings.HasPrefix(b, "B(") && len(as) == 1, "set", "S2F32 form", pos, "S2F31 "+s.String()+" is answered with "+b) {
								continue
							}
							ack := as[0]
							r.Check(len(x.changes(o.Mem)) == 0, "set", "S2F31 changes nothing", pos, "S2F31 "+strings.Join(x.changes(o.Mem), ", "))
							if m["cs"] != "" {
								if m["apperr"] != "" {
									r.Check(is0(o.A, ack) == -1, "set", "TIACK of an error", pos, "the handler of clock synchronization failed, and S2F31 is answered with TIACK "+ack+": "+traceString(o.tr))
								} else {
									want := "ret(" + strings.TrimPrefix(hn, "?") + ")"
									r.Check(ack == want || is0(o.A, want) == 1 && is0(o.A, ack) == 1, "set", "TIACK", pos, "S2F31 is answered with TIACK "+ack+" instead of the handler's code: "+traceString(o.tr))
								}
								continue
							}
							r.Check(is0(o.A, ack) == -1, "set", "TIACK without the handler", pos, "S2F31 "+s.String()+" is answered with TIACK "+ack+" although the handler of clock synchronization was not called: "+traceString(o.tr))
							if !isText || m["parsebad"] != "" || m["other"] != "" {
								continue
							}
							long := false
							for l := range lengths(o.A, "vals(in)") {
								long = long || l >= 14
							}
							r.Check(!long || unset(x, o.A, "ClockSyncHandler"), "set", "handler is asked", pos, "S2F31 with a time is refused without asking the handler of clock synchronization: "+traceString(o.tr))
						}
						r.SawEngine(x.e)
						r.Anchor(len(x.e.Overflow) == 0, "an exact exploration of S2F31 "+s.String())
					}
				}
			}
		}
		r.Anchor(n == 2, "the equipment's handlers of S2F17 and S2F31")
		if f := P.method(pkgGem, "GemHandler", "GetEquipmentTime"); r.Anchor(f != nil, "GemHandler.GetEquipmentTime") {
			x := newGX(P, "DeviceEquipment", sh("E"), 1)
			clockWorld(x)
			provider(x)
			for _, o := range x.run(f, "", nil, nil) {
				if !o.Panicked && len(o.Rets) == 1 {
					text(x, o, tagOf(o.Rets[0]), "GetEquipmentTime", P.pos(f.Pos()))
				}
			}
			r.SawEngine(x.e)
		}
		for _, k := range []string{"TimeProvider", "ClockSyncHandler"} {
			f := P.method(pkgGem, "GemHandler", "Set"+k)
			if !r.Anchor(f != nil && len(f.Params) == 2, "GemHandler.Set"+k) {
				continue
			}
			x := newGX(P, "DeviceEquipment", sh("E"), 1)
			x.setup = func(st *State) []Val { return []Val{{}, TagV("?new")} }
			for _, o := range x.run(f, "", nil, nil) {
				if o.Panicked {
					continue
				}
				ch := x.changes(o.Mem)
				ok := len(ch) == 1
				for t := range where[k] {
					ok = ok && len(ch) == 1 && ch[0] == "changes "+strings.TrimPrefix(t, "?")
				}
				// what is stored
				for mk, v := range o.Mem {
					if _, pinned := o.Mem[memKey{mk.site, "pin"}]; pinned && strings.HasPrefix(mk.path, ".") && len(ch) == 1 {
						if oi, is := x.e.siteVals[mk.site-1].(*instSite); is && ch[0] == "changes "+oi.name+mk.path {
							ok = ok && tagOf(v) == "?new"
						}
					}
				}
				r.Check(ok, "callbacks", "Set"+k, P.pos(f.Pos()), "Set"+k+" does not store its argument where requests look for it: "+strings.Join(ch, ", ")+": "+traceString(o.tr))
			}
			r.SawEngine(x.e)
		}
		for _, op := range []string{"SetDateTime", "RequestDateTime"} {
			f := P.method(pkgGem, "GemHandler", op)
			if !r.Anchor(f != nil, "GemHandler."+op) {
				continue
			}
			pos := P.pos(f.Pos())
			seen := map[string]bool{}
			for _, s := range []*shape{A, B, U, sh("L", B), sh("L", A), sh("L"), sh("E")} {
				for _, s := range append([]*shape{s}, s.variants()...) {
					if seen[s.String()] {
						continue
					}
					seen[s.String()] = true
					x := newGX(P, "DeviceHost", sh("E"), 1)
					clockWorld(x)
					x.reply = s
					x.setup = func(st *State) []Val { return []Val{{}, TagV("text")}[:len(f.Params)] }
					x.gm.send = func(c *Ctx, site ssa.CallInstruction, how string, msg Val) {
						sn, fu, _, ok := newData(tagOf(msg))
						b := attr(tagOf(msg), "body")
						c.Put("sent", "1")
						if ok && op == "SetDateTime" {
							r.Check(sn == "2" && fu == "31" && b == "A(text)", "host", "S2F31 content", P.ipos(site), op+" sends S"+sn+"F"+fu+" with the body "+b)
						} else if ok {
							r.Check(sn == "2" && fu == "17", "host", "S2F17", P.ipos(site), op+" sends S"+sn+"F"+fu)
						}
					}
					for _, o := range x.run(f, "", nil, nil) {
						if o.Panicked || len(o.Rets) != 2 || o.Rets[1].K != KNil {
							continue
						}
						m := parseA(o.A)
						if !r.Check(m["sent"] != "" && m["failed"] == "", "host", op+" sends", pos, op+" reports success without a message sent: "+traceString(o.tr)) {
							continue
						}
						got := tagOf(o.Rets[0])
						if op == "SetDateTime" {
							src := ""
							if s.kind == "B" && !s.none {
								src = "vals(reply)[0]"
							} else if t := s.at("in/0"); s.kind == "L" && t != nil && t.kind == "B" && !t.none {
								src = "vals(reply/0)[0]"
							}
							r.Check(src != "" && (got == src || got == "bits:"+src+"#0x8"), "host", op+" code", pos, op+" returns the code "+got+" for the reply "+s.String()+": "+traceString(o.tr))
							continue
						}
						r.Check(s.kind == "A" && (got == "vals(reply)" || s.none && got == `""`), "host", op+" text", pos, op+" returns "+got+" for the reply "+s.String()+": "+traceString(o.tr))
					}
					r.SawEngine(x.e)
				}
			}
		}
		r.Floor("reported", 2)
		r.Floor("set", 6)
		r.Floor("callbacks", 2)
		r.Floor("host", 5)
	})
}
