package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// newHMEngine: an engine over the HSMS model with bit provenance.
func newHMEngine(P *Program, h Client) *Engine {
	e := NewEngine(P, h)
	e.Bits = true
	e.LoopArith = 32
	return e
}

// protoRoots: entry points of the protocol and GEM layers.
func (P *Program) protoRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.rootFunctions() {
		switch fnPkg(f).Path() {
		case pkgHsms, pkgGem:
			out = append(out, f)
		}
	}
	return out
}

// tagsIn lists the fresh@ identifiers mentioned in a tag.
func freshIn(tag string) []string {
	var out []string
	for rest := tag; ; {
		i := strings.Index(rest, "fresh@")
		if i < 0 {
			return out
		}
		rest = rest[i:]
		j := strings.IndexAny(rest, " },)(+")
		if j < 0 {
			j = len(rest)
		}
		out = append(out, rest[:j])
		rest = rest[j:]
	}
}

// rawSend: a payload that the caller of an exported connection method
// supplied; the connection type sends whatever it is given.
func rawSend(c *Ctx, payload Val) bool {
	return payload.K != KTag && typeKeyRecv(c.Root()) == pkgHsms+".HsmsConnection"
}

func typeKeyRecv(f *ssa.Function) string {
	if r := f.Signature.Recv(); r != nil {
		return typeKey(r.Type())
	}
	return ""
}

func payloadOf(args []Val) Val {
	if len(args) == 0 {
		return Top
	}
	return args[len(args)-1]
}

func init() {
	register("C06", "Typestate analysis of transactions over every path from every entry point of the protocol and GEM layers: identifiers taken from the system counter are tracked by name through encoding, message construction, the table of open transactions and sending.", func(r *Report) {
		P := r.P
		r.Rule("fresh-id", "an entry is added to the table of open transactions only under an identifier just taken from the system counter")
		r.Rule("reg-before-send", "the entry exists before a message carrying that identifier is sent")
		r.Rule("wait-own", "a wait for a reply is on the queue that was registered under the identifier the sent request carries")
		r.Rule("cleaned-up", "no path leaves an entry in the table: it is removed on every way out")
		r.Rule("sent-fresh", "a request whose reply is awaited carries the identifier from the counter")
		h := newHM(P)
		h.ev = func(c *Ctx, site ssa.CallInstruction, kind string, args []Val) {
			pos := c.e.P.pos(c.fn.Pos())
			if site != nil {
				pos = P.ipos(site)
			}
			key := P.fname(c.fn)
			switch kind {
			case "reg":
				k, q := tagOf(args[0]), tagOf(args[1])
				if !r.Check(strings.HasPrefix(k, "fresh@"), "fresh-id", key, pos, "the table entry is keyed by "+k+", not by an identifier taken from the system counter on this path (via "+strings.Join(c.Stack(), " < ")+")") {
					return
				}
				r.Check(c.Get("snt "+k) == "", "reg-before-send", key, pos, "the transaction is registered after its request has been sent; a fast reply finds no waiter (via "+strings.Join(c.Stack(), " < ")+")")
				c.Put("reg "+k, q)
			case "unreg":
				k := tagOf(args[0])
				m := parseA(c.A())
				delete(m, "reg "+k)
				delete(m, "snt "+k)
				c.SetA(m.String())
			case "tx":
				p := payloadOf(args)
				if p.K != KTag {
					return
				}
				for _, t := range freshIn(p.Tag) {
					c.Put("snt "+t, "1")
				}
			case "get":
				q := Top
				if len(args) > 0 {
					q = args[0]
				}
				id := ""
				for k, v := range parseA(c.A()) {
					if strings.HasPrefix(k, "reg ") && q.K == KTag && v == q.Tag {
						id = k[4:]
					}
				}
				if !r.Check(id != "", "wait-own", key, pos, "waits on a queue that is not registered in the table of open transactions on this path (via "+strings.Join(c.Stack(), " < ")+")") {
					return
				}
				r.Check(c.Get("snt "+id) == "1", "sent-fresh", key, pos, "waits for a reply to identifier "+id+" but no message carrying it has been sent on this path (via "+strings.Join(c.Stack(), " < ")+")")
			}
		}
		// number identifiers so that two live ones differ
		h.extra = func(c *Ctx, site ssa.CallInstruction, name string, callee *ssa.Function, args []Val) ([]CallRes, bool) {
			if !strings.HasPrefix(name, "(*go.uber.org/atomic.") && !strings.HasPrefix(name, "(*sync/atomic.") || callee.Name() != "Inc" && callee.Name() != "Add" || !strings.Contains(strings.ToLower(name), "int32)") {
				return nil, false
			}
			m := parseA(c.A())
			n := 1
			for ; n < 4; n++ {
				t := "fresh@" + P.ipos(site) + "#" + strconv.Itoa(n)
				if m["reg "+t] == "" && m["snt "+t] == "" {
					break
				}
			}
			t := "fresh@" + P.ipos(site) + "#" + strconv.Itoa(n)
			delete(m, "snt "+t)
			c.SetA(m.String())
			return []CallRes{{A: c.A(), Ret: TagV(t)}}, true
		}
		h.recv = func(c *Ctx) []CallRes {
			return []CallRes{{A: c.A(), Ret: TupleV(Top, NilV)}, {A: c.A(), Ret: TupleV(NilV, NonNil)}}
		}
		e := newHMEngine(P, h)
		n := 0
		for _, f := range P.protoRoots() {
			for _, o := range e.Run(f, "") {
				for k := range parseA(o.A) {
					if strings.HasPrefix(k, "reg ") {
						r.Bad("cleaned-up", P.fname(f), P.pos(f.Pos()), "returns with the transaction of identifier "+k[4:]+" still in the table of open transactions: "+traceString(o.tr))
					}
				}
			}
			r.Good("cleaned-up", P.fname(f), P.pos(f.Pos()))
			n++
		}
		r.SawEngine(e)
		r.Count("entry points", n)
		r.Floor("fresh-id", 1)
		r.Floor("wait-own", 2)
		r.Floor("sent-fresh", 2)
	})
}
