package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exact mode (Engine.Exact): small configurations are followed without
// merging. Objects that existed before - the handler, its registries and what
// they hold - are symbolic: what they contain is decided, or named, when it is
// first looked at, by the client (SymWorld). The memory at the end of a run
// can then be compared with the one the run started from.

// SymWorld supplies the initial contents of symbolic objects.
type SymWorld interface {
	// Field is the initial content of a field of a symbolic object.
	Field(c *Ctx, obj *instSite, path string, t types.Type) Val
	// Entry is the initial entry of a symbolic map under a key, if it has one.
	Entry(c *Ctx, m *instSite, key Val, elem types.Type) Val
	// Others are the keys a symbolic map may have besides those looked up.
	Others(c *Ctx, m *instSite) []Val
}

var absent = TagV("=absent")

func isAbsent(v Val) bool { return v.K == KTag && v.Tag == "=absent" }

// symObj makes a symbolic object known to a state.
func (e *Engine) symObj(s *State, base ssa.Value, name string) *instSite {
	o := e.inst(base, name)
	id := e.siteID(o)
	if _, ok := s.mem[memKey{id, "!"}]; !ok {
		s.mem[memKey{id, "!"}] = TagV("live")
		s.mem[memKey{id, "pin"}] = NonNil
	}
	return o
}

func (e *Engine) isSym(s *State, v Val) (*instSite, bool) {
	if v.K != KAddr && v.K != KMap {
		return nil, false
	}
	o, ok := v.Site.(*instSite)
	if !ok {
		return nil, false
	}
	_, pinned := s.mem[memKey{e.siteID(o), "pin"}]
	return o, pinned
}

// mapKey names a map key ("" if it is not known enough).
func mapKey(k Val) string {
	switch k.K {
	case KConst:
		return "{" + k.C.ExactString() + "}"
	case KTag, KBits:
		if t := tagOf(k); !strings.HasPrefix(t, "?") {
			return "{~" + t + "}"
		}
	}
	return ""
}

// keyVal is the key a map memory path stands for.
func keyVal(p string) Val {
	p = p[1 : len(p)-1]
	if strings.HasPrefix(p, "~") {
		return TagV(p[1:])
	}
	if strings.HasPrefix(p, `"`) {
		if u, err := strconv.Unquote(p); err == nil {
			return CStr(u)
		}
	}
	if c := lit(p); c != nil {
		return Val{K: KConst, C: c}
	}
	return Top
}

// mapGet reads an entry from memory: entries that hold structs are spread
// over several paths.
func (e *Engine) mapGet(s *State, id int, k string) (Val, bool) {
	if v, ok := s.mem[memKey{id, k}]; ok {
		if v.K == KStruct {
			out := Val{K: KStruct, F: map[string]Val{}, Len: v.Len}
			for r, x := range v.F {
				out.F[r] = x
			}
			return out, true
		}
		return v, true
	}
	return Top, false
}

// mapKeys are the keys a map is known to have.
func (e *Engine) mapKeys(s *State, m Val) []string {
	id := e.siteID(m.Site)
	var out []string
	for k, v := range s.mem {
		if k.site == id && strings.HasPrefix(k.path, "{") && !isAbsent(v) {
			out = append(out, k.path)
		}
	}
	sort.Strings(out)
	return out
}

func (e *Engine) mapLive(s *State, m Val) bool {
	if m.K != KMap {
		return false
	}
	id := e.siteID(m.Site)
	_, dirty := s.mem[memKey{id, "?"}]
	return s.mem[memKey{id, "!"}].Tag == "live" && !dirty
}

func (e *Engine) exactDelete(s *State, m, k Val) {
	id := e.siteID(m.Site)
	if s.mem[memKey{id, "!"}].Tag != "live" {
		return
	}
	key := mapKey(k)
	if key == "" {
		s.mem[memKey{id, "?"}] = NonNil
		return
	}
	s.mem[memKey{id, key}] = absent
}

func (e *Engine) exactClear(s *State, m Val) {
	id := e.siteID(m.Site)
	if s.mem[memKey{id, "!"}].Tag != "live" {
		return
	}
	for _, k := range e.mapKeys(s, m) {
		s.mem[memKey{id, k}] = absent
	}
	if _, sym := e.isSym(s, m); sym {
		s.mem[memKey{id, "cleared"}] = NonNil
	}
}

// cleared: a symbolic map from which everything was removed.
func (e *Engine) cleared(mem map[memKey]Val, m Val) bool {
	_, ok := mem[memKey{e.siteID(m.Site), "cleared"}]
	return ok
}

func (e *Engine) exactLen(s *State, v Val) (int, bool) {
	if !e.Exact || v.K != KMap || !e.mapLive(s, v) {
		return 0, false
	}
	if _, sym := e.isSym(s, v); sym {
		return 0, false
	}
	return len(e.mapKeys(s, v)), true
}

func (e *Engine) exactStep(c *Ctx, s *State, fr *frame, ins ssa.Instruction) ([]*State, bool) {
	w, _ := e.C.(SymWorld)
	one := []*State{s}
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL || w == nil {
			return nil, false
		}
		a := e.eval(s, fr, x.X)
		if a.K != KAddr {
			return nil, false
		}
		if _, ok := e.isSym(s, a); !ok {
			return nil, false
		}
		if v, ok := e.C.Load(c, x); ok {
			e.set(s, x, v)
			return one, true
		}
		e.set(s, x, e.symRead(c, w, a, x.Type()))
		return one, true
	case *ssa.MapUpdate:
		m := e.eval(s, fr, x.Map)
		if m.K != KMap {
			return nil, false
		}
		id := e.siteID(m.Site)
		if s.mem[memKey{id, "!"}].Tag != "live" {
			return nil, false
		}
		key := mapKey(e.eval(s, fr, x.Key))
		if key == "" {
			s.mem[memKey{id, "?"}] = NonNil
			e.escape(s, e.eval(s, fr, x.Value))
			return one, true
		}
		s.mem[memKey{id, key}] = e.eval(s, fr, x.Value)
		return one, true
	case *ssa.Lookup:
		m := e.eval(s, fr, x.X)
		t := x.Type()
		if x.CommaOk {
			t = t.(*types.Tuple).At(0).Type()
		}
		put := func(st *State, v Val, ok bool) {
			if x.CommaOk {
				v = TupleV(v, CBool(ok))
			}
			e.set(st, x, v)
		}
		if m.K == KNil {
			put(s, zeroVal(t), false)
			return one, true
		}
		if m.K != KMap || !e.mapLive(s, m) {
			return nil, false
		}
		id := e.siteID(m.Site)
		key := mapKey(e.eval(s, fr, x.Index))
		if key == "" {
			return nil, false
		}
		if v, ok := e.mapGet(s, id, key); ok {
			if isAbsent(v) {
				put(s, zeroVal(t), false)
			} else {
				put(s, v, true)
			}
			return one, true
		}
		o, sym := e.isSym(s, m)
		if !sym || w == nil || e.cleared(s.mem, m) {
			put(s, zeroVal(t), false)
			return one, true
		}
		// the entry was there before, or not
		no := s.clone()
		no.mem[memKey{id, key}] = absent
		no.mem[memKey{id, "i" + key}] = absent
		put(no, zeroVal(t), false)
		v := w.Entry(c, o, e.eval(s, fr, x.Index), t)
		s.mem[memKey{id, key}] = v
		s.mem[memKey{id, "i" + key}] = NonNil
		put(s, v, true)
		return []*State{s, no}, true
	case *ssa.Range:
		m := e.eval(s, fr, x.X)
		if m.K != KMap && m.K != KNil {
			return nil, false
		}
		if m.K == KMap && !e.mapLive(s, m) {
			return nil, false
		}
		at := e.alloc(s, x)
		s.mem[memKey{e.siteID(at), "map"}] = m
		e.set(s, x, Val{K: KAddr, Site: at})
		return one, true
	case *ssa.Next:
		it := e.eval(s, fr, x.Iter)
		if it.K != KAddr {
			return nil, false
		}
		iid := e.siteID(it.Site)
		m, ok := s.mem[memKey{iid, "map"}]
		if !ok {
			return nil, false
		}
		done := TupleV(CBool(false), Top, Top)
		if m.K == KNil {
			e.set(s, x, done)
			return one, true
		}
		id := e.siteID(m.Site)
		var out []*State
		yield := func(st *State, k string) {
			st.mem[memKey{iid, "v" + k}] = NonNil
			v, _ := e.mapGet(st, id, k)
			e.set(st, x, TupleV(CBool(true), keyVal(k), v))
			out = append(out, st)
		}
		for _, k := range e.mapKeys(s, m) {
			if _, seen := s.mem[memKey{iid, "v" + k}]; !seen {
				yield(s, k)
				return out, true
			}
		}
		if o, sym := e.isSym(s, m); sym && w != nil && !e.cleared(s.mem, m) {
			elem := m.Site.Type()
			if mt, ok := elem.Underlying().(*types.Map); ok {
				elem = mt.Elem()
			}
			for _, k := range w.Others(c, o) {
				key := mapKey(k)
				if _, known := s.mem[memKey{id, key}]; known {
					continue
				}
				yes := s.clone()
				yes.mem[memKey{id, "i" + key}] = NonNil
				yes.mem[memKey{id, key}] = w.Entry(&Ctx{e, c.fn, yes, c.fr}, o, k, o.Type())
				yield(yes, key)
				s.mem[memKey{id, key}] = absent
				s.mem[memKey{id, "i" + key}] = absent
			}
		}
		e.set(s, x, done)
		return append(out, s), true
	}
	return nil, false
}

// symRead reads a field of a symbolic object, asking the client for what has
// not been looked at before.
func (e *Engine) symRead(c *Ctx, w SymWorld, a Val, t types.Type) Val {
	s := c.st
	id := e.siteID(a.Site)
	if v, ok := s.mem[memKey{id, a.Path}]; ok {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		out := Val{K: KStruct, F: map[string]Val{}, Len: 1}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			v := e.symRead(c, w, Val{K: KAddr, Site: a.Site, Path: a.Path + "." + f.Name()}, f.Type())
			if v.K == KStruct {
				for r, y := range v.F {
					out.F["."+f.Name()+r] = y
				}
				continue
			}
			out.F["."+f.Name()] = v
		}
		return out
	}
	v := w.Field(c, a.Site.(*instSite), a.Path, t)
	s.mem[memKey{id, a.Path}] = v
	return v
}
