package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sharedTypes: library structs that carry their own synchronisation, and
// everything reachable from them through pointers, maps, slices and interfaces.
func (P *Program) sharedTypes() map[string]bool {
	set := map[string]bool{}
	isSync := func(t types.Type) bool {
		t = types.Unalias(t)
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return false
		}
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic", "go.uber.org/atomic":
			return true
		}
		return false
	}
	var work []*types.Named
	add := func(n *types.Named) {
		if n == nil || n.Obj().Pkg() == nil || P.byPkg[n.Obj().Pkg().Path()] == nil {
			return
		}
		switch n.Obj().Pkg().Path() {
		case pkgAst, pkgPHsms, pkgPSml:
			return
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			return
		}
		k := typeKey(n)
		if !set[k] {
			set[k] = true
			work = append(work, n)
		}
	}
	var all []*types.Named
	for _, path := range P.libPaths() {
		sc := P.byPkg[path].Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok {
				all = append(all, n)
			}
		}
	}
	for _, n := range all {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if isSync(st.Field(i).Type()) {
					add(n)
				}
			}
		}
	}
	var reach func(t types.Type, ptr bool, d int)
	reach = func(t types.Type, ptr bool, d int) {
		if d > 6 {
			return
		}
		t = types.Unalias(t)
		switch u := t.(type) {
		case *types.Pointer:
			reach(u.Elem(), true, d+1)
		case *types.Slice:
			reach(u.Elem(), true, d+1)
		case *types.Array:
			reach(u.Elem(), ptr, d+1)
		case *types.Map:
			reach(u.Elem(), false, d+1)
		case *types.Named:
			switch v := u.Underlying().(type) {
			case *types.Struct:
				if ptr {
					add(u)
				} else if P.byPkg[pkgOf(u)] != nil {
					for i := 0; i < v.NumFields(); i++ {
						reach(v.Field(i).Type(), false, d+1)
					}
				}
			case *types.Interface:
				if v.NumMethods() > 0 {
					for _, n := range all {
						p := types.NewPointer(n)
						if types.Implements(p, v) && P.converted(p) {
							add(n)
						}
					}
				}
			default:
				reach(v, ptr, d+1)
			}
		}
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			// a struct held by value is part of its owner
			t := types.Unalias(st.Field(i).Type())
			if a, ok := t.(*types.Array); ok {
				t = types.Unalias(a.Elem())
			}
			if nn, ok := t.(*types.Named); ok {
				add(nn)
			}
			reach(st.Field(i).Type(), false, 0)
		}
	}
	return set
}

func pkgOf(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

// internalFuncField: the called value is loaded from an unexported field to
// which the library only ever stores its own functions.
func (P *Program) internalFuncField(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	name := fieldName(fa.X.Type(), fa.Field)
	if name == "" || name[0] >= 'A' && name[0] <= 'Z' {
		return false
	}
	owner := ownerField(fa)
	found := false
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa2, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || ownerField(fa2) != owner {
					continue
				}
				if c, ok := st.Val.(*ssa.Const); ok && c.Value == nil {
					continue
				}
				f := P.funcOf(st.Val)
				if f == nil || !P.isLibFn(f) {
					return false
				}
				found = true
			}
		}
	}
	return found
}

var lockCache *lockAnalysis

func (r *Report) locks() *lockAnalysis {
	if lockCache == nil {
		lockCache = runLocks(r.P)
	}
	la := lockCache
	r.SawEngine(la.engine)
	r.Count("entry points analysed", len(la.roots))
	r.Count("lock acquisition sites", len(la.acqSites))
	r.Count("function exits examined", la.exits)
	r.Anchor(len(la.acqSites) >= 40, "the lock operations of the library")
	return la
}

// raceExceptions are fields that are written outside their lock by design, or
// only before the object is in use. One reason each.
var raceExceptions = map[string]string{
	"hsms.HsmsProtocol.logger":             "SetLogger is part of set-up, before Enable",
	"hsms.HsmsProtocol.OnS9Error":          "assigned while the handler is constructed, before Enable",
	"hsms.HsmsConnection.sessionID":        "only ever written, by the receive loop of the one session",
	"hsms.HsmsProtocol.reconnectAttempts":  "belongs to the single connection-manager goroutine (C31)",
	"hsms.HsmsProtocol.lastDisconnectTime": "belongs to the receive loop, which the connection manager runs",
	"codec.JsonProtocol.names":             "Register is part of set-up, before the protocol is used",
	"codec.JsonProtocol.types":             "Register is part of set-up, before the protocol is used",
}

func raceExcept(f string) (string, bool) {
	if r, ok := raceExceptions[f]; ok {
		return r, true
	}
	if strings.HasPrefix(f, "hsms.SecsTimeout.") {
		return "timeouts are configured before the protocol is enabled", true
	}
	return "", false
}

func init() {
	register("C01", "Interprocedural lockset analysis: every access to a field (or to the contents of a map or slice held in a field) of an object that several goroutines can reach is recorded with the set of locks held on that path; for every such location that is written after construction, one lock must be common to all accesses, exclusively held by every write. Locks are identified by the field that holds them, not by object instance.", func(r *Report) {
		la := r.locks()
		P := r.P
		r.Rule("common-lock", "all accesses to a location written after its object's construction hold one common lock (writes exclusively), or all are atomic")
		r.Rule("handed-out", "no exported operation returns an internal map or slice whose contents the library modifies")
		r.Rule("captured", "a variable shared with a goroutine or timer callback through its closure is not written once that goroutine has been started")
		r.Assume("locks guard the object that contains them (lock and data are compared by field, not by instance)")
		r.Assume("loggers, timeouts and the S9 callback are configured before the protocol is enabled (exception table)")
		// closures that configure an object under construction
		optParam := map[*ssa.Function]bool{}
		for _, f := range la.roots {
			if f.Parent() == nil || len(f.Params) != 1 {
				continue
			}
			nt := P.closureNamedType(f)
			calls := la.optCalls[nt]
			if nt == "" || len(calls) == 0 {
				continue
			}
			all := true
			for _, ok := range calls {
				all = all && ok
			}
			if all {
				optParam[f] = true
			}
		}
		type loc struct {
			f    string
			cont bool
		}
		by := map[loc][]*access{}
		for _, a := range la.acc {
			if strings.HasPrefix(a.field, "global ") {
				by[loc{a.field, a.cont}] = append(by[loc{a.field, a.cont}], a)
				continue
			}
			if optParam[a.fn] {
				continue
			}
			if codecMethodOnly(P, a) {
				continue // codecs are entered through their session only (C32)
			}
			if !a.cont && !la.sharedField(a.field) {
				continue
			}
			by[loc{a.field, a.cont}] = append(by[loc{a.field, a.cont}], a)
		}
		var ls []loc
		for l := range by {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool {
			if ls[i].f != ls[j].f {
				return ls[i].f < ls[j].f
			}
			return !ls[i].cont && ls[j].cont
		})
		r.Count("locations of shared objects examined", len(ls))
		for _, l := range ls {
			acc := by[l]
			sort.Slice(acc, func(i, j int) bool {
				if acc[i].ins.Pos() != acc[j].ins.Pos() {
					return acc[i].ins.Pos() < acc[j].ins.Pos()
				}
				return fmt.Sprint(acc[i].held) < fmt.Sprint(acc[j].held)
			})
			writes := 0
			for _, a := range acc {
				if a.write {
					writes++
				}
			}
			if writes == 0 {
				r.Count("locations never written after construction", 1)
				continue
			}
			r.Count("accesses to mutable shared locations", len(acc))
			if why, ok := raceExcept(l.f); ok {
				r.Count("locations excepted: "+why, 1)
				continue
			}
			name := l.f
			if l.cont {
				name = "contents of " + l.f
			}
			// candidate locks and how many accesses each covers
			cov := map[string]int{}
			for _, a := range acc {
				for h := range a.held {
					if h[:1] == "W" || !a.write {
						cov[h[2:]]++
					}
				}
			}
			best, bestN := "", -1
			for k, n := range cov {
				if n > bestN || n == bestN && k < best {
					best, bestN = k, n
				}
			}
			if bestN == len(acc) {
				r.Good("common-lock", name+" <- "+best, P.ipos(acc[0].ins))
				continue
			}
			var off *access
			for _, a := range acc {
				if best == "" || !a.held["W:"+best] && (a.write || !a.held["R:"+best]) {
					if off == nil || a.write && !off.write {
						off = a
					}
				}
			}
			kind := "read"
			if off.write {
				kind = "written"
			}
			guard := "no lock covers its accesses"
			if best != "" {
				guard = fmt.Sprintf("%d of %d accesses hold %s", bestN, len(acc), best)
			}
			r.Bad("common-lock", name, P.ipos(off.ins), fmt.Sprintf("%s is %s in %s without the lock that protects it (%s); locks held there: %s", name, kind, P.fname(off.fn), guard, heldNames(off.held)))
		}
		r.Floor("common-lock", 25)
		// internal containers that leave the library
		written := map[string]bool{}
		for _, a := range la.acc {
			if a.cont && a.write {
				written[a.field] = true
			}
		}
		for k, h := range la.handed {
			if written[h.lock] && !strings.HasPrefix(h.fn.Name(), "new") {
				if _, ok := raceExcept(h.lock); ok {
					continue
				}
				if h.fn.Object() != nil && !h.fn.Object().Exported() {
					continue
				}
				r.Bad("handed-out", k, P.ipos(h.ins), P.fname(h.fn)+" hands out the internal container "+h.lock+", which the library modifies under a lock the caller does not hold")
			}
		}
		capturedRaces(r)
	})

	register("C02", "Interprocedural path-sensitive lockset analysis from every exported operation, handler, goroutine body, timer and state-machine callback: on every path the set of held locks at the exit equals the one at the entry, no lock is released that is not held, and no lock is requested that the same goroutine already holds.", func(r *Report) {
		la := r.locks()
		r.Rule("balanced", "every entry point returns with exactly the locks it was entered with, on every path")
		r.Rule("self-deadlock", "no path acquires a mutex its goroutine already holds")
		r.Assume("locks are identified by the field that holds them; the analysis merges all instances of a type, except that distinct sessions are not merged with their manager")
		bad := map[*ssa.Function]bool{}
		var ks []string
		for k := range la.issues {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			i := la.issues[k]
			bad[i.fn] = true
			rule := "balanced"
			if i.kind == "self-deadlock" {
				rule = "self-deadlock"
			}
			pos := r.P.pos(i.fn.Pos())
			if i.ins != nil {
				pos = r.P.ipos(i.ins)
			}
			r.Bad(rule, i.kind+" "+i.lock+" in "+r.P.fname(i.fn), pos, fmt.Sprintf("%s: lock %s: %s", r.P.fname(i.fn), i.lock, i.what))
		}
		for _, f := range la.roots {
			if !bad[f] {
				r.Good("balanced", r.P.fname(f), r.P.pos(f.Pos()))
			}
		}
		for ins := range la.acqSites {
			r.Good("self-deadlock", "acquisition at "+r.P.ipos(ins)+" in "+r.P.fname(ins.Parent()), r.P.ipos(ins))
		}
		r.Floor("balanced", 250)
		r.Floor("self-deadlock", 60)
	})

	register("C03", "The lock-order graph (an edge A->B when some path acquires B while holding A, found by the interprocedural lockset analysis over all entry points, close callbacks and state-machine callbacks) must be acyclic.", func(r *Report) {
		la := r.locks()
		r.Rule("acyclic", "no set of locks is acquired in opposite orders on any paths of the library")
		r.Assume("locks are identified by the field that holds them")
		adj := map[string][]string{}
		var ks []string
		for k, e := range la.edges {
			adj[e.from] = append(adj[e.from], e.to)
			ks = append(ks, k)
		}
		sort.Strings(ks)
		reach := func(a, b string) bool {
			seen := map[string]bool{}
			st := []string{a}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				for _, y := range adj[x] {
					if y == b {
						return true
					}
					if !seen[y] {
						seen[y] = true
						st = append(st, y)
					}
				}
			}
			return false
		}
		for _, k := range ks {
			e := la.edges[k]
			r.Check(!reach(e.to, e.from), "acyclic", k, r.P.ipos(e.ins), fmt.Sprintf("%s is acquired while %s is held (%s), and elsewhere the two are acquired in the opposite order", e.to, e.from, e.stack))
		}
		for k, i := range la.issues {
			if i.kind == "self-deadlock" {
				r.Bad("acyclic", k, r.P.ipos(i.ins), i.lock+" is acquired while it is already held: "+i.what)
			}
		}
		r.Count("distinct locks ordered", len(adj))
		r.Floor("acyclic", 4)
	})

	register("C04", "Every call through a function value or an application-implemented interface is located; the interprocedural lockset analysis must reach each with an empty set of held locks. Function-valued fields to which the library only stores its own functions are not application callbacks.", func(r *Report) {
		la := r.locks()
		r.Rule("callout-unlocked", "no path reaches a call of application code with an internal lock held")
		r.Assume("the configured logger and log writer are not counted as callbacks")
		bad := map[ssa.Instruction]bool{}
		var ks []string
		for k := range la.callouts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			i := la.callouts[k]
			bad[i.ins] = true
			r.Bad("callout-unlocked", i.lock+" in "+r.P.fname(i.fn), r.P.ipos(i.ins), fmt.Sprintf("application code (%s) is called while %s is held", i.what, i.lock))
		}
		n := 0
		for ins := range la.dynSites {
			if !bad[ins] {
				n++
				r.Good("callout-unlocked", r.P.ipos(ins)+" in "+r.P.fname(ins.Parent()), r.P.ipos(ins))
			}
		}
		r.Floor("callout-unlocked", 15)
	})
}

func heldNames(h map[string]bool) string {
	var l []string
	for k := range h {
		l = append(l, k[2:])
	}
	if len(l) == 0 {
		return "none"
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// sharedField: "hsms.HsmsProtocol.server" belongs to a shared type.
func (la *lockAnalysis) sharedField(f string) bool {
	i := strings.LastIndex(f, ".")
	for k := range la.shared {
		if shortType(k) == f[:i] {
			return true
		}
	}
	return false
}

// codecMethodOnly: the access was reached only by entering a codec directly.
func codecMethodOnly(P *Program, a *access) bool {
	for r := range a.roots {
		if !P.isCodecMethod(r) {
			return false
		}
	}
	return true
}

func (P *Program) isCodecMethod(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	recv := f.Signature.Recv()
	if recv == nil {
		return false
	}
	in := P.named(pkgLink, "Codec")
	if in == nil {
		return false
	}
	ifc, ok := in.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	if typeKey(recv.Type()) == pkgLink+".Session" {
		return false
	}
	return types.Implements(recv.Type(), ifc) || fnPkg(f).Path() == pkgCodec
}

// closureNamedType: the named function type a closure is converted to.
func (P *Program) closureNamedType(f *ssa.Function) string {
	if f.Parent() == nil {
		return ""
	}
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.ChangeType:
				if P.funcOf(x.X) == f {
					return typeKey(x.Type())
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if P.funcOf(v) == f {
						if k := typeKey(f.Parent().Signature.Results().At(i).Type()); k != "" {
							return k
						}
					}
				}
			}
		}
	}
	return ""
}

// capturedRaces checks variables captured by goroutine and timer closures.
func capturedRaces(r *Report) {
	P := r.P
	for _, fn := range P.funcs {
		var live *liveInfo
		_ = live
		for _, b := range fn.Blocks {
			for idx, ins := range b.Instrs {
				var mc *ssa.MakeClosure
				switch x := ins.(type) {
				case *ssa.Go:
					mc, _ = x.Call.Value.(*ssa.MakeClosure)
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && f.String() == "time.AfterFunc" && len(x.Call.Args) == 2 {
						mc, _ = x.Call.Args[1].(*ssa.MakeClosure)
					}
				}
				if mc == nil {
					continue
				}
				body := mc.Fn.(*ssa.Function)
				for i, bv := range mc.Bindings {
					al, ok := bv.(*ssa.Alloc)
					if !ok {
						continue
					}
					key := P.fname(body) + " captures " + al.Comment
					if storesThrough(body.FreeVars[i]) {
						r.Bad("captured", key, P.ipos(ins), "the goroutine or timer started here writes the variable "+al.Comment+", which its creator shares")
						continue
					}
					late := false
					for _, ref := range *al.Referrers() {
						st, ok := ref.(*ssa.Store)
						if !ok || st.Addr != ssa.Value(al) {
							continue
						}
						if st.Block() == b && instrIndex(st) > idx || reachableWithout(b, st.Block(), al.Block()) {
							late = true
						}
					}
					r.Check(!late, "captured", key, P.ipos(ins), "the variable "+al.Comment+" is written after the goroutine or timer that captured it was started")
				}
			}
		}
	}
}

// reachableWithout: from's successors reach to without passing the block in
// which the variable is created anew.
func reachableWithout(from, to, fresh *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, from.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || x == fresh {
			continue
		}
		seen[x] = true
		if x == to {
			return true
		}
		st = append(st, x.Succs...)
	}
	return false
}

func instrIndex(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

func storesThrough(fv *ssa.FreeVar) bool {
	for _, ref := range *fv.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(fv) {
				return true
			}
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == ssa.Value(fv) && storesThrough(f.FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}
