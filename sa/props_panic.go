package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C35, C36: nothing a peer sends makes the program crash
//
// The exploration records an obligation for every instruction that can fail
// at run time (nil dereference, write to a nil map, type assertion, index,
// slice, make, division) and the paths on which it isn't known to succeed.
// An unproved one is a violation unless it is about the program's own state:
// then the state must have been initialised.

type crashQ struct {
	c     *Ctx
	state map[string]string // "T.f" -> where it is relied on not to be nil
	mapv  map[string]string // maps whose values are relied on not to be nil
	wire  map[string]string // parts of received values kept in the state: "T.f" -> path
}

func (c *Ctx) crashQ() *crashQ {
	return &crashQ{c, map[string]string{}, map[string]string{}, map[string]string{}}
}

// notNil: the condition says that x isn't nil.
func notNil(cond *Term) *Term {
	if cond.Op == ONot && cond.Args[0].Op == OIsNil {
		return cond.Args[0].Args[0]
	}
	return nil
}

// own: x is reached from one of the roots through fields and maps of the
// program's own state. It notes what the state is relied on for.
func (q *crashQ) own(st *State, x *Term, roots map[*Term]bool, pos string, last bool) bool {
	if roots[x] {
		return true
	}
	switch x.Op {
	case OFVal, OField:
		key := cutAt(x.Aux)
		if x.Op == OField && x.T == nil {
			return false
		}
		if !q.own(st, x.Args[0], roots, pos, false) {
			return false
		}
		if base := q.wireBase(x.Args[0]); base != "" {
			if last {
				q.wire[base] = pos
			}
			return true
		}
		if last {
			q.state[key] = pos
		}
		return true
	case ODeref:
		return q.own(st, x.Args[0], roots, pos, last)
	case OMapGet:
		m := x.Args[0]
		if !q.own(st, m, roots, pos, false) {
			return false
		}
		if last {
			// whether there is an entry must have been looked at
			has := st.posFact(func(t *Term) bool {
				return t.Op == OMapHas && sameMap(t.Args[0], m) && st.same(t.Args[1], x.Args[1])
			})
			if has == nil {
				return false
			}
			switch {
			case m.Op == OFVal:
				q.mapv[cutAt(m.Aux)] = pos
			case m.T != nil:
				q.mapv[typeName(m.T)] = pos
			}
		}
		return true
	}
	return false
}

// wireBase: the field of the program's state in which x, a value that was
// received, is kept.
func (q *crashQ) wireBase(x *Term) string {
	for {
		if x.Op != OFVal || x.T == nil {
			return ""
		}
		key := cutAt(x.Aux)
		if isPtrTo(x.T, "protocol.DirSTR") {
			return key
		}
		x = x.Args[0]
	}
}

// noCrash decides every obligation of the exploration. exempt says why one
// that isn't proved is none of the peer's doing.
func (q *crashQ) noCrash(r *Rule, e *Engine, roots map[*Term]bool, exempt func(o *Obl, f OblFail) bool, leave func(x *Exit) bool) {
	var ks []string
	for k := range e.Obls {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	what := map[string]string{"nil": "nil dereference", "nilmap": "write to a nil map", "assert": "type assertion", "index": "index", "slice": "slice", "div": "division", "makelen": "allocation", "call": "call of a library function"}
	for _, k := range ks {
		o := e.Obls[k]
		bad := false
		for _, f := range o.Fails {
			if x := notNil(f.Cond); x != nil && q.own(f.St, x, roots, o.Pos, true) {
				continue
			}
			if exempt != nil && exempt(o, f) {
				continue
			}
			bad = true
			r.fail(what[o.Kind]+" in "+o.In, o.Pos, "%s reached from %s can crash: %s isn't established", what[o.Kind], fnName(e.root), short80(f.Cond))
		}
		if !bad {
			r.ok("%s in %s (%s)", what[o.Kind], o.In, o.Pos)
		}
	}
	for _, x := range append(append([]*Exit(nil), e.Exits...), e.GoExits...) {
		if x.Kind != "panic" && x.Kind != "exit" {
			continue
		}
		if isFault(x) || leave != nil && leave(x) {
			continue
		}
		r.fail(x.Kind+" in "+x.In, x.Pos, "%s can be stopped by an explicit %s", fnName(e.root), x.Kind)
	}
}

func short80(t *Term) string {
	s := shorten(t.String())
	if len(s) > 120 {
		s = strings.ToValidUTF8(s[:120], "") + "…"
	}
	return s
}

// isFault: the exit is that of a failing instruction, which the obligations
// report.
func isFault(x *Exit) bool { return x.Kind == "panic" && len(x.Res) == 1 && x.Res[0] == Nil }

// initialised decides that the noted state is never nil: every function that
// creates an object sets its field, and nothing sets it to nil.
func (q *crashQ) initialised(r *Rule, engines []*Engine) {
	c := q.c
	for _, key := range sortedKeys(q.state) {
		var owner *types.Named
		var field string
		for _, p := range sortedPkgs(c.p) {
			sc := c.p.SPkgs[p].Pkg.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				nm, ok := tn.Type().(*types.Named)
				if !ok {
					continue
				}
				st, ok := nm.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					if structKey(nm, i) == key {
						owner, field = nm, st.Field(i).Name()
					}
				}
			}
		}
		if owner == nil {
			continue
		}
		// functions that create one
		done := map[*ssa.Function]bool{}
		for _, fn := range c.p.Fns {
			if isTestHelper(c, fn) || done[fn] {
				continue
			}
			makes := false
			c.eachInstr(fn, func(in ssa.Instruction) {
				if a, ok := in.(*ssa.Alloc); ok {
					t := a.Type().Underlying().(*types.Pointer).Elem()
					if types.Identical(t, owner) || holdsField(t, key) {
						if a.Heap {
							makes = true
						}
					}
				}
			})
			if !makes || fn.Synthetic != "" {
				continue
			}
			done[fn] = true
			e := c.run(fn, nil)
			for _, x := range e.Exits {
				if x.Kind != "return" {
					continue
				}
				if i := errResult(fn.Signature); i >= 0 && i < len(x.Res) && !x.St.knownNil(x.Res[i]) {
					continue
				}
				objs := map[*Term]bool{}
				find := func(t *Term) {
					anySub(t, func(s *Term) bool {
						if s.Op == OAlloc && s.T != nil {
							if p, ok := s.T.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), owner) {
								objs[s] = true
							}
						}
						return false
					})
				}
				for _, t := range x.Res {
					find(t)
				}
				for _, ev := range x.St.Events() {
					if ev.Kind == "store" || ev.Kind == "mapset" {
						for _, a := range ev.Args {
							find(a)
						}
					}
				}
				for o := range objs {
					v := e.sel(x.St, V{o, ptrTo(owner)}, field).T
					r.check(!x.St.knownNil(v), fmt.Sprintf("%s set by %s", key, fn.Name()), x.where(), "an object made by %s is left without %s, which is used without a check (%s)", fn.Name(), field, q.state[key])
				}
			}
		}
		for _, s := range c.fieldStores(key) {
			if isTestHelper(c, s.Fn) || c.freshStore(s) {
				continue
			}
			if st, ok := s.In.(*ssa.Store); ok {
				k, isNil := st.Val.(*ssa.Const)
				r.check(!isNil || !k.IsNil(), key+" kept by "+s.Fn.Name(), c.pos(s.In), "%s sets %s to nil, which is used without a check (%s)", s.Fn.Name(), key, q.state[key])
			}
		}
	}
	for _, key := range sortedKeys(q.mapv) {
		for _, e := range engines {
			for _, x := range e.Exits {
				for _, ev := range x.St.allEvents() {
					if ev.Kind != "mapset" || len(ev.Args) < 3 {
						continue
					}
					m := ev.Args[0]
					if !(m.Op == OFVal && cutAt(m.Aux) == key) && !(m.T != nil && typeName(m.T) == key) {
						continue
					}
					st := x.St
					if ev.alt != nil {
						st = ev.alt
					}
					r.check(st.knownNonNil(ev.Args[2]) || nonNilTerm(ev.Args[2]), "values of "+key+" set by "+ev.In, ev.Pos, "a value that may be nil is put into %s, whose values are used without a check (%s)", key, q.mapv[key])
				}
			}
		}
	}
	for _, key := range sortedKeys(q.wire) {
		for _, e := range engines {
			for _, x := range e.Exits {
				if x.Kind != "return" {
					continue
				}
				for _, ev := range x.St.allEvents() {
					if ev.Kind != "store" || ev.Name != key || len(ev.Args) < 2 {
						continue
					}
					st := x.St
					if ev.alt != nil {
						st = ev.alt
					}
					v := V{ev.Args[1], ptrTo(c.named("protocol", "DirSTR"))}
					known := func(t *Term) bool {
						return st.knownNonNil(t) || nonNilTerm(t) || e.byLoop(mkNot(mkIsNil(t)), st)
					}
					ok := known(v.T) && known(e.sel(st, v, "SignedTreeRoot").T) && known(e.sel(st, v, "Policies").T)
					r.check(ok, key+" set by "+ev.In, ev.Pos, "a root with missing parts may be kept in %s, and later checks use it (%s)", key, q.wire[key])
				}
			}
		}
	}
}

func sortedKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedPkgs(p *Program) []string {
	var r []string
	for k := range p.SPkgs {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// bodies: the kinds of body a decoded response can have.
func (c *Ctx) bodies() (kinds []types.Type) {
	unm := c.fn("application", "UnmarshalResponse")
	e := c.run(unm, nil)
	RS := ptrTo(c.named("protocol", "Response"))
	seen := map[string]bool{}
	for _, x := range e.Exits {
		if x.Kind != "return" || len(x.Res) != 1 {
			continue
		}
		b := e.sel(x.St, V{x.Res[0], RS}, "DirectoryResponse").T
		if b.Op == OIface {
			t := b.Obj.(types.Type)
			if !seen[typeName(t)] {
				seen[typeName(t)] = true
				kinds = append(kinds, t)
			}
		}
	}
	return
}

func propC35(c *Ctx) {
	rd := c.Rule("decoding", "decoding a response of a supported request type never fails at run time, for any bytes, and always yields a response", 8)
	rv := c.Rule("verification", "no operation of the response checks of client and auditor can fail at run time, for a decoded response with any of its parts missing, empty or of another length", 40)
	rx := c.Rule("use", "no operation the command-line client applies to a response can fail at run time", 40)
	rs := c.Rule("state", "the state the checks rely on is set up by every constructor, and a received value is kept in it only when it is complete", 4)
	rp := c.Rule("primitives", "the verification of indices and signatures cannot fail at run time for proofs, indices and signatures of any length", 4)

	rm := c.Rule("sizes", "the size of nothing that is allocated for a response is chosen by the peer", 3)

	q := c.crashQ()
	unm := c.fn("application", "UnmarshalResponse")
	ue := c.run(unm, nil)
	types_ := []string{"RegistrationType", "KeyLookupType", "KeyLookupInEpochType", "MonitoringType", "STRType"}
	supported := func(st *State, t *Term) bool {
		for _, n := range types_ {
			s := st.clone()
			if s.assume(EqI(t, intConst(c.constVal("protocol", n), t.T))) && s.consistent() {
				return true
			}
		}
		return false
	}
	var reqT *Term
	for i, p := range unm.Params {
		if isInteger(p.Type()) {
			reqT = ue.arg(i).T
		}
	}
	if reqT == nil {
		panic(anchorErr{"the request type UnmarshalResponse is given"})
	}
	q.allocations(rm, ue, nil)
	q.noCrash(rd, ue, nil, nil, func(x *Exit) bool { return !supported(x.St, reqT) })
	for _, x := range ue.Exits {
		if x.Kind == "return" {
			rd.check(x.St.knownNonNil(x.Res[0]) || nonNilTerm(x.Res[0]), "result", x.where(), "decoding may yield no response at all")
		}
	}

	kinds := c.bodies()
	if len(kinds) == 0 {
		panic(anchorErr{"the bodies of decoded responses"})
	}
	// the functions that check a response
	var engines []*Engine
	n := 0
	for _, fn := range c.p.Fns {
		switch fnPkg(fn) {
		case "protocol/client", "protocol/auditor", "protocol/auditlog":
		default:
			continue
		}
		if fn.Parent() != nil || fn.Synthetic != "" || isTestHelper(c, fn) {
			continue
		}
		var mi, ti = -1, -1
		for i, p := range fn.Params {
			if isPtrTo(p.Type(), "protocol.Response") {
				mi = i
			}
			if isInteger(p.Type()) && ti < 0 {
				ti = i
			}
		}
		if mi < 0 || !(fn.Object() != nil && fn.Object().Exported()) {
			continue
		}
		n++
		for bi := -1; bi < len(kinds); bi++ {
			for _, k := range []string{"RegistrationType", "KeyLookupType"} {
				if ti < 0 && k != "RegistrationType" {
					continue
				}
				bi, k := bi, k
				name := fmt.Sprintf("crash/%d/%s", bi, k)
				e := c.run(fn, &Opts{Name: name, Pre: func(st *State, args []*Term) {
					e := &Engine{p: c.p, o: &Opts{}}
					st.assume(mkNot(mkIsNil(args[mi])))
					b := e.sel(zeroState, V{args[mi], fn.Params[mi].Type()}, "DirectoryResponse").T
					if bi < 0 {
						st.assume(mkIsNil(b))
					} else {
						st.assume(typeIs(b, kinds[bi]))
					}
					if ti >= 0 {
						st.assume(EqI(args[ti], intConst(c.constVal("protocol", k), args[ti].T)))
					}
				}})
				roots := map[*Term]bool{}
				if fn.Signature.Recv() != nil {
					roots[e.arg(0).T] = true
				}
				engines = append(engines, e)
				q.noCrash(rv, e, roots, nil, nil)
				q.allocations(rm, e, roots)
			}
		}
	}
	if n < 3 {
		panic(anchorErr{"the functions that check a response"})
	}

	// what the client does with a response
	handle := c.method("protocol/client", "ConsistencyChecks", "HandleResponse")
	getKey := c.method("protocol", "Response", "GetKey")
	inH := c.reaching(map[*ssa.Function]bool{unm: true, handle: true})
	inG := c.reaching(map[*ssa.Function]bool{getKey: true})
	var low []*ssa.Function
	for _, f := range c.p.Fns {
		if !inH[f] || !inG[f] || !strings.HasPrefix(fnPkg(f), "cli/coniksclient") || isTestHelper(c, f) {
			continue
		}
		both := false
		c.eachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range c.p.callees(ci) {
					if g != nil && inH[g] && inG[g] && g != f && strings.HasPrefix(fnPkg(g), "cli/coniksclient") {
						both = true
					}
				}
			}
		})
		if !both {
			low = append(low, f)
		}
	}
	for _, f := range low {
		e := c.run(f, &Opts{Name: "crash", Opaque: func(g *ssa.Function) (bool, bool) {
			op := g == unm || fnPkg(g) == "application/testutil" || strings.HasPrefix(fnPkg(g), "application") && c.usesOnly(g)
			return op, op
		}})
		roots := map[*Term]bool{}
		for i := range f.Params {
			roots[e.arg(i).T] = true
		}
		q.noCrash(rx, e, roots, func(o *Obl, fl OblFail) bool {
			x := notNil(fl.Cond)
			if x == nil {
				return false
			}
			if x.Op == OCall && callName(x) == fnName(unm) {
				return true
			}
			// what doesn't depend on the response
			return !anySub(x, func(t *Term) bool { return t.Op == OCall && callName(t) == fnName(unm) }) && !strings.HasPrefix(o.In, "protocol") && !strings.HasPrefix(o.In, "(*protocol")
		}, func(x *Exit) bool { return otherKind(x.St, kinds) })
	}
	for i := len(low); i < 1; i++ {
		panic(anchorErr{"a command of the client that handles responses"})
	}
	q.initialised(rs, engines)

	for _, m := range [][3]string{{"crypto/vrf", "PublicKey", "Verify"}, {"crypto/sign", "PublicKey", "Verify"}, {"crypto", "Commit", "Verify"}} {
		f := c.method(m[0], m[1], m[2])
		e := c.run(f, &Opts{Name: "crash", Opaque: func(g *ssa.Function) (bool, bool) { return false, g == f }})
		roots := map[*Term]bool{}
		if m[1] == "Commit" {
			roots[e.arg(0).T] = true
		}
		q.noCrash(rp, e, roots, nil, nil)
		rp.ok("%s", fnName(f))
	}
}

// otherKind: the path needs a body of a kind no response decodes into.
func otherKind(st *State, kinds []types.Type) bool {
	not := map[*Term]map[string]bool{}
	for _, f := range st.Facts() {
		if f.Op == ONot && f.Args[0].Op == OTypeIs {
			t := f.Args[0].Args[0]
			if not[t] == nil {
				not[t] = map[string]bool{}
			}
			not[t][f.Args[0].Aux] = true
		}
	}
	for t, m := range not {
		all := st.knownNonNil(t)
		for _, k := range kinds {
			all = all && m[typeName(k)]
		}
		if all {
			return true
		}
	}
	return false
}

// usesOnly: building a request, which has no part in handling the answer.
func (c *Ctx) usesOnly(g *ssa.Function) bool {
	return strings.HasPrefix(g.Name(), "Create") || strings.HasPrefix(g.Name(), "Marshal")
}

func init() {
	checks["C35"] = propC35
	expl["C35"] = "every instruction that can fail at run time on every path from a received response: its decoding, the checks of client and auditor for every kind of body, the command-line client's use of it, and the primitives"
}
