package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var zeroState = newState()

// ---------- shared vocabulary: roots

func ptrTo(n *types.Named) types.Type { return types.NewPointer(n) }

// strFields: the fields of a directory's signed root that its signature has
// to cover: every field of the root (but the signature itself and the
// interface view of the policies) and every field of the policies.
func (c *Ctx) strFields() []string {
	root := c.named("merkletree", "SignedTreeRoot").Underlying().(*types.Struct)
	var r []string
	for i := 0; i < root.NumFields(); i++ {
		f := root.Field(i)
		if !f.Exported() || f.Name() == "Signature" || f.Name() == "Ad" {
			continue
		}
		r = append(r, f.Name())
	}
	pol := c.named("protocol", "Policies").Underlying().(*types.Struct)
	for i := 0; i < pol.NumFields(); i++ {
		f := pol.Field(i)
		if f.Exported() && !strings.Contains(f.Type().String(), "func(") {
			r = append(r, "Policies."+f.Name())
		}
	}
	return r
}

// rootSigned: the path verified a signature of key over all of s's contents.
func (c *Ctx) rootSigned(e *Engine, st *State, s V, key *Term, val bool) bool {
	z := zeroState
	sig := e.sel(z, s, "Signature").T
	return st.sigFact(val, key, sig, func(m *Term) bool {
		for _, f := range c.strFields() {
			x := e.sel(z, s, f).T
			if f == "PreviousEpoch" {
				// not part of the signed form of the initial root
				if ep := e.sel(z, s, "Epoch").T; st.same(ep, intConst(0, ep.T)) {
					continue
				}
			}
			if !st.carries(m, x) {
				return false
			}
		}
		return true
	})
}

func (c *Ctx) rootNext(e *Engine, st *State, prev, s V) string {
	z := zeroState
	if !st.same(e.sel(z, s, "Epoch").T, AddC(e.sel(z, prev, "Epoch").T, 1)) {
		return "its epoch is not known to be the next one"
	}
	if !st.same(e.sel(z, s, "PreviousEpoch").T, e.sel(z, prev, "Epoch").T) {
		return "its predecessor epoch is not known to be that of the previous root"
	}
	if !st.same(e.sel(z, s, "PreviousSTRHash").T, digestOf(e.sel(z, prev, "Signature").T)) {
		return "it is not known to contain the hash of the previous root's signature"
	}
	return ""
}

func digestOf(ps ...*Term) *Term { return mk(OHash, "Digest", bytesT(), mkCat(bytesT(), ps...)) }

func isDigest(t *Term) ([]*Term, bool) {
	if t.Op == OHash && t.Aux == "Digest" {
		return parts(t.Args[0]), true
	}
	return nil, false
}

func (c *Ctx) rootSame(e *Engine, st *State, a, b V) bool {
	if a.T == b.T {
		return true
	}
	un := func(t *Term) *Term {
		if t.Op == OIface {
			return t.Args[0]
		}
		return t
	}
	if st.posFact(func(f *Term) bool {
		if f.Op == OCall && f.Aux == "reflect.DeepEqual" {
			x, y := un(f.Args[0]), un(f.Args[1])
			return x == a.T && y == b.T || x == b.T && y == a.T
		}
		return false
	}) != nil {
		return true
	}
	z := zeroState
	for _, f := range append(c.strFields(), "Signature") {
		if !st.same(e.sel(z, a, f).T, e.sel(z, b, f).T) {
			return false
		}
	}
	return true
}

// authentic: s is accepted as the successor of prev. Empty when established.
func (c *Ctx) authentic(e *Engine, st *State, prev, s V, key *Term) string {
	if !c.rootSigned(e, st, s, key, true) {
		return "no successful signature check under the pinned key over all of the root's contents"
	}
	return c.rootNext(e, st, prev, s)
}

func (c *Ctx) adopted(e *Engine, st *State, pinned, s V, key *Term) string {
	if c.rootSame(e, st, pinned, s) {
		return ""
	}
	if w := c.authentic(e, st, pinned, s, key); w != "" {
		return "it is not known to be identical to the pinned root, and " + w
	}
	return ""
}

// audState: how the pinned root and key are held.
type audState struct {
	verified, key string
	vkey, skey    string // field keys
}

func (c *Ctx) aud() audState {
	n := c.named("protocol/auditor", "AudState")
	v := c.fieldT(n, "the pinned root", func(t types.Type) bool { return isPtrTo(t, "protocol.DirSTR") })
	k := c.fieldT(n, "the pinned key", func(t types.Type) bool { return typeName(t) == "crypto/sign.PublicKey" })
	return audState{v, k, "protocol/auditor.AudState." + v, "protocol/auditor.AudState." + k}
}

// neighbours: every root of the list from position lo on is authentic with
// respect to the root before it; first is the root before position lo (the
// zero V: the list's own element lo-1).
func (c *Ctx) neighbours(e *Engine, st *State, list V, lo int64, first V, key *Term) string {
	why := ""
	ok := st.forall(lo, mkLen(e.content(st, list.T)), func(s *State, idx *Term) bool {
		prev := first
		if first.T == nil || s.Holds(mkGe0(linAdd(linOf(idx), linConst(lo+1), -1))) {
			prev = e.at(s, list, AddC(idx, -1))
		} else if !s.Holds(EqI(idx, intConst(lo, idx.T))) {
			why = "position unknown"
			return false
		}
		w := c.authentic(e, s, prev, e.at(s, list, idx), key)
		if w != "" {
			why = w
		}
		return w == ""
	})
	if ok {
		return ""
	}
	if why == "" {
		why = "no completed loop covers the whole range"
	}
	return "not every root of the range is checked against its predecessor: " + why
}

// respParts of a decoded response.
func (c *Ctx) respBody(e *Engine, msg V, typ string) V {
	t := ptrTo(c.named("protocol", typ))
	b := e.sel(zeroState, msg, "DirectoryResponse")
	r, _ := e.assertTo(zeroState, b.T, t)
	return V{r, t}
}

func (e *Engine) at0(v V) V { return e.at(zeroState, v, intConst(0, types.Typ[types.Int])) }

// ---------- entry points that can reach a store

// rootsOf: functions from which the targets are reached and that are entry
// points: exported, main/init, used as values, or without callers.
func (c *Ctx) rootsOf(targets map[*ssa.Function]bool) []*ssa.Function {
	rev := c.revCalls()
	reach := c.reaching(targets)
	var r []*ssa.Function
	for _, f := range c.p.Fns {
		if !reach[f] || f.Synthetic != "" {
			continue
		}
		if f.Parent() != nil {
			continue
		}
		exp := f.Object() != nil && f.Object().Exported()
		if exp || len(rev[f]) == 0 {
			r = append(r, f)
		}
	}
	return r
}

func storeFns(ss []Site) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, s := range ss {
		m[s.Fn] = true
	}
	return m
}

// freshBase: the address lies in an object created during the analysed call.
func freshBase(a *Term) bool { return isFreshAddr(rootOf(a)) }

func init() {
	checks["C01"] = propC01
	expl["C01"] = "Every path of the root checks (auditor state, client, audit log) is classified by its result; each accepting path must carry, as established facts, either identity with the pinned root or a successful signature check under the pinned key over all root and policy fields plus the epoch and hash-chain equalities; for ranges the loop summary must establish the same for every neighbouring pair. All writers of the pinned root are enumerated through the call graph and the same facts are required at the write."
	checks["C02"] = propC02
	expl["C02"] = "All paths of the audit log's entry points: writes to a recorded history are allowed only at states where the whole received range is verified; accepting paths must record every root under its own epoch; rejecting paths must not write; the identity and epoch-0 conditions are required at the creation of a history."
	checks["C03"] = propC03
	expl["C03"] = "Every accepting path of the client's response handling and of the proof verifier must carry the VRF verification fact for the requested name and the root's key, the equality of the recomputed root hash with the root's tree hash (recomputation traced through the loop over the pruned tree), and the inclusion or absence obligations."
	checks["C04"] = propC04
	expl["C04"] = "On every accepting path of the client's response handling each combination of request type, status code and proof type outside the allowed table must contradict the path's facts."
	checks["C05"] = propC05
	expl["C05"] = "Every insertion into and removal from the saved promises is located on all paths of the response handling and the facts required by the property must hold there; paths that accept an inclusion proof must have compared a saved promise; all other writers are excluded by enumeration."
	checks["C06"] = propC06
	expl["C06"] = "On all paths: rejecting paths contain no write to recorded bindings or promises; accepting paths record exactly the proven or promised key and only if it is not nil. Writers of the pinned key, bindings and promises are enumerated over the whole repository."
	checks["C07"] = propC07
	expl["C07"] = "Every path that returns one of the verification errors must carry a fact that contradicts the check the error names; a malformed-message result must be impossible for a complete response with an allowed code and proof type."
}

// ---------- C01

func propC01(c *Ctx) {
	a := c.aud()
	ty := "protocol/auditor"
	r1 := c.Rule("adopt", "a root is accepted only if identical to the pinned one or signed, next and chained", 6)
	r2 := c.Rule("range", "every accepted range is authenticated pairwise", 3)
	r3 := c.Rule("pin-writes", "the pinned root is replaced only at states where the new one was accepted", 2)

	// single root
	f := c.method(ty, "AudState", "CheckSTRAgainstVerified")
	e := c.run(f, nil)
	recv := e.arg(0)
	str := e.argOf(ptrTo(c.named("protocol", "DirSTR")), 0)
	key := e.sel(zeroState, recv, a.key).T
	pinned := e.sel(zeroState, recv, a.verified)
	for _, x := range e.Exits {
		if k := x.class(); k == retOK || k == retMaybe {
			w := c.adopted(e, x.St, pinned, str, key)
			r1.check(w == "", "CheckSTRAgainstVerified accepts", x.where(), "accepts a root although %s", w)
		}
	}
	// ranges
	listT := types.NewSlice(ptrTo(c.named("protocol", "DirSTR")))
	f = c.method(ty, "AudState", "VerifySTRRange")
	e = c.run(f, nil)
	recv = e.arg(0)
	key = e.sel(zeroState, recv, a.key).T
	prev := e.argOf(ptrTo(c.named("protocol", "DirSTR")), 0)
	list := e.argOf(listT, 0)
	for _, x := range e.Exits {
		if k := x.class(); k == retOK || k == retMaybe {
			w := c.neighbours(e, x.St, list, 0, prev, key)
			r2.check(w == "", "VerifySTRRange accepts", x.where(), "%s", w)
		}
	}
	f = c.method(ty, "AudState", "AuditDirectory")
	e = c.run(f, nil)
	c.auditOK(r1, r2, e, "AuditDirectory", e.arg(0), e.argOf(listT, 0), a)
	// audit log
	af := c.auditFn()
	e = c.run(af, nil)
	body := c.respBody(e, e.arg(1), "STRHistoryRange")
	c.auditOK(r1, r2, e, "audit log Audit", e.arg(0), e.sel(zeroState, body, "STR"), a)
	// client
	f = c.method("protocol/client", "ConsistencyChecks", "CheckEquivocation")
	e = c.run(f, nil)
	recv = e.arg(0)
	body = c.respBody(e, e.arg(1), "STRHistoryRange")
	list = e.sel(zeroState, body, "STR")
	key = e.sel(zeroState, recv, a.key).T
	pinned = e.sel(zeroState, recv, a.verified)
	for _, x := range e.Exits {
		if k := x.class(); k == retOK || k == retMaybe {
			w := c.neighbours(e, x.St, list, 1, V{}, key)
			r2.check(w == "", "CheckEquivocation accepts", x.where(), "%s", w)
			last := e.at(x.St, list, x.St.normIdx(AddC(mkLen(list.T), -1)))
			w = c.adopted(e, x.St, pinned, last, key)
			r1.check(w == "", "CheckEquivocation accepts", x.where(), "accepts a range whose newest root is not consistent with the pinned one: %s", w)
		}
	}
	q := c.clientQ()
	for _, x := range q.oks() {
		w := c.adopted(q.e, x.St, q.pinned, q.str, q.key)
		r1.check(w == "", "HandleResponse accepts", x.where(), "accepts a response although %s", w)
	}
	// writers
	c.pinWrites(r3, a)
}

func (c *Ctx) auditOK(r1, r2 *Rule, e *Engine, name string, recv, list V, a audState) {
	key := e.sel(zeroState, recv, a.key).T
	pinned := e.sel(zeroState, recv, a.verified)
	for _, x := range e.Exits {
		if k := x.class(); k == retOK || k == retMaybe {
			w := c.rangeVerified(e, x.St, recv, list, a)
			if strings.HasPrefix(w, "not every") {
				r2.fail(name+" accepts", x.where(), "%s", w)
				continue
			}
			r1.check(w == "", name+" accepts", x.where(), "accepts a range although %s", w)
			r2.ok("%s (%s)", name, x.where())
		}
	}
	_, _ = key, pinned
}

// rangeVerified: the oldest root of list is consistent with the pinned one
// and all later ones with their predecessors.
func (c *Ctx) rangeVerified(e *Engine, st *State, recv, list V, a audState) string {
	key := e.sel(zeroState, recv, a.key).T
	pinned := e.sel(zeroState, recv, a.verified)
	why := ""
	if !st.instAt(intConst(0, types.Typ[types.Int]), func(s *State, idx *Term) bool {
		w := c.adopted(e, s, pinned, e.at(s, list, idx), key)
		if w != "" && why == "" {
			why = w
		}
		return w == ""
	}) {
		return "of its oldest root " + why
	}
	return c.neighbours(e, st, list, 1, V{}, key)
}

func (c *Ctx) auditLogTypes() (hist *types.Named, snaps string) {
	l := c.named("protocol/auditlog", "ConiksAuditLog")
	m, ok := l.Underlying().(*types.Map)
	if !ok {
		panic(anchorErr{"ConiksAuditLog is not a map"})
	}
	p, ok := m.Elem().Underlying().(*types.Pointer)
	if !ok {
		panic(anchorErr{"ConiksAuditLog does not hold pointers to histories"})
	}
	hist = p.Elem().(*types.Named)
	snaps = c.fieldT(hist, "the recorded roots", func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isPtrTo(m.Elem(), "protocol.DirSTR")
	})
	return
}

// auditFn: the method of the history type that takes a response.
func (c *Ctx) auditFn() *ssa.Function {
	hist, _ := c.auditLogTypes()
	return c.method("protocol/auditlog", hist.Obj().Name(), "Audit")
}

// pinWrites: all stores to the pinned root field.
func (c *Ctx) pinWrites(r *Rule, a audState) {
	stores := c.fieldStores(a.vkey)
	fns := storeFns(stores)
	upd := c.method("protocol/auditor", "AudState", "Update")
	roots := c.rootsOf(fns)
	pt := ptrTo(c.named("protocol", "DirSTR"))
	for _, f := range roots {
		if f == upd {
			// the setter itself: its callers are the ones that must check
			r.ok("setter %s with %d call sites", fnName(f), len(c.callSites(func(g *ssa.Function) bool { return g == upd })))
			continue
		}
		if f.Name() == "main" || fnPkg(f) == "application/testutil" || isTestHelper(c, f) {
			continue
		}
		// the other entry points are examined themselves, for all arguments
		others := map[*ssa.Function]bool{}
		for _, g := range roots {
			if g != f && g != upd && g.Object() != nil && g.Object().Exported() && !isTestHelper(c, g) {
				others[g] = true
			}
		}
		if !c.reachesAvoidingAll(f, fns, others) || !c.mayReachNonFresh(f, fns) {
			continue
		}
		e := c.runPin(f)
		n := 0
		for _, ev := range e.Log {
			if ev.Kind != "store" || ev.Args[0].Op != OFAddr || ev.Args[0].Aux != a.vkey {
				continue
			}
			if freshBase(ev.Args[0]) {
				r.ok("%s initialises a new state (%s)", fnName(f), ev.Pos)
				continue
			}
			n++
			base := ev.Args[0].Args[0]
			v := V{ev.Args[1], pt}
			aud := V{base, ptrTo(c.named("protocol/auditor", "AudState"))}
			key := e.sel(zeroState, aud, a.key).T
			pinned := e.sel(zeroState, aud, a.verified)
			w := c.adopted(e, ev.St, pinned, v, key)
			if w != "" && v.T.Op == OIdx {
				// an element of a range: the whole range has to be verified
				w = c.rangeVerified(e, ev.St, aud, V{v.T.Args[0], types.NewSlice(pt)}, a)
			}
			r.check(w == "", "pinned root written via "+fnName(f), ev.Pos, "the pinned root is replaced (in %s, reached from %s) although %s", ev.In, fnName(f), w)
		}
		if n == 0 {
			r.ok("%s reaches no write of an existing state", fnName(f))
		}
	}
}

func isTestHelper(c *Ctx, f *ssa.Function) bool {
	p := c.p.Pos(f.Pos())
	return strings.Contains(p, "testutil") || strings.HasSuffix(fnPkg(f), "/tests")
}

// mayReachNonFresh: a cheap filter; the exploration decides.
func (c *Ctx) mayReachNonFresh(f *ssa.Function, fns map[*ssa.Function]bool) bool {
	// a constructor that writes only its own allocation
	if fns[f] {
		all := true
		for _, s := range c.fieldStoresIn(f) {
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				all = false
				continue
			}
			if _, ok := fa.X.(*ssa.Alloc); !ok {
				all = false
			}
		}
		if all {
			calls := false
			c.eachInstr(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range c.p.callees(ci) {
						if fns[g] {
							calls = true
						}
					}
				}
			})
			return calls
		}
	}
	// reaches only constructors?
	seen := map[*ssa.Function]bool{}
	var hit bool
	var w func(g *ssa.Function)
	w = func(g *ssa.Function) {
		if seen[g] || hit {
			return
		}
		seen[g] = true
		if fns[g] {
			for _, s := range c.fieldStoresIn(g) {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if _, ok := fa.X.(*ssa.Alloc); !ok {
						hit = true
					}
				}
			}
		}
		c.eachInstr(g, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, h := range c.p.callees(ci) {
					w(h)
				}
			}
		})
	}
	w(f)
	return hit
}

func (c *Ctx) fieldStoresIn(f *ssa.Function) []*ssa.Store {
	var r []*ssa.Store
	c.eachInstr(f, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok {
			if _, ok := s.Addr.(*ssa.FieldAddr); ok {
				r = append(r, s)
			}
		}
	})
	return r
}

func (c *Ctx) runPin(f *ssa.Function) *Engine {
	switch {
	case f == c.p.Method("protocol/client", "ConsistencyChecks", "HandleResponse"):
		return c.clientQ().e
	}
	return c.run(f, &Opts{Name: "effects", LogCalls: logEffects})
}

func logEffects(ev *Event) bool {
	switch ev.Kind {
	case "store", "mapset", "mapdel":
		return true
	}
	return false
}

// ---------- the client's response handling

type clientQ struct {
	e                             *Engine
	cc, msg, name, key0           V // key0: expected key (may be nil)
	reqType                       *Term
	code                          *Term
	df, ap, str, tb, leaf, pinned V
	key                           *Term // pinned signing key
	useTBs, tbs, bindings         V
	tbField                       string
}

func (c *Ctx) clientQ() *clientQ {
	f := c.method("protocol/client", "ConsistencyChecks", "HandleResponse")
	a := c.aud()
	q := &clientQ{}
	pick := func(e *Engine) {
		q.e = e
		q.cc = e.arg(0)
		q.reqType = e.argOf(types.Typ[types.Int], 0).T
		q.msg = e.argOf(ptrTo(c.named("protocol", "Response")), 0)
		q.name = e.argOf(types.Typ[types.String], 0)
		q.key0 = e.argOf(bytesT(), 0)
		z := zeroState
		q.code = e.sel(z, q.msg, "Error").T
		q.df = c.respBody(e, q.msg, "DirectoryProof")
		q.ap = e.at0(e.sel(z, q.df, "AP"))
		q.str = e.at0(e.sel(z, q.df, "STR"))
		q.tb = e.sel(z, q.df, "TB")
		q.leaf = e.sel(z, q.ap, "Leaf")
		q.pinned = e.sel(z, q.cc, a.verified)
		q.key = e.sel(z, q.cc, a.key).T
		cct := c.named("protocol/client", "ConsistencyChecks")
		q.useTBs = e.sel(z, q.cc, c.fieldT(cct, "the promise switch", func(t types.Type) bool { return isBool(t) }))
		q.tbField = c.fieldT(cct, "the saved promises", func(t types.Type) bool {
			m, ok := t.Underlying().(*types.Map)
			return ok && isPtrTo(m.Elem(), "protocol.TemporaryBinding")
		})
		q.tbs = e.sel(z, q.cc, q.tbField)
		q.bindings = e.sel(z, q.cc, "Bindings")
	}
	o := &Opts{Name: "client", LogCalls: logEffects}
	o.Pre = func(st *State, args []*Term) {
		e := &Engine{p: c.p, o: &Opts{}, root: f, Args: args}
		pick(e)
		// a decoded path has no cached proof type: the field is not decoded
		// and written by the proof type function only (checked in C03)
		st.assume(c.freshProof(e, q.ap))
		if c.tbsAlwaysOn() {
			st.assume(q.useTBs.T)
		}
	}
	e := c.run(f, o)
	pick(e)
	return q
}

// tbsAlwaysOn: the constructor only ever returns states using promises, and
// nothing else writes the switch.
func (c *Ctx) tbsAlwaysOn() bool {
	cct := c.named("protocol/client", "ConsistencyChecks")
	fld := c.fieldT(cct, "the promise switch", func(t types.Type) bool { return isBool(t) })
	key := "protocol/client.ConsistencyChecks." + fld
	nf := c.fn("protocol/client", "New")
	for _, s := range c.fieldStores(key) {
		if s.Fn != nf {
			return false
		}
	}
	e := c.run(nf, nil)
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		v := e.sel(x.St, V{x.Res[0], ptrTo(cct)}, fld)
		if !x.St.Holds(v.T) {
			return false
		}
	}
	return true
}

func (c *Ctx) freshProof(e *Engine, ap V) *Term {
	n := c.named("merkletree", "AuthenticationPath")
	pt := fieldByType(n, func(t types.Type) bool { return typeName(t) == "merkletree.ProofType" })
	if pt == "" {
		return True
	}
	x := e.sel(zeroState, ap, pt)
	return EqI(x.T, intConst(0, x.Ty))
}

func (q *clientQ) oks() []*Exit {
	var r []*Exit
	for _, x := range q.e.Exits {
		if k := x.class(); k == retOK || k == retMaybe {
			r = append(r, x)
		}
	}
	return r
}

// inclusion / absence as determined by the path: 1, -1, 0 unknown.
func (c *Ctx) proofKind(e *Engine, st *State, ap V) int {
	z := zeroState
	l, i := e.sel(z, ap, "LookupIndex").T, e.sel(z, ap, "Leaf.Index").T
	if st.same(l, i) {
		return 1
	}
	if st.differ(l, i) {
		return -1
	}
	return 0
}

// feasible: the path's facts do not contradict the conditions.
func feasible(st *State, cs ...*Term) bool {
	s := st.clone()
	for _, x := range cs {
		if !s.assume(x) {
			return false
		}
	}
	// a second pass: later conditions may contradict earlier ones
	for _, x := range cs {
		if v, ok := s.eval(x); ok && !v {
			return false
		}
	}
	return true
}

// ---------- C03

// proofOK: the authentication path was fully verified for name and (if not
// nil) key against the tree hash.
func (c *Ctx) proofOK(e *Engine, st *State, ap V, name, key, treeHash *Term) string {
	z := zeroState
	leaf := e.sel(z, ap, "Leaf")
	value := e.sel(z, leaf, "Value").T
	if w := c.rootHashFact(e, st, ap, treeHash); w != "" {
		return w
	}
	switch c.proofKind(e, st, ap) {
	case 1:
		if key != nil && !st.same(value, key) {
			return "the value of the proven leaf is not compared with the expected key"
		}
		if w := c.commitmentFact(e, st, leaf, name, value); w != "" {
			return w
		}
		if !st.Holds(mkNot(e.sel(z, leaf, "IsEmpty").T)) {
			return "the proven leaf may be an empty branch"
		}
	case -1:
		li, lo := e.sel(z, leaf, "Index").T, e.sel(z, ap, "LookupIndex").T
		lv := e.sel(z, leaf, "Level").T
		if !st.forall(0, lv, func(s *State, idx *Term) bool {
			return sameBool(s, mkBit(li, idx), mkBit(lo, idx))
		}) {
			return "not every prefix bit of the leaf's index is compared with the proven index"
		}
		if !st.Holds(mkIsNil(value)) && !st.Holds(mkEq0(linOf(mkLen(value)))) {
			return "a proof of absence may carry a value"
		}
	default:
		return "neither inclusion nor absence is established"
	}
	return ""
}

func sameBool(s *State, a, b *Term) bool {
	if s.same(a, b) {
		return true
	}
	return s.Holds(a) && s.Holds(b) || s.Holds(mkNot(a)) && s.Holds(mkNot(b))
}

// commitmentFact: the leaf's commitment opens to (name, value).
func (c *Ctx) commitmentFact(e *Engine, st *State, leaf V, name, value *Term) string {
	z := zeroState
	com := e.sel(z, leaf, "Commitment")
	cv, salt := e.sel(z, com, "Value").T, e.sel(z, com, "Salt").T
	why := "the leaf's commitment is not compared with its opening"
	f := st.posFact(func(t *Term) bool {
		if t.Op != OEq {
			return false
		}
		a, b := t.Args[0], t.Args[1]
		if a != cv {
			a, b = b, a
		}
		if a != cv {
			return false
		}
		ps, ok := isDigest(b)
		if !ok {
			return false
		}
		if len(ps) != 3 || !st.same(ps[0], salt) || strip(ps[1]) != strip(name) || !st.same(strip(ps[2]), strip(value)) {
			why = "the commitment is not opened to exactly (salt, name, value)"
			return false
		}
		return true
	})
	if f == nil {
		return why
	}
	hs := c.constVal("crypto", "HashSizeByte")
	if !st.Holds(EqI(mkLen(salt), intConst(hs, types.Typ[types.Int]))) {
		return "the length of the commitment's salt is not fixed, so the boundary between salt and name is not"
	}
	return ""
}

// rootHashFact: tree hash equals the recomputed root of the path.
func (c *Ctx) rootHashFact(e *Engine, st *State, ap V, treeHash *Term) string {
	why := "the tree hash is not compared with a recomputed root hash"
	f := st.posFact(func(t *Term) bool {
		if t.Op != OEq {
			return false
		}
		a, b := t.Args[0], t.Args[1]
		if a != treeHash {
			a, b = b, a
		}
		if a != treeHash {
			return false
		}
		if w := c.recomputed(e, st, ap, b); w != "" {
			why = w
			return false
		}
		return true
	})
	if f == nil {
		return why
	}
	return ""
}

// recomputed: h is the root hash recomputed from the path: the leaf hash
// combined with the pruned tree's hash of every level from the leaf's level
// up to the root, on the side given by the index bit.
func (c *Ctx) recomputed(e *Engine, st *State, ap V, h *Term) string {
	z := zeroState
	leaf := e.sel(z, ap, "Leaf")
	lv, li := e.sel(z, leaf, "Level").T, e.sel(z, leaf, "Index").T
	pt := e.sel(z, ap, "PrunedTree")
	leafHash := func(s *State, t *Term) string {
		ps, ok := isDigest(t)
		if !ok {
			return "the recomputation does not start from a digest of the leaf"
		}
		m := mkCat(bytesT(), ps...)
		need := []string{"Index", "Level"}
		if !s.Holds(e.sel(z, leaf, "IsEmpty").T) {
			if s.Holds(mkNot(e.sel(z, leaf, "IsEmpty").T)) {
				need = append(need, "Commitment.Value")
			} else {
				return "leaf kind unknown in the leaf hash"
			}
		}
		if !s.carries(m, e.sel(z, ap, "TreeNonce").T) {
			return "the leaf hash does not include the tree nonce"
		}
		for _, f := range need {
			if !s.carries(m, e.sel(z, leaf, f).T) {
				return "the leaf hash does not include the leaf's " + f
			}
		}
		return ""
	}
	if st.Holds(EqI(lv, intConst(0, lv.T))) {
		if _, ok := isDigest(h); ok {
			return leafHash(st, h)
		}
	}
	for n := st.loops; n != nil; n = n.up {
		rec := n.rec
		for _, ph := range rec.Phis {
			if ph.Term != h {
				continue
			}
			if w := leafHash(rec.Base, ph.Init); w != "" {
				return w
			}
			if !st.Holds(mkGe0(linAdd(linOf(rec.IV), linOf(lv), -1))) {
				return "the recomputation does not cover every level of the path"
			}
			for i, alt := range rec.Alts {
				ps, ok := isDigest(ph.Next[i])
				if !ok || len(ps) != 2 {
					return "an interior hash is not the digest of exactly two hashes"
				}
				k := linTerm(linAdd(linAdd(linOf(lv), linOf(rec.IV), -1), linConst(-1), 1), rec.IV.T)
				sib := e.at(alt, pt, k).T
				sibOK := func(t *Term) bool { return t == sib || alt.same(t, sib) }
				bit := mkBit(li, k)
				switch {
				case sibOK(ps[0]) && ps[1] == h:
					if !alt.Holds(bit) {
						return "the sibling is put on the left although the index bit does not say so"
					}
				case ps[0] == h && sibOK(ps[1]):
					if !alt.Holds(mkNot(bit)) {
						return "the sibling is put on the right although the index bit does not say so"
					}
				default:
					return "an interior hash does not combine the running hash with the pruned tree's hash of its level"
				}
			}
			if !st.Holds(mkGe0(linAdd(linOf(lv), linOf(rec.IV), -1))) && len(rec.Alts) > 0 {
				// the loop must also not run past the root
				bounded := true
				for _, alt := range rec.Alts {
					if !alt.Holds(mkGe0(linAdd(linAdd(linOf(lv), linOf(rec.IV), -1), linConst(-1), 1))) {
						bounded = false
					}
				}
				if !bounded {
					return "the recomputation may run past the root"
				}
			}
			return ""
		}
	}
	return "the value compared with the tree hash is not the recomputed root hash"
}

func propC03(c *Ctx) {
	r1 := c.Rule("client-vrf", "an accepted response proved the private index for the requested name under the accepted root's VRF key", 2)
	r2 := c.Rule("client-proof", "an accepted response's authentication path was fully verified for the requested name and key against the accepted root", 2)
	r3 := c.Rule("verify", "the proof verifier accepts only after all of its checks", 1)
	r4 := c.Rule("prooftype", "whether a path proves inclusion is decided by comparing the proven index with the leaf's index, and cached only so", 2)
	q := c.clientQ()
	z := zeroState
	e := q.e
	vk := e.sel(z, q.str, "Policies.VrfPublicKey").T
	lo := e.sel(z, q.ap, "LookupIndex").T
	vp := e.sel(z, q.ap, "VrfProof").T
	th := e.sel(z, q.str, "TreeHash").T
	for _, x := range q.oks() {
		f := x.St.posFact(func(t *Term) bool {
			return t.Op == OCall && t.Aux == "vrf.Verify" && x.St.same(t.Args[0], vk) && strip(t.Args[1]) == q.name.T && x.St.same(t.Args[2], lo) && x.St.same(t.Args[3], vp)
		})
		r1.check(f != nil, "HandleResponse accepts", x.where(), "no successful VRF verification of the returned index for the requested name under the accepted root's key")
		key := q.key0.T
		if x.St.Holds(mkIsNil(key)) {
			key = nil
		} else if !x.St.knownNonNil(key) {
			// covers both cases only if the comparison is unconditional
			if c.proofKind(e, x.St, q.ap) == 1 && !x.St.same(e.sel(z, q.leaf, "Value").T, key) {
				r2.fail("HandleResponse accepts", x.where(), "an expected key may be ignored")
				continue
			}
		}
		w := c.proofOK(e, x.St, q.ap, q.name.T, key, th)
		r2.check(w == "", "HandleResponse accepts", x.where(), "%s", w)
	}
	v, vap := c.verifyRun()
	for _, x := range v.Exits {
		if k := x.class(); k == retOK || k == retMaybe {
			w := c.proofOK(v, x.St, vap, v.arg(1).T, v.arg(2).T, v.arg(3).T)
			r3.check(w == "", "AuthenticationPath.Verify accepts", x.where(), "%s", w)
		}
	}
	c.proofTypeRule(r4)
}

func (c *Ctx) verifyRun() (*Engine, V) {
	f := c.method("merkletree", "AuthenticationPath", "Verify")
	e := c.run(f, &Opts{Name: "fresh", Pre: func(st *State, args []*Term) {
		e := &Engine{p: c.p, o: &Opts{}, root: f, Args: args}
		st.assume(c.freshProof(e, e.arg(0)))
	}})
	return e, e.arg(0)
}

func (c *Ctx) proofTypeRule(r *Rule) {
	f := c.method("merkletree", "AuthenticationPath", "ProofType")
	e := c.run(f, &Opts{Name: "fresh", Pre: func(st *State, args []*Term) {
		e := &Engine{p: c.p, o: &Opts{}, root: f, Args: args}
		st.assume(c.freshProof(e, e.arg(0)))
	}})
	inc, abs := c.constVal("merkletree", "ProofOfInclusion"), c.constVal("merkletree", "ProofOfAbsence")
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		k := c.proofKind(e, x.St, e.arg(0))
		v, ok := codeOf(x.St, x.Res[0])
		good := ok && (k == 1 && v == inc || k == -1 && v == abs)
		r.check(good, "ProofType", x.where(), "the proof type returned does not follow from comparing the two indices (index relation %d, result %v)", k, x.Res[0])
	}
	// writers of the cached type
	n := c.named("merkletree", "AuthenticationPath")
	pt := fieldByType(n, func(t types.Type) bool { return typeName(t) == "merkletree.ProofType" })
	if pt != "" {
		reach := c.reachableFrom(f)
		for _, s := range c.fieldStores("merkletree.AuthenticationPath." + pt) {
			if reach[s.Fn] {
				r.ok("cached type written in %s", fnName(s.Fn))
				continue
			}
			r.fail("cached proof type written in "+fnName(s.Fn), c.pos(s.In), "the cached proof type of a path is written outside the function that derives it from the indices")
		}
		for i := 0; i < n.Underlying().(*types.Struct).NumFields(); i++ {
			fl := n.Underlying().(*types.Struct).Field(i)
			if fl.Name() == pt {
				r.check(!fl.Exported(), "cached proof type", c.p.Pos(fl.Pos()), "the cached proof type is decoded from messages")
			}
		}
	}
}

// ---------- C04

func propC04(c *Ctx) {
	r := c.Rule("code-proof", "each accepting path excludes every combination of request type, code and proof type outside the table", 4)
	r2 := c.Rule("kind", "only directory proofs are accepted as answers to registrations and lookups", 2)
	q := c.clientQ()
	e := q.e
	lk := c.constVal("protocol", "KeyLookupType")
	rg := c.constVal("protocol", "RegistrationType")
	suc, ex, nf := c.constVal("protocol", "ReqSuccess"), c.constVal("protocol", "ReqNameExisted"), c.constVal("protocol", "ReqNameNotFound")
	allowed := func(t, code int64, kind int) bool {
		switch {
		case t == rg && code == suc:
			return kind == -1
		case t == rg && code == ex:
			return true
		case t == lk && code == nf:
			return kind == -1
		case t == lk && code == suc:
			return true
		}
		return false
	}
	_, isDF := e.assertTo(zeroState, e.sel(zeroState, q.msg, "DirectoryResponse").T, ptrTo(c.named("protocol", "DirectoryProof")))
	needSwitch := !c.tbsAlwaysOn()
	for _, x := range q.oks() {
		kind := c.proofKind(e, x.St, q.ap)
		if kind == 0 {
			r.fail("HandleResponse accepts", x.where(), "the proof type is undetermined on an accepting path")
			continue
		}
		r2.check(x.St.Holds(isDF), "HandleResponse accepts", x.where(), "a response of another kind is accepted")
		good := true
		for _, t := range c.reqTypes() {
			if !feasible(x.St, EqI(q.reqType, intConst(t, q.reqType.T))) {
				continue
			}
			if t != lk && t != rg {
				r.fail(fmt.Sprintf("HandleResponse accepts type %d", t), x.where(), "a response to request type %d is accepted", t)
				good = false
				continue
			}
			for _, code := range c.allCodes() {
				if !feasible(x.St, EqI(q.reqType, intConst(t, q.reqType.T)), EqI(q.code, intConst(code, q.code.T))) {
					continue
				}
				if !allowed(t, code, kind) {
					r.fail(fmt.Sprintf("HandleResponse accepts type %d code %d kind %d", t, code, kind), x.where(), "code %d is accepted for request type %d with a proof of %s", code, t, kindName(kind))
					good = false
				}
				if needSwitch && kind == -1 && (t == rg && code == ex || t == lk && code == suc) && !x.St.Holds(q.useTBs.T) {
					r.fail(fmt.Sprintf("HandleResponse accepts type %d code %d without promises", t, code), x.where(), "accepted with a proof of absence although promises may not be in use")
					good = false
				}
			}
			// any other code
			var cs []*Term
			cs = append(cs, EqI(q.reqType, intConst(t, q.reqType.T)))
			for _, code := range c.allCodes() {
				cs = append(cs, mkNot(EqI(q.code, intConst(code, q.code.T))))
			}
			if feasible(x.St, cs...) {
				r.fail(fmt.Sprintf("HandleResponse accepts type %d unknown code", t), x.where(), "a response with an undefined code is accepted for request type %d", t)
				good = false
			}
		}
		if good {
			r.ok("HandleResponse %s kind=%s", x.where(), kindName(kind))
		}
	}
}

func kindName(k int) string {
	if k == 1 {
		return "inclusion"
	}
	return "absence"
}

// reqTypes: all request type constants, and one undefined value.
func (c *Ctx) reqTypes() []int64 {
	var r []int64
	for _, n := range []string{"RegistrationType", "KeyLookupType", "KeyLookupInEpochType", "MonitoringType", "AuditType", "STRType"} {
		r = append(r, c.constVal("protocol", n))
	}
	return append(r, 1000)
}

// allCodes: every constant of type ErrorCode.
func (c *Ctx) allCodes() []int64 {
	sp := c.p.SPkgs["protocol"]
	seen := map[int64]bool{}
	var r []int64
	sc := sp.Pkg.Scope()
	for _, n := range sc.Names() {
		if o, ok := sc.Lookup(n).(*types.Const); ok && typeName(o.Type()) == "protocol.ErrorCode" {
			v := c.constVal("protocol", n)
			if !seen[v] {
				seen[v] = true
				r = append(r, v)
			}
		}
	}
	if len(r) < 10 {
		panic(anchorErr{"the protocol's status codes"})
	}
	return r
}

// ---------- C05

func (c *Ctx) isMapOf(e *Engine, m *Term, q *clientQ, field string) bool {
	want := e.sel(zeroState, q.cc, field).T
	return m == want || m.Op == OFVal && m.Aux == want.Aux || strings.HasPrefix(m.Aux, want.Aux+"@")
}

func propC05(c *Ctx) {
	r1 := c.Rule("store", "a promise is saved only after its signature, index and value were checked against the accepted root", 1)
	r2 := c.Rule("drop", "a promise is dropped only on a matching proof of inclusion", 1)
	r3 := c.Rule("due", "an accepted proof of inclusion was compared with the saved promise", 1)
	r4 := c.Rule("kept", "an accepted answer that proves absence with a promise saves it", 1)
	q := c.clientQ()
	e, z := q.e, zeroState
	idx := e.sel(z, q.ap, "LookupIndex").T
	tbT := q.tb.Ty
	name := q.name.T
	promiseOK := func(st *State) string {
		if !st.knownNonNil(q.tb.T) {
			return "the promise may be missing"
		}
		if c.proofKind(e, st, q.ap) != -1 {
			return "the response is not known to prove absence"
		}
		if !st.sigFact(true, q.key, e.sel(z, q.tb, "Signature").T, func(m *Term) bool {
			for _, t := range []*Term{e.sel(z, q.str, "Signature").T, e.sel(z, q.tb, "Index").T, e.sel(z, q.tb, "Value").T} {
				if !st.carries(m, t) {
					return false
				}
			}
			return true
		}) {
			return "no successful check of the promise's signature under the pinned key over the accepted root's signature, index and value"
		}
		if !st.same(e.sel(z, q.tb, "Index").T, idx) {
			return "the promise's index is not compared with the proven index"
		}
		if !st.Holds(mkIsNil(q.key0.T)) && !st.same(e.sel(z, q.tb, "Value").T, q.key0.T) {
			return "the promised key is not compared with the expected key"
		}
		return ""
	}
	saved := func(st *State) (V, *Term) {
		has, get := e.mapEntry(q.tbs, name)
		return V{get, tbT}, has
	}
	for _, ev := range e.Log {
		if (ev.Kind != "mapset" && ev.Kind != "mapdel") || !isTBMap(ev, tbT, q) {
			continue
		}
		if ev.Kind == "mapset" {
			w := promiseOK(ev.St)
			if w == "" && ev.Args[2] != q.tb.T {
				w = "what is saved is not the returned promise"
			}
			if w == "" && ev.Args[1] != name {
				w = "it is saved under another name"
			}
			r1.check(w == "", "promise saved in "+ev.In, ev.Pos, "a promise is saved although %s", w)
			continue
		}
		w := ""
		if c.proofKind(e, ev.St, q.ap) != 1 {
			w = "the response is not known to prove inclusion"
		} else if ev.Args[1] != name {
			w = "another name's promise is dropped"
		} else if w2 := c.promiseKept(e, ev.St, q, saved); w2 != "" {
			w = w2
		}
		r2.check(w == "", "promise dropped in "+ev.In, ev.Pos, "a saved promise is dropped although %s", w)
	}
	lk := c.constVal("protocol", "KeyLookupType")
	nf := c.constVal("protocol", "ReqNameNotFound")
	for _, x := range q.oks() {
		switch c.proofKind(e, x.St, q.ap) {
		case 1:
			if feasible(x.St, EqI(q.reqType, intConst(lk, q.reqType.T))) {
				w := c.promiseKept(e, x.St, q, saved)
				r3.check(w == "", "HandleResponse accepts inclusion", x.where(), "a proof of inclusion is accepted although %s", w)
			}
		case -1:
			if !feasible(x.St, mkNot(EqI(q.code, intConst(nf, q.code.T)))) {
				continue
			}
			ok := false
			for _, ev := range x.St.eventsOf("mapset") {
				if isTBMap(ev, tbT, q) && ev.Args[2] == q.tb.T && ev.Args[1] == name {
					ok = true
				}
			}
			r4.check(ok, "HandleResponse accepts absence", x.where(), "an answer with a proof of absence and a promise is accepted without saving the promise")
		}
	}
	c.mapWriters(r1, "protocol/client.ConsistencyChecks."+q.tbField, "saved promises")
}

func isTBMap(ev *Event, tbT types.Type, q *clientQ) bool {
	m := ev.Args[0]
	return m == q.tbs.T || m.Op == OFVal && strings.HasPrefix(m.Aux, q.tbs.T.Aux)
}

// mapEntry: presence and value of a map's initial entry.
func (e *Engine) mapEntry(m V, k *Term) (has, get *Term) {
	mt := m.Ty.Underlying().(*types.Map)
	g, h := e.mapTerms(newState(), m.T, k, mt)
	return h, g
}

func (c *Ctx) promiseKept(e *Engine, st *State, q *clientQ, saved func(*State) (V, *Term)) string {
	tb, has := saved(st)
	if st.Holds(mkNot(has)) || st.knownNil(tb.T) {
		return ""
	}
	z := zeroState
	if !st.same(e.sel(z, tb, "Index").T, e.sel(z, q.ap, "LookupIndex").T) {
		return "a saved promise's index is not compared with the proven index"
	}
	if !st.same(e.sel(z, tb, "Value").T, e.sel(z, q.leaf, "Value").T) {
		return "a saved promise's value is not compared with the proven value"
	}
	return ""
}

// mapWriters: updates of the map held in a field happen only in functions
// reachable from the response handling (whose paths are examined) or on
// fresh objects; the field itself is assigned at construction only.
func (c *Ctx) mapWriters(r *Rule, field, what string) {
	hr := c.method("protocol/client", "ConsistencyChecks", "HandleResponse")
	fns := map[*ssa.Function]bool{}
	for _, f := range c.p.Fns {
		c.eachInstr(f, func(in ssa.Instruction) {
			var m ssa.Value
			switch x := in.(type) {
			case *ssa.MapUpdate:
				m = x.Map
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					m = x.Call.Args[0]
				}
			}
			if m == nil {
				return
			}
			if u, ok := m.(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && structKey(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) == field {
					fns[f] = true
					c.sites[c.pos(in)] = true
				}
			}
		})
	}
	for _, f := range c.rootsOf(fns) {
		if f == hr || isTestHelper(c, f) {
			continue
		}
		// every path into the writers must go through HandleResponse
		if !c.reachesAvoiding(f, fns, hr) {
			continue
		}
		r.fail(what+" written via "+fnName(f), c.p.Pos(f.Pos()), "the client's %s are changed outside the response handling, by %s", what, fnName(f))
	}
	r.ok("%d functions update the %s", len(fns), what)
	for _, s := range c.fieldStores(field) {
		if c.freshStore(s) {
			r.ok("%s set at construction in %s", what, fnName(s.Fn))
			continue
		}
		r.fail(what+" replaced in "+fnName(s.Fn), c.pos(s.In), "the client's %s are replaced outside the construction", what)
	}
}

func (c *Ctx) reachesAvoiding(f *ssa.Function, targets map[*ssa.Function]bool, avoid *ssa.Function) bool {
	return c.reachesAvoidingAll(f, targets, map[*ssa.Function]bool{avoid: true})
}

func (c *Ctx) reachesAvoidingAll(f *ssa.Function, targets, avoid map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	for g := range avoid {
		seen[g] = true
	}
	q := []*ssa.Function{f}
	for len(q) > 0 {
		g := q[0]
		q = q[1:]
		if seen[g] {
			continue
		}
		seen[g] = true
		if targets[g] {
			return true
		}
		c.eachInstr(g, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				q = append(q, c.p.callees(ci)...)
			}
			for _, op := range in.Operands(nil) {
				if h, ok := (*op).(*ssa.Function); ok {
					q = append(q, h)
				}
			}
		})
	}
	return false
}

// freshStore: the store initialises an object allocated in the same function,
// or in every caller of a helper it is handed to.
func (c *Ctx) freshStore(s Site) bool {
	st, ok := s.In.(*ssa.Store)
	return ok && c.freshBase(s.Fn, st.Addr, 4)
}

func (c *Ctx) freshBase(fn *ssa.Function, a ssa.Value, depth int) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
			continue
		case *ssa.IndexAddr:
			a = x.X
			continue
		case *ssa.Alloc:
			return true
		case *ssa.Parameter:
			i := -1
			for j, p := range fn.Params {
				if p == x {
					i = j
				}
			}
			if depth == 0 || i < 0 || c.usedAsValue(fn) {
				return false
			}
			n := 0
			for _, s := range c.callSites(func(g *ssa.Function) bool { return g == fn }) {
				cc := s.In.(ssa.CallInstruction).Common()
				if cc.StaticCallee() != fn || i >= len(cc.Args) || !c.freshBase(s.Fn, cc.Args[i], depth-1) {
					return false
				}
				n++
			}
			return n > 0
		}
		return false
	}
}

// usedAsValue: the function occurs other than as the callee of a call.
func (c *Ctx) usedAsValue(f *ssa.Function) bool {
	r := f.Referrers()
	if r != nil {
		return true
	}
	used := false
	for _, fn := range c.p.Fns {
		c.eachInstr(fn, func(in ssa.Instruction) {
			for i, o := range in.Operands(nil) {
				if *o != nil && *o == ssa.Value(f) {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || i != 0 || ci.Common().Value != ssa.Value(f) {
						used = true
					}
				}
			}
		})
	}
	return used
}

// ---------- C06

func propC06(c *Ctx) {
	r1 := c.Rule("rejected", "a rejected response changes no recorded binding and no saved promise", 10)
	r2 := c.Rule("recorded", "the recorded key is the one the response proved or promised, and not empty", 1)
	r3 := c.Rule("writers", "bindings, promises and the pinned key have no other writers", 3)
	r4 := c.Rule("must-record", "an accepted answer that proves or promises a key records it", 1)
	q := c.clientQ()
	e, z := q.e, zeroState
	isBind := func(m *Term) bool {
		return m == q.bindings.T || m.Op == OFVal && strings.HasPrefix(m.Aux, q.bindings.T.Aux)
	}
	nf := c.constVal("protocol", "ReqNameNotFound")
	proven := func(st *State) *Term {
		switch c.proofKind(e, st, q.ap) {
		case 1:
			return e.sel(z, q.leaf, "Value").T
		case -1:
			return e.sel(z, q.tb, "Value").T
		}
		return nil
	}
	for _, x := range q.e.Exits {
		switch x.class() {
		case retErr, retMaybe:
			bad := ""
			for _, ev := range x.St.allEvents() {
				if (ev.Kind == "mapset" || ev.Kind == "mapdel") && (isBind(ev.Args[0]) || isTBMap(ev.Event, q.tb.Ty, q)) {
					bad = ev.Pos
				}
			}
			r1.check(bad == "", "HandleResponse rejects", x.where(), "a response is rejected after the bindings or promises were changed at %s", bad)
		}
		if k := x.class(); k == retErr || k == retOther {
			continue
		}
		var sets []*Event
		for _, ev := range x.St.eventsOf("mapset") {
			if isBind(ev.Args[0]) {
				sets = append(sets, ev)
			}
		}
		for _, ev := range x.St.eventsOf("mapdel") {
			if isBind(ev.Args[0]) {
				r2.fail("binding deleted in "+ev.In, ev.Pos, "a recorded binding is deleted")
			}
		}
		p := proven(x.St)
		if len(sets) == 0 {
			// only allowed when there is no key to record
			notFound := !feasible(x.St, mkNot(EqI(q.code, intConst(nf, q.code.T))))
			good := notFound || p != nil && (x.St.knownNil(p) || x.St.Holds(mkEq0(linOf(mkLen(p))))) || x.St.knownNil(q.tb.T) && c.proofKind(e, x.St, q.ap) == -1
			r4.check(good, "HandleResponse accepts without recording", x.where(), "an accepted answer with a proven or promised key records no binding")
			continue
		}
		for _, ev := range sets {
			switch {
			case p == nil || !x.St.same(ev.Args[2], p):
				r2.fail("binding recorded in "+ev.In, ev.Pos, "the recorded key (%v) is not the one proven or promised", ev.Args[2])
			case ev.Args[1] != q.name.T:
				r2.fail("binding recorded in "+ev.In, ev.Pos, "recorded under another name")
			case !x.St.knownNonNil(ev.Args[2]) && !x.St.Holds(mkNot(mkEq0(linOf(mkLen(ev.Args[2]))))):
				r2.fail("binding recorded in "+ev.In, ev.Pos, "the recorded key may be empty")
			default:
				r2.ok("%s %s", ev.Pos, x.where())
			}
		}
	}
	c.mapWriters(r3, "protocol/client.ConsistencyChecks.Bindings", "recorded bindings")
	c.mapWriters(r3, "protocol/client.ConsistencyChecks."+q.tbField, "saved promises")
	a := c.aud()
	for _, s := range c.fieldStores(a.skey) {
		r3.check(c.freshStore(s), "pinned key written in "+fnName(s.Fn), c.pos(s.In), "the pinned signing key is changed after construction")
	}
	c.pinWrites(r3, a)
}

// ---------- C07

func propC07(c *Ctx) {
	r := c.Rule("named-check", "a verification error is returned only on paths where the named check is known to have failed", 9)
	rm := c.Rule("malformed", "a complete response with an allowed code and proof type is never refused as malformed", 2)
	rr := c.Rule("results", "errors returned are the protocol's codes", 4)
	q := c.clientQ()
	e, z := q.e, zeroState
	code := func(n string) int64 { return c.constVal("protocol", n) }
	leaf := q.leaf
	value := e.sel(z, leaf, "Value").T
	lookup := e.sel(z, q.ap, "LookupIndex").T
	tbIdx, tbVal := e.sel(z, q.tb, "Index").T, e.sel(z, q.tb, "Value").T
	name := q.name.T
	has, get := e.mapEntry(q.tbs, name)
	saved := V{get, q.tb.Ty}

	badSTR := func(e *Engine, st *State, pinned, s V) bool { return c.rootRefuted(e, st, pinned, s) }
	cond := func(k int64, st *State) (string, bool) {
		switch k {
		case code("CheckBadSignature"):
			return "signature", c.rootSigned(e, st, q.str, q.key, false) || st.sigFact(false, q.key, e.sel(z, q.tb, "Signature").T, nil)
		case code("CheckBadVRFProof"):
			vk := e.sel(z, q.str, "Policies.VrfPublicKey").T
			return "index proof", st.negFact(func(t *Term) bool {
				return t.Op == OCall && t.Aux == "vrf.Verify" && st.same(t.Args[0], vk) && strip(t.Args[1]) == name && st.same(t.Args[2], lookup) && st.same(t.Args[3], e.sel(z, q.ap, "VrfProof").T)
			}) != nil
		case code("CheckBindingsDiffer"):
			k := c.proofKind(e, st, q.ap)
			return "equality of bindings", k == 1 && st.differ(value, q.key0.T) || k == -1 && st.knownNonNil(value) || k == -1 && st.knownNonNil(q.key0.T) && st.differ(tbVal, q.key0.T)
		case code("CheckBadCommitment"):
			return "commitment", c.commitmentRefuted(e, st, leaf, name)
		case code("CheckBadLookupIndex"):
			return "index match", c.indexRefuted(e, st, q.ap)
		case code("CheckBadAuthPath"):
			return "authentication path", c.pathRefuted(e, st, q.ap, e.sel(z, q.str, "TreeHash").T)
		case code("CheckBadSTR"):
			return "root consistency", badSTR(e, st, q.pinned, q.str)
		case code("CheckBadPromise"):
			return "promise", st.knownNil(q.tb.T) || st.differ(tbIdx, lookup)
		case code("CheckBrokenPromise"):
			return "kept promise", st.Holds(has) && c.proofKind(e, st, q.ap) == 1 && (st.differ(e.sel(z, saved, "Index").T, lookup) || st.differ(e.sel(z, saved, "Value").T, value))
		}
		return "", false
	}
	seen := map[int64]int{}
	mal := code("ErrMalformedMessage")
	for _, x := range e.Exits {
		if x.class() != retErr {
			continue
		}
		for _, ec := range x.errCases() {
			st, t := ec.St, ec.Err
			if c.isServerCode(e, st, t, q.msg) {
				rr.ok("the response's own code (%s)", x.where())
				continue
			}
			k, ok := codeOf(st, t)
			if !ok {
				rr.fail("HandleResponse returns", x.where(), "an error that is not one of the protocol's codes: %v", t)
				continue
			}
			seen[k]++
			if k == mal {
				w := c.malformedJustified(q, st)
				rm.check(w == "", "HandleResponse refuses as malformed", x.where(), "%s", w)
				continue
			}
			what, okc := cond(k, st)
			if what == "" {
				rr.fail(fmt.Sprintf("HandleResponse returns %d", k), x.where(), "code %d is not the name of a check", k)
				continue
			}
			r.check(okc, fmt.Sprintf("HandleResponse returns %d (%s)", k, what), x.where(), "this error is returned on a path where the %s check is not known to have failed", what)
		}
	}
	for _, n := range []string{"CheckBadSignature", "CheckBadVRFProof", "CheckBindingsDiffer", "CheckBadCommitment", "CheckBadLookupIndex", "CheckBadAuthPath", "CheckBadSTR", "CheckBadPromise", "CheckBrokenPromise"} {
		r.check(seen[code(n)] > 0, "HandleResponse can report "+n, "", "no path reports %s", n)
	}
	// the auditing entry points
	c.auditErrors(r, rr)
}

// isServerCode: the error is the code carried by the response itself, known
// to be classified as an error.
func (c *Ctx) isServerCode(e *Engine, st *State, t *Term, msg V) bool {
	code := e.sel(zeroState, msg, "Error").T
	if t.Op == OIface && t.Args[0] == code {
		return true
	}
	if t.Op == OIface {
		if k, ok := t.Args[0].Int(); ok && k != c.constVal("protocol", "ErrMalformedMessage") {
			return st.Holds(EqI(code, intConst(k, code.T)))
		}
		if k, ok := t.Args[0].Int(); ok && st.Holds(EqI(code, intConst(k, code.T))) {
			return true
		}
	}
	return false
}

// rootRefuted: s is known not to be acceptable with respect to the pinned root.
func (c *Ctx) rootRefuted(e *Engine, st *State, pinned, s V) bool {
	z := zeroState
	ep, pe := e.sel(z, s, "Epoch").T, e.sel(z, pinned, "Epoch").T
	notSameEpoch := st.differ(ep, pe)
	notNext := st.differ(ep, AddC(pe, 1))
	if notSameEpoch && notNext {
		return true
	}
	un := func(t *Term) *Term {
		if t.Op == OIface {
			return t.Args[0]
		}
		return t
	}
	unequal := st.negFact(func(t *Term) bool {
		if t.Op == OCall && t.Aux == "reflect.DeepEqual" {
			x, y := un(t.Args[0]), un(t.Args[1])
			return x == pinned.T && y == s.T || x == s.T && y == pinned.T
		}
		return false
	}) != nil
	if !unequal {
		for _, f := range append(c.strFields(), "Signature") {
			if st.differ(e.sel(z, pinned, f).T, e.sel(z, s, f).T) {
				unequal = true
			}
		}
	}
	unchained := notNext || st.differ(e.sel(z, s, "PreviousEpoch").T, pe) ||
		st.differ(e.sel(z, s, "PreviousSTRHash").T, digestOf(e.sel(z, pinned, "Signature").T))
	return unequal && unchained
}

func (c *Ctx) unchained(e *Engine, st *State, prev, s V) bool {
	z := zeroState
	return st.differ(e.sel(z, s, "Epoch").T, AddC(e.sel(z, prev, "Epoch").T, 1)) ||
		st.differ(e.sel(z, s, "PreviousEpoch").T, e.sel(z, prev, "Epoch").T) ||
		st.differ(e.sel(z, s, "PreviousSTRHash").T, digestOf(e.sel(z, prev, "Signature").T))
}

func (c *Ctx) commitmentRefuted(e *Engine, st *State, leaf V, name *Term) bool {
	z := zeroState
	com := e.sel(z, leaf, "Commitment")
	if st.knownNil(com.T) || st.Holds(e.sel(z, leaf, "IsEmpty").T) {
		return true
	}
	salt, cv := e.sel(z, com, "Salt").T, e.sel(z, com, "Value").T
	hs := c.constVal("crypto", "HashSizeByte")
	if st.Holds(mkNot(EqI(mkLen(salt), intConst(hs, types.Typ[types.Int])))) {
		return true
	}
	return st.negFact(func(t *Term) bool {
		if t.Op != OEq {
			return false
		}
		a, b := t.Args[0], t.Args[1]
		if a != cv {
			a, b = b, a
		}
		ps, ok := isDigest(b)
		return a == cv && ok && len(ps) == 3 && st.same(ps[0], salt) && strip(ps[1]) == strip(name) && st.same(strip(ps[2]), e.sel(z, leaf, "Value").T)
	}) != nil
}

func (c *Ctx) indexRefuted(e *Engine, st *State, ap V) bool {
	z := zeroState
	leaf := e.sel(z, ap, "Leaf")
	li, lo := e.sel(z, leaf, "Index").T, e.sel(z, ap, "LookupIndex").T
	lv := e.sel(z, leaf, "Level").T
	// a differing prefix bit
	f := func(t *Term, val bool) bool {
		var a, b *Term
		switch t.Op {
		case OEq:
			if val {
				return false
			}
			a, b = t.Args[0], t.Args[1]
		case OBit:
			// one bit known true, the other known false
			if !val {
				return false
			}
			k := t.Args[1]
			for _, o := range []*Term{mkBit(li, k), mkBit(lo, k)} {
				if o != t && st.Holds(mkNot(o)) && (t.Args[0] == li || t.Args[0] == lo) && st.Holds(mkGe0(linOf(k))) && st.Holds(mkGe0(linAdd(linAdd(linOf(lv), linOf(k), -1), linConst(-1), 1))) {
					return true
				}
			}
			return false
		default:
			return false
		}
		if a.Op != OBit || b.Op != OBit || a.Args[1] != b.Args[1] {
			return false
		}
		if !(a.Args[0] == li && b.Args[0] == lo || a.Args[0] == lo && b.Args[0] == li) {
			return false
		}
		k := a.Args[1]
		return st.Holds(mkGe0(linOf(k))) && st.Holds(mkGe0(linAdd(linAdd(linOf(lv), linOf(k), -1), linConst(-1), 1)))
	}
	for n := st.facts; n != nil; n = n.up {
		if f(n.atom, n.val) {
			return true
		}
	}
	// shapes no honest proof has
	if st.Holds(mkNot(mkGe0(linAdd(linScale(linOf(mkLen(lo)), 8), linOf(lv), -1)))) {
		return true
	}
	empty := e.sel(z, leaf, "IsEmpty").T
	if st.Holds(mkNot(empty)) && st.Holds(mkNot(EqI(mkLen(li), mkLen(lo)))) {
		return true
	}
	if st.Holds(empty) {
		return st.negFact(func(t *Term) bool {
			return t.Op == OEq0 && t.mentions(mkLen(li)) && t.mentions(lv)
		}) != nil
	}
	return false
}

func (c *Ctx) pathRefuted(e *Engine, st *State, ap V, treeHash *Term) bool {
	z := zeroState
	leaf := e.sel(z, ap, "Leaf")
	lv := e.sel(z, leaf, "Level").T
	if st.knownNil(leaf.T) {
		return true
	}
	if st.Holds(mkNot(mkGe0(linAdd(linOf(mkLen(e.sel(z, ap, "PrunedTree").T)), linOf(lv), -1)))) {
		return true
	}
	return st.negFact(func(t *Term) bool {
		if t.Op != OEq {
			return false
		}
		a, b := t.Args[0], t.Args[1]
		if a != treeHash {
			a, b = b, a
		}
		return a == treeHash && c.recomputed(e, st, ap, b) == ""
	}) != nil
}

// malformedJustified: with all parts present, one path, one root and an
// allowed combination of code and proof, the path must be impossible.
func (c *Ctx) malformedJustified(q *clientQ, st *State) string {
	e, z := q.e, zeroState
	rg, lk := c.constVal("protocol", "RegistrationType"), c.constVal("protocol", "KeyLookupType")
	suc, ex, nf := c.constVal("protocol", "ReqSuccess"), c.constVal("protocol", "ReqNameExisted"), c.constVal("protocol", "ReqNameNotFound")
	_, isDF := e.assertTo(z, e.sel(z, q.msg, "DirectoryResponse").T, ptrTo(c.named("protocol", "DirectoryProof")))
	apS, strS := e.sel(z, q.df, "AP").T, e.sel(z, q.df, "STR").T
	one := intConst(1, types.Typ[types.Int])
	inc := mkEq(e.sel(z, q.ap, "LookupIndex").T, e.sel(z, q.leaf, "Index").T)
	base := []*Term{
		isDF, mkNot(mkIsNil(e.sel(z, q.msg, "DirectoryResponse").T)), mkNot(mkIsNil(q.df.T)),
		EqI(mkLen(apS), one), EqI(mkLen(strS), one),
		mkNot(mkIsNil(q.ap.T)), mkNot(mkIsNil(q.leaf.T)), mkNot(mkIsNil(q.str.T)),
		mkNot(mkIsNil(e.sel(z, q.str, "SignedTreeRoot").T)), mkNot(mkIsNil(e.sel(z, q.str, "Policies").T)),
	}
	for _, combo := range []struct {
		t, code int64
		inc     bool
	}{{rg, suc, false}, {rg, ex, true}, {rg, ex, false}, {lk, nf, false}, {lk, suc, true}, {lk, suc, false}} {
		cs := append([]*Term{EqI(q.reqType, intConst(combo.t, q.reqType.T)), EqI(q.code, intConst(combo.code, q.code.T))}, base...)
		if combo.inc {
			cs = append(cs, inc)
		} else {
			cs = append(cs, mkNot(inc))
		}
		s := st.clone()
		ok := true
		for _, x := range cs {
			if !s.assume(x) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		// instantiate iteration counters the lengths determine
		for round := 0; round < 3 && ok; round++ {
			ivs := map[*Term]bool{}
			for n := s.facts; n != nil; n = n.up {
				anySub(n.atom, func(t *Term) bool {
					if t.Op == OIV {
						ivs[t] = true
					}
					return false
				})
			}
			for iv := range ivs {
				for k := int64(0); k <= 1; k++ {
					v := intConst(k, iv.T)
					if s.Holds(EqI(iv, v)) {
						if s2 := s.at(iv, v); s2 == nil {
							ok = false
						} else {
							s = s2
						}
						break
					}
				}
				if !ok {
					break
				}
			}
		}
		for _, x := range cs {
			if v, k := s.eval(x); k && !v {
				ok = false
			}
		}
		if ok {
			return fmt.Sprintf("a complete response of type %d with code %d (inclusion=%v) can be refused as malformed here", combo.t, combo.code, combo.inc)
		}
	}
	return ""
}

// auditErrors: the same for the auditing functions.
func (c *Ctx) auditErrors(r, rr *Rule) {
	a := c.aud()
	listT := types.NewSlice(ptrTo(c.named("protocol", "DirSTR")))
	strT := ptrTo(c.named("protocol", "DirSTR"))
	sigCode, strCode, mal := c.constVal("protocol", "CheckBadSignature"), c.constVal("protocol", "CheckBadSTR"), c.constVal("protocol", "ErrMalformedMessage")
	type entry struct {
		name string
		e    *Engine
		list V
		one  V
		prev V
		msg  V
	}
	var es []entry
	e := c.run(c.method("protocol/auditor", "AudState", "CheckSTRAgainstVerified"), nil)
	es = append(es, entry{name: "CheckSTRAgainstVerified", e: e, one: e.argOf(strT, 0)})
	e = c.run(c.method("protocol/auditor", "AudState", "VerifySTRRange"), nil)
	es = append(es, entry{name: "VerifySTRRange", e: e, list: e.argOf(listT, 0), prev: e.argOf(strT, 0)})
	e = c.run(c.method("protocol/auditor", "AudState", "AuditDirectory"), nil)
	es = append(es, entry{name: "AuditDirectory", e: e, list: e.argOf(listT, 0)})
	e = c.run(c.auditFn(), nil)
	es = append(es, entry{name: "Audit", e: e, list: e.sel(zeroState, c.respBody(e, e.arg(1), "STRHistoryRange"), "STR"), msg: e.arg(1)})
	e = c.run(c.method("protocol/client", "ConsistencyChecks", "CheckEquivocation"), nil)
	es = append(es, entry{name: "CheckEquivocation", e: e, list: e.sel(zeroState, c.respBody(e, e.arg(1), "STRHistoryRange"), "STR"), msg: e.arg(1)})
	for _, en := range es {
		e := en.e
		recv := e.arg(0)
		key := e.sel(zeroState, recv, a.key).T
		pinned := e.sel(zeroState, recv, a.verified)
		for _, x := range e.Exits {
			if x.class() != retErr {
				continue
			}
			for _, ec := range x.errCases() {
				st := ec.St
				if en.msg.T != nil && c.isServerCode(e, st, ec.Err, en.msg) {
					continue
				}
				k, ok := codeOf(st, ec.Err)
				if !ok {
					rr.fail(en.name+" returns", x.where(), "an error that is not one of the protocol's codes: %v", ec.Err)
					continue
				}
				switch k {
				case mal:
					rr.check(c.rangeMalformed(e, st, en.list, en.msg), en.name+" refuses as malformed", x.where(), "a complete, non-empty range can be refused as malformed here")
					continue
				case sigCode, strCode:
				default:
					rr.fail(fmt.Sprintf("%s returns %d", en.name, k), x.where(), "code %d is not the name of a check made here", k)
					continue
				}
				good := false
				var cands [][2]V
				if en.one.T != nil {
					cands = append(cands, [2]V{pinned, en.one})
				} else {
					for _, s := range rootTerms(st, en.list.T) {
						sv := V{s, strT}
						cands = append(cands, [2]V{pinned, sv})
						if en.prev.T != nil {
							cands = append(cands, [2]V{en.prev, sv})
						}
						i := AddC(s.Args[1], -1)
						cands = append(cands, [2]V{e.at(st, en.list, i), sv})
					}
				}
				for _, cd := range cands {
					if k == sigCode {
						good = good || c.rootSigned(e, st, cd[1], key, false)
						continue
					}
					if cd[0].T == pinned.T {
						good = good || c.rootRefuted(e, st, cd[0], cd[1])
					} else if en.prev.T == nil || cd[0].T != en.prev.T {
						good = good || c.unchained(e, st, cd[0], cd[1])
					} else {
						good = good || c.unchained(e, st, cd[0], cd[1])
					}
					if !good && k == strCode {
						good = c.lagRefuted(e, st, cd[1])
					}
				}
				r.check(good, fmt.Sprintf("%s returns %d", en.name, k), x.where(), "this error is returned on a path where the named check is not known to have failed")
			}
		}
	}
}

// lagRefuted: the root is known not to continue the root handled one
// iteration before.
func (c *Ctx) lagRefuted(e *Engine, st *State, s V) bool {
	lags := map[*Term]bool{}
	for n := st.facts; n != nil; n = n.up {
		anySub(n.atom, func(t *Term) bool {
			if t.Op == OLag {
				lags[t] = true
			}
			return false
		})
	}
	for l := range lags {
		if c.unchained(e, st, V{l, s.Ty}, s) {
			return true
		}
	}
	return false
}

// rootTerms: the list elements the facts talk about.
func rootTerms(st *State, list *Term) []*Term {
	m := map[*Term]bool{}
	var r []*Term
	for n := st.facts; n != nil; n = n.up {
		anySub(n.atom, func(t *Term) bool {
			if t.Op == OIdx && t.Args[0] == list && !m[t] {
				m[t] = true
				r = append(r, t)
			}
			return false
		})
	}
	return r
}

// rangeMalformed: the path knows of a missing part or an empty range.
func (c *Ctx) rangeMalformed(e *Engine, st *State, list, msg V) bool {
	if list.T != nil && st.Holds(mkEq0(linOf(mkLen(list.T)))) {
		return true
	}
	if list.T != nil {
		for _, s := range rootTerms(st, list.T) {
			v := V{s, ptrTo(c.named("protocol", "DirSTR"))}
			if st.knownNil(s) || st.knownNil(e.sel(zeroState, v, "SignedTreeRoot").T) || st.knownNil(e.sel(zeroState, v, "Policies").T) {
				return true
			}
		}
	}
	if msg.T != nil {
		b := e.sel(zeroState, msg, "DirectoryResponse").T
		body := c.respBody(e, msg, "STRHistoryRange")
		_, is := e.assertTo(zeroState, b, body.Ty)
		if st.knownNil(b) || st.Holds(mkNot(is)) || st.knownNil(body.T) {
			return true
		}
		// another kind of body
		if st.posFact(func(t *Term) bool { return t.Op == OTypeIs && t.Args[0] == b && t.Aux != is.Aux }) != nil {
			return true
		}
		code := e.sel(zeroState, msg, "Error").T
		return st.Holds(EqI(code, intConst(c.constVal("protocol", "ErrMalformedMessage"), code.T)))
	}
	return false
}
