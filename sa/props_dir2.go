package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C11: ranges

// elems applies f to every element of a list, at a symbolic position and in
// the state in which it was added.
func (e *Engine) elems(st *State, list V, f func(s *State, pos *Term, el V) string) string {
	c := e.content(st, list.T)
	et := list.Ty.Underlying().(*types.Slice).Elem()
	off := intConst(0, types.Typ[types.Int])
	var walk func(c *Term) string
	walk = func(c *Term) string {
		if st.Holds(EqI(mkLen(c), intConst(0, types.Typ[types.Int]))) {
			return ""
		}
		switch c.Op {
		case ONil:
			return ""
		case OZero:
			if n, ok := mkLen(c).Int(); ok && n == 0 {
				return ""
			}
		case OCat:
			for _, a := range c.Args {
				if w := walk(a); w != "" {
					return w
				}
			}
			return ""
		case OElem:
			w := f(st, off, V{c.Args[0], et})
			off = AddC(off, 1)
			return w
		case OAcc:
			if w := walk(c.Args[0]); w != "" {
				return w
			}
			seg, iv := c.Args[1], c.Args[2]
			if seg.Op == OCat && len(seg.Args) == 1 {
				seg = seg.Args[0]
			}
			if seg.Op != OElem {
				return "an iteration adds more than one element"
			}
			for n := st.loops; n != nil; n = n.up {
				if n.rec.IV != iv {
					continue
				}
				for i, alt := range n.rec.Alts {
					el := n.rec.elemOf(c, seg.Args[0], i)
					for _, s := range iterStates(n.rec, alt) {
						if w := f(s, Add(off, iv), V{el, et}); w != "" {
							return w
						}
					}
				}
				off = Add(off, iv)
				return ""
			}
		}
		// filled position by position
		n := mkLen(c)
		w := ""
		ok := st.forall(0, n, func(s *State, idx *Term) bool {
			v := V{s.elemOr(e, c, idx, et), et}
			w2 := f(s, Add(off, idx), v)
			if w2 != "" {
				w = w2
			}
			return w2 == ""
		})
		off = Add(off, n)
		if !ok && w == "" {
			w = "its elements are not known"
		}
		return w
	}
	return walk(c)
}

// elemOf: the element the i-th alternative appends to the list acc.
func (rec *LoopRec) elemOf(acc, el *Term, i int) *Term {
	if !isMixed(acc.Args[1]) {
		return el
	}
	for _, ph := range rec.Phis {
		if i >= len(ph.Next) || ph.Next[i] == nil {
			continue
		}
		n := ph.Next[i]
		if n.Op == OUpd && ph.Class == "fill" && ph.Term.Args[1] == acc {
			return n.Args[2]
		}
		if ph.Term == acc && n.Op == OCat {
			if l := n.Args[len(n.Args)-1]; l.Op == OElem {
				return l.Args[0]
			}
		}
	}
	return el
}

func (s *State) elemOr(e *Engine, c, idx *Term, et types.Type) *Term {
	return mkIdx(e.content(s, c), idx, et)
}

// rootAt: v is the root the dictionary holds for epoch ep; has tells whether
// the path found it in the table.
func (d *dirT) rootAt(e *Engine, st *State, pad V, ep *Term, v *Term) string {
	_, get := e.mapEntry(e.sel(zeroState, pad, d.snaps), ep)
	has, _ := e.mapEntry(e.sel(zeroState, pad, d.snaps), ep)
	le := e.sel(zeroState, pad, d.latest+".Epoch").T
	latest := e.sel(zeroState, pad, d.latest).T
	switch {
	case st.same(v, latest):
		if !st.Holds(mkGe0(linAdd(linOf(ep), linOf(le), -1))) {
			return "the latest root is used for an epoch not known to be the latest"
		}
		return ""
	case st.same(v, get):
		return ""
	case (v.Op == ONil || st.knownNil(v)) && st.Holds(mkNot(has)):
		return ""
	}
	return "the root is not the one recorded for its epoch"
}

// absent: the path found that a root is missing.
func (d *dirT) absent(st *State, e *Engine, pad V) bool {
	m := e.sel(zeroState, pad, d.snaps)
	is := func(t *Term) bool { return len(t.Args) > 0 && sameMap(t.Args[0], m.T) }
	return st.negFact(func(t *Term) bool { return t.Op == OMapHas && is(t) }) != nil ||
		st.posFact(func(t *Term) bool { return t.Op == OIsNil && t.Args[0].Op == OMapGet && is(t.Args[0]) }) != nil
}

func leq(a, b *Term) *Term { return mkGe0(linAdd(linOf(b), linOf(a), -1)) }
func less(a, b *Term) *Term {
	return mkGe0(linAdd(linAdd(linOf(b), linOf(a), -1), linConst(-1), 1))
}

// covers: a list of length n that starts at epoch start ends at the smaller
// of end and latest.
func covers(st *State, n, start, end, latest *Term) bool {
	last := AddC(Add(start, n), -1)
	if end == nil {
		return st.Holds(EqI(last, latest))
	}
	return st.Holds(EqI(last, end)) && st.Holds(leq(end, latest)) || st.Holds(EqI(last, latest)) && st.Holds(leq(latest, end))
}

func propC11(c *Ctx) {
	rc := c.Rule("complete", "the answer covers the requested range, clipped to the latest epoch: one element per epoch, in order", 4)
	re := c.Rule("elements", "every element of an answer is the root of, or the proof from, its epoch", 6)
	rr := c.Rule("refused", "exactly the malformed requests are refused as malformed", 8)
	rx := c.Rule("unavailable", "what cannot be served is answered by the matching code, without proofs", 4)
	rn := c.Rule("no-effect", "answering changes nothing", 4)
	d := c.dir()
	z := zeroState
	succ, nf, mal, edir := c.constVal("protocol", "ReqSuccess"), c.constVal("protocol", "ReqNameNotFound"), c.constVal("protocol", "ErrMalformedMessage"), c.constVal("protocol", "ErrDirectory")
	unk := c.constVal("protocol", "ReqUnknownDirectory")
	for _, h := range []struct{ fn, req, start, end, name string }{
		{"KeyLookupInEpoch", "KeyLookupInEpochRequest", "Epoch", "", "Username"},
		{"Monitor", "MonitoringRequest", "StartEpoch", "EndEpoch", "Username"},
		{"GetSTRHistory", "STRHistoryRequest", "StartEpoch", "EndEpoch", ""},
	} {
		f := c.method("protocol/directory", "ConiksDirectory", h.fn)
		e := c.run(f, d.opts("dir"))
		recv := e.arg(0)
		pad := e.sel(z, recv, d.pad)
		latest := e.sel(z, pad, d.latest+".Epoch").T
		req := e.argOf(ptrTo(c.named("protocol", h.req)), 0)
		start := e.sel(z, req, h.start).T
		var end, name *Term
		if h.end != "" {
			end = e.sel(z, req, h.end).T
		}
		if h.name != "" {
			name = e.sel(z, req, h.name).T
		}
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			r := c.response(e, x)
			st := x.St
			for _, ev := range outerEffects(st) {
				rn.fail(h.fn, ev.Pos, "answering %s changes data", h.req)
			}
			rn.ok("%s (%s)", h.fn, x.where())
			if !r.known {
				rr.fail(h.fn, x.where(), "%s answers with an unknown code", h.fn)
				continue
			}
			well := st.Holds(leq(start, latest)) && (end == nil || st.Holds(leq(start, end))) && (name == nil || nonEmpty(st, name))
			ill := st.Holds(less(latest, start)) || end != nil && st.Holds(less(end, start)) || name != nil && isEmptySeq(st, name)
			switch r.code {
			case mal:
				rr.check(ill, h.fn+" malformed", x.where(), "%s refuses a request as malformed that is not known to be malformed", h.fn)
				rx.check(r.body == nil, h.fn+" malformed", x.where(), "%s answers a malformed request with a proof", h.fn)
			case edir:
				rr.check(well, h.fn+" fails", x.where(), "%s reports a failure for a request not known to be well-formed", h.fn)
				rx.check(r.body == nil && d.absent(st, e, pad), h.fn+" fails", x.where(), "%s reports a failure although no root is known to be missing", h.fn)
			case succ, nf:
				rr.check(well, h.fn+" answers", x.where(), "%s answers a request not known to be well-formed", h.fn)
				bt := "protocol.DirectoryProof"
				if name == nil {
					bt = "protocol.STRHistoryRange"
				}
				if r.body == nil || r.bodyTy == nil || !isPtrTo(r.bodyTy, bt) {
					rc.fail(h.fn+" answers", x.where(), "%s answers successfully without a %s", h.fn, bt)
					continue
				}
				body := V{r.body, r.bodyTy}
				strs := e.sel(st, body, "STR")
				n := mkLen(e.content(st, strs.T))
				rc.check(covers(st, n, start, end, latest), h.fn+" roots", x.where(), "%s answers with roots that are not known to cover exactly the requested range", h.fn)
				w := e.elems(st, strs, func(s *State, pos *Term, el V) string {
					if el.T.Op == ONil {
						return "a root is missing"
					}
					rt := e.sel(s, el, "SignedTreeRoot")
					if w := d.rootAt(e, s, pad, Add(start, pos), rt.T); w != "" {
						return w
					}
					if rt.T.Op == ONil {
						return "a root is missing"
					}
					return c.rootView(e, s, el, rt)
				})
				re.check(w == "", h.fn+" roots", x.where(), "%s answers with a wrong root: %s", h.fn, w)
				if name == nil {
					continue
				}
				aps := e.sel(st, body, "AP")
				proof := func(s *State, pos *Term, el V) string {
					// the proof's tree is the one of its epoch's root
					for _, l := range d.lookups(s) {
						if l.ap != el.T {
							continue
						}
						ep := Add(start, pos)
						_, get := e.mapEntry(e.sel(z, pad, d.snaps), ep)
						t := e.sel(z, V{get, ptrTo(d.STR)}, d.stree).T
						if !s.same(l.tree, t) {
							if !s.Holds(leq(latest, ep)) {
								return "the proof is not taken from its epoch's snapshot"
							}
							t = e.sel(z, pad, d.latest+"."+d.stree).T
						}
						return d.proofOf(e, s, el, pad, t, name)
					}
					return "the proof is not the result of a search in a snapshot"
				}
				if h.end == "" {
					ap, ok := e.single(st, aps)
					w := "there is not exactly one proof"
					if ok {
						w = proof(st, intConst(0, start.T), ap)
					}
					re.check(w == "", h.fn+" proof", x.where(), "%s answers with a wrong proof: %s", h.fn, w)
					if ok {
						li, idx := e.sel(st, ap, "Leaf.Index").T, d.index(e, pad, name)
						if r.code == succ {
							re.check(st.same(li, idx), h.fn+" success", x.where(), "%s answers success for a name not known to be in the snapshot", h.fn)
						} else {
							re.check(st.differ(li, idx), h.fn+" not found", x.where(), "%s answers not-found for a name not known to be absent from the snapshot", h.fn)
						}
					}
				} else {
					rc.check(st.same(mkLen(e.content(st, aps.T)), n), h.fn+" proofs", x.where(), "%s does not answer with one proof per root", h.fn)
					w := e.elems(st, aps, proof)
					re.check(w == "", h.fn+" proofs", x.where(), "%s answers with a wrong proof: %s", h.fn, w)
					re.check(r.code == succ, h.fn+" answers", x.where(), "%s answers with code %d", h.fn, r.code)
				}
			default:
				rr.fail(h.fn, x.where(), "%s answers with code %d", h.fn, r.code)
			}
		}
	}
	// the auditor
	hist, snaps := c.auditLogTypes()
	a := c.aud()
	f := c.method("protocol/auditlog", "ConiksAuditLog", "GetObservedSTRs")
	e := c.run(f, nil)
	log := e.arg(0)
	req := e.argOf(ptrTo(c.named("protocol", "AuditingRequest")), 0)
	has, get := e.mapEntry(log, e.sel(z, req, "DirInitSTRHash").T)
	hv := V{get, ptrTo(hist)}
	latest := e.sel(z, hv, a.verified+".Epoch").T
	sm := e.sel(z, hv, snaps)
	start, end := e.sel(z, req, "StartEpoch").T, e.sel(z, req, "EndEpoch").T
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		r := c.response(e, x)
		st := x.St
		for _, ev := range outerEffects(st) {
			rn.fail("GetObservedSTRs", ev.Pos, "answering an auditing request changes data")
		}
		rn.ok("GetObservedSTRs (%s)", x.where())
		if !r.known {
			rr.fail("GetObservedSTRs", x.where(), "GetObservedSTRs answers with an unknown code")
			continue
		}
		switch r.code {
		case unk:
			rx.check(r.body == nil && st.Holds(mkNot(has)), "GetObservedSTRs unknown", x.where(), "a directory is reported as unknown although it is not known to be missing from the log")
		case mal:
			ill := st.Holds(less(latest, end)) || st.Holds(less(end, start))
			rr.check(ill && r.body == nil, "GetObservedSTRs malformed", x.where(), "an auditing request is refused as malformed that is not known to be malformed")
		case succ:
			rr.check(st.Holds(leq(start, end)) && st.Holds(leq(start, latest)), "GetObservedSTRs answers", x.where(), "an auditing request is answered that is not known to be well-formed")
			if r.body == nil || r.bodyTy == nil || !isPtrTo(r.bodyTy, "protocol.STRHistoryRange") {
				rc.fail("GetObservedSTRs answers", x.where(), "an auditing request is answered successfully without a range of roots")
				continue
			}
			strs := e.sel(st, V{r.body, r.bodyTy}, "STR")
			rc.check(covers(st, mkLen(e.content(st, strs.T)), start, end, latest), "GetObservedSTRs roots", x.where(), "the roots answered are not known to cover exactly the requested range")
			w := e.elems(st, strs, func(s *State, pos *Term, el V) string {
				h2, g := e.mapEntry(sm, Add(start, pos))
				if s.same(el.T, g) || el.T.Op == ONil && s.Holds(mkNot(h2)) {
					return ""
				}
				if s.same(el.T, e.sel(z, hv, a.verified).T) && s.Holds(EqI(Add(start, pos), latest)) {
					return ""
				}
				return "it is " + el.T.String()
			})
			re.check(w == "", "GetObservedSTRs roots", x.where(), "a root is answered that is not the one recorded for its epoch: %s", w)
		default:
			rx.check(r.body == nil && r.code >= 100, "GetObservedSTRs", x.where(), "GetObservedSTRs answers with code %d", r.code)
		}
	}
}

// ---------- C12: issuing

// issued checks that the exit's latest root extends prev (the zero V: there is
// none).
func (d *dirT) issued(e *Engine, st *State, pad V, prev V, tree, sk, ad *Term, fn string) string {
	c := d.c
	L := e.sel(st, pad, d.latest)
	if L.T.Op != OAlloc {
		return "the latest root is not a newly issued one"
	}
	ep := e.sel(st, L, "Epoch").T
	if prev.T == nil {
		if !st.Holds(EqI(ep, intConst(0, ep.T))) {
			return "its epoch is not 0"
		}
	} else {
		if !st.same(ep, AddC(e.sel(zeroState, prev, "Epoch").T, 1)) {
			return "its epoch does not follow the previous root's epoch"
		}
		if !st.same(e.sel(st, L, "PreviousEpoch").T, e.sel(zeroState, prev, "Epoch").T) {
			return "it does not name the previous root's epoch as its predecessor"
		}
		if !st.same(e.sel(st, L, "PreviousSTRHash").T, digestOf(e.sel(zeroState, prev, "Signature").T)) {
			return "it does not contain the hash of the previous root's signature"
		}
	}
	if w := d.treeHash(e, st, e.sel(st, L, "TreeHash").T, tree); w != "" {
		return w
	}
	if t := e.sel(st, L, d.stree).T; t.Op != OAlloc || t == tree {
		return "its snapshot is not a copy of the tree"
	}
	if v := e.sel(st, L, "Ad").T; !st.same(v, ad) {
		return "its policies are not those announced before: " + v.String()
	}
	sig := e.sel(st, L, "Signature").T
	if sig.Op != OCall || sig.Aux != "sign.Sign" || !st.same(sig.Args[0], sk) {
		return "it is not signed with the directory's key"
	}
	polT := types.NewPointer(c.named("protocol", "Policies"))
	for _, f := range c.strFields() {
		var v *Term
		if len(f) > 9 && f[:9] == "Policies." {
			p, _ := e.assertTo(st, ad, polT)
			v = e.sel(st, V{p, polT}, f[9:]).T
		} else {
			v = e.sel(st, L, f).T
		}
		if f == "PreviousEpoch" && prev.T == nil {
			continue
		}
		if !st.carries(sig.Args[1], v) {
			return "its signature does not cover " + f
		}
	}
	return ""
}

// treeHash: h is the hash of the given tree, computed on this path, and the
// tree's nodes were not changed afterwards.
func (d *dirT) treeHash(e *Engine, st *State, h, tree *Term) string {
	root := d.c.fieldT(d.MT, "the root node", func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		_, ok = p.Elem().Underlying().(*types.Struct)
		return ok
	})
	found := ""
	for _, ev := range st.Events() {
		if found == "" {
			f, ok := ev.Fn.(*ssa.Function)
			if !ok || ev.Kind != "call" && ev.Kind != "ret" || ev.Res == nil || ev.Res != h || len(ev.Args) != 2 {
				continue
			}
			rt := e.sel(ev.stateOr(st), V{tree, ptrTo(d.MT)}, root)
			if f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), rt.Ty) && ev.Args[1] == tree && (ev.Args[0] == rt.T) {
				found = ev.Pos
			}
			continue
		}
		// afterwards
		if ev.Kind == "store" && ev.Args[0].Op == OFAddr && !freshBase(ev.Args[0]) {
			o := fieldOwner(ev.Args[0].Aux)
			if o != typeName(d.MT) && o != typeName(d.PAD) {
				return "the tree is changed after its hash was computed (" + ev.Pos + ")"
			}
		}
		if ev.Kind == "call" && ev.Fn == d.set {
			return "the tree is changed after its hash was computed (" + ev.Pos + ")"
		}
	}
	if found == "" {
		return "its tree hash is not the hash of the current tree, computed for this root"
	}
	return ""
}

func (ev *Event) stateOr(st *State) *State {
	if ev.St != nil {
		return ev.St
	}
	return st
}

func propC12(c *Ctx) {
	ri := c.Rule("issue", "every issued root extends the latest one by one epoch, is signed over all contents and becomes the latest", 2)
	rp := c.Rule("policies-kept", "policies given with an update take effect with the next root", 1)
	rd := c.Rule("directory", "the directory issues roots with its own keys and policies", 2)
	rw := c.Rule("writers", "the latest root and the contents of roots are written only when a root is issued", 2)
	d := c.dir()
	z := zeroState
	polT := types.NewPointer(c.named("protocol", "Policies"))
	// later roots
	uf := c.method("merkletree", "PAD", "Update")
	e := c.run(uf, d.opts("pad"))
	recv := e.arg(0)
	adArg := e.argOf(c.named("merkletree", "AssocData"), 0).T
	prev := e.sel(z, recv, d.latest)
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		w := d.issued(e, x.St, recv, prev, e.sel(z, recv, d.tree).T, e.sel(z, recv, d.sk).T, e.sel(z, recv, d.ad).T, "Update")
		ri.check(w == "", "Update issues", x.where(), "the root issued by an update is wrong: %s", w)
		v := e.sel(x.St, recv, d.ad).T
		ok := x.St.same(v, adArg) || x.St.knownNil(adArg) && x.St.same(v, e.sel(z, recv, d.ad).T)
		rp.check(ok, "Update's policies", x.where(), "an update leaves other policies for the next root than the given ones")
	}
	// the first root
	nf := c.fn("merkletree", "NewPAD")
	o := d.opts("pad")
	o.Pre = func(st *State, args []*Term) {
		for _, a := range args {
			if a.T != nil && typeName(a.T) == "merkletree.AssocData" {
				st.assume(typeIs(a, polT))
			}
		}
	}
	e = c.run(nf, o)
	ad := e.argOf(c.named("merkletree", "AssocData"), 0).T
	sk := e.argOf(c.named("crypto/sign", "PrivateKey"), 0).T
	vk := e.argOf(c.named("crypto/vrf", "PrivateKey"), 0).T
	for _, x := range e.Exits {
		if x.class() != retOK {
			continue
		}
		pad := V{x.Res[0], ptrTo(d.PAD)}
		w := d.issued(e, x.St, pad, V{}, e.sel(x.St, pad, d.tree).T, sk, ad, "NewPAD")
		ri.check(w == "", "NewPAD issues", x.where(), "the first root is wrong: %s", w)
		rd.check(x.St.same(e.sel(x.St, pad, d.sk).T, sk) && x.St.same(e.sel(x.St, pad, d.vk).T, vk) && x.St.same(e.sel(x.St, pad, d.ad).T, ad), "NewPAD keeps its keys", x.where(), "a dictionary does not keep the keys and policies it was created with")
	}
	// the directory
	df := c.method("protocol/directory", "ConiksDirectory", "Update")
	e = c.run(df, d.opts("dir"))
	pol := e.sel(z, e.arg(0), d.pol).T
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		n := 0
		ok := true
		for _, ev := range x.St.allEvents() {
			if ev.Kind == "call" && ev.Fn == uf {
				n++
				a := ev.Args[1]
				if a.Op == OIface {
					a = a.Args[0]
				}
				ok = ok && ev.rec == nil && x.St.same(a, pol) && ev.Args[0] == e.sel(z, e.arg(0), d.pad).T
			}
		}
		rd.check(n == 1 && ok, "directory Update", x.where(), "an update of the directory does not issue exactly one root (%d) with the directory's policies for the next one", n)
	}
	newf := c.fn("protocol/directory", "New")
	e = c.run(newf, &Opts{Name: "new"})
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		dv := V{x.Res[0], ptrTo(d.D)}
		pad := e.sel(x.St, dv, d.pad)
		sk, vk := e.argOf(c.named("crypto/sign", "PrivateKey"), 0).T, e.argOf(c.named("crypto/vrf", "PrivateKey"), 0).T
		ok := x.St.same(e.sel(x.St, pad, d.sk).T, sk) && x.St.same(e.sel(x.St, pad, d.vk).T, vk)
		rd.check(ok, "New's keys", x.where(), "a new directory does not use the keys it was given")
		p := e.sel(x.St, dv, d.pol)
		a := e.sel(x.St, pad, d.ad).T
		if a.Op == OIface {
			a = a.Args[0]
		}
		rd.check(a == p.T, "New's policies", x.where(), "a new directory's roots do not announce its policies")
		ok = x.St.same(e.sel(x.St, p, "VrfPublicKey").T, mk(OCall, "vrf.Public", nil, vk)) &&
			x.St.same(e.sel(x.St, p, "EpochDeadline").T, e.arg(0).T)
		rd.check(ok, "New's policies' contents", x.where(), "a new directory's policies do not announce its epoch deadline and the public part of its VRF key")
	}
	// writers
	targets := storeFns(c.fieldStores(typeName(d.PAD) + "." + d.latest))
	rw.ok("%d functions write the latest root", len(targets))
	for _, f := range c.rootsOf(targets) {
		if f == uf || f == nf || isTestHelper(c, f) {
			continue
		}
		if c.reachesAvoidingAll(f, targets, map[*ssa.Function]bool{uf: true, nf: true}) {
			rw.fail("latest root via "+fnName(f), c.p.Pos(f.Pos()), "%s replaces the latest root without issuing a new one by an update", fnName(f))
		}
	}
	c.rootsImmutable(rw)
	for _, fld := range []string{d.sk, d.vk} {
		for _, s := range c.fieldStores(typeName(d.PAD) + "." + fld) {
			rw.check(c.freshStore(s), "key "+fld+" in "+fnName(s.Fn), c.pos(s.In), "the dictionary's key is replaced after construction")
		}
	}
	d.policiesOnly(c)
}

// rootsImmutable: fields of roots and policies are written at construction only.
func (c *Ctx) rootsImmutable(r *Rule) {
	for _, n := range []*types.Named{c.named("merkletree", "SignedTreeRoot"), c.named("protocol", "Policies"), c.named("protocol", "DirSTR"), c.named("protocol", "TemporaryBinding")} {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			for _, s := range c.fieldStores(typeName(n) + "." + st.Field(i).Name()) {
				if isTestHelper(c, s.Fn) {
					continue
				}
				r.check(c.freshStore(s), "field "+st.Field(i).Name()+" of "+typeName(n)+" in "+fnName(s.Fn), c.pos(s.In), "a field of an existing %s is changed", typeName(n))
			}
		}
	}
}

// ---------- C13: snapshots

func propC13(c *Ctx) {
	ru := c.Rule("recorded", "every update records the new snapshot under its own epoch, in the table and in the list", 2)
	rd := c.Rule("dropped", "snapshots are dropped only when the list is full, oldest first, and together with their list entry", 1)
	rc := c.Rule("capacity", "the list keeps the configured capacity", 1)
	rg := c.Rule("access", "an epoch at or beyond the latest gets the latest root, an earlier one the root recorded for it or none", 4)
	rw := c.Rule("writers", "the snapshots and the list of epochs are changed by updates only", 1)
	d := c.dir()
	z := zeroState
	uf := c.method("merkletree", "PAD", "Update")
	e := c.run(uf, d.opts("pad"))
	recv := e.arg(0)
	sm, eps := e.sel(z, recv, d.snaps), e.sel(z, recv, d.eps)
	isS := func(ev *Event) bool { return sameMap(ev.Args[0], sm.T) }
	full := func(st *State) bool {
		n, cp := mkLen(eps.T), mk(OCap, "", types.Typ[types.Int], eps.T)
		return st.Holds(leq(cp, n))
	}
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		L := e.sel(st, recv, d.latest)
		ep := e.sel(st, L, "Epoch").T
		set, lastBad := 0, ""
		dels := 0
		var hi *Term // entries [0,hi) removed
		hi = intConst(0, types.Typ[types.Int])
		w := ""
		for _, ev := range st.Events() {
			switch ev.Kind {
			case "mapset":
				if isS(ev) {
					set++
					if !st.same(ev.Args[1], ep) || ev.Args[2] != L.T {
						lastBad = ev.Pos
					}
				}
			case "mapdel":
				if isS(ev) {
					dels++
					if set > 0 {
						w = "an entry is removed after the new one was recorded"
					}
					if !st.same(ev.Args[1], mkIdx(eps.T, hi, types.Typ[types.Uint64])) {
						w = "the entry removed is not the oldest one"
					}
					hi = AddC(hi, 1)
				}
			case "loop":
				was := dels
				for _, a := range ev.Loop.Alts {
					k := 0
					for _, ev2 := range a.EventsSince(ev.Loop.Base) {
						if ev2.Kind == "mapset" && isS(ev2) {
							w = "entries are recorded in a loop"
						}
						if ev2.Kind == "mapdel" && isS(ev2) {
							k++
							dels++
							// forwards or backwards
							fw := a.same(ev2.Args[1], mkIdx(eps.T, Add(hi, ev.Loop.IV), types.Typ[types.Uint64]))
							bw := a.same(ev2.Args[1], mkIdx(eps.T, Add(hi, backwards(st, ev.Loop, ev2.Args[1], hi)), types.Typ[types.Uint64]))
							if k > 1 || !fw && !bw {
								w = "the entries removed are not the oldest ones: " + ev2.Args[1].String()
							}
						}
					}
					if k == 0 && len(ev.Loop.Alts) > 1 {
						w = "an iteration removes nothing"
					}
				}
				if dels > was {
					hi = Add(hi, ev.Loop.IV)
				}
			}
		}
		ru.check(set == 1 && lastBad == "", "Update records", x.where(), "an update does not record exactly the new root under its own epoch")
		// the list
		list := e.content(st, e.sel(st, recv, d.eps).T)
		want := mkCat(eps.Ty, mkSub(eps.T, hi, mkLen(eps.T), eps.Ty), mk(OElem, "", types.Typ[types.Uint64], ep))
		if dels == 0 {
			want = mkCat(eps.Ty, eps.T, mk(OElem, "", types.Typ[types.Uint64], ep))
		}
		okList := d.movedList(e, st, list, eps.T, hi, ep) || d.sameList(e, st, list, eps.T, hi, ep, dels > 0)
		ru.check(okList, "Update's list", x.where(), "the list of loaded epochs does not change together with the snapshots: it becomes %v, expected %v", list, want)
		if dels > 0 {
			rd.check(w == "", "Update drops", x.where(), "%s", w)
			rd.check(full(st), "Update drops when full", x.where(), "snapshots are dropped although the configured number is not known to be reached")
		}
	}
	// capacity
	for _, s := range c.fieldStores(typeName(d.PAD) + "." + d.eps) {
		st, ok := s.In.(*ssa.Store)
		if !ok || isTestHelper(c, s.Fn) {
			continue
		}
		w := d.capKept(st.Val, s, nil, 0)
		rc.check(w == "", "list of epochs in "+fnName(s.Fn)+" "+d.shape(st.Val), c.pos(s.In), "the capacity of the list of loaded epochs is not kept at the configured number: %s", w)
	}
	nf := c.fn("merkletree", "NewPAD")
	o := d.opts("pad")
	polT := types.NewPointer(c.named("protocol", "Policies"))
	o.Pre = func(st *State, args []*Term) {
		for _, a := range args {
			if a.T != nil && typeName(a.T) == "merkletree.AssocData" {
				st.assume(typeIs(a, polT))
			}
		}
	}
	e = c.run(nf, o)
	for _, x := range e.Exits {
		if x.class() != retOK {
			continue
		}
		pad := V{x.Res[0], ptrTo(d.PAD)}
		m := e.sel(x.St, pad, d.snaps).T
		L := e.sel(x.St, pad, d.latest).T
		ep := e.sel(x.St, e.sel(x.St, pad, d.latest), "Epoch").T
		n, ok := 0, true
		for _, ev := range x.St.allEvents() {
			if ev.Kind == "mapset" && ev.Args[0] == m {
				n++
				ok = ok && x.St.same(ev.Args[1], ep) && ev.Args[2] == L
			}
		}
		list := e.content(x.St, e.sel(x.St, pad, d.eps).T)
		lok := list.Op == OCat && len(list.Args) == 1 && list.Args[0].Op == OElem && x.St.same(list.Args[0].Args[0], ep)
		ru.check(n == 1 && ok && lok, "NewPAD records", x.where(), "a new dictionary does not record exactly its first root, in table and list: %v", list)
	}
	// access
	gf := c.method("merkletree", "PAD", "GetSTR")
	e = c.run(gf, d.opts("pad"))
	pad := e.arg(0)
	ep := e.argOf(types.Typ[types.Uint64], 0).T
	le := e.sel(z, pad, d.latest+".Epoch").T
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		w := d.rootAt(e, x.St, pad, ep, x.Res[0])
		if w == "" && !x.St.same(x.Res[0], e.sel(z, pad, d.latest).T) && !x.St.Holds(less(ep, le)) {
			w = "a request at or beyond the latest epoch may not get the latest root"
		}
		rg.check(w == "", "GetSTR", x.where(), "%s", w)
	}
	for _, fn := range []string{"LookupInEpoch", "Lookup"} {
		lf := c.method("merkletree", "PAD", fn)
		e = c.run(lf, d.opts("pad"))
		pad = e.arg(0)
		name := e.argOf(types.Typ[types.String], 0).T
		le = e.sel(z, pad, d.latest+".Epoch").T
		ep := le
		if fn == "LookupInEpoch" {
			ep = e.argOf(types.Typ[types.Uint64], 0).T
		}
		apT := ptrTo(c.named("merkletree", "AuthenticationPath"))
		for _, x := range e.Exits {
			switch x.class() {
			case retErr:
				rg.check(d.absent(x.St, e, pad) && x.Res[0].Op == ONil, fn+" fails", x.where(), "a lookup fails although the snapshot is not known to be missing")
			case retOK:
				_, get := e.mapEntry(e.sel(z, pad, d.snaps), ep)
				t := e.sel(z, V{get, ptrTo(d.STR)}, d.stree).T
				if x.St.Holds(leq(le, ep)) {
					t = e.sel(z, pad, d.latest+"."+d.stree).T
				}
				w := d.proofOf(e, x.St, V{x.Res[0], apT}, pad, t, name)
				rg.check(w == "", fn+" answers", x.where(), "a lookup in an epoch does not answer from that epoch's snapshot: %s", w)
			case retMaybe:
				rg.fail(fn+" answers", x.where(), "it is not known whether the lookup failed")
			}
		}
	}
	// writers
	fns := c.mapUpdates(func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isPtrTo(m.Elem(), "merkletree.SignedTreeRoot")
	})
	for _, fld := range []string{d.snaps, d.eps} {
		for f := range storeFns(c.fieldStores(typeName(d.PAD) + "." + fld)) {
			fns[f] = true
		}
	}
	for _, f := range c.rootsOf(fns) {
		if f == uf || f == nf || isTestHelper(c, f) {
			continue
		}
		if c.reachesAvoidingAll(f, fns, map[*ssa.Function]bool{uf: true, nf: true}) {
			rw.fail("snapshots via "+fnName(f), c.p.Pos(f.Pos()), "%s changes the snapshots or the list of epochs outside an update", fnName(f))
		}
	}
	rw.ok("%d functions write the snapshots or the list of epochs", len(fns))
	for _, s := range c.fieldStores(typeName(d.PAD) + "." + d.snaps) {
		rw.check(c.freshStore(s), "snapshots in "+fnName(s.Fn), c.pos(s.In), "the table of snapshots is replaced after construction")
	}
	d.policiesOnly(c)
}

// movedList: the list was moved in place: copy(old, old[hi:]), cut to its new
// length, and extended by ep.
func (d *dirT) movedList(e *Engine, st *State, list, old, hi, ep *Term) bool {
	if list.Op != OCat || len(list.Args) != 2 || list.Args[1].Op != OElem || !st.same(list.Args[1].Args[0], ep) {
		return false
	}
	a := list.Args[0]
	n := mkLen(old)
	if a.Op != OSub || a.Args[0] != old || !isInt0(a.Args[1]) || !st.Holds(EqI(a.Args[2], Sub(n, hi))) {
		return false
	}
	moved := 0
	for _, ev := range st.Events() {
		if ev.Kind != "store" || !strings.HasPrefix(ev.Name, "elem of") || ev.Args[0] != old {
			continue
		}
		src := ev.Args[1]
		if src.Op != OSub || src.Args[0] != old || !st.same(src.Args[2], n) || !st.Holds(EqI(src.Args[1], hi)) {
			return false
		}
		moved++
	}
	return moved == 1
}

// sameList: list is old[hi:] ++ [ep].
func (d *dirT) sameList(e *Engine, st *State, list, old, hi, ep *Term, dropped bool) bool {
	if list.Op != OCat || len(list.Args) != 2 {
		// everything dropped
		return false
	}
	a, b := list.Args[0], list.Args[1]
	if b.Op != OElem || !st.same(b.Args[0], ep) {
		return false
	}
	if a == old {
		return !dropped || st.Holds(EqI(hi, intConst(0, types.Typ[types.Int])))
	}
	if a.Op != OSub || a.Args[0] != old {
		return false
	}
	if !st.same(a.Args[2], mkLen(old)) {
		return false
	}
	return dropped && st.same(a.Args[1], hi) || st.Holds(EqI(a.Args[1], hi))
}

func (d *dirT) shape(v ssa.Value) string {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// capKept: the slice value has the capacity of the list it derives from, or
// the configured one.
func (d *dirT) capKept(v ssa.Value, at Site, params map[*ssa.Parameter]ssa.Value, depth int) string {
	if depth > 12 {
		return "not decided"
	}
	key := typeName(d.PAD) + "." + d.eps
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && structKey(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) == key {
			return ""
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return d.capKept(x.Call.Args[0], at, params, depth+1)
		}
		if g := x.Call.StaticCallee(); g != nil && inRepo(g) {
			m := map[*ssa.Parameter]ssa.Value{}
			for i, p := range g.Params {
				m[p] = x.Call.Args[i]
			}
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
					if w := d.capKept(r.Results[0], at, m, depth+1); w != "" {
						return w
					}
				}
			}
			return ""
		}
	case *ssa.Slice:
		if k, ok := x.Low.(*ssa.Const); x.Low == nil || ok && k.Int64() == 0 {
			if x.Max == nil {
				return d.capKept(x.X, at, params, depth+1)
			}
		}
		return "the list is cut off at its start, which reduces its capacity"
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if w := d.capKept(ed, at, params, depth+1); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Parameter:
		if a := params[x]; a != nil {
			return d.capKept(a, at, nil, depth+1)
		}
	case *ssa.MakeSlice:
		if d.isCapOfList(x.Cap, params) {
			return ""
		}
		return "a list is made with another capacity"
	case *ssa.ChangeType:
		return d.capKept(x.X, at, params, depth+1)
	}
	return "not derived from the list itself"
}

// isCapOfList: the configured capacity (NewPAD's parameter) or cap(list).
func (d *dirT) isCapOfList(v ssa.Value, params map[*ssa.Parameter]ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.Parameter:
			if a := params[x]; a != nil {
				v = a
				params = nil
				continue
			}
			if fnName(x.Parent()) == "merkletree.NewPAD" && types.Identical(x.Type(), types.Typ[types.Uint64]) {
				return true
			}
			// a constructor helper: every caller passes the configured number
			cs := d.c.callSites(func(g *ssa.Function) bool { return g == x.Parent() })
			if len(cs) == 0 {
				return false
			}
			pi := -1
			for i, p := range x.Parent().Params {
				if p == x {
					pi = i
				}
			}
			for _, s := range cs {
				if !d.isCapOfList(s.In.(ssa.CallInstruction).Common().Args[pi], nil) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "cap" {
				return d.capKept(x.Call.Args[0], Site{}, params, 0) == ""
			}
			return false
		default:
			return false
		}
	}
	return false
}

// backwards: n-1-i if the loop has run n times, with the position of the
// element x taken in iteration i being hi+n-1-i.
func backwards(st *State, rec *LoopRec, x, hi *Term) *Term {
	if x.Op == OIdx {
		n := linAdd(linAdd(linOf(x.Args[1]), linOf(rec.IV), 1), linOf(hi), -1)
		n = linAdd(n, linConst(1), 1)
		if st.Holds(mkEq0(linAdd(n, linOf(rec.IV), -1))) {
			return linTerm(linAdd(linAdd(n, linConst(1), -1), linOf(rec.IV), -1), types.Typ[types.Int])
		}
	}
	return rec.IV
}
