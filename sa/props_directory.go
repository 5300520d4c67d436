package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- shared vocabulary: the directory and its dictionary

type dirT struct {
	c                                    *Ctx
	D, PAD, MT, STR                      *types.Named
	pad, tbs, pol, use                   string // fields of the directory
	sk, vk, tree, snaps, eps, latest, ad string // fields of the dictionary
	stree                                string // the snapshot's tree
	get, set                             *ssa.Function
}

func (c *Ctx) dir() *dirT {
	d := &dirT{c: c}
	d.D = c.named("protocol/directory", "ConiksDirectory")
	d.PAD = c.named("merkletree", "PAD")
	d.MT = c.named("merkletree", "MerkleTree")
	d.STR = c.named("merkletree", "SignedTreeRoot")
	d.pad = c.fieldT(d.D, "the dictionary", func(t types.Type) bool { return isPtrTo(t, "merkletree.PAD") })
	d.tbs = c.fieldT(d.D, "the pending bindings", func(t types.Type) bool { return isTBMapT(t) })
	d.pol = c.fieldT(d.D, "the policies", func(t types.Type) bool { return isPtrTo(t, "protocol.Policies") })
	d.use = fieldByType(d.D, func(t types.Type) bool { return types.Identical(t.Underlying(), types.Typ[types.Bool]) })
	d.sk = c.fieldT(d.PAD, "the signing key", func(t types.Type) bool { return typeName(t) == "crypto/sign.PrivateKey" })
	d.vk = c.fieldT(d.PAD, "the VRF key", func(t types.Type) bool { return typeName(t) == "crypto/vrf.PrivateKey" })
	d.tree = c.fieldT(d.PAD, "the tree", func(t types.Type) bool { return isPtrTo(t, "merkletree.MerkleTree") })
	d.snaps = c.fieldT(d.PAD, "the snapshots", func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isPtrTo(m.Elem(), "merkletree.SignedTreeRoot")
	})
	d.eps = c.fieldT(d.PAD, "the loaded epochs", func(t types.Type) bool { return t.String() == "[]uint64" })
	d.latest = c.fieldT(d.PAD, "the latest root", func(t types.Type) bool { return isPtrTo(t, "merkletree.SignedTreeRoot") })
	d.ad = c.fieldT(d.PAD, "the associated data", func(t types.Type) bool { return typeName(t) == "merkletree.AssocData" })
	d.stree = c.fieldT(d.STR, "the snapshot's tree", func(t types.Type) bool { return isPtrTo(t, "merkletree.MerkleTree") })
	d.get = c.method("merkletree", "MerkleTree", "Get")
	d.set = c.method("merkletree", "MerkleTree", "Set")
	return d
}

func isTBMapT(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isPtrTo(m.Elem(), "protocol.TemporaryBinding")
}

func typedAs(x *Term, t types.Type) *Term { return typeIs(x, t) }

// dirOpts: the directory serves roots whose associated data are policies
// (established by rule "policies") and uses promises (rule "promises on").
func (d *dirT) opts(name string) *Opts {
	return &Opts{
		Name: name,
		Pre: func(st *State, args []*Term) {
			if len(args) == 0 {
				return
			}
			e := &Engine{p: d.c.p, o: &Opts{}}
			recv := V{args[0], nil}
			if args[0].T == nil {
				return
			}
			recv.Ty = args[0].T
			if isPtrTo(recv.Ty, "protocol/directory.ConiksDirectory") {
				if d.use != "" {
					st.assume(e.sel(zeroState, recv, d.use).T)
				}
				recv = e.sel(zeroState, recv, d.pad)
			}
			if isPtrTo(recv.Ty, "merkletree.PAD") {
				pol := types.NewPointer(d.c.named("protocol", "Policies"))
				st.assume(typeIs(e.sel(zeroState, recv, d.ad).T, pol))
				st.assume(typeIs(e.sel(zeroState, recv, d.latest+".Ad").T, pol))
			}
		},
		Opaque: func(f *ssa.Function) (bool, bool) {
			if fnName(f) == "(*merkletree.SignedTreeRoot).Serialize" {
				return false, true
			}
			return false, false
		},
		LogCalls: func(ev *Event) bool {
			if logEffects(ev) {
				return true
			}
			return ev.Kind == "call" && ev.Fn == d.set
		},
	}
}

// index: the private index of a name.
func (d *dirT) index(e *Engine, pad V, name *Term) *Term {
	return mk(OCall, "VRF.index", bytesT(), e.sel(zeroState, pad, d.vk).T, name)
}

type lookup struct{ tree, idx, ap *Term }

// lookups: tree searches that happened on the path (loop bodies of the
// current iteration included).
func (d *dirT) lookups(st *State) []lookup {
	var r []lookup
	for _, ev := range st.Events() {
		if ev.Kind == "ret" && ev.Fn == d.get && ev.Res != nil && len(ev.Args) == 2 {
			r = append(r, lookup{ev.Args[0], ev.Args[1], ev.Res})
		}
	}
	return r
}

// proofOf: ap was produced by searching the given tree for the name's index.
func (d *dirT) proofOf(e *Engine, st *State, ap V, pad V, tree, name *Term) string {
	idx := d.index(e, pad, name)
	for _, l := range d.lookups(st) {
		if l.ap != ap.T {
			continue
		}
		if !st.same(l.tree, tree) {
			return "the proof is taken from another tree"
		}
		if !st.same(l.idx, idx) {
			return "the proof is for another index"
		}
		if v := e.sel(st, ap, "VrfProof").T; !st.same(v, mk(OCall, "VRF.proof", bytesT(), e.sel(zeroState, pad, d.vk).T, name)) {
			return "the proof does not carry the VRF proof of the name"
		}
		return ""
	}
	return "the proof is not the result of a search in the tree"
}

// contained: the path knows (positively, negatively) whether the name is in
// the given tree.
func (d *dirT) contained(e *Engine, st *State, tree, idx *Term) (yes, no bool) {
	apT := types.NewPointer(d.c.named("merkletree", "AuthenticationPath"))
	for _, l := range d.lookups(st) {
		if !st.same(l.tree, tree) || !st.same(l.idx, idx) {
			continue
		}
		li := e.sel(st, V{l.ap, apT}, "Leaf.Index").T
		if st.same(li, idx) {
			yes = true
		}
		if st.differ(li, idx) {
			no = true
		}
	}
	return
}

func (d *dirT) pending(e *Engine, st *State, recv V, name *Term) (yes, no bool, val V) {
	m := e.sel(zeroState, recv, d.tbs)
	has, get := e.mapEntry(m, name)
	val = V{get, m.Ty.Underlying().(*types.Map).Elem()}
	yes = st.Holds(has) && st.knownNonNil(get)
	no = st.Holds(mkNot(has)) || st.knownNil(get)
	return
}

// changes: effects on objects that existed before.
func outerEffects(st *State) []locEvent {
	var r []locEvent
	for _, ev := range st.allEvents() {
		switch ev.Kind {
		case "store":
			if !freshBase(ev.Args[0]) {
				r = append(r, ev)
			}
		case "mapset", "mapdel":
			if ev.Args[0].Op != OMap {
				r = append(r, ev)
			}
		}
	}
	return r
}

type respQ struct {
	V
	code   int64
	known  bool
	body   *Term      // nil when absent
	bodyTy types.Type // pointer type of the body
}

func (c *Ctx) response(e *Engine, x *Exit) *respQ {
	r := &respQ{V: V{x.Res[0], e.root.Signature.Results().At(0).Type()}}
	r.code, r.known = codeOf(x.St, e.sel(x.St, r.V, "Error").T)
	b := e.sel(x.St, r.V, "DirectoryResponse").T
	if b.Op == OIface {
		r.body, r.bodyTy = b.Args[0], b.Obj.(types.Type)
	} else if b.Op != ONil && !x.St.knownNil(b) {
		r.body, r.bodyTy = b, nil
	}
	return r
}

// rootView: v (a *DirSTR) shows exactly the given signed root and its policies.
func (c *Ctx) rootView(e *Engine, st *State, v V, root V) string {
	if v.T.Op == ONil {
		return "there is no root"
	}
	if s := e.sel(st, v, "SignedTreeRoot").T; !st.same(s, root.T) {
		return "the root is " + s.String()
	}
	pol, _ := e.assertTo(st, e.sel(st, root, "Ad").T, types.NewPointer(c.named("protocol", "Policies")))
	if s := e.sel(st, v, "Policies").T; !st.same(s, pol) {
		return "the policies shown are not those of the root"
	}
	return ""
}

// single: the list has exactly one element, and it is returned.
func (e *Engine) single(st *State, list V) (V, bool) {
	n := mkLen(e.content(st, list.T))
	if !st.Holds(EqI(n, intConst(1, types.Typ[types.Int]))) {
		return V{}, false
	}
	return e.at(st, list, intConst(0, types.Typ[types.Int])), true
}

// answer: the body of a single-epoch answer shows the latest root together
// with a proof for the name from the tree of that very root.
func (d *dirT) answer(e *Engine, st *State, r *respQ, pad V, name *Term) string {
	if r.body == nil || r.bodyTy == nil || !isPtrTo(r.bodyTy, "protocol.DirectoryProof") {
		return "it contains no proof"
	}
	b := V{r.body, r.bodyTy}
	ap, ok := e.single(st, e.sel(st, b, "AP"))
	if !ok {
		return "it does not contain exactly one proof"
	}
	str, ok := e.single(st, e.sel(st, b, "STR"))
	if !ok {
		return "it does not contain exactly one root"
	}
	root := e.sel(zeroState, pad, d.latest)
	if w := d.c.rootView(e, st, str, root); w != "" {
		return "it does not show the latest root: " + w
	}
	return d.proofOf(e, st, ap, pad, e.sel(zeroState, root, d.stree).T, name)
}

func (d *dirT) setDone(e *Engine, st *State, pad V, idx, name, key *Term) (n int, why string) {
	why = "nothing is inserted"
	for _, ev := range st.Events() {
		if ev.Kind != "ret" || ev.Fn != d.set || ev.Res == nil {
			continue
		}
		n++
		if !st.knownNil(ev.Res) {
			return n, "the insertion is not known to have succeeded"
		}
		if w := d.setArgs(e, st, ev.Args, pad, idx, name, key); w != "" {
			return n, w
		}
		why = ""
	}
	return
}

func (d *dirT) setArgs(e *Engine, st *State, a []*Term, pad V, idx, name, key *Term) string {
	if !st.same(a[0], e.sel(zeroState, pad, d.tree).T) {
		return "the insertion is not into the tree of the next snapshot"
	}
	if !st.same(a[1], idx) {
		return "the insertion is not at the private index of the name"
	}
	if !st.same(a[2], name) {
		return "the inserted name is not the requested one"
	}
	if !st.same(a[3], key) {
		return "the inserted key is not the requested one"
	}
	return ""
}

// register: the exploration of a registration.
type regQ struct {
	d              *dirT
	e              *Engine
	recv, pad      V
	name, key, idx *Term
	ltree          *Term
}

func (d *dirT) register() *regQ {
	f := d.c.method("protocol/directory", "ConiksDirectory", "Register")
	q := &regQ{d: d}
	q.e = d.c.run(f, d.opts("dir"))
	q.recv = q.e.arg(0)
	q.pad = q.e.sel(zeroState, q.recv, d.pad)
	req := q.e.argOf(ptrTo(d.c.named("protocol", "RegistrationRequest")), 0)
	q.name = q.e.sel(zeroState, req, "Username").T
	q.key = q.e.sel(zeroState, req, "Key").T
	q.idx = d.index(q.e, q.pad, q.name)
	q.ltree = q.e.sel(zeroState, q.pad, d.latest+"."+d.stree).T
	return q
}

func nonEmpty(st *State, t *Term) bool {
	return st.Holds(mkGe0(linAdd(linOf(mkLen(t)), linConst(-1), 1)))
}

func isEmptySeq(st *State, t *Term) bool {
	return st.Holds(mkGe0(linAdd(linConst(0), linOf(mkLen(t)), -1)))
}

func init() {
	checks["C08"] = propC08
	expl["C08"] = "All paths of a registration: at every insertion into the tree the request must be known to be well-formed, the name known to be absent from the latest snapshot (by the search in that snapshot's tree at the name's private index) and not pending, and the inserted triple must be the requested one; paths answering anything but success must be free of effects, and a name known to exist or to be pending must be answered with name-existed. All other callers of the insertion are enumerated."
	checks["C09"] = propC09
	expl["C09"] = "All paths of a registration and of the epoch update: the recorded promise's fields are compared, as value terms, with the inserted entry, the latest root's signature and the promise returned; every writer of the pending bindings is enumerated; removals are located after the dictionary's update."
	checks["C10"] = propC10
	expl["C10"] = "All paths of a lookup (and the answers of a registration): status code, promise and proof are compared with what the path established about the name; proof and root must come from the same snapshot, as value terms."
	checks["C11"] = propC11
	expl["C11"] = "All paths of the range handlers of directory and auditor: loops are summarised, and the length of the answer and each element of it at a symbolic position are compared with the requested, clipped epoch range."
	checks["C12"] = propC12
	expl["C12"] = "All paths of the dictionary's creation and update: the issued root's fields, signature input and policies are compared as value terms with the previous root, the tree and the keys; all writers of the latest root and of root fields are enumerated."
	checks["C13"] = propC13
	expl["C13"] = "All paths of the update: the snapshot table and the list of loaded epochs change in step (removed keys are exactly the removed prefix, under the fullness condition); the paths of the epoch access are compared with the table; writers are enumerated."
}

func propC08(c *Ctx) {
	rg := c.Rule("guard", "a binding is inserted only for a well-formed request whose name is absent from the latest snapshot and not pending", 1)
	re := c.Rule("exact", "exactly the requested name and key are inserted, at the name's private index, into the next snapshot's tree", 1)
	ru := c.Rule("refused-unchanged", "a registration that does not succeed changes nothing", 4)
	ra := c.Rule("name-existed", "a name that exists or is pending is answered with name-existed, and only such a name", 2)
	rw := c.Rule("inserters", "bindings are inserted by registrations only", 1)
	d := c.dir()
	q := d.register()
	e := q.e
	succ, exist := c.constVal("protocol", "ReqSuccess"), c.constVal("protocol", "ReqNameExisted")
	for _, ev := range e.Log {
		if ev.Kind != "call" || ev.Fn != d.set {
			continue
		}
		st := ev.St
		_, absent := d.contained(e, st, q.ltree, q.idx)
		_, free, _ := d.pending(e, st, q.recv, q.name)
		w := ""
		switch {
		case !nonEmpty(st, q.name):
			w = "the name is not known to be non-empty"
		case !nonEmpty(st, q.key):
			w = "the key is not known to be non-empty"
		case !absent:
			w = "the name is not known to be absent from the latest snapshot"
		case !free:
			w = "the name is not known to be free of a pending binding"
		}
		rg.check(w == "", "insertion in "+ev.In, ev.Pos, "a binding is inserted although %s", w)
		w = d.setArgs(e, st, ev.Args, q.pad, q.idx, q.name, q.key)
		re.check(w == "", "insertion in "+ev.In, ev.Pos, "%s", w)
	}
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		r := c.response(e, x)
		contained, absent := d.contained(e, x.St, q.ltree, q.idx)
		pend, free, _ := d.pending(e, x.St, q.recv, q.name)
		if !r.known {
			ra.fail("Register answers", x.where(), "a registration is answered with an unknown status code")
			continue
		}
		if r.code == succ {
			n, w := d.setDone(e, x.St, q.pad, q.idx, q.name, q.key)
			re.check(n == 1 && w == "", "Register succeeds", x.where(), "a registration is reported as successful with %d insertions: %s", n, w)
		} else {
			n := ""
			for _, ev := range outerEffects(x.St) {
				n = ev.Pos
			}
			ru.check(n == "", "Register refuses", x.where(), "a registration is not successful but directory data is changed at %s", n)
		}
		if r.code == exist {
			ra.check(contained || absent && pend, "Register answers name-existed", x.where(), "name-existed is answered for a name not known to exist in the latest snapshot or to be pending")
		} else {
			ok := true
			if contained || absent && pend {
				ok = false
			}
			_ = free
			ra.check(ok, "Register answers otherwise", x.where(), "a name known to exist or to be pending is answered with code %d", r.code)
		}
	}
	// who else inserts
	reg := c.method("protocol/directory", "ConiksDirectory", "Register")
	set := map[*ssa.Function]bool{d.set: true}
	for _, f := range c.p.Fns {
		if fnPkg(f) == "merkletree" || f == reg || f.Parent() != nil || isTestHelper(c, f) || f.Synthetic != "" {
			continue
		}
		if c.reachesAvoidingAll(f, set, map[*ssa.Function]bool{reg: true}) {
			rw.fail("insertion via "+fnName(f), c.p.Pos(f.Pos()), "%s inserts into the tree without being a registration", fnName(f))
		}
	}
	rw.ok("functions outside the tree package that reach an insertion other than through Register: none")
	d.promisesOn(c)
}

// promisesOn: New refuses to build a directory that does not use promises,
// so the paths without them are not reachable.
func (d *dirT) promisesOn(c *Ctx) {
	r := c.Rule("promises-on", "every directory uses promises", 1)
	if d.use == "" {
		r.ok("no switch")
		return
	}
	f := c.fn("protocol/directory", "New")
	e := c.run(f, &Opts{Name: "new"})
	for _, x := range e.Exits {
		if x.Kind == "return" {
			v := e.sel(x.St, V{x.Res[0], ptrTo(d.D)}, d.use).T
			r.check(x.St.Holds(v), "New", x.where(), "a directory is created without promises")
			m := e.sel(x.St, V{x.Res[0], ptrTo(d.D)}, d.tbs).T
			r.check(m.Op == OMap, "New makes the table of pending bindings", x.where(), "a directory is created without a table of pending bindings")
		}
	}
	for _, s := range c.fieldStores(typeName(d.D) + "." + d.use) {
		r.check(c.freshStore(s), "promise switch in "+fnName(s.Fn), c.pos(s.In), "the use of promises is switched after construction")
	}
}

func (c *Ctx) isTBOf(e *Engine, st *State, tb V, idx, key, sk, rootSig *Term) string {
	if v := e.sel(st, tb, "Index").T; !st.same(v, idx) {
		return "its index is " + v.String()
	}
	if v := e.sel(st, tb, "Value").T; !st.same(v, key) {
		return "its key is " + v.String()
	}
	s := e.sel(st, tb, "Signature").T
	if s.Op != OCall || s.Aux != "sign.Sign" || !st.same(s.Args[0], sk) {
		return "it is not signed with the directory's key"
	}
	ps := parts(s.Args[1])
	if len(ps) != 3 || !st.same(ps[0], rootSig) || !st.same(ps[1], idx) || !st.same(ps[2], key) {
		return "its signature does not cover the latest root's signature, the index and the key"
	}
	return ""
}

func propC09(c *Ctx) {
	rp := c.Rule("recorded", "a successful registration records one promise for the inserted entry and returns that very promise", 2)
	ri := c.Rule("only-inserted", "a promise is recorded only for an entry that was inserted", 1)
	rr := c.Rule("removed", "pending bindings are removed only by the epoch update, after the dictionary's update, and then all of them", 2)
	rw := c.Rule("writers", "the pending bindings are changed by registrations and the epoch update only", 1)
	d := c.dir()
	q := d.register()
	e := q.e
	succ := c.constVal("protocol", "ReqSuccess")
	m := e.sel(zeroState, q.recv, d.tbs)
	sk := e.sel(zeroState, q.pad, d.sk).T
	rootSig := e.sel(zeroState, q.pad, d.latest+".Signature").T
	tbT := ptrTo(c.named("protocol", "TemporaryBinding"))
	isM := func(t *Term) bool { return t == m.T || t.Op == OFVal && t.Aux == m.T.Aux && t.Args[0] == m.T.Args[0] }
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		r := c.response(e, x)
		var sets []locEvent
		for _, ev := range x.St.allEvents() {
			if (ev.Kind == "mapset" || ev.Kind == "mapdel") && isTBMapT(ev.MapT) && ev.Args[0].Op != OMap {
				sets = append(sets, ev)
			}
		}
		if !r.known || r.code != succ {
			rp.check(len(sets) == 0, "Register refuses", x.where(), "a registration without success changes the pending bindings")
			continue
		}
		if !rp.check(len(sets) == 1 && sets[0].Kind == "mapset" && isM(sets[0].Args[0]), "Register records", x.where(), "a successful registration does not record exactly one promise (%d changes of the pending bindings)", len(sets)) {
			continue
		}
		s := sets[0]
		tb := V{s.Args[2], tbT}
		w := ""
		if !x.St.same(s.Args[1], q.name) {
			w = "it is recorded under another name"
		} else {
			w = c.isTBOf(e, x.St, tb, q.idx, q.key, sk, rootSig)
		}
		rp.check(w == "", "Register's promise", x.where(), "the promise recorded for a registration does not match the inserted entry: %s", w)
		if r.body != nil && r.bodyTy != nil && isPtrTo(r.bodyTy, "protocol.DirectoryProof") {
			t := e.sel(x.St, V{r.body, r.bodyTy}, "TB")
			rp.check(t.T == tb.T || c.isTBOf(e, x.St, t, q.idx, q.key, sk, rootSig) == "", "Register returns the promise", x.where(), "the answer to a successful registration does not contain the recorded promise")
		} else {
			rp.fail("Register returns the promise", x.where(), "the answer to a successful registration does not contain the recorded promise")
		}
		_, w = d.setDone(e, x.St, q.pad, q.idx, q.name, q.key)
		ri.check(w == "", "Register records", x.where(), "a promise is recorded although %s", w)
	}
	// the epoch update
	uf := c.method("protocol/directory", "ConiksDirectory", "Update")
	ue := c.run(uf, d.opts("dir"))
	pu := c.method("merkletree", "PAD", "Update")
	um := ue.sel(zeroState, ue.arg(0), d.tbs)
	for _, x := range ue.Exits {
		if x.Kind != "return" {
			continue
		}
		updated, cleared, bad := false, false, ""
		for _, ev := range x.St.Events() {
			switch {
			case ev.Kind == "ret" && ev.Fn == pu:
				updated = true
			case ev.Kind == "store" && ev.Args[0].Op == OFAddr && ev.Args[0].Aux == typeName(d.D)+"."+d.tbs:
				if !updated {
					bad = ev.Pos
				}
				if ev.Args[1].Op == OMap {
					cleared = true
				}
			case ev.Kind == "mapset" && isTBMapT(ev.MapT) && ev.Args[0].Op != OMap:
				bad = ev.Pos
			case ev.Kind == "mapdel" && isTBMapT(ev.MapT):
				if !updated {
					bad = ev.Pos
				}
			case ev.Kind == "clear" && isTBMapT(ev.MapT):
				if !updated {
					bad = ev.Pos
				}
				cleared = true
			case ev.Kind == "loop":
				all := len(ev.Loop.Alts) > 0
				for _, a := range ev.Loop.Alts {
					del := false
					for _, ev2 := range a.EventsSince(ev.Loop.Base) {
						if ev2.Kind == "mapdel" && isTBMapT(ev2.MapT) {
							if !updated {
								bad = ev2.Pos
							}
							// the key comes from ranging over the same map
							if rangeKeyOf(ev2.Args[1], ev2.Args[0]) {
								del = true
							}
						}
						if ev2.Kind == "mapset" && isTBMapT(ev2.MapT) {
							bad = ev2.Pos
						}
					}
					all = all && del
				}
				if all && rangesOver(x.St, ev.Loop, um.T) {
					cleared = true
				}
			}
		}
		for _, f := range x.St.Facts() {
			if f.Op != OEq0 && f.Op != OGe0 {
				continue
			}
			for _, a := range linOf(f.Args[0]).Atoms {
				if a.Op == OLen && (a.Args[0] == um.T || a.Args[0] == ue.content(x.St, um.T)) && x.St.Holds(mkGe0(linScale(linOf(a), -1))) {
					cleared = true // there are none
				}
			}
		}
		rr.check(bad == "", "Update's order", x.where(), "pending bindings are changed before the snapshot that includes them is taken (%s)", bad)
		rr.check(cleared, "Update clears", x.where(), "pending bindings are not all removed although the snapshot taken includes them")
		rr.check(updated, "Update takes the snapshot", x.where(), "the directory's update does not update the dictionary")
	}
	// writers
	fns := c.mapUpdates(isTBMapT)
	reg := c.method("protocol/directory", "ConiksDirectory", "Register")
	for f := range fns {
		if fnPkg(f) != "protocol/directory" {
			delete(fns, f)
		}
	}
	for _, s := range c.fieldStores(typeName(d.D) + "." + d.tbs) {
		if !c.freshStore(s) {
			fns[s.Fn] = true
		}
	}
	for _, f := range c.p.Fns {
		if f == reg || f == uf || f.Parent() != nil || f.Synthetic != "" || isTestHelper(c, f) {
			continue
		}
		exp := f.Object() != nil && f.Object().Exported()
		if !exp && len(c.callersOf(f)) > 0 {
			continue
		}
		if c.reachesAvoidingAll(f, fns, map[*ssa.Function]bool{reg: true, uf: true}) {
			rw.fail("pending bindings via "+fnName(f), c.p.Pos(f.Pos()), "%s changes the pending bindings", fnName(f))
		}
	}
	rw.ok("%d functions update the pending bindings", len(fns))
	d.promisesOn(c)
}

func propC10(c *Ctx) {
	rs := c.Rule("status", "the status code and the promise in an answer are determined by what the latest snapshot and the pending bindings contain", 3)
	ra := c.Rule("same-snapshot", "proof and root in an answer belong to the latest snapshot, and there is exactly one of each", 4)
	re := c.Rule("errors", "malformed requests and internal failures are answered by the matching code without a proof", 3)
	rn := c.Rule("no-effect", "a lookup changes no directory data", 3)
	d := c.dir()
	z := zeroState
	succ, exist, nf := c.constVal("protocol", "ReqSuccess"), c.constVal("protocol", "ReqNameExisted"), c.constVal("protocol", "ReqNameNotFound")
	mal, edir := c.constVal("protocol", "ErrMalformedMessage"), c.constVal("protocol", "ErrDirectory")
	f := c.method("protocol/directory", "ConiksDirectory", "KeyLookup")
	e := c.run(f, d.opts("dir"))
	recv := e.arg(0)
	pad := e.sel(z, recv, d.pad)
	name := e.sel(z, e.argOf(ptrTo(c.named("protocol", "KeyLookupRequest")), 0), "Username").T
	idx := d.index(e, pad, name)
	ltree := e.sel(z, pad, d.latest+"."+d.stree).T
	tbOf := func(e *Engine, x *Exit, r *respQ) *Term {
		if r.body == nil || r.bodyTy == nil || !isPtrTo(r.bodyTy, "protocol.DirectoryProof") {
			return Nil
		}
		return e.sel(x.St, V{r.body, r.bodyTy}, "TB").T
	}
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		r := c.response(e, x)
		if !r.known {
			rs.fail("KeyLookup answers", x.where(), "a lookup is answered with an unknown status code")
			continue
		}
		cont, abs := d.contained(e, x.St, ltree, idx)
		pend, free, val := d.pending(e, x.St, recv, name)
		switch r.code {
		case succ:
			tb := tbOf(e, x, r)
			ok := cont && tb.Op == ONil || abs && pend && x.St.same(tb, val.T)
			rs.check(ok, "KeyLookup success", x.where(), "a lookup is answered with success but the name is neither known to be in the latest snapshot (and answered without promise) nor known to be pending (and answered with its promise)")
		case nf:
			rs.check(abs && free && tbOf(e, x, r).Op == ONil, "KeyLookup not found", x.where(), "a lookup is answered with not-found although the name is not known to be absent from the latest snapshot and from the pending bindings")
		case mal:
			re.check(isEmptySeq(x.St, name) && r.body == nil, "KeyLookup malformed", x.where(), "a lookup for a non-empty name is answered as malformed, or a malformed request gets a proof")
		case edir:
			re.check(r.body == nil && nonEmpty(x.St, name) && !cont && !abs, "KeyLookup fails", x.where(), "an internal failure is reported although the lookup was possible, or together with a proof")
		default:
			rs.fail("KeyLookup answers", x.where(), "a lookup is answered with code %d", r.code)
		}
		if r.code == succ || r.code == nf {
			w := d.answer(e, x.St, r, pad, name)
			ra.check(w == "" && nonEmpty(x.St, name), "KeyLookup's answer", x.where(), "the answer to a lookup is wrong: %s", w)
		}
		n := ""
		for _, ev := range outerEffects(x.St) {
			n = ev.Pos
		}
		rn.check(n == "", "KeyLookup", x.where(), "a lookup changes data at %s", n)
	}
	// registrations
	q := d.register()
	for _, x := range q.e.Exits {
		if x.Kind != "return" {
			continue
		}
		r := c.response(q.e, x)
		if !r.known {
			continue
		}
		switch r.code {
		case succ, exist:
			w := d.answer(q.e, x.St, r, q.pad, q.name)
			ra.check(w == "", "Register's answer", x.where(), "the answer to a registration is wrong: %s", w)
			if r.code == exist {
				cont, _ := d.contained(q.e, x.St, q.ltree, q.idx)
				_, _, val := d.pending(q.e, x.St, q.recv, q.name)
				tb := tbOf(q.e, x, r)
				rs.check(cont && tb.Op == ONil || !cont && x.St.same(tb, val.T), "Register name-existed", x.where(), "the promise in a name-existed answer is not the pending one")
			}
		case mal:
			re.check(r.body == nil && (isEmptySeq(x.St, q.name) || isEmptySeq(x.St, q.key)), "Register malformed", x.where(), "a well-formed registration is answered as malformed, or a malformed request gets a proof")
		default:
			re.check(r.code == edir && r.body == nil && nonEmpty(x.St, q.name) && nonEmpty(x.St, q.key), "Register fails", x.where(), "a registration is answered with code %d or an error with a proof", r.code)
		}
	}
	d.policiesOnly(c)
}

// policiesOnly: the associated data of every root are policies.
func (d *dirT) policiesOnly(c *Ctx) {
	r := c.Rule("policies", "the associated data of roots are directory policies", 1)
	for _, fn := range c.p.Fns {
		if isTestHelper(c, fn) {
			continue
		}
		c.eachInstr(fn, func(in ssa.Instruction) {
			mi, ok := in.(*ssa.MakeInterface)
			if !ok || typeName(mi.Type()) != "merkletree.AssocData" {
				return
			}
			r.check(isPtrTo(mi.X.Type(), "protocol.Policies"), "associated data in "+fnName(fn), c.pos(in), "a root's associated data are a %s, not policies", mi.X.Type())
		})
	}
}

func sameMap(a, m *Term) bool {
	return a == m || a.Op == OFVal && m.Op == OFVal && a.Args[0] == m.Args[0] && cutAt(a.Aux) == cutAt(m.Aux)
}

func cutAt(s string) string {
	if i := strings.IndexByte(s, '@'); i >= 0 {
		return s[:i]
	}
	return s
}

// rangeKeyOf: k is the key of the current iteration of ranging over m.
func rangeKeyOf(k, m *Term) bool {
	return k.Op == OHav && strings.HasPrefix(k.Aux, "rangekey") && len(k.Args) > 0 && sameMap(k.Args[0], m)
}

// rangesOver: the loop went through all keys of m.
func rangesOver(st *State, rec *LoopRec, m *Term) bool {
	return st.negFact(func(t *Term) bool {
		return t.Op == OHav && strings.HasPrefix(t.Aux, "rangeok") && len(t.Args) > 1 && sameMap(t.Args[0], m) && t.Args[1] == rec.IV
	}) != nil
}
