package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C16: the builder's and the verifier's hashes

// hashFns: the implementations of the node interface's hash method.
func (t *treeT) hashFns() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	it := t.N.Underlying().(*types.Interface)
	name := ""
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if res := m.Type().(*types.Signature).Results(); res.Len() == 1 && isBytesT(res.At(0).Type()) {
			if name != "" {
				panic(anchorErr{"the hash method of tree nodes (ambiguous)"})
			}
			name = m.Name()
		}
	}
	for _, n := range []*types.Named{t.I, t.L, t.E} {
		f := t.c.p.lookupMethod(ptrTo(n), name, n.Obj().Pkg())
		if name == "" || f == nil || f.Blocks == nil {
			panic(anchorErr{"the hash method of " + typeName(n)})
		}
		r[f] = true
	}
	return r
}

func (t *treeT) hashFn(n *types.Named) *ssa.Function {
	for f := range t.hashFns() {
		if types.Identical(f.Params[0].Type(), ptrTo(n)) {
			return f
		}
	}
	panic(anchorErr{"the hash method of " + typeName(n)})
}

func isN(t types.Type, n *types.Named) bool { return t != nil && types.Identical(t, ptrTo(n)) }

// treeArg: the parameter of the hash method that is the tree.
func (t *treeT) treeArg(f *ssa.Function) int {
	for i, p := range f.Params {
		if types.Identical(p.Type(), ptrTo(t.MT)) {
			return i
		}
	}
	panic(anchorErr{"the tree parameter of " + fnName(f)})
}

var hashSyms = map[string]string{"nonce": "$nonce", "index": "$index", "level": "$level", "commitment": "$commitment"}

// leafForm: a leaf digest in terms of the fields it covers.
func leafForm(d *Term, f map[string]*Term) *Term {
	m := map[*Term]*Term{}
	for k, v := range f {
		if v != nil {
			m[v] = mk(OParam, hashSyms[k], v.T)
		}
	}
	return subst(d, m)
}

// onlySyms: nothing but constants and the named fields is hashed.
func onlySyms(d *Term) string {
	bad := ""
	anySub(d, func(t *Term) bool {
		if t.Op == OParam && !strings.HasPrefix(t.Aux, "$") || t.Op == OHav || t.Op == OAlloc || t.Op == OGlobal || t.Op == OCall && t.Aux != "LE32" && t.Aux != "BE32" {
			bad = t.String()
		}
		return false
	})
	return bad
}

// hashOfChild: v is the hash of the child on the given side of node n, freshly
// computed on this path with the given tree, or the cached one.
func (t *treeT) hashOfChild(e *Engine, st *State, n V, m *Term, side bool, v *Term, hf map[*ssa.Function]bool, cached bool) string {
	ch := unwrap(e.sel(zeroState, n, t.child(side)).T)
	for _, ev := range st.Events() {
		if ev.Kind != "call" && ev.Kind != "ret" || ev.Res != v {
			continue
		}
		f, _ := ev.Fn.(*ssa.Function)
		if f == nil || !hf[f] {
			continue
		}
		if unwrap(ev.Args[0]) != ch {
			return "the hash of another node is used for this side"
		}
		if ev.Args[t.treeArg(f)] != m {
			return "the child's hash is computed for another tree"
		}
		return ""
	}
	if cached && isFieldOf(v, n.T, t.hashOf(side)) {
		// hashing never drops a cached hash, see the rule on caches
		if st.knownNonNil(v) || st.knownNonNil(e.sel(zeroState, n, t.hashOf(side)).T) {
			return ""
		}
		for _, ev := range st.Events() {
			if ev.Kind == "store" && ev.Args[0].Op == OFAddr && ev.Args[0].Args[0] == n.T && fieldShort(ev.Args[0].Aux) == t.hashOf(side) {
				return ""
			}
		}
		return "a cached hash is used that may be missing"
	}
	return "neither the child's hash nor its cached hash is used"
}

// isFieldOf: v was read from the given field of n.
func isFieldOf(v, n *Term, field string) bool {
	if v.Op != OFVal || len(v.Args) == 0 || v.Args[0] != n {
		return false
	}
	a := v.Aux
	if i := strings.IndexByte(a, '@'); i >= 0 {
		a = a[:i]
	}
	return fieldShort(a) == field
}

func propC16(c *Ctx) {
	rh := c.Rule("leaf-hash", "the verifier hashes a leaf and an empty branch exactly as the tree does", 2)
	rs := c.Rule("separators", "the hashes of leaves and empty branches start with different constants", 1)
	ri := c.Rule("interior", "an interior hash is the digest of the left and the right child's hash, computed or cached", 2)
	rc := c.Rule("cache", "a cached hash is only ever set to the hash of the child on its side, or dropped", 3)
	rr := c.Rule("tree-hash", "the tree hash is the hash of the root node", 1)
	rg := c.Rule("lookup", "a lookup follows the index bits and collects the hash of the other side of every level", 2)
	rl := c.Rule("answer", "a lookup answers with the fields of the node reached", 3)
	t := c.tree()
	z := zeroState
	hf := t.hashFns()
	opq := func(name string) *Opts {
		return &Opts{Name: name, Opaque: func(f *ssa.Function) (bool, bool) { return hf[f], hf[f] }}
	}
	// leaves, as built
	forms := map[*types.Named]*Term{}
	seps := map[*types.Named]*Term{}
	for _, n := range []*types.Named{t.L, t.E} {
		f := t.hashFn(n)
		e := c.run(f, nil)
		m, self := V{e.Args[t.treeArg(f)], ptrTo(t.MT)}, e.arg(0)
		fl := map[string]*Term{"nonce": e.sel(z, m, t.nonce).T, "level": e.sel(z, self, t.level).T}
		if n == t.L {
			fl["index"] = e.sel(z, self, t.index).T
			fl["commitment"] = e.sel(z, e.sel(z, self, t.com), "Value").T
		} else {
			fl["index"] = e.sel(z, self, t.eindex).T
		}
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			d := leafForm(x.Res[0], fl)
			ps, ok := isDigest(d)
			if !ok || onlySyms(d) != "" {
				rh.fail("hash of "+typeName(n), x.where(), "the hash of a %s is not a digest of constants, nonce, index, level and commitment: %s", typeName(n), onlySyms(d))
				continue
			}
			if forms[n] != nil && forms[n] != d {
				rh.fail("hash of "+typeName(n), x.where(), "the hash of a %s is computed in different ways", typeName(n))
			}
			forms[n] = d
			if ps = parts(mkCat(bytesT(), ps...)); len(ps) > 0 && ps[0].Op == OElem && ps[0].Args[0].IsConst() {
				seps[n] = ps[0].Args[0]
			}
		}
	}
	rs.check(seps[t.L] != nil && seps[t.E] != nil && seps[t.L] != seps[t.E], "hashes of "+typeName(t.L)+" and "+typeName(t.E), c.p.Pos(t.hashFn(t.L).Pos()),
		"the hashes of leaves and empty branches do not start with different constants")
	// leaves, as verified
	v, ap := c.verifyRun()
	leaf := v.sel(z, ap, "Leaf")
	vf := map[string]*Term{
		"nonce": v.sel(z, ap, "TreeNonce").T, "level": v.sel(z, leaf, "Level").T,
		"index": v.sel(z, leaf, "Index").T, "commitment": v.sel(z, v.sel(z, leaf, "Commitment"), "Value").T,
	}
	th := v.arg(3).T
	done := map[string]bool{}
	for _, x := range v.Exits {
		if k := x.class(); k != retOK && k != retMaybe {
			continue
		}
		d, ds := c.leafDigest(v, x.St, ap, th)
		if d == nil {
			rh.fail("AuthenticationPath.Verify accepts", x.where(), "the recomputation of the root hash does not start from the leaf's digest")
			continue
		}
		n := t.L
		if ds.Holds(v.sel(z, leaf, "IsEmpty").T) {
			n = t.E
		} else if !ds.Holds(mkNot(v.sel(z, leaf, "IsEmpty").T)) {
			rh.fail("AuthenticationPath.Verify accepts", x.where(), "the kind of the leaf is not known where it is hashed")
			continue
		}
		done[typeName(n)] = true
		if g := leafForm(d, vf); forms[n] != nil {
			rh.check(g == forms[n], "verified hash of a "+typeName(n), x.where(), "the tree hashes a %s as %s but the verifier as %s", typeName(n), forms[n], g)
		}
	}
	rh.check(len(done) == 2, "AuthenticationPath.Verify", c.p.Pos(v.root.Pos()), "not both kinds of leaves are ever verified")
	// interior nodes
	f := t.hashFn(t.I)
	e := c.run(f, opq("C16"))
	m, self := e.Args[t.treeArg(f)], e.arg(0)
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		ps, ok := isDigest(x.Res[0])
		if !ok || len(ps) != 2 {
			ri.fail("hash of "+typeName(t.I), x.where(), "the hash of an interior node is not the digest of exactly two hashes")
			continue
		}
		for i, side := range []bool{false, true} {
			w := t.hashOfChild(e, x.St, self, m, side, ps[i], hf, true)
			ri.check(w == "", "hash of "+typeName(t.I)+", "+t.child(side), x.where(), "%s", w)
		}
	}
	// caches
	hashReach := c.reachableFrom(keysFn(hf)...)
	seen := map[ssa.Instruction]bool{}
	for k := range t.keys {
		side := strings.HasSuffix(k, "."+t.rh)
		if !strings.HasPrefix(k, typeName(t.I)+".") || !side && !strings.HasSuffix(k, "."+t.lh) {
			continue
		}
		for _, s := range c.fieldStores(k) {
			st, ok := s.In.(*ssa.Store)
			if !ok || seen[s.In] || isTestHelper(c, s.Fn) {
				continue
			}
			seen[s.In] = true
			if cn, ok := st.Val.(*ssa.Const); ok && cn.IsNil() && !hashReach[s.Fn] || c.freshStore(s) {
				rc.ok("write in %s (%s)", fnName(s.Fn), c.pos(s.In))
				continue
			}
			w := t.cacheStores(s.Fn, side, hf, 2)
			rc.check(w == "", "cached hash in "+fnName(s.Fn), c.pos(s.In), "%s", w)
		}
	}
	for k := range t.keys {
		if !strings.HasPrefix(k, typeName(t.MT)+".") || !strings.HasSuffix(k, "."+t.thash) {
			continue
		}
		for _, s := range c.fieldStores(k) {
			if seen[s.In] || isTestHelper(c, s.Fn) {
				continue
			}
			seen[s.In] = true
			if c.freshStore(s) {
				continue // a copy, see C14; new trees have no hash
			}
			e := c.run(s.Fn, opq("C16"))
			for _, x := range e.Exits {
				for _, ev := range x.St.Events() {
					if ev.Kind != "store" || ev.Args[0].Op != OFAddr || ev.Args[0].Aux != k || freshBase(ev.Args[0]) {
						continue
					}
					m := V{ev.Args[0].Args[0], ptrTo(t.MT)}
					ok := false
					for _, h := range x.St.Events() {
						if f, _ := h.Fn.(*ssa.Function); (h.Kind == "call" || h.Kind == "ret") && f != nil && hf[f] && h.Res == ev.Args[1] {
							ok = unwrap(h.Args[0]) == unwrap(e.sel(z, m, t.root).T) && h.Args[t.treeArg(f)] == m.T
						}
					}
					rr.check(ok, "tree hash in "+fnName(s.Fn), ev.Pos, "the tree hash is not set to the hash of the tree's root node")
				}
			}
		}
	}
	// lookups
	get := c.method("merkletree", "MerkleTree", "Get")
	e = c.run(get, nil)
	mt := e.arg(0)
	idx := e.argOf(bytesT(), 0).T
	apT := c.named("merkletree", "AuthenticationPath")
	doneL := map[*LoopRec]bool{}
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		p := V{x.Res[0], ptrTo(apT)}
		rec, ph := descentFrom(st, e.sel(z, mt, t.root).T)
		if rec == nil {
			rg.fail("Get", x.where(), "a lookup answers without descending from the root")
			continue
		}
		pt := e.sel(st, p, "PrunedTree").T
		if !doneL[rec] {
			doneL[rec] = true
			for i, alt := range rec.Alts {
				w := t.lookupStep(e, rec, alt, ph, i, idx, pt)
				rg.check(w == "", "descent in "+rec.In, lastPos(alt.EventsSince(rec.Base), rec.Pos), "a step of the lookup is wrong: %s", w)
			}
		}
		w := ""
		np := ph.Term
		kind := t.kindOf(st, np)
		lf := e.sel(st, p, "Leaf")
		switch {
		case p.T.Op != OAlloc || lf.T.Op != OAlloc:
			w = "the answer is not a new structure"
		case kind != t.L && kind != t.E:
			w = "the lookup stops at a node that is neither a leaf nor an empty branch"
		case !st.same(e.sel(st, p, "LookupIndex").T, idx):
			w = "the answer does not carry the index looked up"
		case !st.same(e.sel(st, p, "TreeNonce").T, e.sel(z, mt, t.nonce).T):
			w = "the answer does not carry the tree's nonce"
		default:
			n := t.as(e, st, np, kind)
			eq := func(what string, a, b V) {
				if w == "" && !st.same(a.T, b.T) {
					w = "the answer's " + what + " is not that of the node reached"
				}
			}
			eq("level", e.sel(st, lf, "Level"), e.sel(z, n, t.level))
			emp := e.sel(st, lf, "IsEmpty").T
			if kind == t.E {
				eq("index", e.sel(st, lf, "Index"), e.sel(z, n, t.eindex))
				if w == "" && !st.Holds(emp) {
					w = "an empty branch is not marked as empty"
				}
				break
			}
			eq("index", e.sel(st, lf, "Index"), e.sel(z, n, t.index))
			if w == "" && !st.Holds(mkNot(emp)) {
				w = "a leaf is marked as empty"
			}
			com, nc := e.sel(st, lf, "Commitment"), e.sel(z, n, t.com)
			eq("commitment", e.sel(st, com, "Value"), e.sel(z, nc, "Value"))
			is := bytesEq(e.sel(z, n, t.index).T, idx)
			switch {
			case st.Holds(is):
				eq("value", e.sel(st, lf, "Value"), e.sel(z, n, t.val))
				eq("salt", e.sel(st, com, "Salt"), e.sel(z, nc, "Salt"))
			case !st.Holds(mkNot(is)):
				w = "it is not known whether the leaf reached is the one looked up"
			}
		}
		rl.check(w == "", "answer of Get", x.where(), "%s", w)
	}
}

func keysFn(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	return r
}

// cacheStores: what f stores into the cached hash of a side.
func (t *treeT) cacheStores(f *ssa.Function, side bool, hf map[*ssa.Function]bool, depth int) string {
	c := t.c
	e := c.run(f, &Opts{Name: "C16", Opaque: func(g *ssa.Function) (bool, bool) { return hf[g], hf[g] }})
	bad := ""
	for _, x := range e.Exits {
		for _, ev := range x.St.allEvents() {
			if ev.Kind == "store" && ev.Args[0].Op == OParam && types.Identical(ev.Args[0].T, types.NewPointer(bytesT())) {
				bad = "a hash is stored through a pointer of unknown origin"
			}
			if ev.Kind != "store" || ev.Args[0].Op != OFAddr || fieldShort(ev.Args[0].Aux) != t.hashOf(side) || !strings.HasPrefix(ev.Args[0].Aux, typeName(t.I)+".") || freshBase(ev.Args[0]) {
				continue
			}
			st := x.St
			if ev.alt != nil {
				st = ev.alt
			}
			n := V{ev.Args[0].Args[0], ptrTo(t.I)}
			var m *Term
			for _, h := range st.Events() {
				if g, _ := h.Fn.(*ssa.Function); (h.Kind == "call" || h.Kind == "ret") && g != nil && hf[g] && h.Res == ev.Args[1] {
					m = h.Args[t.treeArg(g)]
				}
			}
			w := "a cached hash is set to something else than the child's hash"
			if m != nil {
				w = t.hashOfChild(e, st, n, m, side, ev.Args[1], hf, false)
			}
			if w != "" {
				bad = w
			}
		}
	}
	if bad == "" || depth == 0 || f.Object() != nil && f.Object().Exported() || hf[f] {
		return bad
	}
	cs := c.callersOf(f)
	for _, g := range cs {
		if w := t.cacheStores(g, side, hf, depth-1); w != "" {
			return w
		}
	}
	if len(cs) == 0 {
		return bad
	}
	return ""
}

// descentFrom: the loop that walks down from the given node.
func descentFrom(st *State, root *Term) (*LoopRec, *PhiRec) {
	for n := st.loops; n != nil; n = n.up {
		for _, ph := range n.rec.Phis {
			if ph.Init != nil && unwrap(ph.Init) == unwrap(root) {
				return n.rec, ph
			}
		}
	}
	return nil, nil
}

// leafDigest: the digest the recomputation of the root hash starts from, and
// the state it is made in.
func (c *Ctx) leafDigest(e *Engine, st *State, ap V, treeHash *Term) (*Term, *State) {
	var d *Term
	var ds *State
	st.posFact(func(t *Term) bool {
		if t.Op != OEq {
			return false
		}
		h := t.Args[1]
		if t.Args[1] == treeHash {
			h = t.Args[0]
		} else if t.Args[0] != treeHash {
			return false
		}
		if c.recomputed(e, st, ap, h) != "" {
			return false
		}
		if _, ok := isDigest(h); ok {
			d, ds = h, st
			return true
		}
		for n := st.loops; n != nil; n = n.up {
			for _, ph := range n.rec.Phis {
				if ph.Term == h {
					d, ds = ph.Init, n.rec.Base
					return true
				}
			}
		}
		return false
	})
	if d != nil {
		if _, ok := isDigest(d); !ok {
			return nil, nil
		}
	}
	return d, ds
}

// lookupStep: one level of a lookup.
func (t *treeT) lookupStep(e *Engine, rec *LoopRec, alt *State, ph *PhiRec, i int, idx, pt *Term) string {
	if t.kindOf(alt, ph.Term) != t.I {
		return "a node that is not an interior node is descended"
	}
	n := t.as(e, alt, ph.Term, t.I)
	bit := mkBit(idx, rec.IV)
	var side bool
	switch {
	case alt.Holds(bit):
		side = true
	case alt.Holds(mkNot(bit)):
	default:
		return "the direction does not depend on the index bit of this level alone"
	}
	if unwrap(ph.Next[i]) != unwrap(e.sel(zeroState, n, t.child(side)).T) {
		return "the descent does not follow the index bit"
	}
	// the hash collected
	var el *Term
	for _, p := range rec.Phis {
		if p.Term != pt {
			continue
		}
		if p.Init != nil && p.Init.Op != ONil && !isInt0(mkLen(p.Init)) {
			return "the list of hashes is not empty at the root"
		}
		if !oneMore(p.Next[i], pt) {
			return "not exactly one hash is collected"
		}
		el = p.Next[i].Args[1].Args[0]
	}
	if el == nil {
		return "the list of hashes in the answer is not collected on the way down"
	}
	if el.Op == OFit && len(el.Args) > 0 {
		el = el.Args[0]
	} else {
		return "what is collected is not a hash"
	}
	if unwrap(el) == e.sel(zeroState, n, t.hashOf(!side)).T {
		return ""
	}
	if m := t.hashOfChild(e, alt, n, e.Args[0], !side, el, t.hashFns(), false); m == "" {
		return ""
	}
	return "what is collected is not the hash of the other side"
}

func init() {
	checks["C16"] = propC16
	expl["C16"] = "The digests computed by the node types' hash methods are derived as terms over the node's fields and compared, after renaming nonce, index, level and commitment, with the digest from which the proof verifier starts its recomputation; interior hashes, every write of a cached hash and of the tree hash are traced to hash calls on the right child; all iterations and exits of a lookup are compared with the node reached."
}
