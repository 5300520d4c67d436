package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C15: insertion

type insQ struct {
	t       *treeT
	e       *Engine
	index   *Term // of the binding inserted
	name    *Term
	value   *Term
	allowed map[string]bool
}

func (q *insQ) allow(b *Term, field string) { q.allowed[unwrap(b).String()+"."+field] = true }

// as: the node value v as a pointer to the given node struct.
func (t *treeT) as(e *Engine, st *State, v *Term, n *types.Named) V {
	if v.Op == OIface {
		v = v.Args[0]
	}
	if v.T != nil && types.Identical(v.T, ptrTo(n)) || v.Op == OAlloc {
		return V{v, ptrTo(n)}
	}
	a, _ := e.assertTo(st, v, ptrTo(n))
	return V{a, ptrTo(n)}
}

func isNilT(st *State, t *Term) bool { return t.Op == ONil || st.knownNil(t) }

func (q *insQ) leaf(st *State, n V) string {
	t, e := q.t, q.e
	if !st.same(e.sel(st, n, t.index).T, q.index) {
		return "the leaf does not carry the given index"
	}
	if !st.same(e.sel(st, n, t.key).T, q.name) {
		return "the leaf does not carry the given name"
	}
	if v := e.sel(st, n, t.val).T; !st.same(v, q.value) && !st.same(e.content(st, v), q.value) {
		return "the leaf does not carry the given value"
	}
	com := e.sel(st, n, t.com)
	if com.T.Op != OAlloc {
		return "the leaf's commitment is not a new one"
	}
	salt := e.sel(st, com, "Salt").T
	if !isRandT(salt) {
		return "the commitment's salt is not fresh randomness"
	}
	if v := e.sel(st, com, "Value").T; !st.same(v, digestOf(salt, q.name, q.value)) {
		return "the commitment is not to the given name and value"
	}
	return ""
}

// isRandT: the result of the random source.
func isRandT(t *Term) bool {
	for t.Op == OExtr || t.Op == OSub {
		t = t.Args[0]
	}
	return t.Op == OCall && strings.HasPrefix(t.Aux, "crypto.MakeRand")
}

// prefixIndex: the index of an empty branch below depth d of the path.
func (q *insQ) prefixIndex(st *State, ix, leafIx, d *Term, side bool) bool {
	if ix.Op != OCall || !strings.HasPrefix(ix.Aux, "utils.ToBytes") {
		return false
	}
	b := ix.Args[0]
	ps := parts(b)
	if len(ps) == 0 || len(ps) > 2 {
		return false
	}
	last := ps[len(ps)-1]
	if last.Op != OElem {
		return false
	}
	if v, ok := st.eval(last.Args[0]); !ok || v != side {
		return false
	}
	if len(ps) == 1 {
		return st.Holds(EqI(d, intConst(0, d.T)))
	}
	p := ps[0]
	if p.Op != OSub || !isInt0(p.Args[1]) || !st.same(p.Args[2], d) {
		return false
	}
	src := p.Args[0]
	if src.Op != OCall || !strings.HasPrefix(src.Aux, "utils.ToBits") {
		return false
	}
	return st.same(src.Args[0], q.index) || leafIx != nil && st.same(src.Args[0], leafIx)
}

// emptyAt: v is a new empty branch on the given side of the new node f at depth d.
func (q *insQ) emptyAt(st *State, v *Term, f, leafIx, d *Term, side bool) string {
	t, e := q.t, q.e
	u := unwrap(v)
	if u.Op != OAlloc || t.kindOf(st, u) != t.E {
		return "the other side of a new interior node is not a new empty branch"
	}
	n := V{u, ptrTo(t.E)}
	if !st.same(e.sel(st, n, t.level).T, AddC(d, 1)) {
		return "an empty branch does not get the level of its position"
	}
	if unwrap(e.sel(st, n, t.parent).T) != unwrap(f) {
		return "an empty branch is not linked to its parent"
	}
	if !q.prefixIndex(st, e.sel(st, n, t.eindex).T, leafIx, d, side) {
		return "the index of an empty branch is not the prefix of its position"
	}
	return ""
}

func (t *treeT) child(side bool) string {
	if side {
		return t.rc
	}
	return t.lc
}

func (t *treeT) hashOf(side bool) string {
	if side {
		return t.rh
	}
	return t.lh
}

// split: the leaf was pushed down below the new interior node f at depth d.
func (q *insQ) split(base, st *State, f V, leaf, parent, d *Term) string {
	t, e := q.t, q.e
	L := t.as(e, st, leaf, t.L)
	li := e.sel(base, L, t.index).T
	if !st.same(e.sel(st, f, t.level).T, d) {
		return "a new interior node does not get the level of its position"
	}
	if unwrap(e.sel(st, f, t.parent).T) != unwrap(parent) {
		return "a new interior node is not linked to its parent"
	}
	bit := mkBit(li, d)
	side, ok := st.eval(bit)
	if !ok {
		return "a pushed-down leaf is put on a side that does not depend on its own index bit"
	}
	if unwrap(e.sel(st, f, t.child(side)).T) != unwrap(leaf) {
		return "a pushed-down leaf is not on the side of its own index bit"
	}
	for _, s := range []bool{false, true} {
		if !isNilT(st, e.sel(st, f, t.hashOf(s)).T) {
			return "a new interior node has a cached hash"
		}
	}
	if !st.same(e.sel(st, L, t.level).T, AddC(d, 1)) {
		return "a pushed-down leaf does not get the level of its new position"
	}
	if unwrap(e.sel(st, L, t.parent).T) != unwrap(f.T) {
		return "a pushed-down leaf is not linked to its new parent"
	}
	q.allow(L.T, t.level)
	q.allow(L.T, t.parent)
	o := e.sel(st, f, t.child(!side)).T
	if t.kindOf(st, unwrap(o)) == t.L && unwrap(o).Op == OAlloc {
		return "" // the new leaf, checked by the walk
	}
	return q.emptyAt(st, o, f.T, li, d, !side)
}

// segment follows the path of the index through one segment of the descent.
func (q *insQ) segment(base, st *State, np, depth, endNP, endDepth *Term) string {
	t, e := q.t, q.e
	cur, d := np, depth
	for step := 0; step < 6; step++ {
		if endNP != nil && step > 0 && unwrap(endNP) == unwrap(cur) && st.same(endDepth, d) {
			return ""
		}
		k := t.kindOf(st, cur)
		switch k {
		case t.L:
			c := t.as(e, st, cur, t.L)
			if st.same(e.sel(base, c, t.index).T, q.index) {
				if endNP != nil {
					return "the descent continues below a leaf with the given index"
				}
				if w := q.leaf(st, c); w != "" {
					return w
				}
				if !st.same(e.sel(st, c, t.level).T, e.sel(base, c, t.level).T) || unwrap(e.sel(st, c, t.parent).T) != unwrap(e.sel(base, c, t.parent).T) {
					return "a replaced leaf does not keep its position"
				}
				for _, f := range leafFields(t.L) {
					q.allow(c.T, f.Name())
				}
				return ""
			}
			if !st.differ(e.sel(base, c, t.index).T, q.index) {
				return "a leaf is changed that is not known to have the given index, nor to have another"
			}
			p := t.as(e, st, e.sel(base, c, t.parent).T, t.I)
			var f V
			for _, side := range []bool{false, true} {
				b0, b1 := e.sel(base, p, t.child(side)).T, e.sel(st, p, t.child(side)).T
				if unwrap(b0) == unwrap(b1) {
					continue
				}
				if f.T != nil {
					return "both children of a node are replaced"
				}
				if u := unwrap(b1); u.Op != OAlloc || t.kindOf(st, u) != t.I {
					return "a pushed-down leaf is not replaced by a new interior node"
				}
				f = V{unwrap(b1), ptrTo(t.I)}
				q.allow(p.T, t.child(side))
				left := e.sel(base, p, t.lc).T
				here := st.same(cur, b0) || st.same(c.T, b0) || st.same(unwrap(cur), b0)
				if side {
					here = here || st.differ(cur, left) || st.differ(c.T, left) || st.differ(unwrap(cur), left)
				}
				if !here {
					return "the new interior node is not put where the pushed-down leaf was"
				}
			}
			if f.T == nil {
				return "a leaf on the path is not pushed down"
			}
			if w := q.split(base, st, f, cur, p.T, d); w != "" {
				return w
			}
			cur = f.T
		case t.I:
			c := t.as(e, st, cur, t.I)
			fresh := unwrap(c.T).Op == OAlloc
			side, ok := st.eval(mkBit(q.index, d))
			if !ok {
				return "the side taken does not depend on the index bit of the depth"
			}
			if !isNilT(st, e.sel(st, c, t.hashOf(side)).T) {
				return "the cached hash of a node on the path is not dropped on the side of the new leaf"
			}
			q.allow(c.T, t.hashOf(side))
			q.allow(c.T, t.child(side))
			child := e.sel(st, c, t.child(side)).T
			u := unwrap(child)
			old := child
			if !fresh {
				old = e.sel(base, c, t.child(side)).T
				if unwrap(e.sel(st, c, t.child(!side)).T) != unwrap(e.sel(base, c, t.child(!side)).T) {
					return "the child off the path is replaced"
				}
			}
			switch {
			case u.Op == OAlloc && t.kindOf(st, u) == t.L:
				if endNP != nil {
					return "the insertion continues after the new leaf was linked"
				}
				if !fresh && t.kindOf(st, old) != t.E {
					return "the new leaf replaces a node that is not known to be an empty branch"
				}
				n := V{u, ptrTo(t.L)}
				if w := q.leaf(st, n); w != "" {
					return w
				}
				if !st.same(e.sel(st, n, t.level).T, AddC(d, 1)) {
					return "the new leaf does not get the level of its position"
				}
				if unwrap(e.sel(st, n, t.parent).T) != unwrap(c.T) {
					return "the new leaf is not linked to its parent"
				}
				return ""
			case u.Op == OAlloc && t.kindOf(st, u) == t.I && !fresh && unwrap(old) != u:
				if t.kindOf(st, old) != t.L {
					return "a node is replaced that is not known to be a leaf"
				}
				f := V{u, ptrTo(t.I)}
				if w := q.split(base, st, f, old, c.T, AddC(d, 1)); w != "" {
					return w
				}
				cur, d = f.T, AddC(d, 1)
			case unwrap(old) == u:
				if fresh && u.Op == OAlloc {
					return "the insertion does not reach the new leaf"
				}
				cur, d = child, AddC(d, 1)
			default:
				return "a child on the path is replaced by another node"
			}
		default:
			return "the descent ends at a node of unknown kind without inserting"
		}
	}
	return "the descent is not followed"
}

// frame: no store of the segment changes an existing node elsewhere.
func (q *insQ) frame(st *State, evs []*Event) string {
	t := q.t
	for _, ev := range evs {
		if ev.Kind == "loop" && ev.Loop != nil {
			for _, a := range ev.Loop.Alts {
				if w := q.frame(a, a.EventsSince(ev.Loop.Base)); w != "" {
					return w
				}
			}
		}
		if ev.Kind != "store" || freshBase(ev.Args[0]) {
			continue
		}
		a := ev.Args[0]
		if a.Op == OFAddr {
			// embedded structs
			b := a
			for b.Op == OFAddr {
				b = b.Args[0]
			}
			name := a.Aux[strings.LastIndexByte(a.Aux, '.')+1:]
			if !t.keys[a.Aux] {
				return "data outside the tree is changed (" + ev.Pos + ")"
			}
			if structOf(ev.Args[1].T) != nil && ev.Args[1].T != nil {
				if _, isP := ev.Args[1].T.Underlying().(*types.Pointer); !isP {
					name = ""
				}
			}
			if name != "" && q.allowed[unwrap(b).String()+"."+name] {
				continue
			}
			return "field " + a.Aux + " of another node is changed (" + ev.Pos + ")"
		}
		// a whole node
		if k := t.kindOf(st, a); k == t.L {
			ok := true
			for _, f := range leafFields(t.L) {
				ok = ok && q.allowed[unwrap(a).String()+"."+f.Name()]
			}
			if ok {
				continue
			}
		}
		return "another node is overwritten (" + ev.Pos + ")"
	}
	return ""
}

func propC15(c *Ctx) {
	rl := c.Rule("insert", "an insertion ends with exactly the given binding, freshly committed, in its place on the path of its index", 3)
	rs := c.Rule("path", "every step of the descent follows the index bit, drops the cached hash on its side, and pushes a leaf down to the side of its own bit", 4)
	rv := c.Rule("private", "a leaf's value is a private copy", 1)
	ro := c.Rule("only", "nodes are linked and leaves are filled by insertions and copies only", 3)
	rr := c.Rule("root", "a new tree is an interior node at level 0 over two empty branches", 1)
	t := c.tree()
	set := c.method("merkletree", "MerkleTree", "Set")
	e := c.run(set, nil)
	q := &insQ{t: t, e: e}
	nb := 0
	for i, p := range set.Params[1:] {
		if types.Identical(p.Type().Underlying(), types.Typ[types.String]) {
			q.name = e.Args[i+1]
		} else if isBytesT(p.Type()) {
			if nb == 0 {
				q.index = e.Args[i+1]
			} else {
				q.value = e.Args[i+1]
			}
			nb++
		}
	}
	if q.name == nil || q.index == nil || q.value == nil {
		panic(anchorErr{"the parameters of MerkleTree.Set"})
	}
	root := e.sel(zeroState, e.arg(0), t.root)
	depths := func(rec *LoopRec) []*PhiRec {
		var r []*PhiRec
		for _, ph := range rec.Phis {
			if ph.Init != nil && ph.Init.T != nil && isIntTerm(ph.Init) && isInt0(ph.Init) {
				r = append(r, ph)
			}
		}
		return r
	}
	descent := func(st *State) (*LoopRec, *PhiRec) {
		for n := st.loops; n != nil; n = n.up {
			for _, ph := range n.rec.Phis {
				if ph.Init != nil && unwrap(ph.Init) == root.T {
					return n.rec, ph
				}
			}
		}
		return nil, nil
	}
	done := map[*LoopRec]bool{}
	for _, x := range e.Exits {
		st := x.St
		switch x.class() {
		case retErr:
			evs := outerEffects(st)
			rl.check(len(evs) == 0, "Set fails", firstPos(evs, x), "a failing insertion changes the tree")
			continue
		case retMaybe:
			rl.fail("Set", x.where(), "it is not known whether the insertion failed")
			continue
		case retOther:
			continue
		}
		rec, ph := descent(st)
		if rec == nil {
			rl.fail("Set", x.where(), "an insertion succeeds without descending from the root")
			continue
		}
		if !done[rec] {
			done[rec] = true
			for i, alt := range rec.Alts {
				why := "there is no depth counter"
				for _, dp := range depths(rec) {
					q.allowed = map[string]bool{}
					why = q.segment(rec.Base, alt, ph.Term, dp.Term, ph.Next[i], dp.Next[i])
					if why == "" {
						why = q.frame(alt, alt.EventsSince(rec.Base))
					}
					if why == "" {
						break
					}
				}
				rs.check(why == "", "descent in "+rec.In, lastPos(alt.EventsSince(rec.Base), rec.Pos), "a step of the descent is wrong: %s", why)
			}
		}
		why := "there is no depth counter"
		for _, dp := range depths(rec) {
			q.allowed = map[string]bool{}
			why = q.segment(rec.Base, st, ph.Term, dp.Term, nil, nil)
			if why == "" {
				why = q.frame(st, afterLoop(st, rec))
			}
			if why == "" {
				break
			}
		}
		rl.check(why == "", "Set inserts", lastPos(afterLoop(st, rec), x.where()), "the insertion is wrong: %s", why)
		// before the descent nothing happens
		q.allowed = map[string]bool{}
		w := q.frame(rec.Base, rec.Base.Events())
		rl.check(w == "", "Set before the descent", x.where(), "%s", w)
	}
	// values
	vk := ""
	for k := range t.keys {
		if strings.HasPrefix(k, typeName(t.L)+".") && strings.HasSuffix(k, "."+t.val) {
			vk = k
		}
	}
	var okVal func(v ssa.Value, depth int) bool
	okVal = func(v ssa.Value, depth int) bool {
		if c.localSeq(v, map[ssa.Value]bool{}) {
			return true
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && structKey(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) == vk {
				return true // another leaf's own copy
			}
		case *ssa.Parameter:
			if depth > 3 {
				return false
			}
			pi := -1
			for i, p := range x.Parent().Params {
				if p == x {
					pi = i
				}
			}
			cs := c.callSites(func(g *ssa.Function) bool { return g == x.Parent() })
			if x.Parent().Object() != nil && x.Parent().Object().Exported() {
				return false
			}
			for _, s := range cs {
				cm := s.In.(ssa.CallInstruction).Common()
				if cm.IsInvoke() || pi >= len(cm.Args) || !okVal(cm.Args[pi], depth+1) {
					return false
				}
			}
			return len(cs) > 0
		}
		return false
	}
	for _, s := range c.fieldStores(vk) {
		st := s.In.(*ssa.Store)
		if isTestHelper(c, s.Fn) || !isBytesT(st.Val.Type()) {
			continue
		}
		rv.check(okVal(st.Val, 0), "value in "+fnName(s.Fn), c.pos(s.In), "a leaf keeps a value that its caller may still change")
	}
	// writers
	in := c.reachableFrom(set)
	seen := map[ssa.Instruction]bool{}
	for k := range t.keys {
		if strings.HasPrefix(k, typeName(t.MT)+".") || strings.HasSuffix(k, "."+t.lh) || strings.HasSuffix(k, "."+t.rh) {
			continue
		}
		for _, s := range c.fieldStores(k) {
			if seen[s.In] || isTestHelper(c, s.Fn) {
				continue
			}
			seen[s.In] = true
			if c.freshStore(s) || in[s.Fn] && c.onlyFrom(s.Fn, set) {
				ro.ok("write in %s (%s)", fnName(s.Fn), c.pos(s.In))
				continue
			}
			ok, at := c.freshIn(s.Fn, func(ev *Event) bool {
				return len(ev.Args) > 0 && ev.Args[0].Op == OFAddr && t.keys[ev.Args[0].Aux] && !strings.HasSuffix(ev.Args[0].Aux, "."+t.lh) && !strings.HasSuffix(ev.Args[0].Aux, "."+t.rh) && !strings.HasPrefix(ev.Args[0].Aux, typeName(t.MT)+".")
			}, 2)
			ro.check(ok, "write in "+fnName(s.Fn), at, "%s changes an existing node of the tree outside an insertion", fnName(s.Fn))
		}
	}
	// a new tree
	nf := c.fn("merkletree", "NewMerkleTree")
	e = c.run(nf, nil)
	for _, x := range e.Exits {
		if x.class() == retErr {
			continue
		}
		w := ""
		m := V{x.Res[0], ptrTo(t.MT)}
		st := x.St
		r := e.sel(st, m, t.root)
		zero := intConst(0, types.Typ[types.Uint32])
		qq := &insQ{t: t, e: e, index: mk(OParam, "$none", bytesT())}
		switch {
		case m.T.Op != OAlloc || r.T.Op != OAlloc:
			w = "its root node is not a new interior node"
		case !st.same(e.sel(st, r, t.level).T, zero):
			w = "its root node is not at level 0"
		case !isNilT(st, e.sel(st, r, t.lh).T) || !isNilT(st, e.sel(st, r, t.rh).T):
			w = "its root node has a cached hash"
		default:
			for _, s := range []bool{false, true} {
				if w2 := qq.emptyAt(st, e.sel(st, r, t.child(s)).T, r.T, nil, zero, s); w2 != "" {
					w = w2
				}
			}
		}
		rr.check(w == "", "NewMerkleTree", x.where(), "a new tree is malformed: %s", w)
	}
}

func lastPos(evs []*Event, dflt string) string {
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "store" {
			return evs[i].Pos
		}
	}
	return dflt
}

// afterLoop: the events of the unfinished last iteration and what follows.
func afterLoop(st *State, rec *LoopRec) []*Event {
	evs := st.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "loop" && evs[i].Loop == rec {
			return evs[i+1:]
		}
	}
	return evs
}

// onlyFrom: every caller chain of f comes from g.
func (c *Ctx) onlyFrom(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool {
		if f == g || seen[f] {
			return true
		}
		seen[f] = true
		if f.Object() != nil && f.Object().Exported() {
			return false
		}
		cs := c.callersOf(f)
		if f.Parent() != nil {
			cs = append(cs, f.Parent())
		}
		for _, h := range cs {
			if !up(h) {
				return false
			}
		}
		return len(cs) > 0
	}
	return up(f)
}

func init() {
	checks["C15"] = propC15
	expl["C15"] = "All paths of an insertion: the descent's loop is summarised; every alternative of an iteration and every way out is followed along the bits of the index, comparing the links, levels, parents, cached hashes and leaf contents of the state reached with the tree invariant, and every store is attributed to the path; writers of node fields elsewhere are enumerated; stored values are traced to a private copy."
}
