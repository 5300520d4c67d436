package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- shared vocabulary: the prefix tree

type treeT struct {
	c                    *Ctx
	d                    *dirT
	MT, I, L, E          *types.Named // the tree, its interior nodes, user leaves and empty branches
	N                    types.Type   // the interface of nodes
	root, nonce, thash   string
	lc, rc, lh, rh       string
	parent, level        string
	key, val, index, com string
	eindex               string
	keys                 map[string]bool // every field of tree and nodes
}

func hasWord(name, w string) bool { return strings.Contains(strings.ToLower(name), w) }

func isBytesT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Byte])
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st
}

// leafFields: the fields of a struct, those of embedded structs included.
func leafFields(t types.Type) []*types.Var {
	var r []*types.Var
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if s := structOf(f.Type()); f.Embedded() && s != nil {
			if _, ptr := f.Type().Underlying().(*types.Pointer); !ptr {
				r = append(r, leafFields(f.Type())...)
				continue
			}
		}
		r = append(r, f)
	}
	return r
}

func pickField(t types.Type, what string, ok func(f *types.Var) bool) string {
	r := ""
	for _, f := range leafFields(t) {
		if ok(f) {
			if r != "" {
				panic(anchorErr{"the field of " + typeName(t) + " holding " + what + " (ambiguous)"})
			}
			r = f.Name()
		}
	}
	if r == "" {
		panic(anchorErr{"the field of " + typeName(t) + " holding " + what})
	}
	return r
}

func (c *Ctx) tree() *treeT {
	t := &treeT{c: c, d: c.dir()}
	t.MT = t.d.MT
	t.root = c.fieldT(t.MT, "the root node", func(ty types.Type) bool {
		p, ok := ty.(*types.Pointer)
		return ok && structOf(p.Elem()) != nil
	})
	for _, f := range leafFields(t.MT) {
		if f.Name() == t.root {
			t.I = f.Type().(*types.Pointer).Elem().(*types.Named)
		}
	}
	for _, f := range leafFields(t.I) {
		if _, ok := f.Type().Underlying().(*types.Interface); ok {
			t.N = f.Type()
		}
	}
	if t.N == nil {
		panic(anchorErr{"the node interface"})
	}
	isN := func(f *types.Var) bool { return types.Identical(f.Type(), t.N) }
	t.lc = pickField(t.I, "the left child", func(f *types.Var) bool { return isN(f) && hasWord(f.Name(), "left") })
	t.rc = pickField(t.I, "the right child", func(f *types.Var) bool { return isN(f) && hasWord(f.Name(), "right") })
	t.lh = pickField(t.I, "the left hash", func(f *types.Var) bool { return isBytesT(f.Type()) && hasWord(f.Name(), "left") })
	t.rh = pickField(t.I, "the right hash", func(f *types.Var) bool { return isBytesT(f.Type()) && hasWord(f.Name(), "right") })
	t.parent = pickField(t.I, "the parent", func(f *types.Var) bool {
		return f.Name() != t.lc && f.Name() != t.rc && (isN(f) || isPtrTo(f.Type(), typeName(t.I)))
	})
	isLevel := func(f *types.Var) bool { return isInteger(f.Type()) }
	t.level = pickField(t.I, "the level", isLevel)
	for _, it := range c.p.Implementers(t.N) {
		p, ok := it.(*types.Pointer)
		if !ok {
			continue
		}
		n, ok := p.Elem().(*types.Named)
		if !ok || n == t.I || structOf(n) == nil {
			continue
		}
		has := false
		for _, f := range leafFields(n) {
			if isPtrTo(f.Type(), "crypto.Commit") {
				has = true
				t.com = f.Name()
			}
		}
		if has {
			t.L = n
		} else {
			t.E = n
		}
	}
	if t.L == nil || t.E == nil {
		panic(anchorErr{"the kinds of tree nodes"})
	}
	t.key = pickField(t.L, "the name", func(f *types.Var) bool { return types.Identical(f.Type().Underlying(), types.Typ[types.String]) })
	t.val = pickField(t.L, "the value", func(f *types.Var) bool { return isBytesT(f.Type()) && hasWord(f.Name(), "val") })
	t.index = pickField(t.L, "the index", func(f *types.Var) bool { return isBytesT(f.Type()) && hasWord(f.Name(), "ind") })
	t.eindex = pickField(t.E, "the index", func(f *types.Var) bool { return isBytesT(f.Type()) })
	t.nonce = pickField(t.MT, "the nonce", func(f *types.Var) bool { return isBytesT(f.Type()) && hasWord(f.Name(), "nonce") })
	t.thash = pickField(t.MT, "the tree hash", func(f *types.Var) bool { return isBytesT(f.Type()) && hasWord(f.Name(), "hash") })
	t.keys = map[string]bool{}
	var add func(ty types.Type)
	add = func(ty types.Type) {
		st := structOf(ty)
		for i := 0; i < st.NumFields(); i++ {
			t.keys[structKey(ty, i)] = true
			if st.Field(i).Embedded() && structOf(st.Field(i).Type()) != nil {
				add(st.Field(i).Type())
			}
		}
	}
	for _, n := range []*types.Named{t.MT, t.I, t.L, t.E} {
		add(n)
	}
	return t
}

// unwrap removes interface conversions and assertions.
func unwrap(t *Term) *Term {
	for t.Op == OIface || t.Op == OAssert {
		t = t.Args[0]
	}
	return t
}

// kindOf: the node struct a node value is known to be.
func (t *treeT) kindOf(st *State, v *Term) *types.Named {
	for v.Op == OIface {
		v = v.Args[0]
	}
	if v.T != nil {
		for _, n := range []*types.Named{t.I, t.L, t.E, t.MT} {
			if types.Identical(v.T, ptrTo(n)) {
				return n
			}
		}
	}
	for _, n := range []*types.Named{t.I, t.L, t.E} {
		if st.Holds(typeIs(v, ptrTo(n))) {
			return n
		}
	}
	return nil
}

// ---------- C14: snapshots

// cloneQ collects the functions that copy tree parts.
type cloneQ struct {
	t    *treeT
	todo []*cloneFn
	seen map[string]bool
}

type cloneFn struct {
	f           *ssa.Function
	src, parent int // parameter positions; parent -1: none
}

// copyOf: v is a deep copy of src below the given new parent.
func (q *cloneQ) copyOf(e *Engine, st *State, v, src, parent *Term, any bool) string {
	t := q.t
	kind := t.kindOf(st, src)
	u, s := unwrap(v), unwrap(src)
	if u == s || st.same(u, s) {
		return "it shares a node with its source"
	}
	if u.Op != OAlloc {
		for _, ev := range st.Events() {
			f, ok := ev.Fn.(*ssa.Function)
			if !ok || ev.Kind != "call" || ev.Res == nil || unwrap(ev.Res) != u {
				continue
			}
			cf := &cloneFn{f: f, src: -1, parent: -1}
			for i, a := range ev.Args {
				if unwrap(a) == s {
					cf.src = i
				} else if parent != nil && unwrap(a) == unwrap(parent) {
					cf.parent = i
				}
			}
			if cf.src < 0 {
				return "a part of it is not made from the corresponding part of its source"
			}
			if cf.parent < 0 && parent != nil {
				// set afterwards?
				pv := e.sel(st, V{u, ptrTo(t.I)}, t.parent).T
				if unwrap(pv) != unwrap(parent) {
					return "a copied node is not linked to its copied parent"
				}
			}
			k := fnName(f) + " " + string(rune('0'+cf.src)) + string(rune('1'+cf.parent))
			if !q.seen[k] {
				q.seen[k] = true
				q.todo = append(q.todo, cf)
			}
			return ""
		}
		return "a part of it is not a new node"
	}
	if kind == nil {
		return "the kind of a copied node is not known"
	}
	dst := V{u, ptrTo(kind)}
	if t.kindOf(st, u) != kind {
		return "a copied node is of another kind than its source"
	}
	from := V{s, ptrTo(kind)}
	if src.Op == OAssert {
		from.T = src
	} else if src.Op != OIface && src.T != nil && !types.Identical(src.T, ptrTo(kind)) {
		a, _ := e.assertTo(st, src, ptrTo(kind))
		from.T = a
	} else if src.Op == OIface {
		from.T = src.Args[0]
	} else {
		from.T = src
	}
	for _, f := range leafFields(kind) {
		dv, sv := e.sel(st, dst, f.Name()), e.sel(zeroState, from, f.Name())
		switch {
		case f.Name() == t.parent && kind != t.MT:
			if any {
				continue
			}
			if parent == nil || unwrap(dv.T) != unwrap(parent) {
				return "a copied node is not linked to its copied parent"
			}
		case kind == t.I && (f.Name() == t.lc || f.Name() == t.rc), kind == t.MT && f.Name() == t.root:
			p := dst.T
			if kind == t.MT {
				p = nil
			}
			if w := q.copyOf(e, st, dv.T, sv.T, p, kind == t.MT); w != "" {
				return w
			}
		default:
			if !st.same(dv.T, sv.T) && !st.same(e.content(st, dv.T), e.content(st, sv.T)) {
				return "field " + f.Name() + " of a copied node differs from its source: " + dv.T.String() + " vs " + sv.T.String()
			}
		}
	}
	return ""
}

// own: the tree part v belongs to the tree under construction or to a tree
// made by the running operation.
type ownQ struct {
	t    *treeT
	seen map[ssa.Value]bool
}

func (q *ownQ) own(v ssa.Value) string {
	if q.seen[v] {
		return ""
	}
	q.seen[v] = true
	t := q.t
	switch x := v.(type) {
	case *ssa.Alloc:
		// a variable holding a pointer
		if _, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
			return ""
		}
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				if w := q.own(s.Val); w != "" {
					return w
				}
			}
		}
		return ""
	case *ssa.Const:
		return ""
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if w := q.own(ed); w != "" {
				return w
			}
		}
		return ""
	case *ssa.TypeAssert:
		return q.own(x.X)
	case *ssa.MakeInterface:
		return q.own(x.X)
	case *ssa.ChangeInterface:
		return q.own(x.X)
	case *ssa.ChangeType:
		return q.own(x.X)
	case *ssa.Extract:
		return q.own(x.Tuple)
	case *ssa.FieldAddr:
		k := structKey(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
		if k == typeName(t.d.PAD)+"."+t.d.tree {
			return ""
		}
		if t.keys[k] || t.isTreeType(x.X.Type()) {
			return q.own(x.X)
		}
		return "the tree comes from " + k
	case *ssa.UnOp:
		switch x.X.(type) {
		case *ssa.FieldAddr, *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.Phi, *ssa.Call, *ssa.Extract:
			return q.own(x.X)
		}
		return "the tree's origin is not known"
	case *ssa.Parameter:
		f := x.Parent()
		pi := -1
		for i, p := range f.Params {
			if p == x {
				pi = i
			}
		}
		for _, s := range t.c.callSites(func(g *ssa.Function) bool { return g == f }) {
			if isTestHelper(t.c, s.Fn) {
				continue
			}
			cm := s.In.(ssa.CallInstruction).Common()
			var a ssa.Value
			if cm.IsInvoke() {
				if pi == 0 {
					a = cm.Value
				} else {
					a = cm.Args[pi-1]
				}
			} else if pi < len(cm.Args) {
				a = cm.Args[pi]
			}
			if a == nil {
				return "the tree's origin is not known"
			}
			if w := q.own(a); w != "" {
				return w + " (" + t.c.pos(s.In) + ")"
			}
		}
		return ""
	case *ssa.FreeVar:
		f := x.Parent()
		fi := -1
		for i, v := range f.FreeVars {
			if v == x {
				fi = i
			}
		}
		bad := ""
		for _, g := range t.c.p.Fns {
			t.c.eachInstr(g, func(in ssa.Instruction) {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && bad == "" {
					bad = q.own(mc.Bindings[fi])
				}
			})
		}
		return bad
	case *ssa.Call:
		gs := t.c.p.callees(x)
		if len(gs) == 0 {
			return "the tree's origin is not known"
		}
		for _, g := range gs {
			if !inRepo(g) || g.Blocks == nil {
				return "the tree's origin is not known"
			}
			for _, b := range g.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for _, rv := range r.Results {
					if t.isTreeType(rv.Type()) {
						if w := q.own(rv); w != "" {
							return w
						}
					}
				}
			}
		}
		return ""
	}
	return "the tree's origin is not known"
}

func (t *treeT) isTreeType(ty types.Type) bool {
	if types.Identical(ty, t.N) {
		return true
	}
	for _, n := range []*types.Named{t.MT, t.I, t.L, t.E} {
		if types.Identical(ty, ptrTo(n)) {
			return true
		}
	}
	// the address of a variable holding one
	if p, ok := ty.(*types.Pointer); ok {
		return t.isTreeType(p.Elem())
	}
	return false
}

// origins: the calls and other values a tree value can come from.
func (t *treeT) origins(v ssa.Value, seen map[ssa.Value]bool, f func(o ssa.Value)) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, ed := range x.Edges {
			t.origins(ed, seen, f)
		}
	case *ssa.Extract:
		t.origins(x.Tuple, seen, f)
	case *ssa.ChangeType:
		t.origins(x.X, seen, f)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					t.origins(s.Val, seen, f)
				}
			}
			return
		}
		f(v)
	case *ssa.Parameter:
		fn := x.Parent()
		pi := -1
		for i, p := range fn.Params {
			if p == x {
				pi = i
			}
		}
		for _, s := range t.c.callSites(func(g *ssa.Function) bool { return g == fn }) {
			if isTestHelper(t.c, s.Fn) {
				continue
			}
			cm := s.In.(ssa.CallInstruction).Common()
			if !cm.IsInvoke() && pi < len(cm.Args) {
				t.origins(cm.Args[pi], seen, f)
			}
		}
	case *ssa.Const:
	default:
		f(v)
	}
}

// baseOf: the object a store writes into.
func baseOf(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
			continue
		}
		return a
	}
}

// localSeq: the slice or array was made by the running function.
func (c *Ctx) localSeq(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.Const, *ssa.Convert:
		return true
	case *ssa.Slice:
		return c.localSeq(x.X, seen)
	case *ssa.ChangeType:
		return c.localSeq(x.X, seen)
	case *ssa.IndexAddr:
		return c.localSeq(x.X, seen)
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !c.localSeq(ed, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && a.Referrers() != nil {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a && !c.localSeq(s.Val, seen) {
					return false
				}
			}
			return true
		}
		// a field of an object made here
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if al, ok := fa.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				for _, r := range *al.Referrers() {
					f2, ok := r.(*ssa.FieldAddr)
					if !ok || f2.Field != fa.Field {
						continue
					}
					for _, r2 := range *f2.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == f2 && !c.localSeq(s.Val, seen) {
							return false
						}
					}
				}
				return true
			}
		}
		return false
	case *ssa.FieldAddr:
		_, ok := x.X.(*ssa.Alloc)
		return ok
	case *ssa.Extract:
		return c.localSeq(x.Tuple, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return c.localSeq(x.Call.Args[0], seen)
			}
			return false
		}
		gs := c.p.callees(x)
		for _, g := range gs {
			if !inRepo(g) || g.Blocks == nil {
				n := fnName(g)
				// results of the standard library are new, except views of their arguments
				if strings.HasPrefix(n, "bytes.Trim") || strings.HasPrefix(n, "bytes.Field") || strings.HasPrefix(n, "bytes.Split") {
					return false
				}
				continue
			}
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, rv := range r.Results {
						if _, ok := rv.Type().Underlying().(*types.Slice); ok && !c.localSeq(rv, seen) {
							return false
						}
					}
				}
			}
		}
		return len(gs) > 0
	case *ssa.Parameter:
		f := x.Parent()
		if f.Object() != nil && f.Object().Exported() {
			return false
		}
		pi := -1
		for i, p := range f.Params {
			if p == x {
				pi = i
			}
		}
		cs := c.callSites(func(g *ssa.Function) bool { return g == f })
		for _, s := range cs {
			cm := s.In.(ssa.CallInstruction).Common()
			if cm.IsInvoke() || pi >= len(cm.Args) || !c.localSeq(cm.Args[pi], seen) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

func dataPkg(p string) bool {
	return p == "merkletree" || p == "protocol" || strings.HasPrefix(p, "protocol/") || p == "crypto" || p == "utils"
}

// inPlaceWrites: writes into the elements of existing byte or bit strings.
func (c *Ctx) inPlaceWrites(r *Rule) {
	small := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Array:
			_, ok := u.Elem().Underlying().(*types.Basic)
			return ok
		}
		return false
	}
	for _, fn := range c.p.Fns {
		if !dataPkg(fnPkg(fn)) || isTestHelper(c, fn) {
			continue
		}
		c.eachInstr(fn, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if !ok || !small(x.Val.Type()) {
					return
				}
				r.check(c.localSeq(ia.X, map[ssa.Value]bool{}), "element write in "+fnName(fn), c.pos(in), "%s writes into the elements of a byte string it did not make itself: stored values and published snapshots share such strings", fnName(fn))
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if !ok {
					return
				}
				s, ok := x.Call.Args[0].Type().Underlying().(*types.Slice)
				if !ok || !small(s.Elem()) || types.Identical(s.Elem().Underlying(), types.Typ[types.Uint64]) {
					return
				}
				switch b.Name() {
				case "copy":
					r.check(c.localSeq(x.Call.Args[0], map[ssa.Value]bool{}), "copy in "+fnName(fn), c.pos(in), "%s copies into a byte string it did not make itself: stored values and published snapshots share such strings", fnName(fn))
				case "append":
					if sl, ok := x.Call.Args[0].(*ssa.Slice); ok && sl.Max == nil && sl.High != nil {
						r.check(c.localSeq(sl, map[ssa.Value]bool{}), "append in "+fnName(fn), c.pos(in), "%s appends over the elements of a byte string it did not make itself", fnName(fn))
					}
				}
			}
		})
	}
}

// freshIn: every event of f selected by sel writes into an object made by the
// running operation; where f is a helper, in the context of its callers.
func (c *Ctx) freshIn(f *ssa.Function, sel func(ev *Event) bool, depth int) (bool, string) {
	e := c.run(f, nil)
	bad := ""
	for _, x := range e.Exits {
		for _, ev := range x.St.allEvents() {
			if ev.Kind == "store" && sel(ev.Event) && !freshBase(ev.Args[0]) {
				bad = ev.Pos
			}
		}
	}
	if bad == "" {
		return true, ""
	}
	if depth == 0 || f.Object() != nil && f.Object().Exported() {
		return false, bad
	}
	cs := c.callersOf(f)
	if len(cs) == 0 {
		return false, bad
	}
	for _, g := range cs {
		if ok, w := c.freshIn(g, sel, depth-1); !ok {
			return false, w
		}
	}
	return true, ""
}

func propC14(c *Ctx) {
	rc := c.Rule("copy", "copying a tree copies every node below it and links the copies to each other only", 3)
	rp := c.Rule("published", "a published root carries a copy made for it, never the tree under construction", 1)
	rm := c.Rule("mutators", "nodes are changed only in the tree under construction or in a tree made by the running operation", 5)
	ri := c.Rule("contents", "commitments and byte strings shared between a tree and its copies are never changed in place", 3)
	rn := c.Rule("lookups", "searching a snapshot changes nothing", 3)
	t := c.tree()
	d := t.d
	z := zeroState
	// copies
	q := &cloneQ{t: t, seen: map[string]bool{}}
	cl := c.method("merkletree", "MerkleTree", "Clone")
	e := c.run(cl, nil)
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		w := q.copyOf(e, x.St, x.Res[0], e.Args[0], nil, true)
		rc.check(w == "", "Clone", x.where(), "the copy of a tree is not a deep copy: %s", w)
	}
	for len(q.todo) > 0 {
		cf := q.todo[0]
		q.todo = q.todo[1:]
		e := c.run(cf.f, nil)
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			var par *Term
			if cf.parent >= 0 {
				par = e.Args[cf.parent]
			}
			w := q.copyOf(e, x.St, x.Res[0], e.Args[cf.src], par, cf.parent < 0)
			rc.check(w == "", fnName(cf.f), x.where(), "the copy of a node is not a deep copy: %s", w)
			for _, ev := range outerEffects(x.St) {
				rc.fail(fnName(cf.f)+" effects", ev.Pos, "copying changes its source")
			}
		}
	}
	// published trees
	pub := map[ssa.Value]bool{}
	for _, s := range c.fieldStores(typeName(d.STR) + "." + d.stree) {
		st := s.In.(*ssa.Store)
		if isTestHelper(c, s.Fn) || !types.Identical(st.Val.Type(), ptrTo(t.MT)) {
			continue
		}
		t.origins(st.Val, map[ssa.Value]bool{}, func(o ssa.Value) {
			pub[o] = true
			ok := false
			if ca, is := o.(*ssa.Call); is {
				gs := c.p.callees(ca)
				ok = len(gs) == 1 && c.returnsCopy(gs[0], cl, 3)
			}
			rp.check(ok, "tree of a root in "+fnName(s.Fn), c.pos(s.In), "a root carries a tree that is not a copy made for it (%v)", o)
		})
	}
	for _, s := range c.fieldStores(typeName(d.PAD) + "." + d.tree) {
		st := s.In.(*ssa.Store)
		if !types.Identical(st.Val.Type(), ptrTo(t.MT)) {
			continue
		}
		t.origins(st.Val, map[ssa.Value]bool{}, func(o ssa.Value) {
			w := (&ownQ{t, map[ssa.Value]bool{}}).own(o)
			if pub[o] {
				w = "it is the published copy"
			}
			rp.check(w == "", "tree under construction in "+fnName(s.Fn), c.pos(s.In), "the tree under construction may be a published one: %s", w)
		})
	}
	// writers
	keys := map[string]bool{}
	for k := range t.keys {
		keys[k] = true
	}
	seen := map[ssa.Instruction]bool{}
	for k := range keys {
		for _, s := range c.fieldStores(k) {
			if seen[s.In] || isTestHelper(c, s.Fn) {
				continue
			}
			seen[s.In] = true
			w := (&ownQ{t, map[ssa.Value]bool{}}).own(baseOf(s.In.(*ssa.Store).Addr))
			rm.check(w == "", "write in "+fnName(s.Fn), c.pos(s.In), "a node that may belong to a published snapshot is changed: %s", w)
		}
	}
	// shared contents
	cm := c.named("crypto", "Commit")
	cs := cm.Underlying().(*types.Struct)
	wf := map[*ssa.Function]bool{}
	for i := 0; i < cs.NumFields(); i++ {
		for _, s := range c.fieldStores(typeName(cm) + "." + cs.Field(i).Name()) {
			if isTestHelper(c, s.Fn) {
				continue
			}
			if c.freshStore(s) {
				ri.ok("commitment made in %s (%s)", fnName(s.Fn), c.pos(s.In))
				continue
			}
			wf[s.Fn] = true
		}
	}
	for f := range wf {
		ok, at := c.freshIn(f, func(ev *Event) bool { return strings.HasPrefix(ev.Name, typeName(cm)) }, 2)
		ri.check(ok, "commitment in "+fnName(f), at, "%s changes an existing commitment, which a tree shares with its published copies", fnName(f))
	}
	c.inPlaceWrites(ri)
	c.rootsImmutable(ri)
	// lookups
	for _, g := range []struct{ ty, fn string }{{"MerkleTree", "Get"}, {"PAD", "Lookup"}, {"PAD", "LookupInEpoch"}, {"PAD", "GetSTR"}, {"PAD", "LatestSTR"}, {"PAD", "Index"}, {"PAD", "Sign"}} {
		f := c.p.Method("merkletree", g.ty, g.fn)
		if f == nil {
			continue
		}
		e := c.run(f, d.opts("pad"))
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			evs := outerEffects(x.St)
			rn.check(len(evs) == 0, fnName(f), firstPos(evs, x), "%s changes existing data", fnName(f))
		}
	}
	for _, fn := range []string{"KeyLookup", "KeyLookupInEpoch", "Monitor", "GetSTRHistory", "LatestSTR"} {
		f := c.p.Method("protocol/directory", "ConiksDirectory", fn)
		if f == nil {
			continue
		}
		e := c.run(f, d.opts("dir"))
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			evs := outerEffects(x.St)
			rn.check(len(evs) == 0, fnName(f), firstPos(evs, x), "%s changes existing data", fnName(f))
		}
	}
	_ = z
}

func firstPos(evs []locEvent, x *Exit) string {
	if len(evs) > 0 {
		return evs[0].Pos
	}
	return x.where()
}

// returnsCopy: g is the copying method, or returns its result.
func (c *Ctx) returnsCopy(g, cl *ssa.Function, depth int) bool {
	if g == cl {
		return true
	}
	if depth == 0 || g.Blocks == nil || !inRepo(g) {
		return false
	}
	n := 0
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, rv := range r.Results {
			if !isPtrTo(rv.Type(), "merkletree.MerkleTree") {
				continue
			}
			n++
			ca, ok := rv.(*ssa.Call)
			if !ok {
				return false
			}
			gs := c.p.callees(ca)
			if len(gs) != 1 || !c.returnsCopy(gs[0], cl, depth-1) {
				return false
			}
		}
	}
	return n > 0
}

func init() {
	checks["C14"] = propC14
	expl["C14"] = "The copying functions are explored and their results compared, node kind by node kind, with their source (new node, same fields, children copied, linked to the copied parent); the origin of every published tree, of the tree under construction and of every node that is written is followed backwards through the resolved program; in-place writes to commitments and byte strings are enumerated; the paths of all search operations are free of effects on existing objects."
}
