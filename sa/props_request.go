package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C36: no request crashes the directory or the auditor

// treeOwn: the obligation is about the shape of the tree, which the tree's
// own operations establish (C15).
type treeOwn struct {
	t *treeT
	d *dirT
}

func (o *treeOwn) isNodeT(t types.Type) bool {
	if t == nil {
		return false
	}
	if types.Identical(t, o.t.N) {
		return true
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	for _, n := range []*types.Named{o.t.I, o.t.L, o.t.E} {
		if types.Identical(p.Elem(), n) {
			return true
		}
	}
	return false
}

// shape: cond only says that the tree has the shape it always has.
func (o *treeOwn) shape(ob *Obl, f OblFail, q *crashQ) bool {
	if x := notNil(f.Cond); x != nil {
		// every interior node has two children, every other node a parent
		if o.isNodeT(x.T) {
			return true
		}
		if x.Op == OFVal && o.isNodeT(x.Args[0].T) {
			key := cutAt(x.Aux)
			if key == structField(o.t.L, o.t.com) {
				q.state[key] = ob.Pos
				return true
			}
		}
		return false
	}
	switch ob.Kind {
	case "assert":
		if f.Cond.Op != OTypeIs || !o.isNodeT(f.Cond.Args[0].T) {
			return false
		}
		x := f.Cond.Args[0]
		// a parent is an interior node
		if x.Op == OFVal && strings.HasSuffix(cutAt(x.Aux), "."+o.t.parent) {
			return true
		}
		// the other kinds of nodes were excluded
		want := f.Cond.Aux
		for _, n := range []*types.Named{o.t.I, o.t.L, o.t.E} {
			pt := types.NewPointer(n)
			if typeName(pt) == want {
				continue
			}
			if f.St.negFact(func(t *Term) bool { return t.Op == OTypeIs && t.Args[0] == x && t.Aux == typeName(pt) }) == nil {
				return false
			}
		}
		return true
	case "index", "slice":
		// the descent ends before the bits of an index do
		if f.Cond.Op != OGe0 || !strings.Contains(ob.In, "merkletree.") {
			return false
		}
		l := linOf(f.Cond.Args[0])
		min, steps := int64(0), 0
		for i, a := range l.Atoms {
			switch {
			case (a.Op == OIV || a.Op == OPhi || a.Op == OLin) && l.K[i] == -1:
				steps++
			case a.Op == OLen && l.K[i] == 8:
				min += 256
			default:
				return false
			}
		}
		need := int64(255)
		if ob.Kind == "slice" {
			need = 256
		}
		return steps == 1 && min+l.C >= need
	}
	return false
}

func structField(n *types.Named, name string) string {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return structKey(n, i)
		}
	}
	return ""
}

// loaded: the path contradicts C13: a snapshot is missing though an earlier
// one is loaded and it isn't beyond the latest.
func (d *dirT) loaded(st *State, cond *Term) bool {
	isSnap := func(t *Term) bool {
		return (t.Op == OMapGet || t.Op == OMapHas) && t.Args[0].Op == OFVal && cutAt(t.Args[0].Aux) == structField(d.PAD, d.snaps)
	}
	var there, missing []*Term
	note := func(f *Term) {
		neg := f.Op == ONot
		if neg {
			f = f.Args[0]
		}
		switch {
		case f.Op == OIsNil && isSnap(f.Args[0]):
			if neg {
				there = append(there, f.Args[0])
			} else {
				missing = append(missing, f.Args[0])
			}
		case isSnap(f) && f.Op == OMapHas:
			if neg {
				missing = append(missing, f)
			} else {
				there = append(there, f)
			}
		}
	}
	for _, f := range st.Facts() {
		note(f)
	}
	if cond != nil && cond != False {
		note(mkNot(cond))
	}
	e := &Engine{p: d.c.p, o: &Opts{}}
	for _, m := range missing {
		pad := V{m.Args[0].Args[0], ptrTo(d.PAD)}
		latest := e.sel(zeroState, pad, d.latest+".Epoch").T
		if !st.Holds(mkGe0(linAdd(linOf(latest), linOf(m.Args[1]), -1))) {
			continue
		}
		for _, t := range there {
			if sameMap(t.Args[0], m.Args[0]) && st.Holds(mkGe0(linAdd(linOf(m.Args[1]), linOf(t.Args[1]), -1))) {
				return true
			}
		}
	}
	return false
}

// policiesAd: the associated data of the directory's roots are policies (rule
// "policies").
func (d *dirT) policiesAd(cond *Term) bool {
	if cond.Op != OTypeIs || cond.Aux != typeName(types.NewPointer(d.c.named("protocol", "Policies"))) {
		return false
	}
	x := cond.Args[0]
	if x.Op != OFVal || typeName(x.T) != "merkletree.AssocData" {
		return false
	}
	b := x.Args[0]
	return b.Op == OFVal && cutAt(b.Aux) == structField(d.PAD, d.latest) ||
		b.Op == OMapGet && b.Args[0].Op == OFVal && cutAt(b.Args[0].Aux) == structField(d.PAD, d.snaps)
}

// sized: the number is limited by what is there already, not by what a peer
// says.
func sized(st *State, n *Term, roots map[*Term]bool) bool {
	var ownInt func(t *Term) bool
	ownInt = func(t *Term) bool {
		for t.Op == OFVal || t.Op == ODeref || t.Op == OMapGet {
			t = t.Args[0]
			if roots[t] {
				return true
			}
		}
		return roots[t]
	}
	small := func(a *Term) bool {
		if b := unConv(a); b != a {
			return sized(st, b, roots)
		}
		if a.Op == OLen || a.Op == OCap || isUnsigned(a.T) && narrow(a.T) {
			return true
		}
		if ownInt(a) {
			return true
		}
		// at most something that is there, or a constant
		var cands []*Term
		for _, f := range st.Facts() {
			anySub(f, func(s *Term) bool {
				if s.Op == OLen || s.Op == OCap || s.Op == OFVal && ownInt(s) {
					cands = append(cands, s)
				}
				return false
			})
		}
		if st.Holds(mkGe0(linAdd(linConst(1<<20), linOf(a), -1))) {
			return true
		}
		for _, c := range cands {
			if st.Holds(mkGe0(linAdd(linAdd(linConst(1<<20), linOf(c), 1), linOf(a), -1))) {
				return true
			}
		}
		return false
	}
	l := linOf(n)
	for i, a := range l.Atoms {
		if l.K[i] > 0 && !small(a) || l.K[i] < 0 && !nonNeg(a) {
			return false
		}
	}
	return true
}

func narrow(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Uint16)
}

// allocations decides that every allocation of the exploration is limited.
func (q *crashQ) allocations(r *Rule, e *Engine, roots map[*Term]bool) {
	r.ok("%s: %d allocations of a given size", fnName(e.root), len(e.Makes))
	for _, m := range e.Makes {
		r.check(sized(m.St, m.N, roots), "allocation in "+m.In, m.Pos, "the size of an allocation (%s) is chosen by the peer", short80(m.N))
	}
}

// jsonable: why encoding a value of this type may fail.
func jsonable(t types.Type) string {
	bad := ""
	encoded(t, "json", func(t types.Type, path string) bool {
		if hasMethod(t, "MarshalJSON") || hasMethod(t, "MarshalText") {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Chan, *types.Signature:
			bad = path
		case *types.Basic:
			if u.Info()&types.IsComplex != 0 {
				bad = path
			}
		case *types.Map:
			k, ok := u.Key().Underlying().(*types.Basic)
			if !(ok && k.Info()&(types.IsString|types.IsInteger) != 0) && !hasMethod(u.Key(), "MarshalText") {
				bad = path
			}
		}
		return bad == ""
	})
	return bad
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

func propC36(c *Ctx) {
	rd := c.Rule("decoding", "decoding a request never fails at run time, for any bytes, and yields an error or a request whose body is absent or points to something", 6)
	rc := c.Rule("connections", "nothing read from a connection makes the goroutine that serves it, or the one that accepts, fail", 12)
	rh := c.Rule("handlers", "no operation of a request handler can fail at run time, for a request of any type with any body and any contents, in any state of the directory", 40)
	ra := c.Rule("answers", "a handler always has an answer, and every kind of answer can be encoded", 20)
	ro := c.Rule("operations", "no operation of the directory or the audit log can fail at run time for any request it is given", 60)
	rs := c.Rule("state", "the state the handlers rely on is set up by every constructor and never taken away", 6)
	rm := c.Rule("sizes", "the size of nothing that is allocated for a request is chosen by the peer", 3)

	d := c.dir()
	t := c.tree()
	tr := &treeOwn{t, d}
	q := c.crashQ()
	var engines []*Engine

	// decoding
	s := c.srv()
	ue := c.run(s.unm, nil)
	q.noCrash(rd, ue, nil, nil, nil)
	q.allocations(rm, ue, nil)
	reqT := ptrTo(c.named("protocol", "Request"))
	bodyNil := map[string]bool{}
	for _, x := range ue.Exits {
		if x.Kind != "return" || len(x.Res) != 2 {
			continue
		}
		if x.St.knownNonNil(x.Res[1]) || nonNilTerm(x.Res[1]) {
			rd.ok("refused at %s", x.where())
			continue
		}
		r := x.Res[0]
		rd.check(x.St.knownNonNil(r) || nonNilTerm(r), "request", x.where(), "decoding may yield no request although it reports no error")
		b := ue.sel(x.St, V{r, reqT}, "Request").T
		if b.Op == OIface {
			in := b.Args[0]
			ok := x.St.knownNonNil(in) || nonNilTerm(in)
			if _, ptr := b.Obj.(types.Type).Underlying().(*types.Pointer); !ptr {
				ok = true
			}
			if !ok {
				bodyNil[typeName(b.Obj.(types.Type))] = true
			}
			rd.ok("body %s at %s", typeName(b.Obj.(types.Type)), x.where())
		} else {
			rd.ok("body %s at %s", short80(b), x.where())
		}
	}

	// the answers
	for _, ty := range c.sentTypes() {
		why := jsonable(ty)
		ra.check(why == "", "encoding of "+typeName(ty), "", "an answer of type %s cannot be encoded (%s), which stops the server", typeName(ty), why)
	}
	me := c.run(s.mar, nil)
	roots := map[*Term]bool{}
	for i := range s.mar.Params {
		roots[me.arg(i).T] = true
	}
	q.noCrash(ra, me, roots, nil, nil)

	// the connections
	roots = map[*Term]bool{}
	for i := range s.e.root.Params {
		roots[s.e.arg(i).T] = true
	}
	marshalled := func(t *Term) bool { return t.Op == OCall && callName(t) == fnName(s.mar) }
	q.noCrash(rc, s.e, roots, func(o *Obl, f OblFail) bool {
		x := notNil(f.Cond)
		if x == nil {
			return false
		}
		for x.Op != OCall {
			if len(x.Args) != 1 || x.Op == OFVal || x.Op == ODeref {
				return false
			}
			x = x.Args[0]
		}
		n := callName(x)
		// of a call that failed nothing is known
		failed := f.St.negFact(func(t *Term) bool {
			return t.Op == OIsNil && isErrorType(t.Args[0].T) && t.Args[0] != x && len(t.Args[0].Args) == 1 && t.Args[0].Args[0] == x
		}) != nil
		passed := f.St.posFact(func(t *Term) bool {
			return t.Op == OIsNil && isErrorType(t.Args[0].T) && t.Args[0] != x && len(t.Args[0].Args) == 1 && t.Args[0].Args[0] == x
		}) != nil
		if failed || n == fnName(s.unm) && !passed {
			return false
		}
		// decided by the rules "decoding" and "answers", or the network
		// library's own results
		return n == fnName(s.unm) || n == "dyncall" || external(c, n)
	}, func(x *Exit) bool {
		accepted := false
		for _, ev := range x.St.allEvents() {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".Accept") {
				accepted = true
			}
		}
		if !accepted {
			return true // the server doesn't start
		}
		// an answer that cannot be encoded (rule "answers")
		last := lastFact(x.St)
		return last != nil && last.Op == ONot && last.Args[0].Op == OIsNil && anySub(last, marshalled)
	})
	q.allocations(rm, s.e, roots)

	// the handlers
	exempt := func(body func(x *Term) bool) func(o *Obl, f OblFail) bool {
		return func(o *Obl, f OblFail) bool {
			if x := notNil(f.Cond); x != nil && body(x) {
				return true
			}
			return tr.shape(o, f, q) || d.policiesAd(f.Cond) || d.loaded(f.St, f.Cond)
		}
	}
	leave := func(x *Exit) bool {
		// a tree of another shape
		last := lastFact(x.St)
		if last != nil && anySub(last, func(s *Term) bool { return tr.isNodeT(s.T) }) {
			return true
		}
		return d.loaded(x.St, nil)
	}
	opts := func(h *ssa.Function, name string) *Opts {
		base := d.opts("")
		return &Opts{Name: name, Opaque: base.Opaque, Pre: func(st *State, args []*Term) {
			e := &Engine{p: c.p, o: &Opts{}}
			for i, p := range h.Params {
				switch {
				case isReqT(p.Type()):
					st.assume(mkNot(mkIsNil(args[i])))
				case isPtrTo(p.Type(), "protocol/directory.ConiksDirectory"):
					base.Pre(st, []*Term{args[i]})
				default:
					if n := c.dirField(p.Type()); n != "" {
						base.Pre(st, []*Term{e.sel(zeroState, V{args[i], p.Type()}, n).T})
					}
				}
			}
		}}
	}
	handlers := c.callbacks(s.e.root)
	if len(handlers) == 0 {
		panic(anchorErr{"the request handlers"})
	}
	for _, h := range handlers {
		e := c.run(h, opts(h, "crash"))
		engines = append(engines, e)
		roots := map[*Term]bool{}
		for i, p := range h.Params {
			if !isReqT(p.Type()) {
				roots[e.arg(i).T] = true
			}
		}
		for _, f := range h.FreeVars {
			_ = f
		}
		q.noCrash(rh, e, roots, exempt(func(x *Term) bool {
			// a body of this type is never a nil pointer
			return x.Op == OAssert && !bodyNil[typeName(x.T)] && x.Args[0].Op == OFVal && strings.HasSuffix(cutAt(x.Args[0].Aux), "Request.Request")
		}), leave)
		q.allocations(rm, e, roots)
		for _, x := range e.Exits {
			if x.Kind == "return" && len(x.Res) == 1 {
				ra.check(x.St.knownNonNil(x.Res[0]) || nonNilTerm(x.Res[0]), "answer of "+fnName(h), x.where(), "a handler may have no answer, which crashes the connection's goroutine")
			}
		}
	}

	// the operations
	n := 0
	for _, fn := range c.p.Fns {
		switch fnPkg(fn) {
		case "protocol/directory", "protocol/auditlog":
		default:
			continue
		}
		if fn.Parent() != nil || fn.Synthetic != "" || isTestHelper(c, fn) || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		has := false
		for _, p := range fn.Params {
			has = has || isReqT(p.Type())
		}
		if !has {
			continue
		}
		n++
		e := c.run(fn, opts(fn, "crash"))
		engines = append(engines, e)
		roots := map[*Term]bool{}
		for i, p := range fn.Params {
			if !isReqT(p.Type()) {
				roots[e.arg(i).T] = true
			}
		}
		q.noCrash(ro, e, roots, exempt(func(*Term) bool { return false }), leave)
		q.allocations(rm, e, roots)
	}
	if n < 6 {
		panic(anchorErr{"the operations of the directory and the audit log"})
	}
	d.policiesOnly(c)
	q.initialised(rs, engines)
}

// isReqT: a pointer to a kind of request.
func isReqT(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && strings.HasPrefix(typeName(n), "protocol.") && strings.HasSuffix(n.Obj().Name(), "Request")
}

// lastFact: the last branch taken on the path.
func lastFact(st *State) *Term {
	fs := st.Facts()
	if len(fs) == 0 {
		return nil
	}
	return fs[len(fs)-1]
}

// external: name is that of a function outside the repository.
func external(c *Ctx, name string) bool {
	for _, f := range c.p.Fns {
		if fnName(f) == name {
			return false
		}
	}
	return strings.Contains(name, ".")
}

func init() {
	checks["C36"] = propC36
	expl["C36"] = "every instruction that can fail at run time on every path from the bytes of a request to its answer: decoding, the goroutines that accept and serve connections, the handlers, every operation of the directory and the audit log, and the encoding of answers"
}
