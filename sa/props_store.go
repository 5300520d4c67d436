package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C30: the storage layer

const levelDB = "github.com/syndtr/goleveldb/leveldb"

// syncedGlobal: the term is a package variable holding write options with
// Sync set, never changed.
func (c *Ctx) syncedGlobal(t *Term) bool {
	if t.Op != ODeref || len(t.Args) != 1 || t.Args[0].Op != OGlobal {
		return false
	}
	g := c.p.globalByName(t.Args[0].Aux)
	if g == nil || c.p.globalStores[g] > 0 {
		return false
	}
	a, ok := c.p.initVals[g].(*ssa.Alloc)
	if !ok {
		return false
	}
	sync := false
	for _, r := range *a.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		st, ok := elemOf(fa.X.Type()).Underlying().(*types.Struct)
		if !ok || st.Field(fa.Field).Name() != "Sync" {
			continue
		}
		for _, u := range *fa.Referrers() {
			if s, ok := u.(*ssa.Store); ok {
				k, isC := s.Val.(*ssa.Const)
				sync = isC && k.Value != nil && constant.BoolVal(k.Value)
			}
		}
	}
	// nobody reaches into it
	for _, f := range c.p.Fns {
		c.eachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && f.Name() != "init" && strings.HasSuffix(typeName(elemOf(fa.X.Type())), "opt.WriteOptions") {
				if _, fresh := fa.X.(*ssa.Alloc); !fresh {
					sync = false
				}
			}
		})
	}
	return sync
}

func propC30(c *Ctx) {
	rw := c.Rule("durable", "every write to the database asks for it to be flushed to stable storage, and applies to the key, value or batch that was given", 1)
	re := c.Rule("results", "the result and the error of the database operation are what the caller gets", 3)
	rn := c.Rule("not found", "a missing key is reported with the database's own not-found error, and the reported sentinel is that error", 2)
	rr := c.Rule("ranges", "a scan covers exactly the given range, and the range of a prefix runs from the prefix to the first key greater than all its extensions", 3)
	rb := c.Rule("batches", "a batch is committed as it is or refused with an error", 1)

	// every use of the database in the repository
	ops := map[string]int{"Put": 3, "Delete": 2, "Write": 2}
	fns := map[*ssa.Function]bool{}
	for _, f := range c.p.Fns {
		f := f
		c.eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := ci.Common().StaticCallee()
			if g == nil || g.Signature.Recv() == nil || !strings.HasPrefix(typeName(elemOf2(g.Signature.Recv().Type())), levelDB+".") {
				return
			}
			switch n := typeName(elemOf2(g.Signature.Recv().Type())); n {
			case levelDB + ".DB", levelDB + ".Transaction":
				fns[f] = true
			}
		})
	}
	for _, f := range c.p.Fns {
		if f.Signature.Recv() != nil && strings.HasSuffix(fnPkg(f), "/leveldbkv") && f.Synthetic == "" {
			fns[f] = true
		}
	}
	isWrap := func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && strings.HasSuffix(fnPkg(f), "/leveldbkv")
	}
	for f := range fns {
		e := c.run(f, &Opts{Name: "db", LogCalls: func(ev *Event) bool { return ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*"+levelDB+".") }})
		for _, x := range e.Exits {
			st := x.St
			if x.Kind != "return" {
				continue
			}
			for _, ev := range st.allEvents() {
				if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "(*"+levelDB+".DB).") && !strings.HasPrefix(ev.Name, "(*"+levelDB+".Transaction).") {
					continue
				}
				op := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
				if n, ok := ops[op]; ok && len(ev.Args) > n {
					o := ev.Args[n]
					ok := false
					if o.Op == OAlloc && ev.Pre != nil {
						s := e.sel(ev.Pre, V{o, o.T}, "Sync").T
						ok = ev.Pre.Holds(s)
					} else if o.Op != ONil {
						ok = c.syncedGlobal(o)
					}
					rw.check(ok, op+" in "+fnName(f), ev.Pos, "%s may be reported as done before it is on stable storage", op)
					if strings.Contains(ev.Name, ".Transaction)") {
						rw.fail(op+" in "+fnName(f), ev.Pos, "a write is deferred to a transaction")
					}
				}
				if op == "OpenTransaction" {
					rw.fail(op+" in "+fnName(f), ev.Pos, "writes are deferred to a transaction")
				}
			}
			if !isWrap(f) {
				continue
			}
			c.wrapper(e, x, f, re, rn, rr, rb)
		}
	}
	// options of the database itself
	for _, s := range c.callSites2(levelDB, "OpenFile") {
		a := s.In.(ssa.CallInstruction).Common().Args
		k, isC := a[1].(*ssa.Const)
		ok := isC && k.Value == nil
		if al, isA := a[1].(*ssa.Alloc); isA {
			ok = true
			for _, r := range *al.Referrers() {
				if fa, isF := r.(*ssa.FieldAddr); isF {
					n := elemOf(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
					if n == "NoSync" || n == "NoWriteMerge" && false {
						ok = false
					}
				}
			}
		}
		rw.check(ok, "OpenFile in "+fnName(s.Fn), c.pos(s.In), "the database is opened with options that may disable flushing")
	}

	// prefixes
	bp := c.fn("storage/kv", "BytesPrefix")
	ik := c.fn("storage/kv", "IncrementKey")
	e := c.run(ik, nil)
	zero := intConst(0, types.Typ[types.Int])
	prefix := e.arg(0)
	n := mkLen(prefix.T)
	some := 0
	for _, x := range e.Exits {
		if x.Kind != "return" {
			rr.fail("IncrementKey", x.where(), "computing the end of a range may end in a %s", x.Kind)
			continue
		}
		st := x.St
		ff := func(a *State, idx *Term) bool {
			return a.Holds(EqI(mkIdx(prefix.T, idx, types.Typ[types.Byte]), intConst(255, types.Typ[types.Byte]))) ||
				a.Holds(mkGe0(linAdd(linOf(mkIdx(prefix.T, idx, types.Typ[types.Byte])), linConst(-255), 1)))
		}
		if st.knownNil(x.Res[0]) {
			rr.check(st.forallDown(zero, n, ff), "end of a prefix", x.where(), "a prefix that does not consist of 0xff bytes only gets an unlimited range")
			continue
		}
		some++
		r := e.content(st, x.Res[0])
		rl := mkLen(r)
		last := AddC(rl, -1)
		pb := mkIdx(prefix.T, last, types.Typ[types.Byte])
		incr := st.Holds(EqI(mkIdx(r, last, types.Typ[types.Byte]), AddC(pb, 1)))
		if r.Op == OSub && !incr {
			// written to a copy after it was made
			n := 0
			for _, ev := range st.Events() {
				if ev.Kind == "store" && len(ev.Args) == 2 && ev.Args[0].Op == OIAddr && ev.Args[0].Args[0] == r {
					n++
					incr = ev.Args[0].Args[1] == last && ev.Args[1] == AddC(pb, 1)
				}
			}
			incr = incr && n == 1 && c.writesOwn(ik)
		}
		noWrap := st.Holds(mkGe0(linAdd(linConst(254), linOf(pb), -1))) || st.Holds(mkNot(EqI(pb, intConst(255, pb.T))))
		same := st.prefixOf(r, last, prefix.T)
		rest := st.forallDown(rl, n, ff)
		rr.check(incr && noWrap && same && rest, "end of a prefix", x.where(), "the end of the range is not the first key after all keys with the prefix")
	}
	rr.check(some > 0, "end of a prefix", c.p.Pos(ik.Pos()), "no prefix gets an end")
	e = c.run(bp, &Opts{Name: "c30", Opaque: func(g *ssa.Function) (bool, bool) { return g == ik, g == ik }})
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		v := V{x.Res[0], ptrTo(c.named("storage/kv", "Range"))}
		lim := e.sel(x.St, v, "Limit").T
		ok := e.content(x.St, e.sel(x.St, v, "Start").T) == e.arg(0).T
		okl := false
		for _, ev := range x.St.Events() {
			if ev.Kind == "call" && fnOf(ev) == ik && ev.Args[0] == e.arg(0).T && ev.Res == lim {
				okl = true
			}
		}
		rr.check(ok && okl, "range of a prefix", x.where(), "the range of a prefix does not run from the prefix to its successor")
	}
}

// prefixOf: the first n bytes of r are the first n bytes of x.
func (s *State) prefixOf(r, n, x *Term) bool {
	ge := func(a, b *Term) bool { return s.Holds(mkGe0(linAdd(linOf(a), linOf(b), -1))) }
	switch {
	case r == x:
		return true
	case r.Op == OUpd:
		return ge(r.Args[1], n) && s.prefixOf(r.Args[0], n, x)
	case r.Op == OFit:
		return ge(mkLen(r.Args[0]), n) && ge(r.Args[1], n) && s.prefixOf(r.Args[0], n, x)
	case r.Op == OSub:
		lo, ok := r.Args[1].Int()
		return ok && lo == 0 && ge(r.Args[2], n) && s.prefixOf(r.Args[0], n, x)
	case r.Op == OCat:
		if len(r.Args) > 0 {
			return ge(mkLen(r.Args[0]), n) && s.prefixOf(r.Args[0], n, x)
		}
	}
	return false
}

// writesOwn: the function writes elements of slices it has made only.
func (c *Ctx) writesOwn(f *ssa.Function) bool {
	var own func(v ssa.Value, seen map[ssa.Value]bool) bool
	own = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeSlice, *ssa.Alloc:
			return true
		case *ssa.Const:
			return true
		case *ssa.Slice:
			return own(x.X, seen)
		case *ssa.ChangeType:
			return own(x.X, seen)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !own(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return own(x.Call.Args[0], seen)
			}
		}
		return false
	}
	ok := true
	c.eachInstr(f, func(in ssa.Instruction) {
		if s, is := in.(*ssa.Store); is {
			if ia, is := s.Addr.(*ssa.IndexAddr); is && !own(ia.X, map[ssa.Value]bool{}) {
				ok = false
			}
		}
	})
	return ok
}

func elemOf2(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// callSites2: direct calls of a function outside the repository.
func (c *Ctx) callSites2(pkg, name string) []Site {
	var r []Site
	for _, fn := range c.p.Fns {
		fn := fn
		c.eachInstr(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.Object() != nil && g.Object().Pkg() != nil && g.Object().Pkg().Path() == pkg && g.Name() == name {
					r = append(r, Site{fn, in})
					c.sites[c.pos(in)] = true
				}
			}
		})
	}
	return r
}

// wrapper: one exit of a method of the database wrapper.
func (c *Ctx) wrapper(e *Engine, x *Exit, f *ssa.Function, re, rn, rr, rb *Rule) {
	st := x.St
	recv := e.arg(0).T
	var calls []*Event
	for _, ev := range st.Events() {
		if ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*"+levelDB+".DB).") {
			calls = append(calls, ev)
		}
	}
	name := f.Name()
	params := func(ev *Event) bool { // the arguments are passed on as they are
		for i := 1; i < len(f.Params); i++ {
			if i >= len(ev.Args) || ev.Args[i] != e.arg(i).T {
				return false
			}
		}
		return ev.Args[0] == recv
	}
	switch name {
	case "Get", "Put", "Delete", "Close":
		ok := len(calls) == 1 && strings.HasSuffix(calls[0].Name, "."+name) && params(calls[0])
		if ok {
			ev := calls[0]
			if ev.Res.Op == OTuple {
				last := len(x.Res) - 1
				err := ev.Res.Args[last]
				for i, r := range x.Res {
					same := r == ev.Res.Args[i]
					if i == last {
						same = same || st.knownNil(r) && st.knownNil(err)
					} else {
						same = same || st.knownNonNil(err) && st.knownNil(r)
					}
					ok = ok && same
				}
			} else {
				ok = ok && len(x.Res) == 1 && x.Res[0] == ev.Res
			}
			// or explicitly without error
			if !ok && len(x.Res) == 1 {
				ok = st.knownNil(x.Res[0]) && st.knownNil(ev.Res) && params(ev)
			}
		}
		re.check(ok, name, x.where(), "%s does not report the database's own result for the given arguments", name)
		if name == "Get" {
			rn.check(ok, "Get", x.where(), "the error of a lookup is not the database's own")
		}
	case "Write":
		b := e.arg(1).T
		switch {
		case len(calls) == 1 && strings.HasSuffix(calls[0].Name, ".Write"):
			ev := calls[0]
			rb.check(ev.Args[0] == recv && ev.Args[1].Op != ONil && anySub(ev.Args[1], func(t *Term) bool { return t == b }), "Write", x.where(), "another batch than the given one is committed")
			re.check(x.Res[0] == ev.Res || st.knownNil(x.Res[0]) && st.knownNil(ev.Res), "Write", x.where(), "the error of a batch commit is not reported")
		default:
			rb.check(len(calls) == 0 && st.knownNonNil(x.Res[0]), "Write", x.where(), "a batch is neither committed nor refused with an error")
		}
	case "NewIterator":
		rg := e.arg(1)
		ok := len(calls) == 1 && strings.HasSuffix(calls[0].Name, ".NewIterator") && calls[0].Args[0] == recv && unIface(x.Res[0]) == unIface(calls[0].Res)
		if ok {
			s := calls[0].Args[1]
			switch {
			case s.Op == ONil:
				ok = st.knownNil(rg.T)
			case s.Op == OAlloc:
				v := V{s, s.T}
				cs := calls[0].Pre
				ok = cs != nil && e.sel(cs, v, "Start").T == e.sel(zeroState, rg, "Start").T && e.sel(cs, v, "Limit").T == e.sel(zeroState, rg, "Limit").T
				ok = ok && st.knownNonNil(rg.T)
			default:
				ok = false
			}
		}
		rr.check(ok, "NewIterator", x.where(), "a scan does not cover the given range")
	case "NewBatch":
		t := unIface(x.Res[0])
		rb.check(t.Op == OAlloc && isPtrTo(t.T, levelDB+".Batch"), "NewBatch", x.where(), "a new batch is not an empty database batch")
	case "ErrNotFound":
		rn.check(x.Res[0].Op == OSent && strings.HasSuffix(x.Res[0].Aux, "leveldb.ErrNotFound") || x.Res[0].Op == OSent && strings.HasSuffix(x.Res[0].Aux, "errors.ErrNotFound"), "ErrNotFound", x.where(), "the reported not-found error is not the database's")
	}
}

// forallDown: pred holds for every index in [lo, hi), because a completed loop
// running down from hi-1 established it for each of them.
func (s *State) forallDown(lo, hi *Term, pred func(st *State, idx *Term) bool) bool {
	if s.Holds(mkGe0(linAdd(linOf(lo), linOf(hi), -1))) {
		return true
	}
	for n := s.loops; n != nil; n = n.up {
		rec := n.rec
		// iterations 0..IV-1 handle hi-1-j; all down to lo
		if !s.Holds(mkGe0(linAdd(linAdd(linOf(rec.IV), linOf(lo), 1), linOf(hi), -1))) {
			continue
		}
		idx := linTerm(linAdd(linAdd(linOf(hi), linOf(rec.IV), -1), linConst(-1), 1), rec.IV.T)
		ok := len(rec.Alts) > 0
		for _, alt := range rec.Alts {
			for _, a := range iterStates(rec, alt) {
				if !pred(a, idx) {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func init() {
	checks["C30"] = propC30
	expl["C30"] = "every use of the database in the repository, all paths of the wrapper's methods and of the range functions"
}
