package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C21"] = propC21
	checks["C22"] = propC22
	checks["C23"] = propC23
	checks["C24"] = propC24
	checks["C25"] = propC25
	checks["C26"] = propC26
	expl["C21"] = "every path through the listener's connection goroutine (decoding, permission lookup, handler call, answer) and through the server's dispatch, plus the construction of the permission table and every write to it"
	expl["C22"] = "lock sets along every path of the network layer and the background tasks, effects of every handler that can run under the shared lock, and every access to the directory and to reconfigurable fields"
	expl["C23"] = "every path of the accept loop, the connection goroutine, the background tasks and the shutdown: deadlines, bounded reads, closes, answers, wait groups"
	expl["C24"] = "every listener and dialler of the repository and what is sent or received on its connections"
	expl["C25"] = "every path of the epoch loop with the server's update procedure, the arming of the timer, and every caller of the directory update"
	expl["C26"] = "every path of the policy reload with its effects on existing objects, and every writer of the directory's policies"
}

// the handler-visible request object
func (s *srvT) request(st *State) (req, err *Term) {
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Fn == s.unm && ev.Res != nil {
			c := ev.Res
			if c.Op == OTuple && len(c.Args) == 2 {
				req, err = c.Args[0], c.Args[1]
			}
		}
	}
	return
}

// permitted: the path found the request's type enabled for the address.
func (s *srvT) permitted(st *State, typ *Term) bool {
	perms := s.e.sel(zeroState, s.recv, s.perms).T
	return st.posFact(func(t *Term) bool {
		if t.Op != OMapGet || !st.same(t.Args[1], typ) {
			return false
		}
		m := t.Args[0]
		return m.Op == OMapGet && st.same(m.Args[1], s.addr.T) && sameMap(m.Args[0], perms)
	}) != nil
}

func (s *srvT) refused(st *State, typ *Term) bool {
	perms := s.e.sel(zeroState, s.recv, s.perms).T
	return st.negFact(func(t *Term) bool {
		if t.Op != OMapGet && t.Op != OMapHas {
			return false
		}
		if t.Op == OMapHas && sameMap(t.Args[0], perms) && st.same(t.Args[1], s.addr.T) {
			return true
		}
		m := t.Args[0]
		return m.Op == OMapGet && st.same(t.Args[1], typ) && st.same(m.Args[1], s.addr.T) && sameMap(m.Args[0], perms)
	}) != nil
}

func (s *srvT) isHandler(ev *Event) bool {
	return ev.Kind == "call" && ev.Name == "dyncall" && ev.Args[0] == s.handler.T
}

// malformed: t is a new response that says malformed and contains nothing.
func (s *srvT) malformed(st *State, t *Term) string {
	mal := s.c.constVal("protocol", "ErrMalformedMessage")
	r := V{t, ptrTo(s.c.named("protocol", "Response"))}
	if t.Op != OAlloc {
		return "the answer is not a new error response"
	}
	code, ok := codeOf(st, s.e.sel(st, r, "Error").T)
	if !ok || code != mal {
		return "the answer's code is not the one for a malformed message"
	}
	if b := s.e.sel(st, r, "DirectoryResponse").T; b.Op != ONil && !st.knownNil(b) {
		return "the answer carries data"
	}
	return ""
}

func propC21(c *Ctx) {
	rp := c.Rule("permitted first", "the handler is reached only after the request's type was found permitted for the listening address, with the request that was decoded", 1)
	ra := c.Rule("answered", "a permitted request is executed once and its result is answered; any other one is answered as malformed without executing anything", 10)
	rt := c.Rule("table", "lookups are enabled on every configured address, registration exactly where the configuration allows it", 4)
	rw := c.Rule("table writers", "the permission table is written at construction only", 2)
	rd := c.Rule("dispatch", "each operation is executed exactly for the requests whose type and body name it, its result is the answer, and everything else is answered as malformed without effect", 8)
	rs := c.Rule("served", "the server listens on every address it is given", 1)
	c.served(rs)
	s := c.srv()
	e := s.e
	for _, ev := range e.Log {
		if !s.isHandler(ev) {
			continue
		}
		req, err := s.request(ev.St)
		switch {
		case req == nil:
			rp.fail("handler call", ev.Pos, "the handler runs although no request was decoded")
		case len(ev.Args) < 2 || ev.Args[1] != req:
			rp.fail("handler call", ev.Pos, "the handler is not given the decoded request")
		case !ev.St.knownNil(err):
			rp.fail("handler call", ev.Pos, "the handler runs although decoding is not known to have succeeded")
		default:
			typ := e.sel(ev.St, V{req, ptrTo(c.named("protocol", "Request"))}, "Type").T
			rp.check(s.permitted(ev.St, typ), "handler call", ev.Pos, "the handler runs for a request whose type is not known to be permitted for the address it arrived on")
		}
	}
	for _, x := range e.GoExits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		req, derr := s.request(st)
		if req == nil {
			continue
		}
		var hs []*Event
		var marshalled []*Term
		for _, ev := range ownEvents(x) {
			if s.isHandler(ev) {
				hs = append(hs, ev)
			}
			if ev.Kind == "call" && ev.Fn == s.mar {
				marshalled = append(marshalled, ev.Args[0])
			}
			if ev.Kind == "store" && rootOf(ev.Args[0]) == req {
				rp.fail("request changed", ev.Pos, "the decoded request is changed before it is answered")
			}
			if len(hs) > 0 && ev.Kind == "store" && rootOf(ev.Args[0]) == hs[0].Res {
				ra.fail("response changed", ev.Pos, "the handler's answer is changed before it is sent")
			}
			if ev.Kind == "loop" && ev.Loop != nil {
				for _, a := range ev.Loop.Alts {
					for _, ev2 := range a.EventsSince(ev.Loop.Base) {
						if s.isHandler(ev2) {
							ra.fail("handler in a loop", ev2.Pos, "the handler may run several times for one request")
						}
					}
				}
			}
		}
		if len(marshalled) != 1 {
			ra.fail("answers", x.where(), "a request that was read is answered %d times", len(marshalled))
			continue
		}
		typ := e.sel(st, V{req, ptrTo(c.named("protocol", "Request"))}, "Type").T
		if len(hs) == 0 {
			w := s.malformed(st, marshalled[0])
			ra.check(w == "", "not executed", x.where(), "a request that is not executed is not answered as malformed: %s", w)
			ra.check(!st.knownNil(derr) || s.refused(st, typ), "not executed", x.where(), "a decoded request is not executed although its type is not known to be refused")
		} else {
			ra.check(len(hs) == 1 && hs[0].Res == marshalled[0], "executed", x.where(), "a permitted request is not executed exactly once with its result as the answer")
		}
	}
	c.permTable(s, rt)
	// writers of the table
	built := map[*ssa.Function]bool{}
	ns := c.method0("application/server", "NewConiksServer")
	en := c.run(ns, c.newServerOpts())
	for f := range en.Funcs {
		for _, g := range c.p.Fns {
			if fnName(g) == f {
				built[g] = true
			}
		}
	}
	inner := e.sel(zeroState, s.recv, s.perms).Ty.Underlying().(*types.Map)
	for _, st := range c.fieldStores("application.ServerBase." + s.perms) {
		if isTestHelper(c, st.Fn) {
			continue
		}
		fa, ok := st.In.(*ssa.Store).Addr.(*ssa.FieldAddr)
		fresh := false
		if ok {
			_, fresh = fa.X.(*ssa.Alloc)
		}
		rw.check(fresh, fnName(st.Fn)+" sets the table", c.pos(st.In), "%s replaces the permission table of an existing server", fnName(st.Fn))
	}
	for _, fn := range c.p.Fns {
		if isTestHelper(c, fn) {
			continue
		}
		c.eachInstr(fn, func(in ssa.Instruction) {
			var mt types.Type
			switch x := in.(type) {
			case *ssa.MapUpdate:
				mt = x.Map.Type()
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && len(x.Call.Args) > 0 {
					mt = x.Call.Args[0].Type()
				}
			}
			if mt == nil {
				return
			}
			if types.Identical(mt.Underlying(), inner) || types.Identical(mt.Underlying(), inner.Elem().Underlying()) {
				rw.check(built[fn], fnName(fn)+" changes the table", c.pos(in), "%s changes a permission table outside the construction of the server", fnName(fn))
			}
		})
	}
	c.dispatch(rd)
}

func (c *Ctx) method0(pkg, name string) *ssa.Function { return c.fn(pkg, name) }

func (c *Ctx) newServerOpts() *Opts {
	return &Opts{Name: "new", Opaque: func(f *ssa.Function) (bool, bool) {
		switch {
		case isLogFn(f), fnName(f) == "protocol/directory.New", fnName(f) == "application.SaveSTR", fnName(f) == "application.NewLogger":
			return true, true
		}
		return false, false
	}}
}

// permTable: what NewConiksServer enables for each configured address.
func (c *Ctx) permTable(s *srvT, r *Rule) {
	f := c.fn("application/server", "NewConiksServer")
	e := c.run(f, c.newServerOpts())
	z := zeroState
	conf := e.argOf(ptrTo(c.named("application/server", "Config")), 0)
	addrs := e.sel(z, conf, "Addresses")
	n := mkLen(e.content(z, addrs.T))
	look := map[int64]string{}
	for _, k := range []string{"KeyLookupType", "KeyLookupInEpochType", "MonitoringType"} {
		look[c.constVal("protocol", k)] = k
	}
	reg := c.constVal("protocol", "RegistrationType")
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		srv := V{x.Res[0], f.Signature.Results().At(0).Type()}
		table := e.sel(st, srv, "ServerBase."+s.perms).T
		if table.Op != OMap {
			r.fail("table", x.where(), "the server's permission table is not built at construction")
			continue
		}
		found := false
		for ln := st.loops; ln != nil; ln = ln.up {
			rec := ln.rec
			for _, alt := range rec.Alts {
				for _, ev := range alt.EventsSince(rec.Base) {
					if ev.Kind == "mapset" && ev.Args[0] == table {
						found = true
					}
				}
			}
		}
		ok := st.forall(0, n, func(a *State, idx *Term) bool {
			ad := e.at(z, addrs, idx)
			want := e.sel(z, ad, "ServerAddress").T
			allow := e.sel(z, ad, "AllowRegistration").T
			var per *Term
			vals := map[*Term]map[int64]*Term{}
			bad := ""
			for _, ev := range a.Events() {
				if ev.Kind != "mapset" {
					continue
				}
				m, k, v := ev.Args[0], ev.Args[1], ev.Args[2]
				if m == table {
					if !a.same(k, want) {
						bad = "an entry is made for another address"
					}
					per = v
				} else if mt, ok := ev.MapT.(*types.Map); ok && isBool(mt.Elem()) || m.Op == OMap && m != table {
					kc, ok := a.constOf(k).Int()
					if !ok {
						bad = "an entry is made for an unknown request type"
						continue
					}
					if vals[m] == nil {
						vals[m] = map[int64]*Term{}
					}
					vals[m][kc] = v
				}
			}
			switch {
			case bad != "":
			case per == nil:
				bad = "an address has no entry"
			default:
				for k, nm := range look {
					v := vals[per][k]
					r.check(v != nil && a.Holds(v), nm, x.where(), "%s is not permitted on every configured address", nm)
				}
				v := vals[per][reg]
				okr := v != nil && (a.same(v, allow) || a.Holds(allow) && a.Holds(v) || a.Holds(mkNot(allow)) && a.Holds(mkNot(v))) ||
					v == nil && a.Holds(mkNot(allow))
				r.check(okr, "RegistrationType", x.where(), "registration is not permitted exactly on the addresses that allow it")
			}
			if bad != "" {
				r.fail("table", x.where(), "%s", bad)
			}
			return bad == ""
		})
		r.check(ok && found, "all addresses", x.where(), "the permission table is not known to have an entry for every configured address")
	}
}

// served: Run listens exactly on the addresses it is given.
func (c *Ctx) served(r *Rule) {
	run := c.method("application/server", "ConiksServer", "Run")
	lah := c.method("application", "ServerBase", "ListenAndHandle")
	e := c.run(run, &Opts{Name: "served", Opaque: func(g *ssa.Function) (bool, bool) {
		if isLogFn(g) || g == lah || g.Name() == "RunInBackground" {
			return true, true
		}
		return false, false
	}})
	addrs := V{}
	for i, p := range run.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			addrs = e.arg(i)
		}
	}
	if addrs.T == nil {
		panic(anchorErr{"the addresses given to " + fnName(run)})
	}
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		ok := x.St.forall(0, mkLen(e.content(zeroState, addrs.T)), func(a *State, idx *Term) bool {
			want := e.sel(zeroState, e.at(zeroState, addrs, idx), "ServerAddress").T
			n := 0
			for _, ev := range a.Events() {
				if ev.Kind == "call" && ev.Fn == lah && len(ev.Args) > 1 && a.same(ev.Args[1], want) {
					n++
				}
			}
			return n >= 1
		})
		r.check(ok, "all addresses", x.where(), "the server is not known to listen on every address it is given")
		for _, ev := range x.St.allEvents() {
			if ev.Kind == "call" && ev.Fn == lah && ev.rec == nil {
				r.fail("other addresses", ev.Pos, "the server listens on an address outside the loop over the given ones")
			}
		}
	}
}

// dispatch: HandleRequests with the directory's operations as black boxes.
func (c *Ctx) dispatch(r *Rule) {
	f := c.method("application/server", "ConiksServer", "HandleRequests")
	D := c.named("protocol/directory", "ConiksDirectory")
	ops := map[int64]string{}
	for _, n := range []string{"Registration", "KeyLookup", "KeyLookupInEpoch", "Monitoring"} {
		ops[c.constVal("protocol", n+"Type")] = "protocol." + n + "Request"
	}
	isOp := func(g *ssa.Function) bool {
		return g.Signature.Recv() != nil && isPtrTo(g.Signature.Recv().Type(), typeName(D))
	}
	e := c.run(f, &Opts{Name: "dispatch", Opaque: func(g *ssa.Function) (bool, bool) {
		if isOp(g) || isLogFn(g) {
			return true, true
		}
		return false, false
	}})
	reqT := ptrTo(c.named("protocol", "Request"))
	req := e.argOf(reqT, 0)
	typ := e.sel(zeroState, req, "Type").T
	body := e.sel(zeroState, req, "Request").T
	seen := map[int64]bool{}
	dummy := &srvT{c: c, e: e}
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		var calls []*Event
		for _, ev := range st.allEvents() {
			if g, ok := ev.Fn.(*ssa.Function); ok && ev.Kind == "call" && isOp(g) {
				calls = append(calls, ev.Event)
			}
		}
		if len(calls) > 1 {
			r.fail("dispatch", x.where(), "one request leads to %d directory operations", len(calls))
			continue
		}
		if len(calls) == 1 {
			ev := calls[0]
			g := ev.Fn.(*ssa.Function)
			var want int64 = -1
			for k, t := range ops {
				if g.Signature.Params().Len() == 1 && isPtrTo(g.Signature.Params().At(0).Type(), t) {
					want = k
				}
			}
			if want < 0 {
				r.fail("dispatch "+g.Name(), ev.Pos, "a request leads to %s, which is not the operation of any request type", g.Name())
				continue
			}
			pt := g.Signature.Params().At(0).Type()
			v, _ := e.assertTo(st, body, pt)
			r.check(st.Holds(EqI(typ, intConst(want, typ.T))), "dispatch "+g.Name(), ev.Pos, "%s is executed for a request not known to have the matching type code", g.Name())
			r.check(st.Holds(typeIs(body, pt)) && len(ev.Args) == 2 && st.same(ev.Args[1], v), "dispatch "+g.Name(), ev.Pos, "%s is not executed with the request's own body", g.Name())
			r.check(len(x.Res) == 1 && st.same(x.Res[0], ev.Res), "dispatch "+g.Name(), x.where(), "the result of %s is not the answer", g.Name())
			seen[want] = true
			continue
		}
		w := dummy.malformed(st, x.Res[0])
		r.check(w == "", "dispatch otherwise", x.where(), "a request that is not executed is not answered as malformed: %s", w)
		for _, ev := range outerEffects(st) {
			r.fail("dispatch otherwise", ev.Pos, "a request that is not executed changes data")
		}
		for k, t := range ops {
			q := st.clone()
			n := c.named("protocol", t[len("protocol."):])
			possible := q.assume(EqI(typ, intConst(k, typ.T))) && q.assume(typeIs(body, ptrTo(n))) && q.consistent()
			r.check(!possible, "dispatch "+t, x.where(), "a well-formed %s may be refused", t)
		}
	}
	for k, t := range ops {
		r.check(seen[k], "operation for "+t, c.p.Pos(f.Pos()), "no operation is executed for a %s", t)
	}
}

// ---------- C22

func propC22(c *Ctx) {
	rh := c.Rule("handlers locked", "the server's lock is held whenever a handler runs, exclusively unless the operation only reads", 1)
	rr := c.Rule("shared readers", "what can run under the shared lock changes no existing data", 3)
	rb := c.Rule("background locked", "epoch updates and reloads run under the exclusive lock", 2)
	rl := c.Rule("balance", "no lock is taken twice or released unheld, and every path releases what it took", 10)
	rd := c.Rule("directory access", "the server's directory is used only at construction and in what runs under the lock", 4)
	rf := c.Rule("reconfiguration", "fields that running goroutines read are not changed after construction except under the lock", 1)
	s := c.srv()
	mu := func(e *Engine, recv V) func(t *Term) bool {
		return func(t *Term) bool {
			a := t
			for a != nil && a.Op == OFAddr {
				if a.Args[0] == recv.T {
					return true
				}
				a = a.Args[0]
			}
			return false
		}
	}
	covered := map[string]bool{}
	balance := func(e *Engine, x *Exit, evs []*Event, visit func(sp step)) {
		held, bad := timeline(evs, func(sp step) {
			switch sp.Kind {
			case "relock":
				rl.fail("lock in "+sp.In, sp.Pos, "a lock is taken that is already held")
			case "badunlock":
				rl.fail("unlock in "+sp.In, sp.Pos, "a lock is released that is not held in that mode")
			case "lock":
				rl.ok("lock in %s (%s)", sp.In, sp.Pos)
			}
			if visit != nil {
				visit(sp)
			}
		})
		if bad != "" {
			rl.fail("loop in "+x.In, bad, "an iteration does not release the locks it took")
		}
		if x.Kind == "return" {
			rl.check(len(held) == 0, "end of "+x.In, x.where(), "a lock is still held when %s ends", x.In)
		}
	}
	// request handling
	var shared []*State
	inMine := mu(s.e, s.recv)
	for _, x := range append(append([]*Exit(nil), s.e.Exits...), s.e.GoExits...) {
		balance(s.e, x, ownEvents(x), func(sp step) {
			if !s.isHandler(sp.Event) {
				return
			}
			mode := ""
			for l, m := range sp.held {
				if inMine(l) && (mode == "" || m == "W") {
					mode = m
				}
			}
			if mode == "" {
				rh.fail("handler call", sp.Pos, "a handler runs without the server's lock")
				return
			}
			rh.ok("handler under %s (%s)", mode, sp.Pos)
			if mode == "R" {
				st := x.St
				if sp.alt != nil {
					st = sp.alt
				}
				shared = append(shared, st)
			}
		})
	}
	for f := range s.e.Funcs {
		covered[f] = true
	}
	// which request types run shared
	reqT := ptrTo(c.named("protocol", "Request"))
	sharedT := map[int64]bool{}
	for _, st := range shared {
		req, _ := s.request(st)
		if req == nil {
			continue
		}
		typ := s.e.sel(st, V{req, reqT}, "Type").T
		for _, k := range c.reqTypes() {
			q := st.clone()
			if q.assume(EqI(typ, intConst(k, typ.T))) && q.consistent() {
				sharedT[k] = true
			}
		}
	}
	handlers := c.callbacks(s.e.root)
	d := c.dir()
	for _, h := range handlers {
		for _, k := range c.reqTypes() {
			if !sharedT[k] {
				continue
			}
			k := k
			base := d.opts("")
			o := &Opts{Name: fmt.Sprintf("shared%d", k), Opaque: base.Opaque}
			o.Pre = func(st *State, args []*Term) {
				for i, p := range h.Params {
					e := &Engine{p: c.p, o: &Opts{}}
					switch {
					case isPtrTo(p.Type(), "protocol.Request"):
						typ := e.sel(zeroState, V{args[i], p.Type()}, "Type").T
						st.assume(EqI(typ, intConst(k, typ.T)))
					default:
						if n := c.dirField(p.Type()); n != "" {
							dv := e.sel(zeroState, V{args[i], p.Type()}, n)
							base.Pre(st, []*Term{dv.T})
						}
					}
				}
			}
			e := c.run(h, o)
			for _, x := range e.Exits {
				bad := ""
				for _, ev := range outerEffects(x.St) {
					bad = ev.Pos
				}
				rr.check(bad == "", fmt.Sprintf("%s for type %d", h.Name(), k), bad, "a request of type %d runs under the shared lock but changes data", k)
			}
		}
	}
	if len(sharedT) == 0 {
		for i := 0; i < 3; i++ {
			rr.ok("no request runs under the shared lock")
		}
	}
	// the background tasks
	guard := map[*ssa.Function]bool{}
	for _, h := range handlers {
		guard[h] = true
	}
	for _, n := range []string{"EpochUpdate", "HotReload"} {
		f := c.method("application", "ServerBase", n)
		e := c.run(f, &Opts{Name: "bg", Opaque: func(g *ssa.Function) (bool, bool) { return isLogFn(g), isLogFn(g) }})
		for g := range e.Funcs {
			covered[g] = true
		}
		var cb *Term
		for i, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				cb = e.arg(i).T
			}
		}
		mine := mu(e, e.arg(0))
		ran := false
		for _, x := range e.Exits {
			balance(e, x, x.St.Events(), func(sp step) {
				if sp.Kind == "call" && sp.Name == "dyncall" && sp.Args[0] == cb {
					ran = true
					w := false
					for l, m := range sp.held {
						w = w || mine(l) && m == "W"
					}
					rb.check(w, n, sp.Pos, "%s runs its function without the exclusive lock", n)
				}
			})
		}
		rb.check(ran, n+" runs", c.p.Pos(f.Pos()), "%s never runs its function", n)
		for _, g := range c.callbacks(f) {
			guard[g] = true
		}
	}
	for _, n := range []string{"RunInBackground", "Shutdown"} {
		e := c.run(c.method("application", "ServerBase", n), &Opts{Name: "bg", FollowGo: true})
		for g := range e.Funcs {
			covered[g] = true
		}
		for _, x := range append(append([]*Exit(nil), e.Exits...), e.GoExits...) {
			balance(e, x, ownEvents(x), nil)
		}
	}
	// any other user of locks
	for _, fn := range c.p.Fns {
		if isTestHelper(c, fn) || covered[fnName(fn)] || fn.Synthetic != "" {
			continue
		}
		uses := false
		c.eachInstr(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range c.p.callees(ci) {
					if strings.HasPrefix(fnName(g), "(*sync.RWMutex).") || strings.HasPrefix(fnName(g), "(*sync.Mutex).") {
						uses = true
					}
				}
			}
		})
		if uses {
			e := c.run(fn, &Opts{Name: "locks", FollowGo: true})
			for _, x := range append(append([]*Exit(nil), e.Exits...), e.GoExits...) {
				balance(e, x, ownEvents(x), nil)
			}
		}
	}
	// what runs under the lock does not take it again
	var held []*ssa.Function
	for g := range guard {
		held = append(held, g)
	}
	for g := range c.reachableFrom(held...) {
		if !inRepo(g) || isTestHelper(c, g) || g.Synthetic != "" {
			continue
		}
		rl.ok("%s takes no lock", fnName(g))
		c.eachInstr(g, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, h := range c.p.callees(ci) {
				if n := fnName(h); strings.HasPrefix(n, "(*sync.RWMutex).") || strings.HasPrefix(n, "(*sync.Mutex).") {
					if len(ci.Common().Args) > 0 {
						if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok && !strings.HasPrefix(structKey(fa.X.Type(), fa.Field), "application.ServerBase.") {
							continue
						}
					}
					rl.fail("lock in "+fnName(g), c.pos(in), "%s uses a lock although it runs with the server's lock held", fnName(g))
				}
			}
		})
	}
	// who touches the directory
	inG := c.partOf(guard)
	for key, n := range c.dirFields() {
		ctors := map[*ssa.Function]bool{}
		for _, fn := range c.p.Fns {
			c.eachInstr(fn, func(in ssa.Instruction) {
				if a, ok := in.(*ssa.Alloc); ok && a.Heap && types.Identical(elemOf(a.Type()), n) {
					ctors[fn] = true
				}
			})
		}
		inC := c.partOf(ctors)
		for _, fn := range c.p.Fns {
			if isTestHelper(c, fn) {
				continue
			}
			c.eachInstr(fn, func(in ssa.Instruction) {
				if !accesses(in, key) {
					return
				}
				c.sites[c.pos(in)] = true
				rd.check(inG(fn) || inC(fn), fnName(fn), c.pos(in), "%s uses the server's directory without being known to run under the server's lock", fnName(fn))
			})
		}
	}
	// what is started as a goroutine does not use the directory except through
	// what runs under the lock
	for at, started := range c.started() {
		seen := map[*ssa.Function]bool{}
		q := started
		for len(q) > 0 {
			f := q[0]
			q = q[1:]
			if seen[f] || guard[f] || guard[c.unbound(f)] || isTestHelper(c, f) {
				continue
			}
			seen[f] = true
			if r := f.Signature.Recv(); r != nil && isPtrTo(r.Type(), "protocol/directory.ConiksDirectory") {
				rd.fail("goroutine", at, "%s is reached by a goroutine started here, which does not hold the server's lock", fnName(f))
				break
			}
			c.eachInstr(f, func(in ssa.Instruction) {
				if ci, ok := in.(ssa.CallInstruction); ok {
					q = append(q, c.p.callees(ci)...)
				}
			})
		}
		rd.ok("goroutine started at %s", at)
	}
	c.reconfig(rf, inG)
}

// started: the functions started as goroutines (by go, or given to
// time.AfterFunc) outside test code, by the place that starts them.
func (c *Ctx) started() map[string][]*ssa.Function {
	r := map[string][]*ssa.Function{}
	for _, fn := range c.p.Fns {
		if isTestHelper(c, fn) {
			continue
		}
		c.eachInstr(fn, func(in ssa.Instruction) {
			var v ssa.Value
			switch x := in.(type) {
			case *ssa.Go:
				r[c.pos(in)] = append(r[c.pos(in)], c.p.callees(x)...)
				if x.Call.Method == nil {
					v = x.Call.Value
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && fnName(g) == "time.AfterFunc" {
					v = x.Call.Args[1]
				}
			}
			if v != nil {
				if fs, ok := c.funcVals(v, 0); ok {
					r[c.pos(in)] = append(r[c.pos(in)], fs...)
				}
			}
		})
	}
	return r
}

// dirFields: the struct fields of the application layer that hold the
// directory, and the struct type.
func (c *Ctx) dirFields() map[string]types.Type {
	r := map[string]types.Type{}
	for _, fn := range c.p.Fns {
		if !strings.HasPrefix(fnPkg(fn), "application") {
			continue
		}
		c.eachInstr(fn, func(in ssa.Instruction) {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if isPtrTo(elemOf(fa.Type()), "protocol/directory.ConiksDirectory") {
					r[structKey(fa.X.Type(), fa.Field)] = elemOf(fa.X.Type())
				}
			}
		})
	}
	if len(r) == 0 {
		panic(anchorErr{"the server's directory field"})
	}
	return r
}

func (c *Ctx) dirField(t types.Type) string {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		return ""
	}
	return fieldByType(elemOf(t), func(t types.Type) bool { return isPtrTo(t, "protocol/directory.ConiksDirectory") })
}

func accesses(in ssa.Instruction, key string) bool {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		return structKey(x.X.Type(), x.Field) == key
	case *ssa.Field:
		return structKey(x.X.Type(), x.Field) == key
	}
	return false
}

// reconfig: fields of the server's objects that are written after
// construction are not read by goroutines except under the lock.
func (c *Ctx) reconfig(r *Rule, inG func(f *ssa.Function) bool) {
	objs := map[string]types.Type{}
	for _, n := range []string{"application.ServerBase", "application.ServerAddress", "application.EpochTimer", "application/server.ConiksServer", "application/server.Address"} {
		i := strings.LastIndex(n, ".")
		objs[n] = c.named(n[:i], n[i+1:])
	}
	async := c.asyncRoots()
	var roots []*ssa.Function
	for f := range async {
		if !isTestHelper(c, f) {
			roots = append(roots, f)
		}
	}
	for _, m := range []string{"ListenAndHandle", "EpochUpdate", "HotReload", "RunInBackground"} {
		roots = append(roots, c.callbacks(c.method("application", "ServerBase", m))...)
	}
	running := c.reachableFrom(roots...)
	// construction: what runs only as part of creating the object
	written := map[string]string{}
	for n, t := range objs {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			key := n + "." + st.Field(i).Name()
			for _, s := range c.fieldStores(key) {
				if isTestHelper(c, s.Fn) {
					continue
				}
				if c.partOfNew(s.In.(*ssa.Store).Addr, 0) {
					continue
				}
				if inG(s.Fn) && !running[s.Fn] {
					continue
				}
				written[key] = c.pos(s.In)
			}
		}
	}
	r.ok("%d fields are written after construction", len(written))
	for key, at := range written {
		// every access by a goroutine
		var acc []*ssa.Function
		for _, fn := range c.p.Fns {
			if isTestHelper(c, fn) || !running[fn] {
				continue
			}
			hit := false
			c.eachInstr(fn, func(in ssa.Instruction) { hit = hit || accesses(in, key) })
			if hit {
				acc = append(acc, fn)
			}
		}
		if len(acc) == 0 {
			r.ok("%s is not used by goroutines", key)
			continue
		}
		// then all uses but those on new objects have to be under the lock
		for _, fn := range c.p.Fns {
			if isTestHelper(c, fn) {
				continue
			}
			c.eachInstr(fn, func(in ssa.Instruction) {
				if !accesses(in, key) {
					return
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						return
					}
				}
				if inG(fn) {
					r.ok("%s in %s", key, fnName(fn))
					return
				}
				r.check(c.underLock(fn, key), key+" in "+fnName(fn), c.pos(in), "%s is used by %s outside the server's lock, but it is changed at %s while goroutines that use it may be running", key, fnName(fn), at)
			})
		}
	}
}

// partOfNew: the address lies in something reached from an object that the
// function, or every caller that passes it, has just made.
func (c *Ctx) partOfNew(v ssa.Value, depth int) bool {
	for depth < 8 {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok {
				// a local variable: what was put there
				n := 0
				for _, ref := range *a.Referrers() {
					switch st := ref.(type) {
					case *ssa.Store:
						if st.Addr != ssa.Value(a) {
							return false
						}
						n++
						if !c.partOfNew(st.Val, depth+1) {
							return false
						}
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.MakeClosure:
						for i, b := range st.Bindings {
							if b != ssa.Value(a) {
								continue
							}
							for _, r2 := range *st.Fn.(*ssa.Function).FreeVars[i].Referrers() {
								if _, ok := r2.(*ssa.UnOp); !ok {
									return false
								}
							}
						}
					default:
						return false
					}
				}
				return n > 0
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if a := literalArray(ia.X); a != nil {
					// an element of a list made here: any of the values put in
					n := 0
					for _, ref := range *a.Referrers() {
						switch ref := ref.(type) {
						case *ssa.IndexAddr:
							for _, u := range *ref.Referrers() {
								if st, ok := u.(*ssa.Store); ok {
									n++
									if st.Addr != ssa.Value(ref) || !c.partOfNew(st.Val, depth+1) {
										return false
									}
								} else if _, ok := u.(*ssa.UnOp); !ok {
									return false
								}
							}
						case *ssa.Slice:
							for _, u := range *ref.Referrers() {
								switch u := u.(type) {
								case *ssa.IndexAddr:
									for _, w := range *u.Referrers() {
										if _, ok := w.(*ssa.UnOp); !ok {
											return false
										}
									}
								case *ssa.Call:
									if b, ok := u.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
										return false
									}
								case *ssa.DebugRef:
								default:
									return false
								}
							}
						case *ssa.DebugRef, *ssa.UnOp:
						default:
							return false
						}
					}
					return n > 0
				}
			}
			v = x.X
		case *ssa.Parameter:
			fn := x.Parent()
			n := 0
			for _, s := range c.callSites(func(g *ssa.Function) bool { return g == fn }) {
				if isTestHelper(c, s.Fn) || s.Fn.Synthetic != "" {
					continue
				}
				a := argAt(s.In.(ssa.CallInstruction), x)
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				n++
				if a == nil || !c.partOfNew(a, depth+1) {
					return false
				}
			}
			return n > 0
		default:
			return false
		}
	}
	return false
}

// literalArray: the local array behind a slice expression of a literal.
func literalArray(v ssa.Value) *ssa.Alloc {
	if s, ok := v.(*ssa.Slice); ok {
		v = s.X
	}
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	if _, ok := elemOf(a.Type()).Underlying().(*types.Array); !ok {
		return nil
	}
	return a
}

// underLock: on every path of the base's entry points, the function touches
// the field only with a lock held.
func (c *Ctx) underLock(fn *ssa.Function, key string) bool {
	touched := false
	for _, m := range []string{"ListenAndHandle", "EpochUpdate", "HotReload", "RunInBackground", "Shutdown"} {
		e := c.run(c.method("application", "ServerBase", m), &Opts{Name: "touch" + key, FollowGo: true,
			LogLoad: func(k string) bool { return k == key },
			Opaque: func(g *ssa.Function) (bool, bool) {
				if isLogFn(g) || fnName(g) == "application.UnmarshalRequest" || fnName(g) == "application.MarshalResponse" {
					return true, true
				}
				return false, false
			}})
		if !e.Funcs[fnName(fn)] {
			continue
		}
		ok := true
		for _, x := range append(append([]*Exit(nil), e.Exits...), e.GoExits...) {
			timeline(ownEvents(x), func(sp step) {
				if sp.In == fnName(fn) && (sp.Kind == "load" || sp.Kind == "store") && sp.Name == key {
					touched = true
					if len(sp.held) == 0 {
						ok = false
					}
				}
			})
		}
		if !ok {
			return false
		}
	}
	return touched
}
