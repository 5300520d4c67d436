package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C23

// accepts: ev accepts a connection; it returns the connection and the error.
func accepts(ev *Event) (ln, conn, err *Term) {
	if ev.Kind != "call" || ev.Res == nil || ev.Res.Op != OTuple || len(ev.Res.Args) != 2 || len(ev.Args) == 0 {
		return
	}
	if r, _ := connOf(ev.Res.Args[0]); r == nil || !strings.Contains(ev.Name, ".Accept") {
		return
	}
	return unIface(ev.Args[0]), ev.Res.Args[0], ev.Res.Args[1]
}

// wgField: the wait group a call works on, as a path of fields of the base.
func wgField(t *Term) string {
	s := ""
	for t != nil && t.Op == OFAddr {
		s = t.Aux + "/" + s
		t = t.Args[0]
	}
	return s
}

func (s *srvT) shutdownGroup(r *Rule) string {
	c := s.c
	f := c.method("application", "ServerBase", "Shutdown")
	e := c.run(f, &Opts{Name: "bg", FollowGo: true})
	ch := e.sel(zeroState, e.arg(0), s.stop).T
	g := ""
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		closed, waited := false, ""
		for _, ev := range x.St.Events() {
			if ev.Kind == "close" && ev.Args[0] == ch {
				closed = true
			}
			if isWG(ev, "Wait") && closed {
				waited = wgField(ev.Args[0])
			}
		}
		if r != nil {
			r.check(closed, "Shutdown", x.where(), "shutting down does not tell the background tasks to stop")
			r.check(waited != "" && (g == "" || g == waited), "Shutdown waits", x.where(), "shutting down does not wait for the background tasks after telling them to stop")
		}
		g = waited
	}
	return g
}

func propC23(c *Ctx) {
	rdl := c.Rule("deadline", "a connection gets a deadline in the near future before anything is read from or written to it", 2)
	rbd := c.Rule("bounded", "at most a fixed number of bytes is read from a connection", 1)
	rcl := c.Rule("closed", "every accepted connection is handed to a goroutine that closes it on every path", 2)
	ran := c.Rule("one answer", "every request that was decoded is answered by exactly one write of one marshalled response", 2)
	rlk := c.Rule("no waiting under the lock", "no network operation happens while a lock is held", 4)
	rwt := c.Rule("awaited", "background activity is counted before it starts and signed off when it ends, a listener ends only after its connections", 4)
	rsd := c.Rule("shutdown", "shutting down stops every task and waits for it", 4)
	s := c.srv()
	group := s.shutdownGroup(rsd)
	// the connection goroutines
	closers := map[string]bool{}
	conns := map[string]string{} // go site -> wait group
	for _, x := range s.e.GoExits {
		if x.Kind != "return" {
			continue
		}
		var root, raw *Term
		for _, ev := range before(x) {
			if _, cn, _ := accepts(ev); cn != nil {
				raw = cn
			}
		}
		if raw == nil {
			continue
		}
		root, _ = connOf(raw)
		owner, closedC, rd, wr := false, false, false, false
		decoded, writes, done, late := false, 0, 0, ""
		grp := ""
		timeline(ownEvents(x), func(sp step) {
			if isWG(sp.Event, "Done") {
				done++
				grp = wgField(sp.Args[0])
				late = ""
			}
			if sp.Kind == "call" && sp.Fn == s.unm {
				decoded = true
			}
			if s.isHandler(sp.Event) {
				late = sp.Pos
			}
			for _, u := range connUses(sp.Event) {
				if u.root != root {
					continue
				}
				owner = true
				switch u.op {
				case "deadline":
					ok := len(sp.Args) == 2 && future(x.St, sp.Args[1])
					rdl.check(ok, "deadline in "+sp.In, sp.Pos, "a connection's deadline is not set to a fixed time from now")
					if ok {
						rd = rd || !strings.HasSuffix(sp.Name, "SetWriteDeadline")
						wr = wr || !strings.HasSuffix(sp.Name, "SetReadDeadline")
					}
					if sp.rec != nil {
						rdl.fail("deadline in "+sp.In, sp.Pos, "a connection's deadline may be extended again and again")
					}
				case "close":
					closedC = true
				case "read":
					rdl.check(rd, "read in "+sp.In, sp.Pos, "a connection is read from before it has a deadline")
					rbd.check(sp.rec == nil && s.boundedRead(sp, x.St, u.arg), "read in "+sp.In, sp.Pos, "the number of bytes read from a connection is not bounded by a constant")
					late = sp.Pos
				case "write":
					rdl.check(wr, "write in "+sp.In, sp.Pos, "a connection is written to before it has a deadline")
					writes++
					if sp.rec != nil {
						writes++
					}
					one := false
					for _, a := range sp.Args {
						for _, m := range x.St.Events() {
							if m.Kind == "call" && m.Fn == s.mar && m.Res != nil && m.Res.Op == OTuple && strip(a) == m.Res.Args[0] {
								one = true
							}
						}
					}
					ran.check(one, "write in "+sp.In, sp.Pos, "what is sent is not exactly a marshalled response")
					late = sp.Pos
				case "other":
					rdl.fail("use of a connection in "+sp.In, sp.Pos, "it is not known what %s does with the connection", sp.Name)
				}
			}
		})
		if !owner {
			continue
		}
		rcl.check(closedC, "connection goroutine", x.where(), "a connection is not closed when its goroutine ends")
		closers[x.Go] = true
		if decoded {
			ran.check(writes == 1, "connection goroutine", x.where(), "a request that was read is answered %d times", writes)
		}
		rwt.check(done == 1 && late == "", "connection goroutine", x.where(), "the goroutine of a connection does not sign off exactly once, after its last action")
		if g, ok := conns[x.Go]; ok && g != grp {
			rwt.fail("connection goroutine", x.where(), "the goroutine signs off in different groups")
		}
		conns[x.Go] = grp
	}
	rcl.check(len(closers) > 0, "connection goroutine", c.p.Pos(s.e.root.Pos()), "no goroutine serves the accepted connections")
	// watchers: goroutines that make a blocked Accept return after the stop
	watch, listens := map[string]bool{}, map[string]bool{}
	for _, x := range s.e.GoExits {
		if x.Kind != "return" || closers[x.Go] {
			continue
		}
		stopped, poked := false, false
		timeline(ownEvents(x), func(sp step) {
			if _, cn, _ := accepts(sp.Event); cn != nil {
				listens[x.Go] = true
			}
		})
		for _, ev := range ownEvents(x) {
			if ev.Kind == "recv" && ev.Args[0] == s.stopChan() {
				stopped = true
			}
			if ev.Kind == "call" && len(ev.Args) > 0 && isListener(ev.Args[0]) && stopped && (strings.HasSuffix(ev.Name, ").Close") || strings.HasSuffix(ev.Name, ").SetDeadline") && len(ev.Args) == 2 && nowish(ev.Args[1])) {
				poked = true
			}
		}
		if p, ok := watch[x.Go]; ok {
			poked = poked && p
		}
		watch[x.Go] = poked
	}
	for g := range listens { // it cannot interrupt itself
		delete(watch, g)
	}
	// the accept loop
	loops := 0
	for _, x := range s.e.GoExits {
		own := ownEvents(x)
		var evLoop *Event
		for _, ev := range own {
			if ev.Kind == "loop" && ev.Loop != nil {
				for _, a := range ev.Loop.Alts {
					for _, ev2 := range a.EventsSince(ev.Loop.Base) {
						if _, cn, _ := accepts(ev2); cn != nil {
							evLoop = ev
						}
					}
				}
			}
		}
		scan := func(st *State, evs []*Event, what string) {
			var pend, perr *Term
			added := ""
			for _, ev := range evs {
				if _, cn, er := accepts(ev); cn != nil {
					if pend != nil && !st.knownNonNil(perr) {
						rcl.fail(what, ev.Pos, "an accepted connection is neither closed nor handed to a goroutine that closes it")
					}
					pend, _ = connOf(cn)
					perr = er
					added = ""
				}
				if isWG(ev, "Add") && len(ev.Args) == 2 {
					if v, ok := ev.Args[1].Int(); ok && v == 1 {
						added = wgField(ev.Args[0])
					}
				}
				for _, u := range connUses(ev) {
					if u.root == pend && u.op == "close" {
						pend = nil
					}
				}
				if ev.Kind == "go" && closers[ev.Pos] {
					rwt.check(added != "" && added == conns[ev.Pos], "connection goroutine started", ev.Pos, "a connection's goroutine is started without being counted in the group it signs off from")
					pend = nil
					added = ""
				}
			}
			rcl.check(pend == nil || st.knownNonNil(perr), what, "", "an accepted connection is neither closed nor handed to a goroutine that closes it")
		}
		if evLoop == nil {
			continue
		}
		loops++
		for _, a := range evLoop.Loop.Alts {
			scan(a, a.EventsSince(evLoop.Loop.Base), "accept loop")
		}
		scan(x.St, own, "accept loop end")
		// started watchers
		w := false
		for _, ev := range append(append([]*Event(nil), before(x)...), own...) {
			if ev == evLoop {
				break
			}
			if ev.Kind == "go" && watch[ev.Pos] {
				w = true
			}
		}
		rsd.check(w, "listener stops", evLoop.Pos, "nothing interrupts a listener that waits for connections when the server stops")
		if x.Kind != "return" {
			continue
		}
		stopped, waited, done := false, "", ""
		for _, ev := range own {
			switch {
			case ev.Kind == "recv" && ev.Args[0] == s.stopChan(), ev.Kind == "loop" && receivedLast(x.St, ev.Loop, s.stopChan()):
				stopped = true
			case isWG(ev, "Wait") && stopped:
				waited = wgField(ev.Args[0])
			case isWG(ev, "Done"):
				done = wgField(ev.Args[0])
				okw := false
				for _, g := range conns {
					okw = okw || g == waited
				}
				rwt.check(okw, "listener end", x.where(), "a listener ends without waiting for its connections")
			}
		}
		rsd.check(stopped, "listener end", x.where(), "a listener ends although the server was not stopped")
		added := ""
		for _, ev := range before(x) {
			if isWG(ev, "Add") {
				added = wgField(ev.Args[0])
			}
		}
		rwt.check(done != "" && done == added && done == group, "listener counted", x.where(), "a listener is not counted in the group that shutting down waits for")
	}
	rsd.check(loops > 0, "accept loop", c.p.Pos(s.e.root.Pos()), "no accept loop was found")
	// tasks in the background
	f := c.method("application", "ServerBase", "RunInBackground")
	e := c.run(f, &Opts{Name: "bg", FollowGo: true})
	cb := e.argFunc()
	n := 0
	for _, x := range e.GoExits {
		if x.Kind != "return" {
			continue
		}
		n++
		added, ran, done := "", 0, ""
		for _, ev := range before(x) {
			if isWG(ev, "Add") {
				added = wgField(ev.Args[0])
			}
		}
		for _, ev := range ownEvents(x) {
			if ev.Kind == "call" && ev.Name == "dyncall" && ev.Args[0] == cb {
				ran++
				done = ""
			}
			if isWG(ev, "Done") {
				done = wgField(ev.Args[0])
			}
		}
		rwt.check(ran == 1, "RunInBackground", x.where(), "a background task is not run exactly once")
		rwt.check(done != "" && done == added && done == group, "RunInBackground counted", x.where(), "a background task is not counted in the group that shutting down waits for")
	}
	rwt.check(n > 0, "RunInBackground", c.p.Pos(f.Pos()), "background tasks are not started")
	// tasks end only on a stop
	for _, m := range []string{"EpochUpdate", "HotReload"} {
		e := c.run(c.method("application", "ServerBase", m), &Opts{Name: "bg", Opaque: func(g *ssa.Function) (bool, bool) { return isLogFn(g), isLogFn(g) }})
		ch := e.sel(zeroState, e.arg(0), s.stop).T
		ends := 0
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			ends++
			ok := false
			for _, ev := range x.St.Events() {
				ok = ok || ev.Kind == "recv" && ev.Args[0] == ch || ev.Kind == "loop" && receivedLast(x.St, ev.Loop, ch)
			}
			rsd.check(ok, m+" ends", x.where(), "%s ends although the server was not stopped", m)
		}
		rsd.check(ends > 0, m+" ends", c.p.Pos(e.root.Pos()), "%s does not end when the server is stopped", m)
	}
	// waiting under the lock
	for _, x := range append(append([]*Exit(nil), s.e.Exits...), s.e.GoExits...) {
		timeline(ownEvents(x), func(sp step) {
			if sp.Kind != "call" {
				return
			}
			io := false
			for _, u := range connUses(sp.Event) {
				io = io || u.op == "read" || u.op == "write" || u.op == "other"
			}
			_, cn, _ := accepts(sp.Event)
			if io || cn != nil || isNetWait(sp.Event) {
				rlk.check(len(sp.held) == 0, "network operation in "+sp.In, sp.Pos, "%s may wait for a peer while a lock is held", sp.Name)
			}
		})
	}
	var roots []*ssa.Function
	for _, m := range []string{"ListenAndHandle", "EpochUpdate", "HotReload"} {
		roots = append(roots, c.callbacks(c.method("application", "ServerBase", m))...)
	}
	for g := range c.reachableFrom(roots...) {
		if !inRepo(g) || isTestHelper(c, g) {
			continue
		}
		c.eachInstr(g, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			p := ""
			if h := ci.Common().StaticCallee(); h != nil {
				p = fnPkg(h)
			} else if ci.Common().IsInvoke() {
				if nt, ok := ci.Common().Value.Type().(*types.Named); ok && nt.Obj().Pkg() != nil {
					p = nt.Obj().Pkg().Path()
				}
			}
			if netPkg(p) {
				rlk.fail("network operation in "+fnName(g), c.pos(in), "%s may wait for a peer, and it runs under the server's lock", fnName(g))
			}
		})
		rlk.ok("%s uses no network", fnName(g))
	}
	// every goroutine of the application layer is one of those
	known := map[string]bool{}
	for p := range closers {
		known[p] = true
	}
	for _, x := range append(append([]*Exit(nil), s.e.GoExits...), e.GoExits...) {
		known[x.Go] = true
	}
	for _, fn := range c.p.Fns {
		if fnPkg(fn) != "application" && fnPkg(fn) != "application/server" || isTestHelper(c, fn) {
			continue
		}
		c.eachInstr(fn, func(in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				rsd.check(known[s.e.pos(g)], "goroutine in "+fnName(fn), c.pos(in), "%s starts a goroutine that shutting down does not wait for", fnName(fn))
			}
		})
	}
}

func (e *Engine) argFunc() *Term {
	for i, p := range e.root.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return e.arg(i).T
		}
	}
	panic(anchorErr{"the function parameter of " + fnName(e.root)})
}

func nowish(t *Term) bool {
	return t.Op == OCall && (callName(t) == "time.Now" || callName(t) == "time.Unix")
}

func isListener(t *Term) bool {
	t = unIface(t)
	return t != nil && t.Op == OExtr && t.Aux == "0" && strings.HasPrefix(callName(t.Args[0]), "net.Listen") ||
		t != nil && t.Op == OCall && callName(t) == "crypto/tls.NewListener" || t != nil && t.Op == OAssert && isListener(t.Args[0])
}

func isNetWait(ev *Event) bool {
	f, ok := ev.Fn.(*ssa.Function)
	if !ok || !netPkg(fnPkg(f)) {
		return false
	}
	switch f.Name() {
	case "RemoteAddr", "LocalAddr", "SetDeadline", "SetReadDeadline", "SetWriteDeadline", "Close", "String", "Network", "Error", "Timeout", "Server", "Client":
		return false
	}
	return true
}

// boundedRead: the read takes at most a constant number of bytes.
func (s *srvT) boundedRead(sp step, st *State, arg int) bool {
	cst := func(t *Term) bool { v, ok := st.constOf(t).Int(); return ok && v > 0 && v <= 1<<24 }
	m := sp.Name[strings.LastIndex(sp.Name, ".")+1:]
	switch {
	case sp.Name == "io.CopyN":
		return len(sp.Args) == 3 && cst(sp.Args[2])
	case sp.Name == "io.ReadFull", sp.Name == "io.ReadAtLeast", m == "Read":
		return true // fills a given buffer
	}
	a := unIface(sp.Args[arg])
	for a.Op == OCall {
		if callName(a) == "io.LimitReader" && len(a.Args) >= 2 {
			return cst(a.Args[1])
		}
		if len(a.Args) == 0 {
			break
		}
		a = unIface(a.Args[0])
	}
	return m == "Handshake" || m == "HandshakeContext"
}

// ---------- C24

func propC24(c *Ctx) {
	rl := c.Rule("listeners", "a server starts listening only on a Unix socket, or on a TCP address after the certificate and key configured for it were loaded", 2)
	ri := c.Rule("server traffic", "nothing is read from or written to an accepted TCP connection except through TLS with that certificate", 3)
	rc := c.Rule("client traffic", "clients send and receive over TCP only through TLS, and refuse other kinds of addresses", 2)
	rs := c.Rule("sites", "every place that opens a network connection or listener is one of those", 2)
	s := c.srv()
	covered := map[string]bool{}
	cfgOK := func(st *State, cfg *Term) string {
		if cfg == nil || cfg.Op == ONil {
			return "there is no TLS configuration"
		}
		v := V{cfg, types.NewPointer(c.extNamed("crypto/tls", "Config"))}
		cs := s.e.sel(st, v, "Certificates")
		n := mkLen(s.e.content(st, cs.T))
		if k, ok := n.Int(); !ok || k < 1 {
			return "the TLS configuration holds no certificate"
		}
		cert := s.e.at(st, cs, intConst(0, types.Typ[types.Int])).T
		if cert.Op != OExtr || callName(cert.Args[0]) != "crypto/tls.LoadX509KeyPair" {
			return "the certificate is not a loaded one"
		}
		call := cert.Args[0]
		ce := s.e.sel(zeroState, s.addr, "TLSCertPath").T
		ke := s.e.sel(zeroState, s.addr, "TLSKeyPath").T
		if len(call.Args) < 2 || call.Args[0] != ce || call.Args[1] != ke {
			return "the certificate is not the one configured for the address"
		}
		if !st.knownNil(mk(OExtr, "1", types.Universe.Lookup("error").Type(), call)) && st.posFact(func(t *Term) bool {
			return t.Op == OIsNil && t.Args[0].Op == OExtr && t.Args[0].Aux == "1" && t.Args[0].Args[0] == call
		}) == nil {
			return "loading the certificate is not known to have succeeded"
		}
		return ""
	}
	// listener of a path: unix, or TCP with its configuration
	for _, x := range append(append([]*Exit(nil), s.e.Exits...), s.e.GoExits...) {
		st := x.St
		for _, ev := range st.allEvents() {
			if ev.Kind == "call" && (strings.HasPrefix(ev.Name, "net.Listen") || strings.HasPrefix(ev.Name, "crypto/tls.Listen") || strings.HasPrefix(ev.Name, "(*net.ListenConfig).Listen")) {
				covered[ev.Pos] = true
				if ev.Name == "net.ListenUnix" {
					rl.ok("Unix socket (%s)", ev.Pos)
				} else {
					// the certificate was loaded before
					loaded := st.posFact(func(t *Term) bool {
						return t.Op == OIsNil && t.Args[0].Op == OExtr && t.Args[0].Aux == "1" && callName(t.Args[0].Args[0]) == "crypto/tls.LoadX509KeyPair"
					})
					rl.check(loaded != nil, "listen", ev.Pos, "the server listens on a network address without having loaded a certificate for it")
				}
			}
			if ev.Kind == "call" && ev.Name == "crypto/tls.NewListener" {
				st2 := st
				if ev.alt != nil {
					st2 = ev.alt
				}
				w := cfgOK(st2, unIface(ev.Args[1]))
				ri.check(w == "", "TLS listener", ev.Pos, "%s", w)
			}
			for _, u := range connUses(ev.Event) {
				if u.op != "read" && u.op != "write" && u.op != "other" {
					continue
				}
				ln := listenerOf(u.root)
				st2 := st
				if ev.alt != nil {
					st2 = ev.alt
				}
				switch {
				case ln == "unix":
					ri.ok("Unix connection (%s)", ev.Pos)
				case ln == "tls":
					ri.ok("connection of a TLS listener (%s)", ev.Pos)
				case u.tls != nil && callName(u.tls) == "crypto/tls.Server":
					w := cfgOK(st2, unIface(u.tls.Args[1]))
					ri.check(w == "", ev.Name, ev.Pos, "a connection is encrypted but %s", w)
				default:
					ri.fail(ev.Name+" in "+ev.In, ev.Pos, "data is exchanged in the clear over a connection that may be a TCP connection")
				}
			}
		}
	}
	// the clients
	dial := func(n string) bool {
		return strings.HasPrefix(n, "net.Dial") || strings.HasPrefix(n, "(*net.Dialer).Dial") || strings.HasPrefix(n, "crypto/tls.Dial") || strings.HasPrefix(n, "net/http.")
	}
	for _, fn := range c.p.Fns {
		if fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		c.eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			h := ci.Common().StaticCallee()
			if h == nil {
				return
			}
			n := fnName(h)
			if strings.HasPrefix(n, "net.Listen") || strings.HasPrefix(n, "crypto/tls.Listen") || strings.HasPrefix(n, "(*net.ListenConfig)") {
				rs.check(covered[s.e.pos(in)], "listener in "+fnName(fn), c.pos(in), "%s opens a listener that is not a server's", fnName(fn))
			}
			if !dial(n) {
				return
			}
			e := c.run(fn, &Opts{Name: "dial"})
			rs.ok("dial in %s (%s)", fnName(fn), c.pos(in))
			if n == "net.DialUnix" {
				rc.ok("Unix socket (%s)", c.pos(in))
				return
			}
			c.sites[c.pos(in)] = true
			for _, x := range e.Exits {
				for _, ev := range x.St.allEvents() {
					for _, u := range connUses(ev.Event) {
						if u.op != "read" && u.op != "write" && u.op != "other" {
							continue
						}
						d := callName(u.root.Args[0])
						rc.check(u.tls != nil || d == "net.DialUnix", ev.Name+" in "+fnName(fn), ev.Pos, "%s exchanges data over a connection that is not encrypted", fnName(fn))
					}
				}
			}
		})
	}
	c.cliSchemes(rc)
}

// cliSchemes: where an address's kind selects the client, TCP leads to the
// TLS client, unix to the Unix client, and everything else to neither.
func (c *Ctx) cliSchemes(r *Rule) {
	tcp := c.fn("application/testutil", "NewTCPClient")
	unix := c.fn("application/testutil", "NewUnixClient")
	for _, fn := range c.p.Fns {
		if fn.Synthetic != "" || isTestHelper(c, fn) {
			continue
		}
		uses := false
		c.eachInstr(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range c.p.callees(ci) {
					uses = uses || g == tcp || g == unix
				}
			}
		})
		if !uses {
			continue
		}
		op := func(g *ssa.Function) (bool, bool) {
			p := fnPkg(g)
			if g == tcp || g == unix || strings.HasPrefix(p, "protocol") || p == "application" || p == "application/client" {
				return true, true
			}
			return false, false
		}
		e := c.run(fn, &Opts{Name: "scheme", Opaque: op})
		for _, x := range e.Exits {
			for _, ev := range x.St.allEvents() {
				g, ok := ev.Fn.(*ssa.Function)
				if !ok || ev.Kind != "call" || g != tcp && g != unix {
					continue
				}
				st := x.St
				if ev.alt != nil {
					st = ev.alt
				}
				want := "tcp"
				if g == unix {
					want = "unix"
				}
				addr := ev.Args[len(ev.Args)-1]
				// the scheme of that very address was compared
				f := st.posFact(func(t *Term) bool {
					if t.Op != OEq {
						return false
					}
					for i := 0; i < 2; i++ {
						if k, ok := t.Args[i].Str(); ok && k == want {
							o := t.Args[1-i]
							return anySub(o, func(y *Term) bool { return y.Op == OCall && callName(y) == "net/url.Parse" && y.Args[0] == addr })
						}
					}
					return false
				})
				r.check(f != nil, g.Name()+" in "+fnName(fn), ev.Pos, "%s is used by %s for an address not known to be of kind %s", g.Name(), fnName(fn), want)
			}
		}
	}
}

func (c *Ctx) extNamed(pkg, typ string) *types.Named {
	for _, p := range c.p.SSA.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o, ok := p.Pkg.Scope().Lookup(typ).(*types.TypeName); ok {
				return o.Type().(*types.Named)
			}
		}
	}
	panic(anchorErr{"type " + pkg + "." + typ})
}

// listenerOf: the kind of listener an accepted connection comes from.
func listenerOf(root *Term) string {
	if root == nil || root.Op != OExtr || root.Args[0].Op != OCall || len(root.Args[0].Args) == 0 {
		return ""
	}
	ln := unIface(root.Args[0].Args[0])
	for ln.Op == OAssert {
		ln = unIface(ln.Args[0])
	}
	if ln.Op == OExtr {
		switch n := callName(ln.Args[0]); {
		case n == "net.ListenUnix":
			return "unix"
		case n == "crypto/tls.Listen":
			return "tls"
		default:
			return n
		}
	}
	if ln.Op == OCall && callName(ln) == "crypto/tls.NewListener" {
		return "tls"
	}
	return ""
}

// ---------- C25

func propC25(c *Ctx) {
	re := c.Rule("expiry", "each expiry of the timer runs the update exactly once under the exclusive lock and re-arms the timer", 2)
	rn := c.Rule("only the timer", "the update runs only on an expiry of the timer, and nothing else advances the directory", 3)
	rd := c.Rule("deadline", "the timer is first armed with the deadline the directory was created with, and re-armed with the deadline announced in the root just signed", 4)
	s := c.srv()
	d := c.dir()
	T := c.named("application", "EpochTimer")
	dur := c.fieldT(T, "the epoch duration", func(t types.Type) bool { return typeName(t) == "time.Duration" })
	tim := c.fieldT(T, "the timer", func(t types.Type) bool { return isPtrTo(t, "time.Timer") })
	upd := c.method("protocol/directory", "ConiksDirectory", "Update")
	edl := c.method("protocol/directory", "ConiksDirectory", "EpochDeadline")
	eu := c.method("application", "ServerBase", "EpochUpdate")
	durKey := "application.EpochTimer." + dur
	// generic loop: any function f
	eg := c.run(eu, &Opts{Name: "bg", Opaque: func(g *ssa.Function) (bool, bool) { return isLogFn(g), isLogFn(g) }})
	timer := eg.argOf(ptrTo(T), 0)
	ch := eg.sel(zeroState, timer, tim+".C").T
	cb := eg.argFunc()
	alts := 0
	for _, x := range eg.Exits {
		c.expiries(x.St.Events(), func(evs []*Event, inLoop bool) {
			fired, ran, rearm, early := 0, 0, 0, 0
			for _, ev := range evs {
				switch {
				case ev.Kind == "recv" && ev.Args[0] == ch:
					fired++
				case ev.Kind == "call" && ev.Name == "dyncall" && ev.Args[0] == cb:
					if fired == 0 {
						early++
					}
					ran++
				case ev.Kind == "call" && ev.Name == "(*time.Timer).Reset" && ev.Args[0] == eg.sel(zeroState, timer, tim).T:
					rearm++
				}
			}
			if fired == 0 && ran == 0 {
				return
			}
			alts++
			rn.check(early == 0, "EpochUpdate", x.where(), "the update runs although the timer has not expired")
			re.check(fired == 1 && ran == 1, "EpochUpdate", x.where(), "an expiry of the timer runs the update %d times", ran)
			re.check(rearm == 1 || !inLoop, "EpochUpdate re-arms", x.where(), "an expiry of the timer re-arms it %d times", rearm)
		})
	}
	re.check(alts > 0, "EpochUpdate", c.p.Pos(eu.Pos()), "no path runs the update on an expiry of the timer")
	// the server's loop, with its own update procedure
	run := c.method("application/server", "ConiksServer", "Run")
	lah := c.method("application", "ServerBase", "ListenAndHandle")
	hr := c.method("application", "ServerBase", "HotReload")
	e := c.run(run, &Opts{Name: "epoch", FollowGo: true,
		Opaque: func(g *ssa.Function) (bool, bool) {
			if isLogFn(g) || g == lah || g == hr || g == upd || g == edl {
				return true, true
			}
			return false, false
		},
		LogLoad: func(k string) bool { return k == durKey },
	})
	srv := e.arg(0)
	dirF := c.dirField(srv.Ty)
	if dirF == "" {
		panic(anchorErr{"the server's directory field"})
	}
	dirT0 := e.sel(zeroState, srv, dirF).T
	timF := fieldByType(elemOf(srv.Ty), func(t types.Type) bool { return isPtrTo(t, "application.EpochTimer") })
	tm := e.sel(zeroState, srv, timF)
	chS := e.sel(zeroState, tm, tim+".C").T
	cycles := 0
	for _, x := range e.GoExits {
		c.expiries(ownEvents(x), func(evs []*Event, inLoop bool) {
			fired, updates, held, pos := 0, 0, false, ""
			var deadline, loaded, stored *Term
			order := ""
			for _, ev := range evs {
				switch {
				case ev.Kind == "recv" && ev.Args[0] == chS:
					fired++
					pos = ev.Pos
				case ev.Kind == "lock" && ev.Name == "W":
					held = true
				case ev.Kind == "unlock":
					held = false
				case ev.Kind == "call" && ev.Fn == upd:
					updates++
					order += "u"
					re.check(held && ev.Args[0] == dirT0, "epoch update", ev.Pos, "the directory is not updated under the exclusive lock")
				case ev.Kind == "call" && ev.Fn == edl:
					deadline = ev.Res
				case ev.Kind == "store" && ev.Name == durKey:
					stored = ev.Args[1]
					order += "s"
				case ev.Kind == "load" && ev.Name == durKey:
					loaded = ev.Res
					order += "l"
				case ev.Kind == "call" && ev.Name == "(*time.Timer).Reset":
					order += "r"
					a := ev.Args[1]
					ok := a == stored || stored != nil && loaded != nil && a == loaded
					rd.check(ok && stored != nil && seconds(stored, deadline), "re-armed", ev.Pos, "the timer is not re-armed with the epoch deadline the directory announces")
				}
			}
			if fired == 0 {
				rn.check(updates == 0, "epoch loop", x.where(), "the directory is updated although the timer has not expired")
				return
			}
			cycles++
			re.check(updates == 1, "epoch update", pos, "an expiry of the timer updates the directory %d times", updates)
			if inLoop {
				// the announcement is read after the update
				i, j := strings.Index(order, "u"), strings.Index(order, "s")
				k := strings.Index(order, "r")
				rd.check(i >= 0 && j > i && k > j, "order", pos, "the timer is not re-armed from the root signed by the update")
			}
		})
	}
	re.check(cycles > 0, "epoch loop", c.p.Pos(run.Pos()), "the server never updates its directory")
	// one epoch loop
	n := 0
	for _, st := range c.callSites(func(g *ssa.Function) bool { return g == eu }) {
		if isTestHelper(c, st.Fn) || st.Fn.Synthetic != "" {
			continue
		}
		n++
	}
	rn.check(n == 1, "epoch loops", c.p.Pos(eu.Pos()), "%d places start an epoch loop", n)
	// who updates
	roots := map[*ssa.Function]bool{}
	for _, f := range c.callbacks(eu) {
		roots[f] = true
	}
	inE := c.partOf(roots)
	for _, st := range c.callSites(func(g *ssa.Function) bool { return g == upd }) {
		if isTestHelper(c, st.Fn) || st.Fn.Synthetic != "" {
			continue
		}
		rn.check(inE(st.Fn), "update from "+fnName(st.Fn), c.pos(st.In), "%s advances the epoch without being part of the timer's update procedure", fnName(st.Fn))
	}
	pu := c.method("merkletree", "PAD", "Update")
	for _, st := range c.callSites(func(g *ssa.Function) bool { return g == pu }) {
		if isTestHelper(c, st.Fn) || st.Fn.Synthetic != "" {
			continue
		}
		rn.check(st.Fn == upd || c.partOf(map[*ssa.Function]bool{upd: true})(st.Fn), "dictionary update from "+fnName(st.Fn), c.pos(st.In), "%s advances the dictionary without being the directory's update", fnName(st.Fn))
	}
	// arming
	nt := c.fn("application", "NewEpochTimer")
	en := c.run(nt, nil)
	dl := en.arg(0).T
	for _, x := range en.Exits {
		if x.Kind != "return" {
			continue
		}
		t := en.sel(x.St, V{x.Res[0], nt.Signature.Results().At(0).Type()}, tim).T
		v := en.sel(x.St, V{x.Res[0], nt.Signature.Results().At(0).Type()}, dur).T
		rd.check(t.Op == OCall && callName(t) == "time.NewTimer" && seconds(t.Args[0], dl), "first expiry", x.where(), "a new timer is not armed with the given deadline")
		rd.check(seconds(v, dl), "duration", x.where(), "a new timer does not record the given deadline")
	}
	// the same deadline for the directory and its timer
	ens := c.run(c.fn("application/server", "NewConiksServer"), c.newServerOpts())
	for _, x := range ens.Exits {
		if x.Kind != "return" {
			continue
		}
		var a, b *Term
		for _, ev := range x.St.Events() {
			if ev.Kind == "call" && fnIs(ev, "protocol/directory.New") {
				a = ev.Args[0]
			}
			if ev.Kind == "call" && ev.Fn == nt {
				b = ev.Args[0]
			}
		}
		rd.check(a != nil && a == b, "initial deadline", x.where(), "the first timer does not run with the deadline of the directory's policies")
	}
	// the announced deadline
	ed := c.run(edl, d.opts("dir"))
	for _, x := range ed.Exits {
		if x.Kind != "return" {
			continue
		}
		pad := ed.sel(zeroState, ed.arg(0), d.pad)
		pol, _ := ed.assertTo(x.St, ed.sel(zeroState, pad, d.latest+".Ad").T, ptrTo(c.named("protocol", "Policies")))
		want := ed.sel(zeroState, V{pol, ptrTo(c.named("protocol", "Policies"))}, "EpochDeadline").T
		rd.check(x.St.same(x.Res[0], want), "announced deadline", x.where(), "the epoch deadline is not the one in the latest root's policies")
	}
	_ = s
}

func fnIs(ev *Event, name string) bool {
	f, ok := ev.Fn.(*ssa.Function)
	return ok && fnName(f) == name
}

// seconds: t is the deadline in seconds as a duration.
func seconds(t, deadline *Term) bool {
	if t == nil || deadline == nil {
		return false
	}
	l := linOf(t)
	if l == nil || l.C != 0 || len(l.Atoms) != 1 || l.K[0] != 1000000000 {
		return false
	}
	a := l.Atoms[0]
	for a != deadline && (a.Op == OConv || a.Op == OUn) && len(a.Args) > 0 {
		a = a.Args[0]
	}
	return strip(a) == strip(deadline)
}

// expiries splits a goroutine's events into the iterations of its loops and
// what follows them.
func (c *Ctx) expiries(evs []*Event, f func(evs []*Event, inLoop bool)) {
	start := 0
	for i, ev := range evs {
		if ev.Kind == "loop" && ev.Loop != nil {
			for _, a := range ev.Loop.Alts {
				c.expiries(a.EventsSince(ev.Loop.Base), func(e []*Event, _ bool) { f(e, true) })
			}
			start = i + 1
		}
	}
	f(evs[start:], false)
}

// ---------- C26

func propC26(c *Ctx) {
	rf := c.Rule("failed reload", "a reload that cannot load the configuration changes nothing", 1)
	rs := c.Rule("successful reload", "a successful reload replaces the directory's policies by new ones that differ in the epoch deadline only, and changes nothing else", 1)
	rw := c.Rule("writers", "the directory's policies are replaced by reloads only", 1)
	d := c.dir()
	hr := c.method("application", "ServerBase", "HotReload")
	cbs := c.callbacks(hr)
	P := c.named("protocol", "Policies")
	polKey := "protocol/directory.ConiksDirectory." + d.pol
	load := c.method("application/server", "Config", "Load")
	for _, f := range cbs {
		base := d.opts("")
		e := c.run(f, &Opts{Name: "reload", Opaque: func(g *ssa.Function) (bool, bool) {
			if g == load || isLogFn(g) {
				return true, true
			}
			return false, false
		}, Pre: func(st *State, args []*Term) {
			for i, p := range f.Params {
				if n := c.dirField(p.Type()); n != "" {
					dv := (&Engine{p: c.p, o: &Opts{}}).sel(zeroState, V{args[i], p.Type()}, n)
					base.Pre(st, []*Term{dv.T})
				}
			}
		}})
		srv := e.arg(0)
		if srv.T == nil || c.dirField(srv.Ty) == "" {
			panic(anchorErr{"the server whose policies " + fnName(f) + " reloads"})
		}
		dir := e.sel(zeroState, srv, c.dirField(srv.Ty))
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			var conf V
			var lerr *Term
			for _, ev := range st.Events() {
				if ev.Kind == "call" && ev.Fn == load {
					conf = V{ev.Args[0], ptrTo(c.named("application/server", "Config"))}
					lerr = ev.Res
				}
			}
			eff := outerEffects(st)
			if lerr == nil || !st.knownNil(lerr) {
				bad := ""
				for _, ev := range eff {
					bad = ev.Pos
				}
				rf.check(bad == "", f.Name(), bad, "a reload changes data although the configuration is not known to have been loaded")
				continue
			}
			bad := ""
			stores := 0
			for _, ev := range eff {
				if ev.Kind == "store" && ev.Name == polKey && ev.rec == nil && ev.Args[0].Op == OFAddr && ev.Args[0].Args[0] == dir.T {
					stores++
					continue
				}
				bad = ev.Pos
			}
			rs.check(bad == "", f.Name()+" changes", bad, "a reload changes something other than the directory's policies")
			rs.check(stores == 1, f.Name()+" replaces", x.where(), "a successful reload does not replace the directory's policies exactly once")
			nw := e.sel(st, dir, d.pol)
			old := e.sel(zeroState, dir, d.pol)
			if nw.T.Op != OAlloc {
				rs.fail(f.Name()+" policies", x.where(), "the policies are not new ones")
				continue
			}
			for i := 0; i < P.Underlying().(*types.Struct).NumFields(); i++ {
				n := P.Underlying().(*types.Struct).Field(i).Name()
				got := e.sel(st, nw, n).T
				if n == "EpochDeadline" {
					want := e.sel(st, conf, "Policies.EpochDeadline").T
					rs.check(st.same(got, want), f.Name()+" deadline", x.where(), "the new policies do not announce the configured deadline")
					continue
				}
				was := e.sel(zeroState, old, n).T
				if w, ok := c.policyConst(n); ok {
					rs.check(got == w || st.same(got, was), f.Name()+" "+n, x.where(), "the new policies announce another %s", n)
				} else {
					rs.check(st.same(got, was), f.Name()+" "+n, x.where(), "the new policies announce another %s", n)
				}
			}
		}
	}
	roots := map[*ssa.Function]bool{}
	for _, f := range cbs {
		roots[f] = true
	}
	inR := c.partOf(roots)
	ctor := map[*ssa.Function]bool{c.fn("protocol/directory", "New"): true}
	inC := c.partOf(ctor)
	for _, s := range c.fieldStores(polKey) {
		if isTestHelper(c, s.Fn) {
			continue
		}
		rw.check(inR(s.Fn) || inC(s.Fn) || c.freshStore(s), "policies set in "+fnName(s.Fn), c.pos(s.In), "%s replaces the directory's policies without being a reload", fnName(s.Fn))
	}
	// and the policies themselves are never changed
	for i := 0; i < P.Underlying().(*types.Struct).NumFields(); i++ {
		for _, s := range c.fieldStores("protocol.Policies." + P.Underlying().(*types.Struct).Field(i).Name()) {
			if isTestHelper(c, s.Fn) {
				continue
			}
			rw.check(c.freshStore(s), "policies changed in "+fnName(s.Fn), c.pos(s.In), "%s changes existing policies", fnName(s.Fn))
		}
	}
}

// policyConst: the value NewPolicies gives a field regardless of its
// arguments.
func (c *Ctx) policyConst(field string) (*Term, bool) {
	f := c.fn("protocol", "NewPolicies")
	e := c.run(f, nil)
	var v *Term
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		t := e.sel(x.St, V{x.Res[0], f.Signature.Results().At(0).Type()}, field).T
		if rooted(t) || v != nil && v != t {
			return nil, false
		}
		v = t
	}
	return v, v != nil
}

var _ = fmt.Sprint

// receivedLast: the loop ended in an iteration that received from the channel.
func receivedLast(st *State, rec *LoopRec, ch *Term) bool {
	return lastIteration(st, rec, func(alt *State) bool {
		for _, ev := range alt.EventsSince(rec.Base) {
			if ev.Kind == "recv" && ev.Args[0] == ch {
				return true
			}
		}
		return false
	})
}
