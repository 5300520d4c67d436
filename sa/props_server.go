package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- the network layer: ListenAndHandle and what it starts

type srvT struct {
	c                   *Ctx
	base, adr           *types.Named
	perms, stop         string // fields of the server base
	e                   *Engine
	recv, addr, handler V
	unm, mar            *ssa.Function
}

// httpish: packages whose calls wait for a peer.
func netPkg(p string) bool {
	return p == "net" || strings.HasPrefix(p, "net/") && p != "net/url" && p != "net/mail" && p != "net/textproto" || p == "crypto/tls"
}

func (c *Ctx) srv() *srvT {
	s := &srvT{c: c}
	s.base = c.named("application", "ServerBase")
	s.adr = c.named("application", "ServerAddress")
	s.perms = c.fieldT(s.base, "the permissions", func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok || !isPtrTo(m.Key(), "application.ServerAddress") {
			return false
		}
		i, ok := m.Elem().Underlying().(*types.Map)
		return ok && isInteger(i.Key()) && isBool(i.Elem())
	})
	s.stop = c.fieldT(s.base, "the stop channel", func(t types.Type) bool {
		ch, ok := t.Underlying().(*types.Chan)
		if !ok {
			return false
		}
		st, ok := ch.Elem().Underlying().(*types.Struct)
		return ok && st.NumFields() == 0
	})
	s.unm = c.fn("application", "UnmarshalRequest")
	s.mar = c.fn("application", "MarshalResponse")
	s.e = c.run(c.method("application", "ServerBase", "ListenAndHandle"), s.opts())
	s.recv, s.addr = s.e.arg(0), s.e.argOf(ptrTo(s.adr), 0)
	for i := range s.e.root.Params {
		if _, ok := s.e.root.Params[i].Type().Underlying().(*types.Signature); ok {
			s.handler = s.e.arg(i)
		}
	}
	if s.handler.T == nil {
		panic(anchorErr{"the request handler passed to ListenAndHandle"})
	}
	return s
}

func (s *srvT) opts() *Opts {
	return &Opts{
		Name:     "srv",
		FollowGo: true,
		Opaque: func(f *ssa.Function) (bool, bool) {
			if f == s.unm || f == s.mar || isLogFn(f) {
				return true, true
			}
			return false, false
		},
		LogCalls: func(ev *Event) bool { return ev.Kind == "call" && ev.Name == "dyncall" },
	}
}

func isLogFn(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && isPtrTo(f.Signature.Recv().Type(), "application.Logger")
}

// ownEvents: the events of the goroutine whose end is x.
func ownEvents(x *Exit) []*Event {
	evs := x.St.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "goroutine" {
			return evs[i+1:]
		}
	}
	return evs
}

// before: the events of the starting path up to the start of the goroutine.
func before(x *Exit) []*Event {
	evs := x.St.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "goroutine" {
			return evs[:i]
		}
	}
	return nil
}

// timeline replays events in order with the locks held; loops are entered
// once per way an iteration can go. It returns the locks held at the end.
type step struct {
	*Event
	held map[*Term]string
	rec  *LoopRec
	alt  *State
}

func timeline(evs []*Event, f func(s step)) (map[*Term]string, string) {
	bad := ""
	cp := func(m map[*Term]string) map[*Term]string {
		r := map[*Term]string{}
		for k, v := range m {
			r[k] = v
		}
		return r
	}
	same := func(a, b map[*Term]string) bool {
		if len(a) != len(b) {
			return false
		}
		for k, v := range a {
			if b[k] != v {
				return false
			}
		}
		return true
	}
	var walk func(evs []*Event, held map[*Term]string, rec *LoopRec, alt *State) map[*Term]string
	walk = func(evs []*Event, held map[*Term]string, rec *LoopRec, alt *State) map[*Term]string {
		for _, ev := range evs {
			f(step{ev, held, rec, alt})
			switch ev.Kind {
			case "lock", "relock":
				held = cp(held)
				held[ev.Args[0]] = ev.Name
			case "unlock", "badunlock":
				held = cp(held)
				delete(held, ev.Args[0])
			case "loop":
				if ev.Loop != nil {
					for _, a := range ev.Loop.Alts {
						if h := walk(a.EventsSince(ev.Loop.Base), held, ev.Loop, a); !same(h, held) {
							bad = ev.Pos
						}
					}
				}
			}
		}
		return held
	}
	return walk(evs, map[*Term]string{}, nil, nil), bad
}

func callName(t *Term) string {
	s := t.Aux
	if i := strings.IndexAny(s, "#@"); i >= 0 {
		s = s[:i]
	}
	return s
}

func unIface(t *Term) *Term {
	for t != nil && t.Op == OIface {
		t = t.Args[0]
	}
	return t
}

// connOf: the accepted or dialled connection t stands for, and the term of
// the encryption layer on top of it, if any.
func connOf(t *Term) (root, tls *Term) {
	t = unIface(t)
	if t == nil {
		return nil, nil
	}
	switch t.Op {
	case OExtr:
		if t.Aux != "0" || t.Args[0].Op != OCall {
			return nil, nil
		}
		n := callName(t.Args[0])
		if strings.HasSuffix(n, ".Accept") || strings.HasSuffix(n, ".AcceptTCP") || strings.HasSuffix(n, ".AcceptUnix") ||
			strings.HasPrefix(n, "net.Dial") || strings.HasPrefix(n, "(*net.Dialer).Dial") || strings.HasPrefix(n, "crypto/tls.Dial") || strings.HasPrefix(n, "(*crypto/tls.Dialer).Dial") {
			if strings.Contains(n, "crypto/tls.") {
				return t, t
			}
			return t, nil
		}
	case OCall:
		switch callName(t) {
		case "crypto/tls.Server", "crypto/tls.Client":
			r, _ := connOf(t.Args[0])
			return r, t
		case "io.LimitReader", "bufio.NewReader", "bufio.NewWriter", "io.TeeReader", "bufio.NewReaderSize":
			return connOf(t.Args[0])
		}
	case OAssert:
		return connOf(t.Args[0])
	case OFAddr: // the part of a connection that implements its methods
		if strings.HasPrefix(t.Aux, "net.") {
			return connOf(t.Args[0])
		}
	case OAlloc:
		return nil, nil
	}
	return nil, nil
}

type connUse struct {
	root, tls *Term
	op        string // read write deadline close other
	arg       int
}

// connUses: what a call does to connections.
func connUses(ev *Event) []connUse {
	if ev.Kind != "call" || ev.Name == "crypto/tls.Server" || ev.Name == "crypto/tls.Client" || ev.Name == "io.LimitReader" || strings.HasPrefix(ev.Name, "bufio.New") {
		return nil
	}
	if f, ok := ev.Fn.(*ssa.Function); ok && inRepo(f) && f.Blocks != nil && !isLogFn(f) {
		return nil // its own calls are seen
	}
	var r []connUse
	for i, a := range ev.Args {
		root, tl := connOf(a)
		if root == nil {
			continue
		}
		m := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
		op := "other"
		switch {
		case i == 0 && (m == "Read" || m == "Handshake" || m == "HandshakeContext" || m == "ReadFrom"),
			strings.HasPrefix(ev.Name, "io.Read"), strings.HasPrefix(ev.Name, "io/ioutil.Read"), strings.HasPrefix(ev.Name, "io.Copy") && i == 1,
			i == 0 && strings.HasPrefix(ev.Name, "(*bufio.Reader).Read"), strings.HasPrefix(ev.Name, "encoding/json.NewDecoder"), i > 0 && m == "ReadFrom":
			op = "read"
		case i == 0 && m == "Write", strings.HasPrefix(ev.Name, "io.Copy") && i == 0, strings.HasPrefix(ev.Name, "io.WriteString"), strings.HasPrefix(ev.Name, "fmt.Fprint") && i == 0, i > 0 && m == "WriteTo":
			op = "write"
		case i == 0 && strings.HasPrefix(m, "Set") && strings.HasSuffix(m, "Deadline"):
			op = "deadline"
		case i == 0 && m == "Close":
			op = "close"
		case i == 0 && (m == "RemoteAddr" || m == "LocalAddr" || m == "ConnectionState" || m == "CloseWrite" || m == "NetConn" || m == "SetKeepAlive" || m == "SetNoDelay"):
			op = "query"
		}
		r = append(r, connUse{root, tl, op, i})
	}
	return r
}

// future: the term is time.Now() plus a positive constant.
func future(st *State, t *Term) bool {
	if t.Op != OCall || callName(t) != "(time.Time).Add" || len(t.Args) < 2 {
		return false
	}
	now := t.Args[0]
	if now.Op != OCall || callName(now) != "time.Now" {
		return false
	}
	v, ok := st.constOf(t.Args[1]).Int()
	return ok && v > 0
}

func (s *srvT) stopChan() *Term { return s.e.sel(zeroState, s.recv, s.stop).T }

// fieldAddr: t is the address of the field of the object with that base.
func addrField(t *Term, base *Term) string {
	if t != nil && t.Op == OFAddr && t.Args[0] == base {
		return t.Aux
	}
	return ""
}

func isWG(ev *Event, m string) bool { return ev.Kind == "call" && ev.Name == "(*sync.WaitGroup)."+m }

// ---------- functions given as values

func (c *Ctx) unbound(f *ssa.Function) *ssa.Function {
	if f != nil && f.Synthetic != "" && f.Object() != nil {
		if o, ok := f.Object().(*types.Func); ok {
			if g := c.p.SSA.FuncValue(o); g != nil && g.Blocks != nil {
				return g
			}
		}
	}
	return f
}

// funcVals: the functions v may denote; ok is false when that is not known.
func (c *Ctx) funcVals(v ssa.Value, depth int) (r []*ssa.Function, ok bool) {
	if depth > 6 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{c.unbound(v)}, true
	case *ssa.MakeClosure:
		return []*ssa.Function{c.unbound(v.Fn.(*ssa.Function))}, true
	case *ssa.ChangeType:
		return c.funcVals(v.X, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			fs, ok := c.funcVals(e, depth+1)
			if !ok {
				return nil, false
			}
			r = append(r, fs...)
		}
		return r, true
	case *ssa.UnOp:
		// a local variable written once
		if a, ok := v.X.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
					fs, ok := c.funcVals(st.Val, depth+1)
					if !ok {
						return nil, false
					}
					r = append(r, fs...)
				}
			}
			return r, len(r) > 0
		}
	case *ssa.Parameter:
		fn := v.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == v {
				idx = i
			}
		}
		sites := c.callSites(func(g *ssa.Function) bool { return g == fn })
		for _, s := range sites {
			if isTestHelper(c, s.Fn) {
				continue
			}
			a := argAt(s.In.(ssa.CallInstruction), fn.Params[idx])
			if a == nil {
				return nil, false
			}
			fs, ok := c.funcVals(a, depth+1)
			if !ok {
				return nil, false
			}
			r = append(r, fs...)
		}
		return r, len(r) > 0
	}
	return nil, false
}

// callbacks: the functions passed to fn as its function-typed parameter.
func (c *Ctx) callbacks(fn *ssa.Function) []*ssa.Function {
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			fs, ok := c.funcVals(p, 0)
			if !ok {
				panic(anchorErr{"the functions passed to " + fnName(fn)})
			}
			return fs
		}
	}
	panic(anchorErr{"the function parameter of " + fnName(fn)})
}

// asyncRoots: functions that are started as goroutines.
func (c *Ctx) asyncRoots() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, fn := range c.p.Fns {
		c.eachInstr(fn, func(in ssa.Instruction) {
			if g, ok := in.(*ssa.Go); ok {
				for _, f := range c.p.callees(g) {
					r[f] = true
				}
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
					r[mc.Fn.(*ssa.Function)] = true
				}
			}
		})
	}
	return r
}

// partOf: the functions that run only as part of one of the roots: the
// roots and what is called (never started as a goroutine, never used as a
// value) by them alone.
func (c *Ctx) partOf(roots map[*ssa.Function]bool) func(f *ssa.Function) bool {
	memo := map[*ssa.Function]int{}
	async := c.asyncRoots()
	var in func(f *ssa.Function) bool
	in = func(f *ssa.Function) bool {
		if roots[f] {
			return true
		}
		switch memo[f] {
		case 1:
			return true
		case 2, 3:
			return false
		}
		memo[f] = 3
		res := !async[f]
		n := 0
		if res {
			for _, g := range c.p.Fns {
				if isTestHelper(c, g) {
					continue
				}
				c.eachInstr(g, func(i ssa.Instruction) {
					for _, op := range i.Operands(nil) {
						if *op == nil {
							continue
						}
						if h, ok := (*op).(*ssa.Function); ok && (h == f || c.unbound(h) == f) {
							ci, isCall := i.(ssa.CallInstruction)
							_, isMC := i.(*ssa.MakeClosure)
							switch {
							case isCall && ci.Common().Value == *op:
								n++
								if !in(g) {
									res = false
								}
							case isMC && h == f && h.Parent() != nil:
								// a function literal: wherever it is called, the
								// enclosing function is running or has ended
								n++
								if !in(g) || !calledInPlace(i.(*ssa.MakeClosure)) {
									res = false
								}
							default:
								res = false
							}
						}
					}
				})
			}
		}
		if n == 0 {
			res = false
		}
		memo[f] = 2
		if res {
			memo[f] = 1
		}
		return res
	}
	return in
}

// calledInPlace: a function literal that is only called or deferred by the
// function that contains it.
func calledInPlace(mc *ssa.MakeClosure) bool {
	for _, ref := range *mc.Referrers() {
		ci, ok := ref.(ssa.CallInstruction)
		if !ok || ci.Common().Value != ssa.Value(mc) {
			return false
		}
		if _, ok := ref.(*ssa.Go); ok {
			return false
		}
	}
	return true
}
