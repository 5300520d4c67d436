package main

import (
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C34: what the command-line client tells its user

var (
	failText = regexp.MustCompile(`error|couldn'?t|cannot|can'?t|could not|can not|invalid|oops|unfortunately|fail|unable|wrong|\bbad\b|malformed|refus|reject|mismatch|differ|warning|unexpected|not (be )?verif|unverif|attack|inconsisten|problem|snuck`)
	noneText = regexp.MustCompile(`n'?t (yet )?(been )?(registered|found|exist)|not (yet )?(been )?(registered|found|known|bound|exist)|unregistered|unknown|\bno (such |matching )?(key|name|binding|user)`)
	hadText  = regexp.MustCompile(`already|taken|exists|existed|in use`)
	goodText = regexp.MustCompile(`succe|found|bound|regist|is:|key|\bok\b|done|verified|valid`)
)

// said: what a text tells.
type said struct {
	lit  string  // the literal parts, in lower case
	vals []*Term // the values shown
}

func (s *said) add(t *Term) {
	t = unConv(unIface(t))
	if l, ok := t.Str(); ok {
		s.lit += strings.ToLower(l) + " "
		return
	}
	switch {
	case t.Op == OCat, t.Op == OElem:
		for _, a := range t.Args {
			s.add(a)
		}
	case t.Op == OCall && (strings.HasPrefix(callName(t), "fmt.Sprint") || callName(t) == "strings.Join" || callName(t) == "strings.TrimSpace"):
		for _, a := range t.Args {
			s.add(a)
		}
	default:
		s.vals = append(s.vals, t)
	}
}

func (s *said) failure() bool { return failText.MatchString(s.lit) }

// shown: the event writes a text to the user's terminal.
func shown(ev *Event) []*Term {
	if ev.Kind != "call" {
		return nil
	}
	n := ev.Name
	switch {
	case strings.HasSuffix(n, "term.Terminal).Write") || strings.HasSuffix(n, "terminal.Terminal).Write"):
		return ev.Args[1:]
	case strings.HasPrefix(n, "fmt.Print"), n == "builtin.print", n == "builtin.println":
		return ev.Args
	case strings.HasPrefix(n, "fmt.Fprint"), n == "io.WriteString", n == "(*os.File).Write", n == "(*os.File).WriteString", strings.HasPrefix(n, "(*bufio.Writer).Write"):
		return ev.Args[1:]
	case strings.HasPrefix(n, "log.Print"), strings.HasPrefix(n, "(*log.Logger).Print"):
		return ev.Args
	}
	return nil
}

func propC34(c *Ctx) {
	rf := c.Rule("failures", "when the request, the transport, a consistency check or the extraction of the key is not known to have succeeded, the text shown names a failure", 20)
	rs := c.Rule("successes", "a text that doesn't name a failure is shown only for an answer that passed all consistency checks, and says what its code says", 6)
	rk := c.Rule("keys", "a key is shown as the one bound to the name only if it was taken without error from the checked response; nothing else the server sent is shown", 6)
	rc := c.Rule("checks", "what is checked is the decoded answer to the request that was sent, for its type, name and key, or the pinned key if there is one", 6)
	rn := c.Rule("pinned state", "the consistency checks start from the loaded configuration's pinned root and signing key, and check promises", 1)

	handle := c.method("protocol/client", "ConsistencyChecks", "HandleResponse")
	getKey := c.method("protocol", "Response", "GetKey")
	unm := c.fn("application", "UnmarshalResponse")
	mkReg := c.fn("application/client", "CreateRegistrationMsg")
	mkLook := c.fn("application/client", "CreateKeyLookupMsg")
	load := c.method("application/client", "Config", "Load")
	newCC := c.fn("protocol/client", "New")
	regT, lookT := c.constVal("protocol", "RegistrationType"), c.constVal("protocol", "KeyLookupType")
	success, existed, notFound := c.constVal("protocol", "ReqSuccess"), c.constVal("protocol", "ReqNameExisted"), c.constVal("protocol", "ReqNameNotFound")
	differ := c.constVal("protocol", "CheckBindingsDiffer")
	RS := ptrTo(c.named("protocol", "Response"))
	CC := ptrTo(c.named("protocol/client", "ConsistencyChecks"))
	CF := ptrTo(c.named("application/client", "Config"))
	opaque := map[*ssa.Function]bool{handle: true, getKey: true, unm: true, mkReg: true, mkLook: true, load: true, newCC: true}

	// the commands: outermost callers of the consistency checks
	var roots []*ssa.Function
	in := c.reaching(map[*ssa.Function]bool{handle: true})
	for _, f := range c.p.Fns {
		if !in[f] || !strings.HasPrefix(fnPkg(f), "cli/coniksclient") || isTestHelper(c, f) {
			continue
		}
		outer := true
		for _, g := range c.callersOf(f) {
			if g != f && strings.HasPrefix(fnPkg(g), "cli/coniksclient") {
				outer = false
			}
		}
		if f.Parent() != nil && in[f.Parent()] {
			outer = false
		}
		if outer {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		panic(anchorErr{"a command of the client that handles responses"})
	}
	handled := map[string]bool{}
	for _, root := range roots {
		e := c.run(root, &Opts{Name: "cli",
			Opaque: func(f *ssa.Function) (bool, bool) {
				return opaque[f] || fnPkg(f) == "application/testutil", opaque[f] || fnPkg(f) == "application/testutil"
			},
			LogCalls: func(ev *Event) bool { return ev.Kind == "call" && (opaque[fnOf(ev)] || shown(ev) != nil) }})

		// the iterations of the command loop, and what ends it
		type run struct {
			st    *State
			evs   []*Event
			where string
		}
		var runs []run
		seen := map[*State]bool{}
		var split func(st *State, evs []*Event, where string)
		split = func(st *State, evs []*Event, where string) {
			var own []*Event
			for _, ev := range evs {
				if ev.Kind == "loop" && ev.Loop != nil {
					for _, a := range ev.Loop.Alts {
						if !seen[a] {
							seen[a] = true
							sub := a.EventsSince(ev.Loop.Base)
							split(a, sub, ev.Pos)
						}
					}
					continue
				}
				own = append(own, ev)
			}
			runs = append(runs, run{st, own, where})
		}
		for _, x := range e.Exits {
			split(x.St, x.St.Events(), x.where())
		}
		// client states and where they are from
		states := map[*Term]bool{}
		for _, x := range e.Exits {
			for _, ev := range x.St.allEvents() {
				if ev.Kind != "call" || fnOf(ev.Event) != newCC || states[ev.Res] {
					continue
				}
				states[ev.Res] = true
				pre := ev.Pre
				if pre == nil {
					pre = ev.St
				}
				ok := false
				for _, l := range pre.Events() {
					if l.Kind == "call" && fnOf(l) == load && pre.knownNil(lastRes(l)) {
						cf := V{l.Args[0], CF}
						str, pk, tb := false, false, false
						for i, p := range newCC.Params {
							a := e.content(pre, ev.Args[i])
							switch {
							case isPtrTo(p.Type(), "protocol.DirSTR"):
								str = a == e.content(pre, e.sel(pre, cf, "InitSTR").T)
							case isBool(p.Type()):
								tb = pre.Holds(a)
							default:
								pk = a == e.content(pre, e.sel(pre, cf, "SigningPubKey").T)
							}
						}
						ok = ok || str && pk && tb
					}
				}
				rn.check(ok, "initial state", ev.Pos, "the consistency checks don't start from the pinned root and key of the loaded configuration with promises enabled")
			}
		}

		for _, r := range runs {
			st := r.st
			var begun *Event // the request's creation
			var hs, gets, unms, mks []*Event
			var outs []*Event
			var server []*Term
			for _, ev := range r.evs {
				if ev.Kind != "call" {
					continue
				}
				switch f := fnOf(ev); {
				case f == mkReg, f == mkLook:
					begun = ev
					mks = append(mks, ev)
				case f == unm:
					unms = append(unms, ev)
					server = append(server, ev.Res)
				case f == handle:
					hs = append(hs, ev)
				case f == getKey:
					gets = append(gets, ev)
				case shown(ev) != nil:
					outs = append(outs, ev)
				case f != nil && fnPkg(f) == "application/testutil" && ev.Res != nil && ev.Res.Op == OTuple:
					server = append(server, ev.Res.Args[0])
				}
			}
			s := &said{}
			for _, o := range outs {
				pre := o.Pre
				if pre == nil {
					pre = o.St
				}
				for _, a := range shown(o) {
					a = unIface(a)
					if pre != nil {
						a = e.content(pre, a)
					}
					s.add(a)
				}
			}
			pos := r.where
			if len(outs) > 0 {
				pos = outs[len(outs)-1].Pos
			}
			// values shown
			fromServer := func(t *Term) *Term {
				var bad *Term
				anySub(t, func(u *Term) bool {
					for _, x := range server {
						if u == x {
							bad = u
							return true
						}
					}
					if states[u] {
						bad = u
						return true
					}
					return false
				})
				return bad
			}
			var keys []*Term
			for _, v := range s.vals {
				if v.Op == OCall && callName(v) == "Error" || v.T != nil && isErrorType(v.T) {
					continue
				}
				isKey := false
				for _, g := range gets {
					if g.Res != nil && g.Res.Op == OTuple && v == g.Res.Args[0] {
						keys = append(keys, v)
						isKey = true
						rk.check(st.knownNil(g.Res.Args[1]), "key shown", pos, "a key is shown that may not have been extracted from the response")
						ok := false
						for _, h := range hs {
							ok = ok || len(h.Args) > 2 && g.Args[0] == h.Args[2]
						}
						rk.check(ok, "key shown", pos, "a key is shown from another response than the one that was checked")
					}
				}
				if !isKey {
					rk.check(fromServer(v) == nil, "value shown", pos, "something from the server or the client's state is shown that is not the checked response's key")
				}
			}
			if begun == nil && len(hs) == 0 && len(unms) == 0 {
				continue // no request in this run
			}
			// all steps known to have succeeded
			bad := ""
			if begun == nil {
				bad = "the request"
			}
			for _, m := range mks {
				if !st.knownNil(lastRes(m)) {
					bad = "creating the request"
				}
			}
			for _, ev := range r.evs {
				if f := fnOf(ev); ev.Kind == "call" && f != nil && fnPkg(f) == "application/testutil" && ev.Res != nil && ev.Res.Op == OTuple && !st.knownNil(lastRes(ev)) {
					bad = "the transport"
				}
			}
			if len(unms) == 0 {
				bad = "receiving an answer"
			}
			if len(hs) == 0 {
				bad = "the consistency check"
			}
			var resp *Term
			infeasible := false
			for _, h := range hs {
				resp = h.Args[2]
				if !st.knownNil(h.Res) {
					bad = "the consistency check"
				}
			}
			cands := append(c.allCodes(), 9999)
			code, known := int64(-1), false
			if resp != nil {
				code, known = st.intValue(e.sel(st, V{resp, RS}, "Error").T, cands)
				if len(hs) == 1 && !known {
					// C07: the codes that can pass the checks, or make the keys differ
					k, isCode := st.intValue(hs[0].Res, cands)
					pos := []int64{success, existed}
					if begun != nil && fnOf(begun) == mkLook {
						pos[1] = notFound
					}
					if bad == "" || isCode && k == differ {
						var left []int64
						ec := e.sel(st, V{resp, RS}, "Error").T
						for _, w := range pos {
							if st.negFact(func(t *Term) bool { return mentionsCode(t, ec, w) }) == nil {
								left = append(left, w)
							}
						}
						infeasible = len(left) == 0
						if len(left) == 1 {
							code, known = left[0], true
						}
					}
				}
			}
			for _, g := range gets {
				if !st.knownNil(lastRes(g)) {
					bad = "extracting the key"
				}
			}
			what := "text shown"
			if begun != nil {
				what = "text shown by " + begun.In
			}
			if len(outs) == 0 {
				rf.check(r.st != nil && infeasible, what, pos, "nothing is shown for a request")
				continue
			}
			good := goodText.MatchString(s.lit) && !s.failure()
			if bad != "" {
				rf.check(s.failure() || infeasible && !good && len(keys) == 0, what, pos, bad+" is not known to have succeeded, but the text doesn't say so")
				continue
			}
			if infeasible {
				rs.check(!good && len(keys) == 0, what, pos, "success is shown for an answer with another code")
				continue
			}
			// checked answers
			lookup := begun != nil && fnOf(begun) == mkLook
			none, had := noneText.MatchString(s.lit), hadText.MatchString(s.lit)
			switch {
			case !known:
				rs.fail(what, pos, "the text doesn't depend on the code of the answer")
			case code == success && lookup:
				rs.check(!s.failure() && !none && good, what, pos, "a checked answer with a key is reported as something else")
				rk.check(len(keys) > 0, what, pos, "the key of a found name is not shown")
			case code == success:
				rs.check(!s.failure() && !none && !had && good, what, pos, "a checked registration is reported as something else")
			case code == notFound:
				rs.check(none && len(keys) == 0, what, pos, "a name that isn't registered is reported as something else")
			case code == existed:
				rs.check((had || s.failure()) && !none && len(keys) == 0, what, pos, "a name that is already registered is reported as something else")
			default:
				rs.check(s.failure(), what, pos, "an answer with an error code is not reported as a failure")
			}
		}

		// what is checked
		for _, r := range runs {
			for i, h := range r.evs {
				if h.Kind != "call" || fnOf(h) != handle {
					continue
				}
				pre := h.Pre
				if pre == nil {
					pre = h.St
				}
				if pre == nil {
					rc.fail("check", h.Pos, "the state at the check is unknown")
					continue
				}
				var mkEv, un *Event
				var trans []*Event
				for _, ev := range r.evs[:i] {
					if ev.Kind != "call" {
						continue
					}
					switch f := fnOf(ev); {
					case f == mkReg, f == mkLook:
						mkEv = ev
					case f == unm:
						un = ev
					case f != nil && fnPkg(f) == "application/testutil" && ev.Res != nil && ev.Res.Op == OTuple:
						trans = append(trans, ev)
					}
				}
				if mkEv == nil || un == nil || len(trans) == 0 {
					rc.fail("check", h.Pos, "what is checked is not the answer to a request")
					continue
				}
				want := regT
				if fnOf(mkEv) == mkLook {
					want = lookT
				}
				what := map[int64]string{regT: "registration", lookT: "lookup"}[want]
				handled[what] = true
				t1, ok1 := h.Args[1].Int()
				t2, ok2 := un.Args[0].Int()
				rc.check(ok1 && ok2 && t1 == want && t2 == want, "type of the "+what, h.Pos, "the answer is decoded or checked as one to another type of request")
				rc.check(states[h.Args[0]], "state of the "+what, h.Pos, "the answer is not checked against the client's own state")
				rc.check(h.Args[2] == un.Res, "answer to the "+what, h.Pos, "what is checked is not the decoded answer")
				sent := false
				for _, tr := range trans {
					if e.content(pre, un.Args[1]) == tr.Res.Args[0] || un.Args[1] == tr.Res.Args[0] {
						if pre.knownNil(lastRes(tr)) && mkEv.Res != nil && mkEv.Res.Op == OTuple && pre.knownNil(lastRes(mkEv)) {
							for _, a := range tr.Args {
								sent = sent || a == mkEv.Res.Args[0]
							}
						}
					}
				}
				rc.check(sent, "answer to the "+what, h.Pos, "what is checked was not received in answer to the request")
				name := mkEv.Args[0]
				rc.check(h.Args[3] == name, "name of the "+what, h.Pos, "the answer is checked for another name than the requested one")
				key := unConv(e.content(pre, h.Args[4]))
				if want == regT {
					rc.check(key == unConv(e.content(pre, mkEv.Args[1])), "key of the "+what, h.Pos, "the answer is checked for another key than the one to be registered")
				} else {
					m := e.sel(pre, V{h.Args[0], CC}, "Bindings").T
					hasNot := pre.negFact(func(t *Term) bool { return t.Op == OMapHas && t.Args[1] == name && sameMap(t.Args[0], m) }) != nil
					got := key.Op == OMapGet && key.Args[1] == name && sameMap(key.Args[0], m)
					rc.check(got || hasNot && pre.knownNil(h.Args[4]), "key of the "+what, h.Pos, "a lookup is not checked for the key pinned for the name, or for none if there is none")
				}
			}
		}
	}
	rc.check(handled["registration"] && handled["lookup"], "commands", c.p.Pos(roots[0].Pos()), "registrations or lookups are not checked at all")
}

// mentionsCode: the fact says that x (possibly as an interface) is the code.
func mentionsCode(t, x *Term, code int64) bool {
	is := func(a *Term) bool { return unIface(a) == x || a == x }
	k := func(a *Term) bool { v, ok := unIface(a).Int(); return ok && v == code }
	switch t.Op {
	case OEq:
		return is(t.Args[0]) && k(t.Args[1]) || is(t.Args[1]) && k(t.Args[0])
	case OEq0:
		return t == EqI(x, intConst(code, x.T))
	}
	return false
}

func init() {
	checks["C34"] = propC34
	expl["C34"] = "every path of every command of the interactive client: the texts shown, the requests made, the checks applied, and how the checks' state is created"
}
