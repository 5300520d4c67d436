package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C29

// lower: the term without case conversions (whose effect EqualFold ignores).
func lower(t *Term) (*Term, bool) {
	conv := false
	for t.Op == OCall && (callName(t) == "strings.ToLower" || callName(t) == "strings.ToUpper") {
		t, conv = t.Args[0], true
	}
	return t, conv
}

// folded: the concatenation with case ignored; literals in lower case.
func folded(t *Term) []*Term {
	t, _ = lower(t)
	ps := []*Term{t}
	if t.Op == OCat {
		ps = t.Args
	}
	var r []*Term
	for _, p := range ps {
		if p, _ = lower(p); p.Op == OCat {
			r = append(r, folded(p)...)
		} else if s, ok := p.Str(); ok {
			r = append(r, strConst(strings.ToLower(s)))
		} else {
			r = append(r, p)
		}
	}
	return r
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

const platform = "@twitter"

// ownsName: the facts say that, ignoring case, name is the sender's name
// followed by the platform.
func ownsName(st *State, name, sender *Term) bool {
	full := []*Term{sender, strConst(platform)}
	is := func(a, b *Term) bool {
		fa, fb := folded(a), folded(b)
		n := []*Term{name}
		if sameTerms(fa, n) && sameTerms(fb, full) || sameTerms(fb, n) && sameTerms(fa, full) {
			return true
		}
		// the name without the platform
		for _, o := range [][2][]*Term{{fa, fb}, {fb, fa}} {
			if len(o[0]) == 1 && o[0][0].Op == OCall && callName(o[0][0]) == "strings.TrimSuffix" && sameTerms(o[1], []*Term{sender}) {
				x, suf := o[0][0].Args[0], o[0][0].Args[1]
				s, _ := suf.Str()
				y, _ := lower(x)
				if y == name && strings.ToLower(s) == platform && st.posFact(func(f *Term) bool {
					return f.Op == OCall && callName(f) == "strings.HasSuffix" && f.Args[0] == x && f.Args[1] == suf
				}) != nil {
					return true
				}
			}
		}
		return false
	}
	return st.posFact(func(f *Term) bool {
		switch {
		case f.Op == OCall && callName(f) == "strings.EqualFold":
			return is(f.Args[0], f.Args[1])
		case f.Op == OEq:
			return is(f.Args[0], f.Args[1])
		}
		return false
	}) != nil
}

func propC29(c *Ctx) {
	ro := c.Rule("ownership", "before anything is sent to the key server, the message was decoded as a registration whose name is, ignoring case, the sender's name followed by the platform", 1)
	rf := c.Rule("forwarding", "what is sent is the received message itself, once, to the configured key server", 2)
	ra := c.Rule("answers", "the answer to a message that was not sent is an error, and to one that was sent the key server's own answer or an error", 4)
	rs := c.Rule("sender", "the name and the message handed to the registration come from the same received message, and the answer goes to its sender", 2)
	re := c.Rule("only way", "the bot talks to the key server nowhere else", 1)

	h := c.method("application/bots", "TwitterBot", "HandleRegistration")
	reqT := c.named("protocol", "RegistrationRequest")
	regType := c.constVal("protocol", "RegistrationType")
	e := c.run(h, &Opts{Name: "bot", LogCalls: func(ev *Event) bool {
		return ev.Kind == "call" && (len(connUses(ev)) > 0 || strings.HasPrefix(ev.Name, "net.Dial") || strings.HasPrefix(ev.Name, "(*net.Dialer)."))
	}})
	recv := e.arg(0)
	var sender, msg *Term
	for i, p := range h.Params[1:] {
		switch {
		case isString(p.Type()):
			sender = e.arg(i + 1).T
		default:
			msg = e.arg(i + 1).T
		}
	}
	if sender == nil || msg == nil {
		panic(anchorErr{"the sender's name and message"})
	}
	addrOf := func(st *State) []*Term {
		s := elemOf(recv.Ty).Underlying().(*types.Struct)
		var r []*Term
		for i := 0; i < s.NumFields(); i++ {
			if isString(s.Field(i).Type()) && c.isServerAddr(structKey(elemOf(recv.Ty), i)) {
				r = append(r, e.sel(st, recv, s.Field(i).Name()).T)
			}
		}
		return r
	}
	errs := c.errCodes()
	RS := ptrTo(c.named("protocol", "Response"))
	sent := 0
	for _, x := range e.Exits {
		st := x.St
		var writes, dials []*Event
		unknown := false
		for _, ev := range st.allEvents() {
			if ev.Kind != "call" {
				continue
			}
			if strings.HasPrefix(ev.Name, "net.Dial") || strings.HasPrefix(ev.Name, "(*net.Dialer).") {
				dials = append(dials, ev.Event)
				if ev.rec != nil {
					unknown = true
				}
			}
			for _, u := range connUses(ev.Event) {
				if u.op == "write" || u.op == "other" {
					writes = append(writes, ev.Event)
					unknown = unknown || ev.rec != nil || u.op == "other"
				}
			}
		}
		rf.check(!unknown, "sending", x.where(), "what is sent to the key server, or how often, is not determined")
		for _, d := range dials {
			ok := false
			pre := d.Pre
			if pre == nil {
				pre = d.St
			}
			for _, a := range d.Args {
				a = unIface(a)
				for _, want := range addrOf(zeroState) {
					if a == want || isPtrTo(a.T, "net.UnixAddr") && pre != nil && e.sel(pre, V{a, a.T}, "Name").T == want {
						ok = true
					}
				}
			}
			rf.check(ok, "address", d.Pos, "a connection is made to something else than the configured key server")
		}
		for _, w := range writes {
			sent++
			pre := w.Pre
			if pre == nil {
				pre = w.St
			}
			if pre == nil {
				ro.fail("sending", w.Pos, "the state at the sending is unknown")
				continue
			}
			// decoded
			var typ, name *Term
			ok := false
			ds := decodesOf(pre)
			all := len(ds) > 0
			for _, d := range ds {
				all = all && pre.knownNil(d.err)
			}
			if all {
				pre.posOrEq(func(t *Term) {
					if t.Op == OField && strings.HasSuffix(t.Aux, "Type") {
						if d, k := fromDecode(t, ds); k && d == msg && pre.Holds(EqI(t, intConst(regType, t.T))) {
							typ = t
						}
					}
				})
				// the name of a decoded registration
				pre.posOrEq(func(t *Term) {
					if t.Op == OField && strings.HasSuffix(t.Aux, "Username") && isString(t.T) {
						if d, k := fromDecode(t, ds); k && (d == msg && once(ds, msg) || func() bool { d2, k2 := fromDecode(d, ds); return k2 && d2 == msg }()) && ownsName(pre, t, sender) {
							name = t
						}
					}
				})
				ok = typ != nil && name != nil && (name.Args[0].T == nil || types.Identical(elemOf2(name.Args[0].T), reqT))
			}
			switch {
			case !all:
				ro.fail("sending", w.Pos, "a message is sent that is not known to have been decoded")
			case typ == nil:
				ro.fail("sending", w.Pos, "a message is sent that is not known to be a registration")
			case name == nil:
				ro.fail("sending", w.Pos, "a registration is sent whose name is not known to be the sender's")
			default:
				ro.check(ok, "sending", w.Pos, "the name that was compared is not the one of the registration")
			}
			whole := len(w.Args) > 1 && e.content(pre, w.Args[1]) == msg
			rf.check(whole, "message", w.Pos, "what is sent is not the received message itself")
			rf.check(len(writes) == 1, "message", w.Pos, "a message is sent more than once")
		}
		if x.Kind != "return" {
			// giving up because an error cannot be encoded
			ra.check(x.Kind == "panic", "failure", x.where(), "handling a message may end the bot")
			continue
		}
		// the answer
		res := e.content(st, x.Res[0])
		isErr := false
		for _, ev := range st.Events() {
			if ev.Kind == "call" && isJSONMarshal(ev.Name) && ev.Res != nil && ev.Res.Op == OTuple && len(ev.Args) > 0 {
				d := ev.Res.Args[0]
				if d != res && !(res.Op == OConv && res.Args[0] == d) {
					continue
				}
				v := V{unIface(ev.Args[0]), RS}
				if isPtrTo(v.T.T, "protocol.Response") {
					k, ok := st.intValue(e.sel(st, v, "Error").T, append(c.allCodes(), 9999))
					isErr = ok && errs[k]
				}
			}
		}
		if len(writes) == 0 {
			ra.check(isErr, "answer to a refused message", x.where(), "a message that was not sent to the key server is answered with something else than an error")
		} else {
			own := anySub(res, func(t *Term) bool {
				return t.Op == OOut || t.Op == OHav || t.Op == OCall && strings.HasPrefix(callName(t), "io.Read")
			}) && !anySub(res, func(t *Term) bool { return t == msg }) && res.Op != OCat
			ra.check(isErr || own, "answer to a forwarded message", x.where(), "a forwarded message is answered with something else than the key server's answer or an error")
		}
	}
	ro.check(sent > 0, "sending", c.p.Pos(h.Pos()), "no registration is ever forwarded")

	// where the bot gets messages from
	for _, s := range c.callSites(func(g *ssa.Function) bool { return g == h }) {
		if isTestHelper(c, s.Fn) {
			continue
		}
		e := c.run(s.Fn, &Opts{Name: "bot2", Opaque: func(g *ssa.Function) (bool, bool) { return g == h, g == h }, LogCalls: func(ev *Event) bool {
			return ev.Kind == "call" && (fnOf(ev) == h || strings.HasPrefix(ev.Name, "(*github.com/dghubble/"))
		}})
		for _, x := range e.Exits {
			st := x.St
			var last *Event
			for _, ev := range st.allEvents() {
				if ev.Kind != "call" {
					continue
				}
				if fnOf(ev.Event) == h {
					// the one message it is about
					last = ev.Event
					var m V
					okS, okM := false, false
					for i := range s.Fn.Params {
						a := e.arg(i)
						if isPtrTo(a.Ty, "github.com/dghubble/go-twitter/twitter.DirectMessage") {
							m = a
						}
					}
					if m.T != nil {
						okS = ev.Args[1] == e.sel(zeroState, m, "SenderScreenName").T || ev.Args[1] == e.sel(zeroState, m, "Sender.ScreenName").T
						text := e.sel(zeroState, m, "Text").T
						okM = anySub(e.content(st, ev.Args[2]), func(t *Term) bool { return t == text })
					}
					rs.check(okS, "name handed over", ev.Pos, "the name handed to the registration is not the screen name of the message's sender")
					rs.check(okM, "text handed over", ev.Pos, "the text handed to the registration is not from the received message")
				}
				if strings.HasSuffix(ev.Name, "twitter.DirectMessageService).New") && last != nil {
					p := V{ev.Args[1], ev.Args[1].T}
					pre := ev.Pre
					if pre == nil {
						pre = ev.St
					}
					ok := false
					if pre != nil && isPtrTo(p.Ty, "github.com/dghubble/go-twitter/twitter.DirectMessageNewParams") {
						to := e.sel(pre, p, "ScreenName").T
						ok = to == last.Args[1]
					}
					rs.check(ok, "answer", ev.Pos, "the answer goes to someone else than the sender")
				}
			}
		}
	}
	in := c.partOf(map[*ssa.Function]bool{h: true})
	for _, f := range c.p.Fns {
		if p := fnPkg(f); !strings.HasPrefix(p, "application/bots") && !strings.HasPrefix(p, "cli/coniksbot") {
			continue
		}
		f := f
		c.eachInstr(f, func(in2 ssa.Instruction) {
			ci, ok := in2.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := ci.Common().StaticCallee()
			if g == nil || g.Object() == nil || g.Object().Pkg() == nil || g.Object().Pkg().Path() != "net" || !strings.HasPrefix(g.Name(), "Dial") {
				return
			}
			re.check(in(f), "connection in "+fnName(f), c.pos(in2), "the bot connects to a server outside of the handling of a registration")
		})
	}
}

// isServerAddr: the field is only ever set from the configured address.
func (c *Ctx) isServerAddr(key string) bool {
	n := 0
	ok := true
	for _, s := range c.fieldStores(key) {
		if isTestHelper(c, s.Fn) {
			continue
		}
		st, is := s.In.(*ssa.Store)
		if !is {
			ok = false
			continue
		}
		n++
		k := ""
		switch v := st.Val.(type) {
		case *ssa.UnOp:
			if fa, is := v.X.(*ssa.FieldAddr); is {
				k = structKey(elemOf(fa.X.Type()), fa.Field)
			}
		case *ssa.Field:
			k = structKey(v.X.Type(), v.Field)
		}
		ok = ok && strings.HasSuffix(k, "TwitterConfig.CONIKSAddress")
	}
	return ok && n > 0
}

// posOrEq visits the terms the path's facts talk about.
func (s *State) posOrEq(f func(t *Term)) {
	seen := map[*Term]bool{}
	for _, x := range s.Facts() {
		anySub(x, func(t *Term) bool {
			if !seen[t] {
				seen[t] = true
				f(t)
			}
			return false
		})
	}
}

func init() {
	checks["C29"] = propC29
	expl["C29"] = "all paths of the bot's message handling, every connection it makes, and every place a message is handed to it"
}
