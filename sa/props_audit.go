package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------- C02: the auditor's log

// recordedAll: every root of the list from position lo on is entered into the
// map under its own epoch.
func (c *Ctx) recordedAll(e *Engine, st *State, list V, lo int64, isMap func(m *Term) bool) bool {
	return st.forall(lo, mkLen(e.content(st, list.T)), func(s *State, idx *Term) bool {
		want := e.at(s, list, idx)
		ep := e.sel(zeroState, want, "Epoch").T
		for _, ev := range s.eventsOf("mapset") {
			if isMap(ev.Args[0]) && s.same(ev.Args[2], want.T) && s.same(ev.Args[1], ep) {
				return true
			}
		}
		return false
	})
}

// lastOf: v is the last element of the list.
func (c *Ctx) lastOf(e *Engine, st *State, v *Term, list V) bool {
	return st.exitValues(v, func(s *State, x *Term) bool {
		last := e.at(s, list, AddC(mkLen(list.T), -1))
		return x == last.T || s.same(x, last.T)
	})
}

// mapUpdates: functions that update a map whose static type is accepted by f
// (insertion, deletion, clearing).
func (c *Ctx) mapUpdates(f func(t types.Type) bool) map[*ssa.Function]bool {
	fns := map[*ssa.Function]bool{}
	for _, fn := range c.p.Fns {
		c.eachInstr(fn, func(in ssa.Instruction) {
			var m ssa.Value
			switch x := in.(type) {
			case *ssa.MapUpdate:
				m = x.Map
			case ssa.CallInstruction:
				if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					m = x.Common().Args[0]
				}
			}
			if m != nil && f(m.Type()) {
				fns[fn] = true
				c.sites[c.pos(in)] = true
			}
		})
	}
	return fns
}

func propC02(c *Ctx) {
	rv := c.Rule("verified-first", "a recorded history is changed by a response only after the whole received range was verified", 1)
	rr := c.Rule("complete", "an accepted range is recorded root by root under its own epoch, and the newest becomes the last verified", 2)
	rn := c.Rule("new-history", "a history is created only for an unknown directory, from an initial root of epoch 0, under the identity of that root", 1)
	rx := c.Rule("reject", "a rejected response or initialisation changes nothing", 4)
	rw := c.Rule("writers", "the log and the histories are changed by nothing else", 1)
	a := c.aud()
	hist, snaps := c.auditLogTypes()
	snapT := fieldType(hist, snaps)
	strT := ptrTo(c.named("protocol", "DirSTR"))
	listT := types.NewSlice(strT)
	z := zeroState

	isLogMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isPtrTo(m.Elem(), typeName(hist))
	}
	isSnapMap := func(t types.Type) bool { return types.Identical(t.Underlying(), snapT.Underlying()) }
	changes := func(ev *Event) bool {
		switch ev.Kind {
		case "store":
			return ev.Args[0].Op == OFAddr && !freshBase(ev.Args[0]) && ev.Args[0].Aux == a.vkey || ev.Args[0].Op == OFAddr && !freshBase(ev.Args[0]) && fieldOwner(ev.Args[0].Aux) == typeName(hist)
		case "mapset", "mapdel":
			return ev.Args[0].Op != OMap && (isLogMap(ev.MapT) || isSnapMap(ev.MapT))
		}
		return false
	}

	// responses
	af := c.auditFn()
	e := c.run(af, &Opts{Name: "effects", LogCalls: logEffects})
	recv := e.arg(0)
	list := e.sel(z, c.respBody(e, e.arg(1), "STRHistoryRange"), "STR")
	sm := e.sel(z, recv, snaps)
	isSnap := func(m *Term) bool {
		return m == sm.T || m.Op == OFVal && m.Aux == sm.T.Aux && m.Args[0] == sm.T.Args[0]
	}
	for _, ev := range e.Log {
		if !changes(ev) {
			continue
		}
		w := c.rangeVerified(e, ev.St, recv, list, a)
		rv.check(w == "", "history changed in "+ev.In, ev.Pos, "a recorded history is changed at a point where, of the received range, %s", w)
		if ev.Kind == "mapdel" {
			rv.fail("entry deleted in "+ev.In, ev.Pos, "a recorded root is deleted")
		}
		if ev.Kind == "mapset" && isSnapMap(ev.MapT) {
			v := V{ev.Args[2], strT}
			ok := ev.St.same(ev.Args[1], e.sel(z, v, "Epoch").T) && isElemOf(ev.St, v.T, list.T)
			rv.check(ok, "root recorded in "+ev.In, ev.Pos, "a root is recorded that is not a root of the received range under its own epoch: %v under %v", v.T, ev.Args[1])
		}
	}
	for _, x := range e.Exits {
		switch x.class() {
		case retErr:
			n := ""
			for _, ev := range x.St.allEvents() {
				if changes(ev.Event) {
					n = ev.Pos
				}
			}
			rx.check(n == "", "Audit refuses", x.where(), "a response is refused after the history was changed at %s", n)
		case retOK, retMaybe:
			if n := e.sel(z, recv, a.verified); n.T != nil {
				rr.check(c.recordedAll(e, x.St, list, 0, isSnap), "Audit records", x.where(), "a range is accepted although not every one of its roots is known to be recorded under its own epoch")
				v := e.sel(x.St, recv, a.verified).T
				rr.check(c.lastOf(e, x.St, v, list), "Audit advances", x.where(), "a range is accepted but the last verified root becomes %v", v)
			}
		}
	}
	// initialisation
	inf := c.method("protocol/auditlog", "ConiksAuditLog", "InitHistory")
	e = c.run(inf, &Opts{Name: "effects", LogCalls: logEffects})
	log := e.arg(0)
	list = e.argOf(listT, 0)
	first := e.at0(list)
	id := digestOf(e.sel(z, first, "Signature").T)
	for _, ev := range e.Log {
		if !changes(ev) {
			continue
		}
		if ev.Kind != "mapset" || ev.Args[0] != log.T {
			rn.fail("initialisation changes "+ev.In, ev.Pos, "the initialisation of a history changes an existing one")
			continue
		}
		has, _ := e.mapEntry(log, ev.Args[1])
		ep := e.sel(z, first, "Epoch").T
		w := ""
		switch {
		case !ev.St.Holds(EqI(ep, intConst(0, ep.T))):
			w = "its first root is not known to be for epoch 0"
		case !ev.St.same(ev.Args[1], id):
			w = "it is not entered under the hash of the first root's signature"
		case !ev.St.Holds(mkNot(has)):
			w = "the directory is not known to be new"
		}
		rn.check(w == "", "history created in "+ev.In, ev.Pos, "a history is created although %s", w)
	}
	keyP := e.argOf(c.named("crypto/sign", "PublicKey"), 0)
	for _, x := range e.Exits {
		n := ""
		var set *Event
		for _, ev := range x.St.allEvents() {
			if changes(ev.Event) {
				n = ev.Pos
				if ev.Kind == "mapset" && ev.rec == nil && ev.Args[0] == log.T {
					set = ev.Event
				}
			}
		}
		switch x.class() {
		case retErr:
			rx.check(n == "", "InitHistory refuses", x.where(), "an initialisation is refused after the log was changed at %s", n)
		case retOther:
			rx.fail("InitHistory refuses", x.where(), "an initialisation is refused by stopping the program instead of by an error")
		case retOK, retMaybe:
			if set == nil {
				rn.fail("InitHistory accepts", x.where(), "an initialisation succeeds without entering the history into the log")
				continue
			}
			h := V{set.Args[2], ptrTo(hist)}
			hm := e.sel(x.St, h, snaps)
			isH := func(m *Term) bool { return m == hm.T }
			rr.check(c.recordedAll(e, x.St, list, 0, isH), "InitHistory records", x.where(), "a history is created although not every given root is known to be recorded in it under its own epoch")
			v := e.sel(x.St, h, a.verified).T
			rr.check(c.lastOf(e, x.St, v, list), "InitHistory pins", x.where(), "a history is created whose last verified root is not the newest given one but %v", v)
			k := e.sel(x.St, h, a.key).T
			rr.check(x.St.same(k, keyP.T), "InitHistory keeps the key", x.where(), "a history is created with a key that is not the given one")
		}
	}
	// everything else
	fns := c.mapUpdates(func(t types.Type) bool { return isLogMap(t) || isSnapMap(t) && inPkgOf(t, hist) })
	for _, f := range c.rootsOf(fns) {
		if f == af || f == inf || isTestHelper(c, f) {
			continue
		}
		if !c.reachesAvoidingAll(f, fns, map[*ssa.Function]bool{af: true, inf: true}) {
			continue
		}
		if f.Signature.Recv() == nil && !f.Object().Exported() {
			continue
		}
		rw.fail("log written via "+fnName(f), c.p.Pos(f.Pos()), "the audit log is changed by %s, outside the auditing of responses and the initialisation", fnName(f))
	}
	rw.ok("%d functions update the log or a history's recorded roots", len(fns))
	for _, s := range c.fieldStores(typeName(hist) + "." + snaps) {
		rw.check(c.freshStore(s), "recorded roots replaced in "+fnName(s.Fn), c.pos(s.In), "the recorded roots of a history are replaced outside its construction")
	}
}

// inPkgOf: always true; kept separate so that maps of the same shape in other
// packages could be told apart by where they are updated.
func inPkgOf(t types.Type, n *types.Named) bool { return true }

func fieldType(t types.Type, name string) types.Type {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

// fieldOwner: the type part of a "pkg.Type.field" key.
func fieldOwner(key string) string {
	for i := len(key) - 1; i >= 0; i-- {
		if key[i] == '.' {
			return key[:i]
		}
	}
	return key
}

// isElemOf: t is an element of the list.
func isElemOf(st *State, t, list *Term) bool {
	return t.Op == OIdx && t.Args[0] == list
}
