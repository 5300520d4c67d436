package main

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C27

// reqKinds: the type codes of the requests a directory server handles and
// the message kinds they denote.
func (c *Ctx) reqKinds() map[int64]*types.Named {
	r := map[int64]*types.Named{}
	for _, n := range []string{"Registration", "KeyLookup", "KeyLookupInEpoch", "Monitoring"} {
		r[c.constVal("protocol", n+"Type")] = c.named("protocol", n+"Request")
	}
	return r
}

// decodes of a path: the calls of the decoder, with the error each returned.
type decodeEv struct {
	ev   *Event
	data *Term
	err  *Term
	out  *Term
}

func decodesOf(st *State) []decodeEv {
	var r []decodeEv
	for _, ev := range st.Events() {
		if ev.Kind == "call" && ev.Name == "encoding/json.Unmarshal" && ev.Res != nil && ev.Res.Op == OTuple {
			r = append(r, decodeEv{ev, ev.Args[0], ev.Res.Args[0], ev.Res.Args[1]})
		}
	}
	return r
}

// couldBe: the state allows t to be the constant.
func couldBe(st *State, t *Term, k int64) bool {
	s := st.clone()
	return s.assume(EqI(t, intConst(k, t.T)))
}

// fromDecode: the term was filled in by the decoder from that data.
func fromDecode(t *Term, ds []decodeEv) (data *Term, ok bool) {
	for t.Op == OField || t.Op == OIdx || t.Op == OSub {
		t = t.Args[0]
	}
	if t.Op != OOut || !strings.HasPrefix(t.Aux, "decoded") || len(t.Args) == 0 {
		return nil, false
	}
	return t.Args[0], true
}

func propC27(c *Ctx) {
	rq := c.Rule("requests", "a request's body is of the kind its type code denotes (or absent), other codes never yield one of these kinds, and both come from the message", 4)
	re := c.Rule("request errors", "a request is returned exactly when the message and its body decoded without error", 4)
	rs := c.Rule("responses", "a response's body is of the kind the request type calls for, and comes with the decoded status code", 5)
	rb := c.Rule("responses without a body", "an error code without a body is kept, any other code without a body and an undecodable message is reported as malformed", 5)
	rw := c.Rule("encoding", "requests are encoded with a type code whose message kind has the fields that are sent", 1)
	kinds := c.reqKinds()
	// requests
	f := c.fn("application", "UnmarshalRequest")
	e := c.run(f, nil)
	R := ptrTo(c.named("protocol", "Request"))
	msg := e.arg(0).T
	seen := map[int64]bool{}
	for _, x := range e.Exits {
		st := x.St
		if x.Kind != "return" {
			re.fail("UnmarshalRequest", x.where(), "decoding a request may end in a %s", x.Kind)
			continue
		}
		ds := decodesOf(st)
		ok := true
		for _, d := range ds {
			ok = ok && st.knownNil(d.err)
		}
		if len(ds) == 0 || !ok {
			re.check(st.knownNil(x.Res[0]) && (st.knownNonNil(x.Res[1]) || isErrOf(x.Res[1], ds)), "UnmarshalRequest", x.where(), "a message that is not known to have been decoded is not refused with an error")
			continue
		}
		if !st.knownNil(x.Res[1]) {
			// refusing what decodes is allowed for unusable requests only
			req := V{x.Res[0], R}
			if st.knownNil(req.T) {
				reached := false
				for k := range kinds {
					for _, d := range ds {
						reached = reached || couldBe(st, mkField(d.out, "Type", types.Typ[types.Int]), k)
					}
				}
				re.check(!reached || len(ds) < 2, "UnmarshalRequest", x.where(), "a request that was decoded may be refused")
				continue
			}
			re.fail("UnmarshalRequest", x.where(), "a decoded request is returned together with an error")
			continue
		}
		re.ok("decoded request (%s)", x.where())
		req := V{x.Res[0], R}
		typ := e.sel(st, req, "Type").T
		body := e.sel(st, req, "Request").T
		if d, k := fromDecode(typ, ds); !k || d != msg {
			rq.fail("type code", x.where(), "the request's type is not the one in the message")
			continue
		}
		for k, kind := range kinds {
			if !couldBe(st, typ, k) {
				if body.Op == OIface && isPtrTo(body.Obj.(types.Type), typeName(kind)) {
					rq.fail("type code", x.where(), "a request of another type is decoded as a %s", typeName(kind))
				}
				continue
			}
			switch {
			case body.Op == ONil:
			case body.Op == OIface && isPtrTo(body.Obj.(types.Type), typeName(kind)):
				seen[k] = true
				// its content is a part of the message
				d, ok := contentOf(e, st, V{body.Args[0], body.Obj.(types.Type)}, ds)
				part := ok && (d == msg && once(ds, msg) || func() bool { d2, k2 := fromDecode(d, ds); return k2 && d2 == msg }())
				rq.check(part, typeName(kind), x.where(), "the body is not decoded from the message")
			default:
				rq.fail(typeName(kind), x.where(), "a request of type %d is not decoded as a %s", k, typeName(kind))
			}
		}
	}
	for k, kind := range kinds {
		rq.check(seen[k], typeName(kind)+" decoded", c.p.Pos(f.Pos()), "requests of type %d are never decoded", k)
	}
	// responses
	g := c.fn("application", "UnmarshalResponse")
	want := map[int64]*types.Named{}
	for k := range kinds {
		want[k] = c.named("protocol", "DirectoryProof")
	}
	want[c.constVal("protocol", "STRType")] = c.named("protocol", "STRHistoryRange")
	bad := c.constVal("protocol", "ErrMalformedMessage")
	errset := c.errCodes()
	for k, kind := range want {
		for _, code := range append(c.allCodes(), 9999) {
			k := k
			e := c.run(g, &Opts{Name: "t" + itoa(k), Pre: func(st *State, args []*Term) {
				for i, p := range g.Params {
					if isInteger(p.Type()) {
						st.assume(EqI(args[i], intConst(k, p.Type())))
					}
				}
			}})
			RS := ptrTo(c.named("protocol", "Response"))
			var msg *Term
			for i, p := range g.Params {
				if _, ok := p.Type().Underlying().(*types.Slice); ok {
					msg = e.arg(i).T
				}
			}
			good := false
			for _, x := range e.Exits {
				st := x.St.clone()
				ds := decodesOf(st)
				if len(ds) == 0 {
					rs.fail("response", x.where(), "a response is produced without decoding the message")
					continue
				}
				dec := mkField(ds[0].out, "Error", c.named("protocol", "ErrorCode"))
				if st.knownNil(ds[0].err) && !st.assume(EqI(dec, intConst(code, dec.T))) {
					continue // not for this code
				}
				if x.Kind != "return" {
					rb.fail("response", x.where(), "decoding a response of the type %d may end in a %s", k, x.Kind)
					continue
				}
				if st.knownNil(x.Res[0]) {
					rb.fail("response", x.where(), "no response is returned")
					continue
				}
				got := e.sel(st, V{x.Res[0], RS}, "Error").T
				body := e.sel(st, V{x.Res[0], RS}, "DirectoryResponse").T
				failed := false
				for _, d := range ds {
					failed = failed || !st.knownNil(d.err)
				}
				gc, isC := st.intValue(got, append(c.allCodes(), 9999))
				switch {
				case failed || ds[0].data != msg:
					rb.check(body.Op == ONil && isC && gc == bad, "undecodable", x.where(), "an undecodable response is not reported as malformed")
				case body.Op == ONil:
					w := bad
					if errset[code] {
						w = code
					}
					rb.check(isC && gc == w, "no body", x.where(), "a response with code %d and no body becomes one with another code than %d", code, w)
				default:
					okb := body.Op == OIface && isPtrTo(body.Obj.(types.Type), typeName(kind))
					rs.check(okb, typeName(kind), x.where(), "a response to a request of type %d is not decoded as a %s", k, typeName(kind))
					rs.check(isC && gc == code, "status code", x.where(), "the status code of a response with a body is not the decoded one")
					if okb && !st.knownNil(body.Args[0]) {
						d, ok := contentOf(e, st, V{body.Args[0], body.Obj.(types.Type)}, ds)
						d2, k2 := (*Term)(nil), false
						if ok {
							d2, k2 = fromDecode(d, ds)
						}
						rs.check(ok && (d == msg && once(ds, msg) || k2 && d2 == msg), typeName(kind)+" content", x.where(), "the body is not decoded from the message")
						good = true
					}
				}
			}
			rs.check(good, typeName(kind)+" decoded", c.p.Pos(g.Pos()), "responses to requests of type %d with code %d are never decoded", k, code)
		}
	}
	// encoders
	mr := c.fn("application", "MarshalRequest")
	for _, s := range c.callSites(func(h *ssa.Function) bool { return h == mr }) {
		if isTestHelper(c, s.Fn) {
			continue
		}
		ci := s.In.(ssa.CallInstruction).Common()
		var code int64 = -1
		var bt types.Type
		for _, a := range ci.Args {
			if k, ok := a.(*ssa.Const); ok && isInteger(a.Type()) && k.Value != nil {
				code = k.Int64()
			}
			if mi, ok := a.(*ssa.MakeInterface); ok {
				bt = mi.X.Type()
			}
		}
		kind := kinds[code]
		if code == c.constVal("protocol", "STRType") {
			kind = c.named("protocol", "STRHistoryRequest")
		}
		if code == c.constVal("protocol", "AuditType") {
			kind = c.named("protocol", "AuditingRequest")
		}
		if code < 0 || bt == nil || kind == nil {
			rw.ok("%s forwards its arguments", fnName(s.Fn))
			continue
		}
		if elemOf(bt) != nil {
			bt = elemOf(bt)
		}
		miss := wireMissing(kind, bt)
		rw.check(miss == "", "request made by "+fnName(s.Fn), c.pos(s.In), "a request of type %d is sent without the field %s of a %s", code, miss, typeName(kind))
	}
	em := c.run(mr, nil)
	for _, x := range em.Exits {
		if x.Kind != "return" {
			continue
		}
		ok := false
		for _, ev := range x.St.Events() {
			if ev.Kind == "call" && isJSONMarshal(ev.Name) && len(ev.Args) > 0 {
				v := V{unIface(ev.Args[0]), c.named("protocol", "Request")}
				if v.T.Op == OAlloc {
					v.Ty = v.T.T
				}
				if v.T.T != nil && typeName(v.T.T) == "protocol.Request" || isPtrTo(v.Ty, "protocol.Request") {
					ok = em.sel(x.St, v, "Type").T == em.arg(0).T && em.sel(x.St, v, "Request").T == em.arg(1).T
				}
			}
		}
		rw.check(ok, "MarshalRequest", x.where(), "a request is not encoded with the given type and body")
	}
}

func isJSONMarshal(n string) bool {
	return n == "encoding/json.Marshal" || n == "encoding/json.MarshalIndent"
}

// once: the message as a whole is decoded once (and not a second time as
// if it were its own body).
func once(ds []decodeEv, msg *Term) bool {
	n := 0
	for _, d := range ds {
		if d.data == msg {
			n++
		}
	}
	return n == 1
}

func isErrOf(t *Term, ds []decodeEv) bool {
	for _, d := range ds {
		if d.err == t {
			return true
		}
	}
	return false
}

// contentOf: the data an object's fields were decoded from.
func contentOf(e *Engine, st *State, o V, ds []decodeEv) (*Term, bool) {
	s, ok := elemOf(o.Ty).Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	var data *Term
	if d, ok := fromDecode(o.T, ds); ok {
		return d, true // allocated by the decoder
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			continue
		}
		t := e.sel(st, o, s.Field(i).Name()).T
		if t.Op == OStruct && len(t.Args) > 0 {
			t = t.Args[0]
		}
		d, ok := fromDecode(t, ds)
		if !ok || data != nil && d != data {
			return nil, false
		}
		data = d
	}
	return data, data != nil
}

func (c *Ctx) errCodes() map[int64]bool {
	r := map[int64]bool{}
	for _, n := range []string{"ErrMalformedMessage", "ErrDirectory", "ErrAuditLog", "ReqUnknownDirectory"} {
		r[c.constVal("protocol", n)] = true
	}
	return r
}

// wireMissing: a field of the kind that is not among the encoded ones.
func wireMissing(kind *types.Named, sent types.Type) string {
	fields := func(t types.Type) map[string]types.Type {
		r := map[string]types.Type{}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return r
		}
		for i := 0; i < s.NumFields(); i++ {
			if !s.Field(i).Exported() {
				continue
			}
			n := s.Field(i).Name()
			if j := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[0]; j == "-" {
				continue
			} else if j != "" {
				n = j
			}
			r[strings.ToLower(n)] = s.Field(i).Type()
		}
		return r
	}
	if sent == nil {
		return "all"
	}
	have := fields(sent)
	for n, t := range fields(kind) {
		if h, ok := have[n]; !ok || !types.Identical(h, t) {
			return n
		}
	}
	return ""
}

// ---------- C28

func propC28(c *Ctx) {
	rm := c.Rule("messages", "every code has a non-empty message of its own", 16)
	rv := c.Rule("classification", "validation fails with that very code, before anything else is looked at, for exactly the codes that denote a request that was not processed", 7)
	codes := c.allCodes()
	em := c.method("protocol", "ErrorCode", "Error")
	msgs := map[string]int64{}
	for _, k := range codes {
		k := k
		e := c.run(em, &Opts{Name: "code" + itoa(k), Pre: func(st *State, args []*Term) {
			st.assume(EqI(args[0], intConst(k, em.Params[0].Type())))
		}})
		n := 0
		for _, x := range e.Exits {
			if x.Kind != "return" {
				rm.fail("Error of "+c.codeName(k), x.where(), "making the message of %s may end in a %s", c.codeName(k), x.Kind)
				continue
			}
			n++
			s, ok := "", false
			if t := x.St.constOf(x.Res[0]); t != nil {
				s, ok = t.Str()
			}
			rm.check(ok && strings.TrimSpace(s) != "", "message of "+c.codeName(k), x.where(), "%s has no message", c.codeName(k))
			if ok {
				if o, dup := msgs[s]; dup && o != k && s != "" {
					rm.fail("message of "+c.codeName(k), x.where(), "%s has the same message as %s", c.codeName(k), c.codeName(o))
				}
				msgs[s] = k
			}
		}
		rm.check(n > 0, "message of "+c.codeName(k), c.p.Pos(em.Pos()), "%s has no message", c.codeName(k))
	}
	va := c.method("protocol", "Response", "Validate")
	RS := ptrTo(c.named("protocol", "Response"))
	verify := map[int64]bool{}
	for _, n := range []string{"ReqSuccess", "ReqNameExisted", "ReqNameNotFound"} {
		verify[c.constVal("protocol", n)] = true
	}
	errs := c.errCodes()
	for _, k := range codes {
		if !errs[k] && !verify[k] {
			continue
		}
		k := k
		e := c.run(va, &Opts{Name: "code" + itoa(k), Pre: func(st *State, args []*Term) {
			t := (&Engine{p: c.p, o: &Opts{}}).sel(zeroState, V{args[0], RS}, "Error").T
			st.assume(EqI(t, intConst(k, t.T)))
			st.assume(mkNot(mkIsNil(args[0])))
		}})
		body := e.sel(zeroState, e.arg(0), "DirectoryResponse").T
		good := 0
		for _, x := range e.Exits {
			if x.Kind != "return" {
				if errs[k] {
					rv.fail("validation of "+c.codeName(k), x.where(), "a response with code %s may end in a %s", c.codeName(k), x.Kind)
				}
				continue
			}
			good++
			got, ok := x.St.intValue(x.Res[0], codes)
			if errs[k] {
				rv.check(ok && got == k, "validation of "+c.codeName(k), x.where(), "a response with code %s does not fail validation with that code", c.codeName(k))
				used := false
				for _, f := range x.St.Facts() {
					used = used || anySub(f, func(t *Term) bool { return t == body })
				}
				rv.check(!used, "order for "+c.codeName(k), x.where(), "the body of a response with code %s is looked at", c.codeName(k))
				continue
			}
			rv.check(!ok || got != k, "validation of "+c.codeName(k), x.where(), "a response with code %s, whose proofs have to be verified, fails validation", c.codeName(k))
			if x.St.knownNil(x.Res[0]) {
				good += 100
			}
		}
		rv.check(good > 0 && (errs[k] || good >= 100), "validation of "+c.codeName(k), c.p.Pos(va.Pos()), "no response with code %s passes validation", c.codeName(k))
	}
}

func (c *Ctx) codeName(k int64) string {
	sc := c.p.SPkgs["protocol"].Pkg.Scope()
	for _, n := range sc.Names() {
		if o, ok := sc.Lookup(n).(*types.Const); ok && typeName(o.Type()) == "protocol.ErrorCode" && c.constVal("protocol", n) == k {
			return n
		}
	}
	return itoa(k)
}

func init() {
	checks["C27"] = propC27
	expl["C27"] = "all paths of the request and response decoders, with the decoder modelled by what encoding/json may leave in its target"
	checks["C28"] = propC28
	expl["C28"] = "the message of every defined code and the result of validation for every classified code, on all paths"
}

func itoa(k int64) string { return strconv.FormatInt(k, 10) }
