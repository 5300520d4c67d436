package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C18: what signatures cover

// objFields: the fields of a signed object a signature has to cover; epoch0
// tells that the object is a root of epoch 0. nil: not a signed object.
func (c *Ctx) objFields(t types.Type) []string {
	switch {
	case isPtrTo(t, "merkletree.SignedTreeRoot"), isPtrTo(t, "protocol.DirSTR"):
		return c.strFields()
	case isPtrTo(t, "protocol.TemporaryBinding"):
		var r []string
		st := t.(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Exported() && f.Name() != "Signature" {
				r = append(r, f.Name())
			}
		}
		return r
	}
	return nil
}

// objField reads a covered field of a signed object; the policies of a tree
// root are those behind its associated data.
func (c *Ctx) objField(e *Engine, st *State, o V, f string) *Term {
	if strings.HasPrefix(f, "Policies.") && isPtrTo(o.Ty, "merkletree.SignedTreeRoot") {
		polT := ptrTo(c.named("protocol", "Policies"))
		p, ok := e.assertTo(st, e.sel(st, o, "Ad").T, polT)
		if ok == False {
			return nil
		}
		return e.sel(st, V{p, polT}, f[len("Policies."):]).T
	}
	return e.sel(st, o, f).T
}

// covers: the message contains every field of the object, and for a promise
// the signature of a root.
func (c *Ctx) covers(e *Engine, st *State, o V, msg *Term) string {
	root := !isPtrTo(o.Ty, "protocol.TemporaryBinding")
	fs := c.objFields(o.Ty)
	if fs == nil {
		return "what is signed is neither a root nor a promise"
	}
	for _, f := range fs {
		if f == "PreviousEpoch" && root {
			if ep := e.sel(st, o, "Epoch").T; st.Holds(EqI(ep, intConst(0, ep.T))) {
				continue
			}
		}
		v := c.objField(e, st, o, f)
		if v == nil || !st.carries(msg, v) {
			return "the signature does not cover " + f
		}
	}
	if root {
		return ""
	}
	for _, q := range parts(msg) {
		if isSigField(q, "merkletree.SignedTreeRoot.Signature") {
			return ""
		}
	}
	return "the promise is not tied to the signature of a root"
}

func isSigField(t *Term, key string) bool {
	if t.Op != OFVal {
		return false
	}
	a := t.Aux
	if i := strings.IndexByte(a, '@'); i >= 0 {
		a = a[:i]
	}
	return a == key
}

// symForm: the parts of a message in terms of the object's fields.
func (c *Ctx) symForm(e *Engine, st *State, o V, msg *Term, extra map[*Term]string) string {
	var r []string
	names := map[*Term]string{}
	var keys []string
	for _, f := range c.objFields(o.Ty) {
		keys = append(keys, f)
	}
	sort.Strings(keys)
	for _, f := range keys {
		if v := c.objField(e, st, o, f); v != nil {
			names[strip(v)] += "/" + f
		}
	}
	for v, n := range extra {
		names[strip(v)] += "/" + n
	}
	for _, q := range parts(msg) {
		enc := "bytes"
		for q.Op == OConv && !narrows(q) {
			q = q.Args[0]
		}
		if q.Op == OCall && len(q.Args) == 1 {
			enc = q.Aux
		}
		n := names[strip(q)]
		if n == "" {
			n = q.String()
		}
		r = append(r, enc+":"+n)
	}
	return strings.Join(r, " ")
}

func propC18(c *Ctx) {
	rv := c.Rule("contents", "the form of a root that verifiers check contains every field of the root and of its policies", 2)
	rp := c.Rule("promise", "the form of a promise that verifiers check contains the root's signature, the index and the key", 1)
	rf := c.Rule("same-form", "what the directory signs has, part for part, the form that verifiers check", 3)
	rs := c.Rule("signed", "every signature issued is stored in the object whose contents it covers", 2)
	rc := c.Rule("checked", "every signature check is made over all contents of the object that carries the signature", 1)
	re := c.Rule("encodings", "integers are encoded with all of their bytes", 1)
	for _, n := range []string{"ULongToBytes", "LongToBytes", "UInt32ToBytes"} {
		if c.p.Func("utils", n) != nil {
			c.wrapped(re, "utils."+n)
		}
	}
	rw := c.Rule("wrappers", "signing and verification cover the whole message under the given key, and the public key is the private key's", 3)
	c.wrapped(rw, "(crypto/sign.PublicKey).Verify", "(crypto/sign.PrivateKey).Sign", "(crypto/sign.PrivateKey).Public")
	d := c.dir()
	strT := ptrTo(c.named("protocol", "DirSTR"))
	tbT := ptrTo(c.named("protocol", "TemporaryBinding"))
	// verified forms
	forms := map[string]string{}
	e := c.run(c.method("protocol", "DirSTR", "Serialize"), d.opts("C18"))
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		o := V{e.Args[0], strT}
		w := c.covers(e, x.St, o, x.Res[0])
		rv.check(w == "", "DirSTR.Serialize", x.where(), "%s", w)
		forms[fmt.Sprint("root ", c.epoch0(e, x.St, o))] = c.symForm(e, x.St, o, x.Res[0], nil)
	}
	e = c.run(c.method("protocol", "TemporaryBinding", "Serialize"), nil)
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		o := V{e.Args[0], tbT}
		rootSig := e.argOf(bytesT(), 0).T
		ok := x.St.carries(x.Res[0], rootSig)
		for _, f := range c.objFields(tbT) {
			ok = ok && x.St.carries(x.Res[0], e.sel(x.St, o, f).T)
		}
		rp.check(ok, "TemporaryBinding.Serialize", x.where(), "the signed form of a promise lacks a field or the root's signature")
		forms["promise"] = c.symForm(e, x.St, o, x.Res[0], map[*Term]string{rootSig: "root"})
	}
	// signatures issued
	sign := c.method("crypto/sign", "PrivateKey", "Sign")
	done := map[*ssa.Function]bool{}
	var issue func(f *ssa.Function, depth int)
	issue = func(f *ssa.Function, depth int) {
		if done[f] || isTestHelper(c, f) {
			return
		}
		done[f] = true
		up := false
		e := c.run(f, c.issueOpts(d, f))
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			for _, ev := range x.St.allEvents() {
				if ev.Kind != "call" && ev.Kind != "ret" || ev.Fn != sign {
					continue
				}
				sig := ev.Res
				if sig == nil {
					sig = mk(OCall, "sign.Sign", bytesT(), ev.Args...)
				}
				n := 0
				for _, s := range x.St.allEvents() {
					if s.Kind != "store" || s.Args[1] != sig || s.Args[0].Op != OFAddr || fieldShort(s.Args[0].Aux) != "Signature" {
						continue
					}
					var o V
					switch fieldOwner(s.Args[0].Aux) {
					case "merkletree.SignedTreeRoot":
						o = V{s.Args[0].Args[0], ptrTo(c.named("merkletree", "SignedTreeRoot"))}
					case "protocol.TemporaryBinding":
						o = V{s.Args[0].Args[0], tbT}
					default:
						continue
					}
					if o.T.Op == OParam {
						continue // decided where the object is made
					}
					n++
					w := c.covers(e, x.St, o, sig.Args[1])
					if w == "" && e.sel(x.St, o, "Signature").T != sig {
						w = "the signature is replaced afterwards"
					}
					rs.check(w == "", "signature made in "+fnName(f), s.Pos, "%s", w)
					if w != "" {
						continue
					}
					kind, extra := "promise", map[*Term]string{}
					if o.Ty != tbT {
						kind = fmt.Sprint("root ", c.epoch0(e, x.St, o))
					} else {
						for _, q := range parts(sig.Args[1]) {
							if isSigField(q, "merkletree.SignedTreeRoot.Signature") {
								extra[q] = "root"
							}
						}
					}
					g := c.symForm(e, x.St, o, sig.Args[1], extra)
					if want := forms[kind]; kind == "root unknown" || want == "" {
						rf.fail("signature made in "+fnName(f), s.Pos, "it is not known which form applies to what is signed")
					} else {
						rf.check(g == want, "form signed in "+fnName(f), s.Pos, "signed is %s but verified is %s", g, want)
					}
				}
				if n == 0 {
					up = true
				}
			}
		}
		if !up {
			return
		}
		cs := c.callersOf(f)
		var real []*ssa.Function
		for _, g := range cs {
			if !isTestHelper(c, g) {
				real = append(real, g)
			}
		}
		if depth == 0 || len(real) == 0 {
			rs.fail("signature made in "+fnName(f), c.p.Pos(f.Pos()), "a signature is made that is not put into a root or a promise")
			return
		}
		for _, g := range real {
			issue(g, depth-1)
		}
	}
	for _, s := range c.callSites(func(g *ssa.Function) bool { return g == sign }) {
		if !strings.HasPrefix(fnPkg(s.Fn), "crypto/") {
			issue(s.Fn, 4)
		}
	}
	// signatures checked
	verify := c.method("crypto/sign", "PublicKey", "Verify")
	doneV := map[*ssa.Function]bool{}
	var chk func(f *ssa.Function, depth int)
	chk = func(f *ssa.Function, depth int) {
		if doneV[f] || isTestHelper(c, f) {
			return
		}
		doneV[f] = true
		up := ""
		e := c.run(f, &Opts{Name: "C18v", LogCalls: func(ev *Event) bool { return ev.Kind == "call" && ev.Fn == verify }})
		for _, ev := range e.Log {
			if ev.Fn != verify || ev.Kind != "call" {
				continue
			}
			st := ev.St
			sig := ev.Args[2]
			if sig.Op != OFVal || len(sig.Args) == 0 {
				up = ev.Pos
				continue
			}
			var o V
			base := sig.Args[0]
			switch {
			case isSigField(sig, "merkletree.SignedTreeRoot.Signature"):
				o = V{base, ptrTo(c.named("merkletree", "SignedTreeRoot"))}
				if base.Op == OFVal && cutAt(base.Aux) == "protocol.DirSTR.SignedTreeRoot" {
					o = V{base.Args[0], strT}
				}
			case isSigField(sig, "protocol.TemporaryBinding.Signature"):
				o = V{base, tbT}
			default:
				up = ev.Pos
				continue
			}
			w := c.covers(e, st, o, ev.Args[1])
			rc.check(w == "", "signature check in "+ev.In, ev.Pos, "%s", w)
		}
		if up == "" {
			return
		}
		cs := c.callersOf(f)
		if depth == 0 || len(cs) == 0 {
			rc.fail("signature check in "+fnName(f), up, "a signature is checked that does not belong to a root or a promise")
			return
		}
		for _, g := range cs {
			chk(g, depth-1)
		}
	}
	for _, s := range c.callSites(func(g *ssa.Function) bool { return g == verify }) {
		if !strings.HasPrefix(fnPkg(s.Fn), "crypto/") {
			chk(s.Fn, 4)
		}
	}
}

func (c *Ctx) epoch0(e *Engine, st *State, o V) string {
	ep := e.sel(st, o, "Epoch").T
	q := EqI(ep, intConst(0, ep.T))
	switch {
	case st.Holds(q):
		return "0"
	case st.Holds(mkNot(q)):
		return "n"
	}
	return "unknown"
}

// issueOpts: as for the directory, and associated data passed in are policies.
func (c *Ctx) issueOpts(d *dirT, f *ssa.Function) *Opts {
	o := *d.opts("C18")
	pre := o.Pre
	pol := ptrTo(c.named("protocol", "Policies"))
	ad := c.named("merkletree", "AssocData")
	o.Pre = func(st *State, args []*Term) {
		pre(st, args)
		for i, p := range f.Params {
			if types.Identical(p.Type(), ad) {
				st.assume(typeIs(args[i], pol))
			}
		}
	}
	return &o
}

func init() {
	checks["C18"] = propC18
	expl["C18"] = "The serialised forms of roots and promises are derived as lists of parts on every path and compared with the fields of the types; every call that makes or checks a signature is traced to the object carrying it, whose final contents must all be part of the signed message, in the same order and encoding as the verified form."
}

// ---------- C19: hash transcripts

// outOf: t is what a curve operation whose name ends in op wrote.
func outOf(t *Term, op string) []*Term {
	if t.Op == OOut {
		n := t.Aux
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			n = n[:i]
		}
		if strings.HasSuffix(n, "."+op) {
			return t.Args
		}
	}
	return nil
}

// dependsOn: every one of the terms occurs in t.
func dependsOn(t *Term, on ...*Term) bool {
	for _, x := range on {
		if !anySub(t, func(s *Term) bool { return s == x }) {
			return false
		}
	}
	return true
}

// unfit: arrays filled from a value of just their size are that value.
func unfit(st *State, t *Term) *Term {
	m := map[*Term]*Term{}
	anySub(t, func(s *Term) bool {
		if s.Op == OFit && len(s.Args) == 3 {
			if st.Holds(EqI(mkLen(s.Args[0]), s.Args[1])) {
				m[s] = s.Args[0]
			}
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	return subst(t, m)
}

// xofOf: the content hashed if t is output of an extendable hash; long: at
// least the given number of bytes of it, from the start.
func xofOf(t *Term, min int64) *Term {
	if t.Op != OCall || !strings.HasPrefix(t.Aux, "xof") || len(t.Args) != 3 || !isInt0(t.Args[1]) {
		return nil
	}
	if n, ok := t.Args[2].Int(); !ok || n < min {
		return nil
	}
	return t.Args[0]
}

func propC19(c *Ctx) {
	rd := c.Rule("digest", "a digest covers every byte string given, in order, and has the full size", 1)
	rn := c.Rule("commit", "a commitment is the digest of its fresh salt and everything committed to", 1)
	rc := c.Rule("open", "a commitment is accepted only if its salt has the right length and it is the digest of salt and values", 1)
	rl := c.Rule("vrf-lengths", "a proof is accepted only if key, output and proof have the right lengths and the points are valid", 1)
	ro := c.Rule("vrf-output", "a proof is accepted only if the output is the hash of the proven point and the message", 1)
	rv := c.Rule("vrf-challenge", "a proof is accepted only if its challenge is the hash of base point, hashed message, key, proven point, both recomputed points and message", 1)
	rp := c.Rule("vrf-prover", "a proof's challenge is made over the same transcript, with a nonce derived from the secret and the message", 1)
	rs := c.Rule("vrf-same", "index computation and proof yield the same output", 1)
	size := c.constVal("crypto", "HashSizeByte")
	rk := c.Rule("vrf-key", "the public VRF key given out is the private key's", 1)
	c.wrapped(rk, "(crypto/vrf.PrivateKey).Public")
	// digest
	e := c.run(c.fn("crypto", "Digest"), nil)
	ms := e.Args[0]
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		v := e.content(x.St, x.Res[0])
		w := ""
		if h := xofOf(v, size); h == nil {
			w = "the digest is not the hash's output of full size"
		} else if !joined(x.St, h, ms) {
			w = "the digest does not cover all byte strings given"
		}
		rd.check(w == "", "Digest", x.where(), "%s", w)
	}
	// commitments
	e = c.run(c.fn("crypto", "NewCommit"), nil)
	mr := c.fn("crypto", "MakeRand")
	for _, x := range e.Exits {
		if k := x.class(); k != retOK && k != retMaybe {
			continue
		}
		o := V{x.Res[0], ptrTo(c.named("crypto", "Commit"))}
		salt := e.sel(x.St, o, "Salt").T
		val := e.sel(x.St, o, "Value").T
		fresh := false
		for _, ev := range x.St.allEvents() {
			if ev.Fn == mr && ev.Kind == "call" {
				fresh = fresh || anySub(salt, func(t *Term) bool { return t.Op == OCall && strings.HasPrefix(t.Aux, "crypto.MakeRand#") })
			}
		}
		w := ""
		if !fresh || salt.Op != OExtr {
			w = "the salt is not fresh random bytes"
		} else if !digestOfAll(val, salt, e.Args[0]) {
			w = "the commitment is not the digest of salt and values: " + val.String()
		}
		rn.check(w == "", "NewCommit", x.where(), "%s", w)
	}
	e = c.run(c.method("crypto", "Commit", "Verify"), nil)
	o := V{e.Args[0], ptrTo(c.named("crypto", "Commit"))}
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St.clone()
		if !st.assume(x.Res[0]) {
			continue
		}
		salt, val := e.sel(zeroState, o, "Salt").T, e.sel(zeroState, o, "Value").T
		w := ""
		if !st.Holds(EqI(mkLen(salt), intConst(size, nil))) {
			w = "a salt of another length is accepted"
		} else if st.posFact(func(t *Term) bool {
			return t.Op == OEq && (t.Args[0] == val && digestOfAll(t.Args[1], salt, e.Args[1]) || t.Args[1] == val && digestOfAll(t.Args[0], salt, e.Args[1]))
		}) == nil {
			w = "a commitment is accepted that is not the digest of salt and values"
		}
		rc.check(w == "", "Commit.Verify accepts", x.where(), "%s", w)
	}
	// VRF verifier
	e = c.run(c.method("crypto/vrf", "PublicKey", "Verify"), nil)
	pk, m, out, proof := e.Args[0], e.Args[1], e.Args[2], e.Args[3]
	isz, psz, ksz := c.constVal("crypto/vrf", "Size"), c.constVal("crypto/vrf", "ProofSize"), c.constVal("crypto/vrf", "PublicKeySize")
	cut := func(t *Term, lo, hi int64) *Term {
		return mkSub(t, intConst(lo, nil), intConst(hi, nil), bytesT())
	}
	var hBv *Term
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St.clone()
		if !st.assume(x.Res[0]) {
			continue
		}
		lens := true
		for _, q := range []struct {
			t *Term
			n int64
		}{{pk, ksz}, {out, isz}, {proof, psz}} {
			lens = lens && st.Holds(EqI(mkLen(q.t), intConst(q.n, nil)))
		}
		hx, s, tt := cut(proof, 64, 96), cut(proof, 0, 32), cut(proof, 32, 64)
		valid := map[*Term]bool{}
		st.posFact(func(t *Term) bool {
			if t.Op == OCall && strings.HasSuffix(t.Aux, ".FromBytesBaseGroup") {
				valid[unfit(st, t.Args[len(t.Args)-1])] = true
			}
			return false
		})
		rl.check(lens && valid[pk] && valid[hx], "vrf.PublicKey.Verify accepts", x.where(), "a proof with wrong lengths or invalid points is accepted")
		okOut := st.posFact(func(t *Term) bool {
			if t.Op != OEq {
				return false
			}
			a, b := unfit(st, t.Args[0]), unfit(st, t.Args[1])
			if b == out {
				a, b = b, a
			}
			h := xofOf(b, isz)
			return a == out && h != nil && samePartsT(h, hx, m)
		})
		ro.check(okOut != nil, "vrf.PublicKey.Verify accepts", x.where(), "an output is accepted that is not the hash of the proven point and the message")
		w := "a proof is accepted without recomputing its challenge"
		st.posFact(func(t *Term) bool {
			if t.Op != OEq {
				return false
			}
			a, b := unfit(st, t.Args[0]), unfit(st, t.Args[1])
			if b == s {
				a, b = b, a
			}
			r := outOf(b, "ScReduce")
			if a != s || len(r) == 0 {
				return false
			}
			h := xofOf(r[len(r)-1], 64)
			if h == nil {
				w = "the challenge is not a full hash"
				return true
			}
			w = transcript(h, pk, hx, m, func(A, B, hB *Term) string {
				H := curvePoint(hB)
				switch {
				case H == nil || !dependsOn(H, m) || dependsOn(H, proof) || dependsOn(H, pk):
					return "the second component is not the hashed message"
				case !dependsOn(A, s, tt, pk):
					return "the first recomputed point does not depend on challenge, response and key"
				case !dependsOn(B, s, tt, hx, H):
					return "the second recomputed point does not depend on challenge, response, proven point and hashed message"
				}
				hBv = subst(hB, map[*Term]*Term{m: mk(OParam, "$m", bytesT())})
				return ""
			})
			return true
		})
		rv.check(w == "", "vrf.PublicKey.Verify accepts", x.where(), "%s", w)
	}
	// prover
	e = c.run(c.method("crypto/vrf", "PrivateKey", "Prove"), nil)
	sk, m := e.Args[0], e.Args[1]
	pkP := mkSub(sk, intConst(32, nil), mkLen(sk), bytesT())
	var vrfOut *Term
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		ov, pv := e.content(x.St, x.Res[0]), e.content(x.St, x.Res[1])
		hx, s, tt := cut(pv, 64, 96), cut(pv, 0, 32), cut(pv, 32, 64)
		w := "the challenge in the proof is not the hash of a transcript"
		if r := outOf(s, "ScReduce"); len(r) > 0 {
			if h := xofOf(r[len(r)-1], 64); h != nil {
				w = transcript(h, pkP, hx, m, func(A, B, hB *Term) string {
					if g := subst(hB, map[*Term]*Term{m: mk(OParam, "$m", bytesT())}); g != hBv {
						return "the message is hashed to another point than the verifier's"
					}
					H := curvePoint(hB)
					// r: the scalar of the first point
					var rg []*Term
					if p := curvePoint(A); p != nil {
						rg = outOf(p, "GeScalarMultBase")
					}
					if len(rg) == 0 {
						return "the first point is not a multiple of the base point"
					}
					r := rg[len(rg)-1]
					if p := curvePoint(B); p == nil || !dependsOn(p, r, H) {
						return "the second point does not use the nonce and the hashed message"
					}
					rr := outOf(r, "ScReduce")
					if len(rr) == 0 {
						return "the nonce is not a hash"
					}
					nh := xofOf(rr[len(rr)-1], 64)
					if nh == nil || !hasPart(nh, m) || !secretPart(nh, sk, m) {
						return "the nonce is not derived from the secret key and the message"
					}
					if p := curvePoint(hx); p == nil || !dependsOn(p, H, cut(sk, 0, 32)) {
						return "the proven point is not computed from the secret key and the hashed message"
					}
					if !dependsOn(tt, s, r, cut(sk, 0, 32)) {
						return "the response does not depend on challenge, nonce and secret key"
					}
					return ""
				})
			}
		}
		if w == "" {
			if h := xofOf(ov, isz); h == nil || !samePartsT(h, hx, m) {
				w = "the output is not the hash of the proven point and the message"
			}
		}
		rp.check(w == "", "vrf.PrivateKey.Prove", x.where(), "%s", w)
		vrfOut = ov
	}
	pr := e
	e = c.run(c.method("crypto/vrf", "PrivateKey", "Compute"), nil)
	for _, x := range e.Exits {
		if x.Kind != "return" || vrfOut == nil {
			continue
		}
		v := e.content(x.St, x.Res[0])
		g := subst(v, map[*Term]*Term{e.Args[0]: pr.Args[0], e.Args[1]: pr.Args[1]})
		rs.check(g == vrfOut, "vrf.PrivateKey.Compute", x.where(), "the index computed is not the output that is proven")
	}
}

// transcript: the content hashed for a challenge is base point, hashed
// message, key, proven point, two further points and the message.
func transcript(h, pk, hx, m *Term, f func(A, B, hB *Term) string) string {
	ps := parts(h)
	if len(ps) != 7 {
		return fmt.Sprintf("the challenge is made over %d components instead of 7", len(ps))
	}
	switch {
	case !anySub(ps[0], func(t *Term) bool { return t.Op == OGlobal && strings.HasSuffix(t.Aux, ".BaseBytes") }):
		return "the challenge does not cover the base point"
	case ps[2] != pk:
		return "the challenge does not cover the public key"
	case ps[3] != hx:
		return "the challenge does not cover the proven point"
	case ps[6] != m:
		return "the challenge does not cover the message"
	}
	return f(ps[4], ps[5], ps[1])
}

// curvePoint: the point whose encoding is b.
func curvePoint(b *Term) *Term {
	if r := outOf(b, "ToBytes"); len(r) > 0 {
		return r[0]
	}
	return nil
}

func samePartsT(h *Term, want ...*Term) bool {
	ps := parts(h)
	if len(ps) != len(want) {
		return false
	}
	for i := range ps {
		if ps[i] != want[i] {
			return false
		}
	}
	return true
}

func hasPart(h, x *Term) bool {
	for _, p := range parts(h) {
		if p == x {
			return true
		}
	}
	return false
}

// secretPart: a part is derived from the first half of the private key by a
// hash and nothing but the whole of that.
func secretPart(h, sk, m *Term) bool {
	for _, p := range parts(h) {
		if p.Op == OCall && strings.HasPrefix(p.Aux, "xof") && dependsOn(p, sk) && !dependsOn(p, m) {
			if n, ok := p.Args[2].Int(); ok && n >= 32 {
				return true
			}
		}
	}
	return false
}

// digestOfAll: d is the digest of salt followed by all strings of the list.
func digestOfAll(d, salt, list *Term) bool {
	if d.Op != OHash || len(d.Args) != 1 {
		return false
	}
	want := mkCat(nil, mk(OElem, "", nil, salt), list)
	if d.Args[0] == want {
		return true
	}
	ps := parts(d.Args[0])
	return len(ps) == 2 && ps[0].Op == OElem && ps[0].Args[0] == salt && ps[1] == list
}

// joined: h is the concatenation of all strings of the list, in order.
func joined(st *State, h, list *Term) bool { return joinState(st, h, list) == 'y' }

// joinState: whether h is that ('y'), is known not to be ('n') or neither.
func joinState(st *State, h, list *Term) byte {
	if h.Op == OCall && len(h.Args) > 0 {
		n := strings.SplitN(h.Aux, "#", 2)[0]
		if n == "bytes.Join" && len(h.Args) == 2 {
			if h.Args[0] == list && isEmptySeq(st, h.Args[1]) {
				return 'y'
			}
			return '?'
		}
		if strings.HasPrefix(n, "Join") && h.Args[0] == list {
			return 'y'
		}
		return '?'
	}
	// one step appends the string at the loop's position
	step := func(rec *LoopRec, alt *State, seg []*Term) byte {
		if len(seg) == 1 && seg[0].Op == OIdx && seg[0].Args[0] == list && seg[0].Args[1] == rec.IV {
			return 'y'
		}
		for _, a := range seg {
			if a.Op != OIdx {
				return '?'
			}
		}
		if len(seg) == 0 {
			it := mk(OIdx, "", nil, list, rec.IV)
			if isEmptySeq(alt, it) || alt.Holds(EqI(mkLen(it), intConst(0, nil))) {
				return 'y'
			}
		}
		return 'n'
	}
	for n := st.loops; n != nil; n = n.up {
		rec := n.rec
		res, found := byte('y'), false
		worse := func(s byte) {
			if res == 'y' || s == '?' {
				res = s
			}
		}
		if h.Op == OAcc && h.Args[2] == rec.IV {
			found = true
			if !isEmptySeq(st, h.Args[0]) && !(h.Args[0].Op == OCat && len(h.Args[0].Args) == 0) {
				return '?'
			}
			worse(step(rec, rec.Base, parts(h.Args[1])))
		}
		for _, ph := range rec.Phis {
			if found || ph.Term != h {
				continue
			}
			found = true
			if ph.Init == nil || !isEmptySeq(st, ph.Init) && !(ph.Init.Op == OCat && len(ph.Init.Args) == 0) {
				return '?'
			}
			for i, alt := range rec.Alts {
				if ph.Next[i] == h {
					worse(step(rec, alt, nil))
					continue
				}
				ps := parts(ph.Next[i])
				if len(ps) < 2 || ps[0] != h {
					return '?'
				}
				worse(step(rec, alt, ps[1:]))
			}
		}
		if !found {
			continue
		}
		if !st.Holds(EqI(rec.IV, mkLen(list))) {
			if st.Holds(mkGe0(linAdd(linAdd(linOf(mkLen(list)), linConst(-1), 1), linOf(rec.IV), -1))) {
				return 'n'
			}
			return '?'
		}
		return res
	}
	return '?'
}

func init() {
	checks["C19"] = propC19
	expl["C19"] = "The contents written into every hash are derived as lists of parts (curve operations and the hash itself uninterpreted); the digest loop, commitments, the verifier's accepting paths and the prover's results are compared with the required transcripts component by component."
}
