package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: where secrets come from.

// randRead is a call that fills a buffer from a random source.
type randRead struct {
	ev     *Event
	site   string // number shared by the call's results and the buffer
	reader *Term  // nil: the system's source
	buf    *Term
	err    *Term
}

func fnOf(ev *Event) *ssa.Function {
	f, _ := ev.Fn.(*ssa.Function)
	return f
}

func siteNo(t *Term) string {
	if i := strings.LastIndex(t.Aux, "#"); i >= 0 {
		s := t.Aux[i+1:]
		if j := strings.IndexFunc(s, func(r rune) bool { return r < '0' || r > '9' }); j >= 0 {
			s = s[:j]
		}
		return s
	}
	return ""
}

func lastRes(ev *Event) *Term {
	if ev.Res == nil {
		return nil
	}
	if ev.Res.Op == OTuple {
		if len(ev.Res.Args) == 0 {
			return nil
		}
		return ev.Res.Args[len(ev.Res.Args)-1]
	}
	return ev.Res
}

func isSystemReader(t *Term) bool {
	return t != nil && t.Op == ODeref && len(t.Args) == 1 && t.Args[0].Op == OGlobal && t.Args[0].Aux == "crypto/rand.Reader"
}

func randReads(st *State) []randRead {
	var r []randRead
	for _, ev := range st.allEvents() {
		if ev.Kind != "call" {
			continue
		}
		rr := randRead{ev: ev.Event, err: lastRes(ev.Event)}
		switch {
		case ev.Name == "crypto/rand.Read":
			rr.buf = ev.Args[0]
		case ev.Name == "io.ReadFull":
			rr.reader, rr.buf = unIface(ev.Args[0]), ev.Args[1]
		default:
			continue
		}
		if rr.err == nil {
			continue
		}
		for x := rr.err; x != nil; x = x.Args[0] {
			if x.Op == OCall {
				rr.site = siteNo(x)
			}
			if len(x.Args) == 0 {
				break
			}
		}
		r = append(r, rr)
	}
	return r
}

// unpredictable: the bytes t contain (hashed or as they are) a whole buffer
// of at least n bytes filled by one of the reads, and are themselves at least
// n bytes long.
func unpredictable(st *State, t *Term, n int64, rs []randRead) (randRead, bool) {
	if l, ok := mkLen(t).Int(); ok && l < n {
		return randRead{}, false
	}
	var found *randRead
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.Op {
		case OHav:
			if !strings.HasPrefix(t.Aux, "buf") {
				return
			}
			for i := range rs {
				if l, ok := mkLen(rs[i].buf).Int(); rs[i].site == siteNo(t) && ok && l >= n {
					found = &rs[i]
				}
			}
		case OSub:
			a, ok1 := t.Args[1].Int()
			b, ok2 := t.Args[2].Int()
			if !ok1 || !ok2 || b-a < n {
				return
			}
			// the part that was filled
			for i := range rs {
				if rs[i].site != siteNo(t.Args[0]) || t.Args[0].Op != OHav {
					continue
				}
				lo, hi := int64(0), int64(1<<40)
				if s := rs[i].buf; s.Op == OSub {
					x, ok1 := s.Args[1].Int()
					y, ok2 := s.Args[2].Int()
					if !ok1 || !ok2 {
						return
					}
					lo, hi = x, y
				} else if l, ok := mkLen(s).Int(); ok {
					hi = l
				}
				if a < lo || b > hi {
					return
				}
			}
			walk(t.Args[0])
		case OHash, OCat, OElem:
			for _, a := range t.Args {
				walk(a)
			}
		}
	}
	walk(t)
	if found == nil {
		return randRead{}, false
	}
	return *found, true
}

// testSite: the call lies in code that only tests use.
func (c *Ctx) testSite(s Site) bool {
	return isTestHelper(c, s.Fn) || strings.Contains(c.pos(s.In), "testutil")
}

func resultIdx(sig *types.Signature, f func(t types.Type) bool) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if f(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func errResult(sig *types.Signature) int { return resultIdx(sig, isErrorType) }

func propC33(c *Ctx) {
	rs := c.Rule("sources", "no function outside tests uses a random source other than crypto/rand", 100)
	rg := c.Rule("generation", "a random value or key is returned without error only if it comes from at least 32 bytes read completely from the system's source (or the given one)", 3)
	rf := c.Rule("failures", "while the random source is not known to have succeeded, a value made from it is neither used nor returned without an error", 8)
	ru := c.Rule("uses", "every commitment salt and tree nonce is a fresh random value, keys are generated from the system's source", 4)
	rn := c.Rule("proof nonces", "the blinding scalar of a VRF proof is a hash of the secret key and the message", 1)

	// sources
	for _, f := range c.p.Fns {
		bad := ""
		pos := c.p.Pos(f.Pos())
		c.eachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				var pkg *types.Package
				switch x := (*op).(type) {
				case *ssa.Function:
					if o := x.Object(); o != nil {
						pkg = o.Pkg()
					}
				case *ssa.Global:
					pkg = x.Pkg.Pkg
				}
				if pkg == nil {
					continue
				}
				switch pkg.Path() {
				case "math/rand", "math/rand/v2", "hash/maphash", "golang.org/x/exp/rand":
					bad, pos = pkg.Path(), c.pos(in)
				}
			}
		})
		rs.check(bad == "", fnName(f), pos, "%s uses %s", fnName(f), bad)
	}

	// generation
	mr := c.fn("crypto", "MakeRand")
	e := c.run(mr, nil)
	n := 0
	for _, x := range e.Exits {
		if x.Kind != "return" || x.St.knownNonNil(x.Res[1]) {
			continue
		}
		ok := false
		if rd, k := unpredictable(x.St, e.content(x.St, x.Res[0]), 32, randReads(x.St)); k {
			ok = x.St.knownNil(rd.err) && (rd.reader == nil || isSystemReader(rd.reader)) || rd.err == x.Res[1]
		}
		n++
		rg.check(ok, "MakeRand", x.where(), "a value is returned without error that is not made from 32 bytes read from the system's random source")
	}
	rg.check(n > 0, "MakeRand", c.p.Pos(mr.Pos()), "MakeRand never returns a value")
	vg := c.fn("crypto/vrf", "GenerateKey")
	e = c.run(vg, nil)
	n = 0
	rnd := e.arg(0).T
	srcOK := func(st *State, t *Term) bool {
		return st.knownNil(rnd) && isSystemReader(t) || st.knownNonNil(rnd) && t == rnd
	}
	for _, x := range e.Exits {
		if x.Kind != "return" || x.St.knownNonNil(x.Res[1]) {
			continue
		}
		n++
		key := e.content(x.St, x.Res[0])
		seed := mkSub(key, intConst(0, types.Typ[types.Int]), intConst(32, types.Typ[types.Int]), bytesT())
		ok := false
		if rd, k := unpredictable(x.St, seed, 32, randReads(x.St)); k {
			ok = (x.St.knownNil(rd.err) || rd.err == x.Res[1]) && srcOK(x.St, rd.reader)
		}
		rg.check(ok, "VRF key", x.where(), "a VRF key is returned without error whose secret half was not read from the random source")
	}
	rg.check(n > 0, "VRF key", c.p.Pos(vg.Pos()), "no VRF key is ever returned")
	sg := c.fn("crypto/sign", "GenerateKey")
	e = c.run(sg, nil)
	n = 0
	rnd = e.arg(0).T
	for _, x := range e.Exits {
		if x.Kind != "return" || x.St.knownNonNil(x.Res[1]) {
			continue
		}
		n++
		ok := false
		for _, ev := range x.St.allEvents() {
			if ev.Kind != "call" || ev.Res == nil || ev.Res.Op != OTuple {
				continue
			}
			switch ev.Name {
			case "golang.org/x/crypto/ed25519.GenerateKey", "crypto/ed25519.GenerateKey":
				err := ev.Res.Args[2]
				ok = ok || ev.Res.Args[1] == x.Res[0] && (x.Res[1] == err || x.St.knownNil(err)) && srcOK(x.St, unIface(ev.Args[0]))
			}
		}
		// made from a seed
		if t := x.Res[0]; t.Op == OCall && strings.Contains(t.Aux, "ed25519.NewKeyFromSeed") {
			if rd, k := unpredictable(x.St, e.content(x.St, t.Args[0]), 32, randReads(x.St)); k {
				ok = ok || x.St.knownNil(rd.err) && srcOK(x.St, rd.reader)
			}
		}
		rg.check(ok, "signing key", x.where(), "a signing key is returned without error that does not come from the random source")
	}
	rg.check(n > 0, "signing key", c.p.Pos(sg.Pos()), "no signing key is ever returned")

	// failures
	ext := map[string]bool{"crypto/rand.Read": true, "crypto/rand.Int": true, "crypto/rand.Prime": true, "io.ReadFull": true,
		"golang.org/x/crypto/ed25519.GenerateKey": true, "crypto/ed25519.GenerateKey": true, "crypto/ecdsa.GenerateKey": true, "crypto/rsa.GenerateKey": true}
	src := map[*ssa.Function]bool{}
	isSrc := func(in ssa.CallInstruction) bool {
		if f := in.Common().StaticCallee(); f != nil && f.Object() != nil {
			if f.Object().Pkg() != nil && ext[f.Object().Pkg().Path()+"."+f.Name()] {
				return true
			}
		}
		for _, g := range c.p.callees(in) {
			if src[g] {
				return true
			}
		}
		return false
	}
	users := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, f := range c.p.Fns {
			if users[f] {
				continue
			}
			c.eachInstr(f, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || users[f] || !isSrc(ci) {
					return
				}
				users[f] = true
				again = true
				if errResult(f.Signature) >= 0 {
					src[f] = true
				}
			})
		}
	}
	var us []*ssa.Function
	for f := range users {
		us = append(us, f)
	}
	sort.Slice(us, func(i, j int) bool { return fnName(us[i]) < fnName(us[j]) })
	for _, f := range us {
		f := f
		if isTestHelper(c, f) {
			prod := false
			for _, cs := range c.callSites(func(g *ssa.Function) bool { return g == f }) {
				prod = prod || !c.testSite(cs)
			}
			if !prod {
				continue
			}
		}
		ei := errResult(f.Signature)
		e := c.run(f, &Opts{Name: "random", Opaque: func(g *ssa.Function) (bool, bool) {
			if src[g] && g != f {
				return true, true
			}
			return false, false
		}})
		for _, x := range e.Exits {
			if x.Kind != "return" && x.Kind != "" {
				continue
			}
			st := x.St
			evs := st.allEvents()
			for i, ev := range evs {
				if ev.Kind != "call" || ev.Res == nil || !(ext[ev.Name] || src[fnOf(ev.Event)]) {
					continue
				}
				err := lastRes(ev.Event)
				if err == nil || err.T == nil || !isErrorType(err.T) || st.knownNil(err) {
					rf.ok("%s in %s: succeeded", ev.Name, fnName(f))
					continue
				}
				if src[fnOf(ev.Event)] && fnOf(ev.Event) == f {
					continue
				}
				// the error is reported
				if ei >= 0 {
					rep := x.Res[ei] == err || st.knownNonNil(x.Res[ei])
					rf.check(rep, ev.Name+" in "+fnName(f), ev.Pos, "%s may return without an error although %s failed", fnName(f), ev.Name)
				}
				// and its results are not used
				var vals []*Term
				if ev.Res.Op == OTuple {
					vals = ev.Res.Args[:len(ev.Res.Args)-1]
				}
				site := ""
				for y := err; y != nil && len(y.Args) > 0; y = y.Args[0] {
					if y.Op == OCall {
						site = siteNo(y)
					}
				}
				uses := func(t *Term) bool {
					return t != nil && anySub(t, func(s *Term) bool {
						for _, v := range vals {
							if s == v && s.Op != OConst && s.Op != ONil {
								return true
							}
						}
						return s.Op == OHav && strings.HasPrefix(s.Aux, "buf") && siteNo(s) == site && site != ""
					})
				}
				bad := ""
				for _, l := range evs[i+1:] {
					if l.Kind != "call" && l.Kind != "store" && l.Kind != "mapset" && l.Kind != "send" && l.Kind != "go" {
						continue
					}
					if l.Kind == "store" && len(l.Args) > 0 && rootOf(l.Args[0]) != nil && rootOf(l.Args[0]).Op == OAlloc && isFreshAddr(rootOf(l.Args[0])) {
						continue // into an object of its own, see below
					}
					for _, a := range l.Args {
						if uses(a) {
							bad = l.Pos
						}
					}
				}
				if ei < 0 {
					for _, r := range x.Res {
						if uses(r) {
							bad = x.where()
						}
						for a, v := range st.cells {
							if rootOf(a) == r && uses(v) {
								bad = x.where()
							}
						}
					}
				}
				rf.check(bad == "", "result of "+ev.Name+" in "+fnName(f), bad, "%s uses the result of %s although it may have failed", fnName(f), ev.Name)
			}
		}
	}

	// uses
	freshRandom := func(e *Engine, st *State, t *Term) bool {
		for _, ev := range st.allEvents() {
			if ev.Kind == "call" && ev.Fn == mr && ev.Res != nil && ev.Res.Op == OTuple && ev.Res.Args[0] == t && st.knownNil(ev.Res.Args[1]) {
				return true
			}
		}
		return false
	}
	opq := func(name string) *Opts {
		return &Opts{Name: name, Opaque: func(g *ssa.Function) (bool, bool) { return g == mr, g == mr }}
	}
	nc := c.fn("crypto", "NewCommit")
	e = c.run(nc, opq("c33"))
	for _, x := range e.Exits {
		if x.Kind != "return" || x.St.knownNil(x.Res[0]) {
			continue
		}
		salt := e.content(x.St, e.sel(x.St, V{x.Res[0], ptrTo(c.named("crypto", "Commit"))}, "Salt").T)
		ru.check(freshRandom(e, x.St, salt), "salt", x.where(), "a commitment is returned whose salt is not a new random value")
	}
	nt := c.fn("merkletree", "NewMerkleTree")
	e = c.run(nt, opq("c33"))
	for _, x := range e.Exits {
		if x.Kind != "return" || x.St.knownNil(x.Res[0]) {
			continue
		}
		tree := V{x.Res[0], ptrTo(c.named("merkletree", "MerkleTree"))}
		ok := false
		for i := 0; ; i++ {
			s := c.named("merkletree", "MerkleTree").Underlying().(*types.Struct)
			if i >= s.NumFields() {
				break
			}
			if _, isS := s.Field(i).Type().Underlying().(*types.Slice); isS {
				ok = ok || freshRandom(e, x.St, e.content(x.St, e.sel(x.St, tree, s.Field(i).Name()).T))
			}
		}
		ru.check(ok, "tree nonce", x.where(), "a tree is returned whose nonce is not a new random value")
	}
	for _, s := range c.callSites(func(g *ssa.Function) bool { return g == vg || g == sg }) {
		a := s.In.(ssa.CallInstruction).Common().Args[0]
		sys := false
		for {
			if mi, ok := a.(*ssa.ChangeInterface); ok {
				a = mi.X
				continue
			}
			break
		}
		if k, ok := a.(*ssa.Const); ok && k.Value == nil {
			sys = true
		}
		if u, ok := a.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "crypto/rand" {
				sys = true
			}
		}
		if sys {
			ru.ok("key generated in %s from the system's source", fnName(s.Fn))
			continue
		}
		ru.check(c.testSite(s), "key generated in "+fnName(s.Fn), c.pos(s.In), "%s generates a key from another source than the system's", fnName(s.Fn))
		// only tests use it
		for _, cs := range c.callSites(func(g *ssa.Function) bool { return g == s.Fn }) {
			ru.check(c.testSite(cs), "use of "+fnName(s.Fn), c.pos(cs.In), "%s uses the fixed key of the tests", fnName(cs.Fn))
		}
	}

	// proof nonces
	pv := c.method("crypto/vrf", "PrivateKey", "Prove")
	e = c.run(pv, &Opts{Name: "nonce", LogCalls: func(ev *Event) bool {
		return ev.Kind == "call" && strings.HasSuffix(ev.Name, "edwards25519.ScMulAdd")
	}})
	sk, m := e.arg(0).T, e.arg(1).T
	n = 0
	for _, ev := range e.Log {
		if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "edwards25519.ScMulAdd") || ev.St == nil {
			continue
		}
		n++
		r := e.deep(ev.St, ev.Args[3])
		secret, msg := false, false
		var in func(t *Term, hashed bool)
		in = func(t *Term, hashed bool) {
			switch {
			case t == m:
				msg = msg || hashed
				return
			case t == sk:
				secret = secret || hashed
				return
			case t.Op == OSub && t.Args[0] == sk:
				lo, ok := t.Args[1].Int()
				secret = secret || hashed && ok && lo < 32 // the rest is the public half
				return
			}
			for _, a := range t.Args {
				in(a, hashed || t.Op == OHash || t.Op == OCall || strings.Contains(t.Aux, "xof"))
			}
		}
		in(r, false)
		rn.check(secret && msg, "blinding scalar", ev.Pos, "the blinding scalar of a proof does not depend on the secret key and the message")
	}
	rn.check(n > 0, "blinding scalar", c.p.Pos(pv.Pos()), "no blinded scalar is computed")
}

func init() {
	checks["C33"] = propC33
	expl["C33"] = "every reference to a random source, all paths of the functions that draw randomness and of everything that calls them"
}
