package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C17: what answers reveal

// sentTypes: the static types of values that become the body of a response.
func (c *Ctx) sentTypes() []types.Type {
	resp := c.named("protocol", "Response")
	var r []types.Type
	seen := map[string]bool{}
	add := func(t types.Type) {
		if k := typeName(t); !seen[k] {
			seen[k] = true
			r = append(r, t)
		}
	}
	add(resp)
	var body types.Type
	for _, f := range leafFields(resp) {
		if _, ok := f.Type().Underlying().(*types.Interface); ok {
			body = f.Type()
		}
	}
	st := resp.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Interface); ok {
			body = st.Field(i).Type()
		}
	}
	if body == nil {
		panic(anchorErr{"the body of protocol.Response"})
	}
	for _, f := range c.p.Fns {
		if isTestHelper(c, f) {
			continue
		}
		c.eachInstr(f, func(in ssa.Instruction) {
			if mi, ok := in.(*ssa.MakeInterface); ok && types.Identical(mi.Type(), body) {
				add(mi.X.Type())
			}
		})
	}
	return r
}

// encoded visits every type an encoder that follows exported fields (tag names
// the key of its field tags) can reach from t. f returns false to stop there.
func encoded(t types.Type, tag string, f func(t types.Type, path string) bool) {
	seen := map[string]bool{}
	var w func(t types.Type, path string)
	w = func(t types.Type, path string) {
		k := types.TypeString(t, nil)
		if seen[k] {
			return
		}
		seen[k] = true
		if !f(t, path) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			w(u.Elem(), path)
		case *types.Slice:
			w(u.Elem(), path+"[]")
		case *types.Array:
			w(u.Elem(), path+"[]")
		case *types.Map:
			w(u.Key(), path+"[key]")
			w(u.Elem(), path+"[]")
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				fd := u.Field(i)
				name := strings.Split(reflect.StructTag(u.Tag(i)).Get(tag), ",")[0]
				if name == "-" && reflect.StructTag(u.Tag(i)).Get(tag) == "-" {
					continue
				}
				if !fd.Exported() && !(fd.Embedded() && structOf(fd.Type()) != nil) {
					continue
				}
				w(fd.Type(), path+"."+fd.Name())
			}
		}
	}
	w(t, typeName(t))
}

func (c *Ctx) hasOwnEncoder(t types.Type) string {
	for _, n := range []string{"MarshalJSON", "MarshalText"} {
		for _, ty := range []types.Type{t, types.NewPointer(t)} {
			if f := c.p.lookupMethod(ty, n, nil); f != nil && inRepo(f) {
				return fnName(f)
			}
		}
	}
	return ""
}

func propC17(c *Ctx) {
	ra := c.Rule("absence", "a proof of absence carries neither a value nor an opening", 1)
	rw := c.Rule("later", "what a lookup answers is not filled in later", 1)
	rt := c.Rule("reach", "no tree, directory or key structure can be encoded into a response", 2)
	rn := c.Rule("names", "the names stored in the tree and of pending bindings only flow into other leaves, indices, commitments and comparisons", 1)
	ri := c.Rule("index", "every index put into or searched in a tree is the VRF output of the name under the directory's key", 2)
	rr := c.Rule("fresh", "every tree nonce and commitment salt is fresh randomness", 2)
	t := c.tree()
	z := zeroState
	get := c.method("merkletree", "MerkleTree", "Get")
	e := c.run(get, nil)
	mt := e.arg(0)
	idx := e.argOf(bytesT(), 0).T
	apT := c.named("merkletree", "AuthenticationPath")
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		p := V{x.Res[0], ptrTo(apT)}
		lf := e.sel(st, p, "Leaf")
		_, ph := descentFrom(st, e.sel(z, mt, t.root).T)
		w := ""
		if p.T.Op != OAlloc || lf.T.Op != OAlloc || ph == nil {
			ra.fail("answer of Get", x.where(), "the answer is not a new structure describing the node reached")
			continue
		}
		kind := t.kindOf(st, ph.Term)
		incl := kind == t.L && st.Holds(bytesEq(e.sel(z, t.as(e, st, ph.Term, t.L), t.index).T, idx))
		if incl {
			ra.ok("answer of Get: inclusion (%s)", x.where())
			continue
		}
		com := e.sel(st, lf, "Commitment")
		switch {
		case !isNilT(st, e.sel(st, lf, "Value").T):
			w = "the answer may carry another user's value"
		case com.T.Op == OAlloc && isNilT(st, e.sel(st, com, "Salt").T):
		case isNilT(st, com.T):
		default:
			w = "the answer may carry the opening of another user's commitment"
		}
		ra.check(w == "", "answer of Get", x.where(), "%s", w)
	}
	// later writes
	in := c.reachableFrom(get)
	n := 0
	for _, k := range []string{"merkletree.ProofNode.Value", "merkletree.ProofNode.Commitment", "merkletree.AuthenticationPath.Leaf", "crypto.Commit.Salt"} {
		for _, s := range c.fieldStores(k) {
			if isTestHelper(c, s.Fn) {
				continue
			}
			n++
			ok := in[s.Fn] || c.freshStore(s)
			rw.check(ok, "write of "+k+" in "+fnName(s.Fn), c.pos(s.In), "%s changes a proof or a commitment that exists already", fnName(s.Fn))
		}
	}
	// reach
	d := t.d
	bad := map[string]string{}
	for _, nm := range []*types.Named{t.MT, t.I, t.L, t.E, d.PAD, d.D} {
		bad[typeName(nm)] = "a structure of the directory"
	}
	bad["crypto/sign.PrivateKey"] = "a private key"
	bad["crypto/vrf.PrivateKey"] = "a private key"
	for _, s := range c.sentTypes() {
		w := ""
		encoded(s, "json", func(ty types.Type, path string) bool {
			if what := bad[typeName(ty)]; what != "" {
				w = path + " puts " + what + " (" + typeName(ty) + ") into a response"
			}
			if nt, ok := ty.(*types.Named); ok && nt.Obj().Pkg() != nil && strings.HasPrefix(nt.Obj().Pkg().Path(), modPath) {
				if en := c.hasOwnEncoder(nt); en != "" {
					w = path + " has an encoder of its own (" + en + "), whose output is not analysed"
				}
			}
			if it, ok := ty.Underlying().(*types.Interface); ok && typeName(ty) != "protocol.DirectoryResponse" {
				for _, im := range c.p.Implementers(it) {
					encoded(im, "json", func(t2 types.Type, p2 string) bool {
						if what := bad[typeName(t2)]; what != "" && it.NumMethods() > 0 {
							w = path + p2 + " puts " + what + " into a response"
						}
						return true
					})
				}
			}
			return true
		})
		rt.check(w == "", "response body "+typeName(s), c.p.Pos(resPos(s)), "%s", w)
	}
	c.namesFlow(rn, t)
	// indices
	for _, s := range c.callSites(func(g *ssa.Function) bool { return g == d.get || g == d.set }) {
		if isTestHelper(c, s.Fn) {
			continue
		}
		g := s.In.(ssa.CallInstruction).Common().StaticCallee()
		e := c.run(s.Fn, d.opts("C17"))
		saw := false
		for _, x := range e.Exits {
			for _, ev := range x.St.allEvents() {
				if ev.Kind != "call" || ev.Fn != g || ev.In != fnName(s.Fn) {
					continue
				}
				saw = true
				w := ""
				ix := ev.Args[1]
				switch {
				case ix.Op != OCall || ix.Aux != "VRF.index":
					w = "the index is not the VRF output of the name"
				case !isReadOf(ix.Args[0], "merkletree.PAD."+d.vk):
					w = "the index is not computed with the directory's VRF key"
				case g == d.set && strip(ix.Args[1]) != strip(ev.Args[2]):
					w = "the index is not the one of the name stored"
				}
				ri.check(w == "", fnName(g)+" from "+fnName(s.Fn), ev.Pos, "%s", w)
			}
		}
		if !saw {
			ri.fail(fnName(g)+" from "+fnName(s.Fn), c.pos(s.In), "the call was not reached by the analysis")
		}
	}
	// randomness
	for _, k := range []string{typeName(t.MT) + "." + t.nonce, "crypto.Commit.Salt"} {
		for _, s := range c.fieldStores(k) {
			if isTestHelper(c, s.Fn) {
				continue
			}
			s0, ok := s.In.(*ssa.Store)
			if !ok {
				continue
			}
			e := c.run(s.Fn, nil)
			_ = s0
			for _, x := range e.Exits {
				for _, ev := range x.St.allEvents() {
					if ev.Kind != "store" || ev.Args[0].Op != OFAddr || ev.Args[0].Aux != k || ev.In != fnName(s.Fn) {
						continue
					}
					v := ev.Args[1]
					ok := isNilT(x.St, v) || isRandT(v) || isReadOf(v, k)
					rr.check(ok, k+" in "+fnName(s.Fn), ev.Pos, "%s is set to something else than fresh randomness or the value of an existing object", k)
				}
			}
		}
	}
}

func resPos(t types.Type) (p token.Pos) {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pos()
	}
	return p
}

// isReadOf: the term is the content of the given field of some object.
func isReadOf(v *Term, key string) bool {
	for v.Op == OIface || v.Op == OConv {
		v = v.Args[0]
	}
	if v.Op != OFVal {
		return false
	}
	a := v.Aux
	if i := strings.IndexByte(a, '@'); i >= 0 {
		a = a[:i]
	}
	return a == key
}

// namesFlow follows the names kept by the directory.
func (c *Ctx) namesFlow(r *Rule, t *treeT) {
	key := typeName(t.L) + "." + t.key
	ta := c.newTaint()
	end := map[string]bool{"(crypto/vrf.PrivateKey).Prove": true, "(crypto/vrf.PrivateKey).Compute": true, "crypto.NewCommit": true, "(*crypto.Commit).Verify": true}
	ta.stop = func(ci ssa.CallInstruction, f *ssa.Function, arg int) bool { return f != nil && end[fnName(f)] }
	ns := 0
	for _, f := range c.p.Fns {
		if isTestHelper(c, f) {
			continue
		}
		c.eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && structKey(fa.X.Type(), fa.Field) == key {
					ta.add(x, x)
					ns++
				}
			case *ssa.Field:
				if structKey(x.X.Type(), x.Field) == key {
					ta.add(x, x)
					ns++
				}
			case *ssa.Range:
				if isTBMapT(x.X.Type()) {
					for _, nx := range *x.Referrers() {
						for _, ex := range *nx.(ssa.Value).Referrers() {
							if ex, ok := ex.(*ssa.Extract); ok && ex.Index == 1 {
								ta.add(ex, ex)
								ns++
							}
						}
					}
				}
			}
		})
	}
	ta.run()
	nb := 0
	for k := range ta.fields {
		if k != key {
			nb++
			r.fail("name kept in "+k, "", "a name stored in the tree flows into %s: %s", k, ta.path(ta.fields[k]))
		}
	}
	for _, v := range ta.sorted() {
		for _, in := range *refs(v) {
			switch x := in.(type) {
			case *ssa.MakeInterface:
				nb++
				r.fail("name made an interface in "+fnName(x.Parent()), c.pos(x), "a name stored in the tree may be printed or encoded: %s", ta.path(v))
			case ssa.CallInstruction:
				cm := x.Common()
				if _, ok := cm.Value.(*ssa.Builtin); ok {
					continue
				}
				ext := len(c.p.callees(x)) == 0
				for _, g := range c.p.callees(x) {
					if !end[fnName(g)] && !inRepo(g) {
						ext = true
					}
				}
				if ext && !boolOnly(x) {
					nb++
					r.fail("name passed on in "+fnName(x.Parent()), c.pos(x), "a name stored in the tree is passed to %s: %s", cm.String(), ta.path(v))
				}
			case *ssa.Send:
				nb++
				r.fail("name sent in "+fnName(x.Parent()), c.pos(x), "a name stored in the tree is sent: %s", ta.path(v))
			}
		}
	}
	if nb == 0 {
		r.ok("%d reads of names followed to %d values in the repository", ns, len(ta.vals))
	}
}

func boolOnly(ci ssa.CallInstruction) bool {
	v, ok := ci.(*ssa.Call)
	return ok && types.Identical(v.Type().Underlying(), types.Typ[types.Bool])
}

func refs(v ssa.Value) *[]ssa.Instruction {
	if r := v.Referrers(); r != nil {
		return r
	}
	return &[]ssa.Instruction{}
}

func init() {
	checks["C17"] = propC17
	expl["C17"] = "All exits of a lookup: an answer that is not for the leaf looked up carries no value and no salt. The type graph an encoder can reach from response bodies contains no tree, directory or key type. A forward dataflow from every read of a stored name finds only leaves, indices, commitments and comparisons. All call sites that put or search an index are evaluated; all writes of nonces and salts are random."
}
