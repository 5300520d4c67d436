package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C31: loading configurations

func isPathFn(t *Term, n string) bool {
	return t.Op == OCall && (callName(t) == "path/filepath."+n || callName(t) == "path."+n)
}

// resolved: the state shows that t is the path raw, taken relative to the
// directory of the configuration file unless absolute.
func (c *Ctx) resolved(st *State, t, file *Term) (raw *Term, ok bool) {
	for t.Op == OCall && isPathFn(t, "Clean") {
		t = t.Args[0]
	}
	abs := func(r *Term, neg bool) bool {
		is := func(f *Term) bool {
			if isPathFn(f, "IsAbs") {
				return f.Args[0] == r
			}
			if f.Op == OCall && callName(f) == "strings.HasPrefix" && f.Args[0] == r {
				s, ok := f.Args[1].Str()
				return ok && s == "/"
			}
			return false
		}
		if neg {
			return st.negFact(is) != nil
		}
		return st.posFact(is) != nil
	}
	dir := func(d *Term) bool { return isPathFn(d, "Dir") && d.Args[0] == file }
	if isPathFn(t, "Join") && len(t.Args) == 1 {
		if l := parts(t.Args[0]); len(l) == 2 {
			d, r := unElem(l[0]), unElem(l[1])
			return r, dir(d) && abs(r, true)
		}
		return nil, false
	}
	if t.Op == OCat && len(t.Args) == 3 {
		s, isS := t.Args[1].Str()
		return t.Args[2], isS && s == "/" && dir(t.Args[0]) && abs(t.Args[2], true)
	}
	return t, abs(t, false)
}

func unElem(t *Term) *Term {
	if t.Op == OElem {
		return t.Args[0]
	}
	return t
}

// fieldName: the name of the field a value was read from.
func fieldName(t *Term) string {
	s := t.String()
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.IndexAny(s, "@#"); i >= 0 {
		s = s[:i]
	}
	return s
}

// fileReads: the files read on a path.
type fileRead struct {
	ev            *Event
	path, res, er *Term
}

func fileReads(st *State) []fileRead {
	var r []fileRead
	for _, le := range st.allEvents() {
		ev := le.Event
		if ev.Kind == "call" && (ev.Name == "io/ioutil.ReadFile" || ev.Name == "os.ReadFile") && ev.Res != nil && ev.Res.Op == OTuple {
			r = append(r, fileRead{ev, ev.Args[0], ev.Res.Args[0], ev.Res.Args[1]})
		}
	}
	return r
}

// keySize: the length of keys of the type.
func (c *Ctx) keySize(t types.Type) (int64, string) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return 0, ""
	}
	switch rel(n.Obj().Pkg().Path()) + "." + n.Obj().Name() {
	case "crypto/sign.PrivateKey":
		return c.constVal("crypto/sign", "PrivateKeySize"), "sign"
	case "crypto/sign.PublicKey":
		return c.constVal("crypto/sign", "PublicKeySize"), "sign"
	case "crypto/vrf.PrivateKey":
		return c.constVal("crypto/vrf", "PrivateKeySize"), "vrf"
	case "crypto/vrf.PublicKey":
		return c.constVal("crypto/vrf", "PublicKeySize"), "vrf"
	}
	return 0, ""
}

// decodedFrom: every field of the object comes from one decoding of data.
func (c *Ctx) completeSTR(e *Engine, st *State, v V, rds []fileRead) (fileRead, string) {
	if !st.knownNonNil(v.T) {
		return fileRead{}, "the initial root may be absent"
	}
	data, ok := contentOf(e, st, v, decodesOf(st))
	if !ok {
		return fileRead{}, "the initial root is not what the file holds"
	}
	okDec := false
	for _, d := range decodesOf(st) {
		okDec = okDec || d.data == data && st.knownNil(d.err)
	}
	if !okDec {
		return fileRead{}, "an initial root that did not parse is used"
	}
	for _, f := range []string{"SignedTreeRoot", "Policies"} {
		if !st.knownNonNil(e.sel(st, v, f).T) {
			return fileRead{}, "an initial root without its " + f + " is accepted"
		}
	}
	if ep := e.sel(st, v, "SignedTreeRoot.Epoch"); !st.Holds(EqI(ep.T, intConst(0, ep.T.T))) {
		return fileRead{}, "a root of another epoch than 0 is accepted as the initial one"
	}
	for _, r := range rds {
		if unConv(data) == r.res {
			return r, ""
		}
	}
	return fileRead{}, "the initial root is not decoded from the content of the file"
}

func unConv(t *Term) *Term {
	for t.Op == OConv || t.Op == OSub && len(t.Args) == 3 && isZeroT(t.Args[1]) && t.Args[2] == mkLen(t.Args[0]) {
		t = t.Args[0]
	}
	return t
}

func isZeroT(t *Term) bool { v, ok := t.Int(); return ok && v == 0 }

func propC31(c *Ctx) {
	rd := c.Rule("decoding", "a configuration is accepted only if the named file was decoded without error into it", 3)
	rp := c.Rule("paths", "every file a configuration refers to is looked for relative to the configuration's directory, unless its path is absolute, and under the path configured for it", 8)
	rr := c.Rule("missing files", "a file that cannot be read makes loading fail", 6)
	rk := c.Rule("keys", "an accepted configuration holds the content of its key files, whose length was checked", 3)
	rs := c.Rule("initial root", "an accepted initial root was decoded without error from its file, is complete, and is of epoch 0", 1)
	rh := c.Rule("no half-loaded results", "a loader that fails returns nothing to use, and whoever asked for the configuration does not use it", 5)
	rc := c.Rule("no crash", "no content of the files crashes the loader", 3)
	ro := c.Rule("one way in", "configurations, keys and roots are read by these loaders only", 3)

	ac := c.named("application", "AppConfig")
	loaders := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	for _, t := range c.p.Implementers(ac.Underlying()) {
		f := c.p.lookupMethod(t, "Load", nil)
		if f == nil || f.Blocks == nil {
			panic(anchorErr{"method Load of " + typeName(t)})
		}
		if f.Synthetic == "" && !loaders[f] {
			loaders[f] = true
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		panic(anchorErr{"an implementation of AppConfig.Load"})
	}

	noCrash := func(f *ssa.Function, e *Engine) {
		bad := ""
		for _, x := range e.Exits {
			if x.Kind != "return" {
				bad = x.Kind + " at " + x.where()
			}
		}
		for _, o := range e.Obls {
			if !o.OK && !(len(f.Params) > 0 && o.Subj == e.arg(0).T && o.Kind == "nil") {
				bad = "possible " + o.Kind + " error at " + o.Pos
			}
		}
		rc.check(bad == "", fnName(f), c.p.Pos(f.Pos()), "loading may end in a crash: %s", bad)
	}
	read := func(f *ssa.Function, x *Exit, file *Term, accepted bool) []fileRead {
		st := x.St
		rds := fileReads(st)
		for _, r := range rds {
			n := "file read in " + fnName(f)
			if r.path == file {
				continue // the configuration itself
			}
			raw, ok := c.resolved(st, r.path, file)
			rp.check(ok, n, r.ev.Pos, "a file is looked for at %s, not relative to the configuration file", shorten(r.path.String()))
			_ = raw
			if accepted {
				rr.check(st.knownNil(r.er), n, r.ev.Pos, "loading succeeds although a file could not be read")
			}
		}
		return rds
	}

	for _, f := range roots {
		e := c.run(f, nil)
		noCrash(f, e)
		file := e.arg(1).T
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			err := errOf(x)
			if st.knownNonNil(err) {
				read(f, x, file, false)
				rh.ok("%s refuses (%s)", fnName(f), x.where())
				continue
			}
			rds := read(f, x, file, true)
			// the file itself; every error not known to be absent is the result
			dec := false
			for _, ev := range st.Events() {
				if ev.Kind != "call" || !strings.HasPrefix(ev.Name, "github.com/BurntSushi/toml.Decode") && ev.Name != "github.com/BurntSushi/toml.Unmarshal" || ev.Res == nil || ev.Res.Op != OTuple {
					continue
				}
				de := ev.Res.Args[errResult2(ev)]
				src := ev.Args[0] == file && strings.HasSuffix(ev.Name, "DecodeFile")
				for _, r := range rds {
					if unConv(ev.Args[0]) == r.res && r.path == file && !strings.HasSuffix(ev.Name, "DecodeFile") {
						src = true
					}
				}
				if src && unIface(ev.Args[1]) == e.arg(0).T && (st.knownNil(de) || de == err) {
					dec = true
				}
			}
			rd.check(dec, fnName(f), x.where(), "a configuration is accepted although its file was not decoded into it without error")
			if !st.knownNil(err) {
				continue // the decoder's own verdict is the result
			}
			// what it refers to
			bad := ""
			nk := 0
			var visit func(v V, path string, depth int)
			visit = func(v V, path string, depth int) {
				s, ok := elemOf2(v.Ty).Underlying().(*types.Struct)
				if !ok || depth > 2 {
					return
				}
				for i := 0; i < s.NumFields(); i++ {
					fl := s.Field(i)
					name := strings.TrimPrefix(path+"."+fl.Name(), ".")
					if size, kind := c.keySize(fl.Type()); size > 0 {
						nk++
						k := e.sel1(st, v, i)
						val := unConv(e.content(st, k.T))
						found := false
						for _, r := range rds {
							if val != r.res {
								continue
							}
							found = true
							raw, _ := c.resolved(st, r.path, file)
							if raw == nil || !strings.Contains(strings.ToLower(fieldName(raw)), kind) {
								bad = name + " is read from the file configured for something else"
							}
						}
						if !found {
							bad = name + " is not the content of a key file"
						}
						if !st.Holds(EqI(mkLen(k.T), intConst(size, types.Typ[types.Int]))) && !st.Holds(EqI(mkLen(val), intConst(size, types.Typ[types.Int]))) {
							bad = name + " may have a wrong length"
						}
						rk.check(bad == "", name+" in "+fnName(f), x.where(), "%s", bad)
						continue
					}
					if isPtrTo(fl.Type(), "protocol.DirSTR") {
						r, why := c.completeSTR(e, st, e.sel1(st, v, i), rds)
						if why == "" {
							raw, _ := c.resolved(st, r.path, file)
							if raw == nil || !strings.Contains(strings.ToLower(fieldName(raw)), "str") {
								why = "the initial root is read from the file configured for something else"
							}
						}
						rs.check(why == "", name+" in "+fnName(f), x.where(), "%s", why)
						continue
					}
					if n, ok := elemOf2(fl.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(rel(n.Obj().Pkg().Path()), "application") {
						if _, isPtr := fl.Type().Underlying().(*types.Pointer); isPtr || !fl.Embedded() {
							visit(e.sel1(st, v, i), name, depth+1)
						}
						continue
					}
				}
			}
			visit(e.arg(0), "", 0)
			// paths that are used later
			recvT := elemOf(e.arg(0).Ty)
			if _, ok := fieldIndex(recvT, "Addresses"); ok {
				addrs := e.sel(st, e.arg(0), "Addresses")
				n := mkLen(e.content(st, addrs.T))
				for _, pf := range []string{"TLSCertPath", "TLSKeyPath"} {
					ok := st.forall(0, n, func(a *State, idx *Term) bool {
						el := e.at(a, addrs, idx)
						raw, ok := c.resolved(a, e.sel(a, el, pf).T, file)
						return ok && fieldName(raw) == pf
					})
					rp.check(ok, pf+" in "+fnName(f), x.where(), "the %s of an address is not resolved relative to the configuration file", pf)
				}
			}
			if _, ok := fieldIndex(recvT, "Policies"); ok {
				lg := e.sel(st, e.arg(0), "Logger")
				if st.knownNonNil(lg.T) {
					p := e.sel(st, lg, "Path").T
					raw, ok := c.resolved(st, p, file)
					ok = ok && fieldName(raw) == "Path" || st.Holds(EqI(mkLen(p), intConst(0, types.Typ[types.Int])))
					rp.check(ok, "log file in "+fnName(f), x.where(), "the path of the log file is not resolved relative to the configuration file")
				}
			}
		}
	}

	// loaders that return what they loaded
	for _, f := range c.p.Fns {
		if fnPkg(f) != "application" || f.Signature.Recv() != nil || !strings.HasPrefix(f.Name(), "Load") || errResult(f.Signature) < 0 || f.Signature.Results().Len() < 2 {
			continue
		}
		loaders[f] = true
		e := c.run(f, nil)
		noCrash(f, e)
		ei := errResult(f.Signature)
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			st := x.St
			if !st.knownNil(x.Res[ei]) {
				ok := true
				for i, r := range x.Res {
					if i != ei && !st.knownNil(r) {
						ok = false
					}
				}
				rh.check(ok, fnName(f), x.where(), "%s returns an error together with something to use", f.Name())
				if len(f.Params) > 1 {
					read(f, x, e.arg(1).T, false)
				}
				continue
			}
			var rds []fileRead
			if len(f.Params) > 1 {
				rds = read(f, x, e.arg(1).T, true)
			}
			for i := range x.Res {
				if i == ei {
					continue
				}
				rt := f.Signature.Results().At(i).Type()
				path := func(r fileRead) bool {
					raw, _ := c.resolved(st, r.path, e.arg(1).T)
					return raw == e.arg(0).T
				}
				switch size, _ := c.keySize(rt); {
				case size > 0:
					val := unConv(e.content(st, x.Res[i]))
					ok := false
					for _, r := range rds {
						ok = ok || r.res == val && path(r)
					}
					ok = ok && (st.Holds(EqI(mkLen(val), intConst(size, types.Typ[types.Int]))) || st.Holds(EqI(mkLen(x.Res[i]), intConst(size, types.Typ[types.Int]))))
					rk.check(ok, fnName(f), x.where(), "%s returns a key that is not the %d bytes of the key file", f.Name(), size)
				case isPtrTo(rt, "protocol.DirSTR"):
					r, why := c.completeSTR(e, st, V{x.Res[i], rt}, rds)
					if why == "" && !path(r) {
						why = "the initial root is read from another file than the given one"
					}
					rs.check(why == "", fnName(f), x.where(), "%s", why)
				default:
					ok := false
					for _, ev := range st.Events() {
						if ev.Kind == "call" && strings.HasPrefix(ev.Name, "github.com/BurntSushi/toml.Decode") && ev.Res != nil && ev.Res.Op == OTuple {
							ok = ok || ev.Args[0] == e.arg(0).T && st.knownNil(ev.Res.Args[errResult2(ev)])
						}
					}
					rd.check(ok, fnName(f), x.where(), "%s returns a configuration that was not decoded without error from the file", f.Name())
				}
			}
		}
	}

	// the decoders behind Load report their error
	for _, t := range c.p.Implementers(c.named("application", "ConfigLoader").Underlying()) {
		if f := c.p.lookupMethod(t, "Decode", nil); f != nil && f.Blocks != nil && f.Synthetic == "" {
			loaders[f] = true
		}
	}

	// whoever loads a configuration
	isLoad := func(g *ssa.Function) bool {
		for _, f := range roots {
			if f == g {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	for _, s := range c.callSites(isLoad) {
		f := s.Fn
		if isTestHelper(c, f) || loaders[f] || seen[f] {
			continue
		}
		seen[f] = true
		e := c.run(f, &Opts{Name: "c31", Opaque: func(g *ssa.Function) (bool, bool) {
			if isLoad(g) {
				return true, true
			}
			// what is done with the configuration does not matter here
			return true, fnPkg(g) != fnPkg(f) && inRepo(g)
		}})
		for _, x := range e.Exits {
			st := x.St
			evs := st.Events()
			for i, ev := range evs {
				if ev.Kind != "call" || fnOf(ev) == nil || !isLoad(fnOf(ev)) || ev.Res == nil {
					continue
				}
				if st.knownNil(ev.Res) {
					rh.ok("%s uses what it loaded (%s)", fnName(f), x.where())
					continue
				}
				conf := ev.Args[0]
				var uses func(t *Term) bool
				uses = func(t *Term) bool {
					switch {
					case t == nil || t == ev.Res:
						return false
					case t == conf || (t.Op == OOut || t.Op == OHav) && t.T != nil && types.Identical(elemOf2(t.T), elemOf2(ev.Args[0].T)):
						return true
					}
					for _, a := range t.Args {
						if uses(a) {
							return true
						}
					}
					return false
				}
				bad := ""
				for _, r := range x.Res {
					if x.Kind == "return" && uses(r) && !(len(x.Res) > 1 && st.knownNonNil(x.Res[len(x.Res)-1])) {
						bad = "is returned"
					}
				}
				for _, u := range evs[i+1:] {
					if u.Kind == "ret" || u.Kind == "load" {
						continue
					}
					for _, a := range u.Args {
						if uses(a) {
							bad = "is used at " + u.Pos
						}
					}
				}
				rh.check(bad == "", "configuration loaded in "+fnName(f), x.where(), "a configuration whose loading failed %s", bad)
			}
		}
	}

	// reading of files elsewhere
	in := c.partOf(loaders)
	for _, pn := range [][2]string{{"io/ioutil", "ReadFile"}, {"os", "ReadFile"}, {"github.com/BurntSushi/toml", "DecodeFile"}, {"github.com/BurntSushi/toml", "Decode"}, {"github.com/BurntSushi/toml", "Unmarshal"}} {
		for _, s := range c.callSites2(pn[0], pn[1]) {
			if c.testSite(s) {
				continue
			}
			ro.check(in(s.Fn), pn[1]+" in "+fnName(s.Fn), c.pos(s.In), "a file is read outside of the checked loaders")
		}
	}

	// where the server leaves its initial root
	save := c.fn("application", "SaveSTR")
	for _, s := range c.callSites(func(g *ssa.Function) bool { return g == save }) {
		f := s.Fn
		if isTestHelper(c, f) {
			continue
		}
		e := c.run(f, &Opts{Name: "c31s", Opaque: func(g *ssa.Function) (bool, bool) {
			return true, g == save || inRepo(g) && fnPkg(g) != "utils" && fnPkg(g) != fnPkg(f)
		}})
		for _, x := range e.Exits {
			for _, ev := range x.St.Events() {
				if ev.Kind != "call" || fnOf(ev) != save {
					continue
				}
				ok := false
				// relative to the path of some configuration
				dirOf := func(t *Term) *Term {
					var d *Term
					anySub(t, func(s *Term) bool {
						if isPathFn(s, "Dir") {
							d = s.Args[0]
						}
						return false
					})
					return d
				}
				d := dirOf(ev.Args[0])
				if d == nil {
					d = Nil
				}
				raw, r := c.resolved(x.St, ev.Args[0], d)
				ok = r && fieldName(raw) == "InitSTRPath" && (d == Nil || fieldName(d) == "Path")
				rp.check(ok, "SaveSTR in "+fnName(f), ev.Pos, "the initial root is saved to %s, not relative to the configuration file", shorten(ev.Args[0].String()))
			}
		}
	}
}

// errResult2: the index of the error among the results of an external call.
func errResult2(ev *Event) int {
	for i, r := range ev.Res.Args {
		if r.T != nil && isErrorType(r.T) {
			return i
		}
	}
	return 0
}

func init() {
	checks["C31"] = propC31
	expl["C31"] = "all paths of every configuration loader and of the loaders of keys and roots, every caller of them, and every place where a file is read"
}
