package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C38: what is encoded carries what its readers rely on

func init() {
	checks["C38"] = propC38
	expl["C38"] = "For every type that is encoded (responses, requests, saved roots, configurations) the fields an encoder carries are computed from the types (export status, tags, promotion through embedded structs); no code that works on decoded values may read a field which is not carried unless it sets it itself. The encoding functions and the constructors of requests are explored."
}

// carried: the fields of a struct which an encoder driven by field tags
// writes and the matching decoder reads, and those it doesn't, with the
// reason. Fields of embedded structs are promoted as in encoding/json.
type carriedField struct {
	key  string // type.field
	v    *types.Var
	why  string // why it is not carried
	name string
	deep int
	tag  bool
	str  bool // encoded as a string holding the value
}

func carriedFields(t types.Type, tag string) []*carriedField {
	var all []*carriedField
	seen := map[string]bool{}
	var w func(t types.Type, deep int)
	w = func(t types.Type, deep int) {
		st := structOf(t)
		k := typeName(t)
		if st == nil || seen[k] {
			return
		}
		seen[k] = true
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			tv := reflect.StructTag(st.Tag(i)).Get(tag)
			name := strings.Split(tv, ",")[0]
			f := &carriedField{key: structKey(t, i), v: fd, name: name, deep: deep, tag: name != "", str: strings.Contains(tv+",", ",string,")}
			if name == "" {
				f.name = fd.Name()
			}
			emb := fd.Embedded() && structOf(fd.Type()) != nil && name == ""
			switch {
			case tv == "-":
				f.why = "is left out by its tag"
			case emb:
				w(fd.Type(), deep+1)
				_, ptr := fd.Type().Underlying().(*types.Pointer)
				if ptr && !fd.Exported() {
					f.why = "is not exported"
				}
				f.name = ""
			case !fd.Exported():
				f.why = "is not exported"
			}
			all = append(all, f)
		}
	}
	w(t, 0)
	// of several fields of one name the least deep, tagged one wins
	by := map[string][]*carriedField{}
	for _, f := range all {
		if f.why == "" && f.name != "" {
			by[f.name] = append(by[f.name], f)
		}
	}
	for _, fs := range by {
		for _, f := range fs {
			for _, g := range fs {
				if f == g {
					continue
				}
				switch {
				case g.deep < f.deep, g.deep == f.deep && g.tag && !f.tag:
					f.why = "is hidden by " + g.key + ", which has the same name"
				case g.deep == f.deep && g.tag == f.tag:
					f.why = "has the same name as " + g.key
				}
			}
		}
	}
	return all
}

// wireClosure: the structs an encoder can reach from the given types, and the
// fields which it drops there.
func (c *Ctx) wireClosure(tag string, roots ...types.Type) (structs map[string]types.Type, dropped map[string]*carriedField, odd []string) {
	structs, dropped = map[string]types.Type{}, map[string]*carriedField{}
	seen := map[string]bool{}
	kept := map[string]bool{}
	var w func(t types.Type, path string)
	w = func(t types.Type, path string) {
		k := types.TypeString(t, nil)
		if seen[k] {
			return
		}
		seen[k] = true
		if own, pair := c.codecOf(t); own {
			if !pair {
				odd = append(odd, path+": "+typeName(t)+" has an encoding of its own that is not the inverse of a decoding of its own")
			} else {
				c.assume("the encoding and decoding methods of %s are inverse", typeName(t))
			}
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			w(u.Elem(), path)
		case *types.Slice:
			w(u.Elem(), path+"[]")
		case *types.Array:
			w(u.Elem(), path+"[]")
		case *types.Map:
			w(u.Elem(), path+"[]")
		case *types.Chan, *types.Signature:
			odd = append(odd, path+": a "+t.String()+" cannot be encoded")
		case *types.Struct:
			if _, named := t.(*types.Named); named && !strings.HasPrefix(k, modulePrefix(c)) {
				return
			}
			structs[typeName(t)] = t
			for _, f := range carriedFields(t, tag) {
				if f.why != "" {
					dropped[f.key] = f
					continue
				}
				kept[f.key] = true
				if f.name == "" {
					// embedded: its fields are promoted
					structs[typeName(f.v.Type())] = f.v.Type()
					continue
				}
				w(f.v.Type(), path+"."+f.v.Name())
			}
		}
	}
	for _, t := range roots {
		w(t, typeName(t))
	}
	return
}

func modulePrefix(c *Ctx) string {
	p := c.named("protocol", "Response").Obj().Pkg().Path()
	return strings.TrimSuffix(p, "protocol")
}

// codecOf: the type has encoding or decoding methods of its own, in /repo,
// and whether it has both of one form.
func (c *Ctx) codecOf(t types.Type) (own, pair bool) {
	has := func(n string) bool {
		for _, ty := range []types.Type{t, types.NewPointer(t)} {
			if _, isPtr := t.(*types.Pointer); isPtr && ty != t {
				continue
			}
			if f := c.p.lookupMethod(ty, n, nil); f != nil && inRepo(f) {
				return true
			}
		}
		return false
	}
	for _, n := range []string{"JSON", "Text"} {
		m, u := has("Marshal"+n), has("Unmarshal"+n)
		own = own || m || u
		pair = pair || m && u
	}
	return
}

// fieldUses: the functions among fns that read (write) each field.
func (c *Ctx) fieldUses(fns map[*ssa.Function]bool) (reads, writes map[string]ssa.Instruction) {
	reads, writes = map[string]ssa.Instruction{}, map[string]ssa.Instruction{}
	for f := range fns {
		if !inRepo(f) || isTestHelper(c, f) {
			continue
		}
		c.eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Field:
				reads[structKey(x.X.Type(), x.Field)] = in
			case *ssa.FieldAddr:
				k := structKey(x.X.Type(), x.Field)
				for _, r := range *refs(x) {
					switch y := r.(type) {
					case *ssa.Store:
						if y.Addr == ssa.Value(x) {
							writes[k] = y
							continue
						}
						reads[k] = in
					case *ssa.UnOp:
						if y.Op == token.MUL {
							reads[k] = in
						}
					case *ssa.DebugRef:
					default:
						// its address is used
						reads[k] = in
						if _, ok := r.(ssa.CallInstruction); ok {
							writes[k] = in
						}
					}
				}
			}
		})
	}
	return
}

func propC38(c *Ctx) {
	rf := c.Rule("fields", "code that works on decoded responses, requests, roots and configurations reads no field the encoding leaves out, unless it sets it", 10)
	rt := c.Rule("types", "everything reachable in an encoded value has an encoding that decodes to it", 3)
	re := c.Rule("encoders", "what is encoded is the given message as a whole, and the encoding is returned as it is", 2)
	rq := c.Rule("requests", "a request made for a caller holds exactly the caller's values, under the code of its kind", 2)
	ra := c.Rule("answers", "the body of an answer is of the kind its receiver decodes for that request", 3)

	resp := c.sentTypes()
	// values encoded and decoded with JSON or TOML elsewhere
	jsonT, tomlT := map[string]types.Type{}, map[string]types.Type{}
	for _, f := range c.p.Fns {
		if !inRepo(f) || isTestHelper(c, f) {
			continue
		}
		c.eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			pk, recv, n := target(ci)
			into := jsonT
			switch {
			case pk == "encoding/json" && (strings.HasPrefix(n, "Marshal") || recv == "Encoder" && n == "Encode"):
			case pk == "github.com/BurntSushi/toml" && (n == "Marshal" || recv == "Encoder" && n == "Encode"):
				into = tomlT
			default:
				return
			}
			for _, a := range ci.Common().Args {
				if mi, ok := a.(*ssa.MakeInterface); ok && structOf(mi.X.Type()) != nil {
					into[typeName(mi.X.Type())] = mi.X.Type()
					c.sites[c.pos(in)] = true
				}
			}
		})
	}
	// configurations are encoded through an interface
	if conf := c.p.Named("application", "AppConfig"); conf != nil {
		for _, t := range c.p.Implementers(conf) {
			if _, ok := t.(*types.Pointer); ok && structOf(t) != nil {
				tomlT[typeName(t)] = t
			}
		}
	}
	sorted := func(m map[string]types.Type) (r []types.Type) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r = append(r, m[k])
		}
		return
	}
	for _, t := range resp {
		delete(jsonT, typeName(t))
	}
	var reqs []types.Type
	for _, k := range c.reqKinds() {
		reqs = append(reqs, ptrTo(k))
	}
	sort.Slice(reqs, func(i, j int) bool { return typeName(reqs[i]) < typeName(reqs[j]) })

	// readers
	var ofResp, ofReq, ofConf, ofHist []*ssa.Function
	for _, f := range c.p.Fns {
		if f.Synthetic != "" || isTestHelper(c, f) {
			continue
		}
		if strings.HasPrefix(fnPkg(f), "cli/") && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
			ofConf = append(ofConf, f)
		}
		if f.Parent() != nil {
			continue
		}
		exp := f.Object() != nil && f.Object().Exported()
		takes := func(names ...string) bool {
			for _, p := range f.Params {
				for _, n := range names {
					if isPtrTo(p.Type(), n) {
						return true
					}
					if s, ok := p.Type().Underlying().(*types.Slice); ok && isPtrTo(s.Elem(), n) {
						return true
					}
				}
			}
			return false
		}
		if pk := fnPkg(f); exp && (pk == "protocol/directory" && takes("protocol.STRHistoryRequest") || pk == "protocol/auditlog" && takes("protocol.AuditingRequest")) {
			ofHist = append(ofHist, f)
		}
		switch pk := fnPkg(f); {
		case (pk == "protocol/client" || pk == "protocol/auditor") && exp:
			ofResp = append(ofResp, f)
		case pk == "protocol/auditlog" && exp && takes("protocol.Response", "protocol.DirSTR"):
			ofResp = append(ofResp, f)
		case pk == "protocol/directory" && exp:
			for _, k := range reqs {
				if takes(typeName(elemOf(k))) {
					ofReq = append(ofReq, f)
					break
				}
			}
		}
		for _, t := range sorted(tomlT) {
			if len(f.Params) > 0 && f.Signature.Recv() != nil && types.Identical(f.Params[0].Type(), t) && f.Name() == "Load" {
				ofConf = append(ofConf, f)
			}
		}
	}
	part := func(what, tag string, roots []types.Type, readers []*ssa.Function) {
		structs, dropped, odd := c.wireClosure(tag, roots...)
		for _, o := range odd {
			rt.fail(what, "", "%s", o)
		}
		if len(odd) == 0 {
			rt.ok("%s: %d struct types", what, len(structs))
		}
		if len(readers) == 0 {
			panic(anchorErr{"readers of " + what})
		}
		type useEv struct {
			in    ssa.Instruction
			wrote bool
		}
		uses := map[string]useEv{}
		for _, r := range readers {
			rs, ws := c.fieldUses(c.reachableFrom(r))
			for k, in := range rs {
				// a reader that depends on the encoding outweighs others
				if u, ok := uses[k]; !ok || u.wrote {
					uses[k] = useEv{in, ws[k] != nil}
				}
			}
		}
		var ks []string
		for k := range structs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			st := structOf(structs[k])
			if st == nil {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				key := structKey(structs[k], i)
				f := dropped[key]
				in := uses[key].in
				switch {
				case in == nil:
				case f == nil:
					rf.ok("%s: %s", what, key)
				case uses[key].wrote:
					rf.ok("%s: %s is set by its readers", what, key)
				default:
					rf.fail(key, c.pos(in), "%s reads %s of what was decoded, but the field %s", fnName(in.Parent()), key, f.why)
				}
			}
		}
	}
	part("responses and roots", "json", append(resp, sorted(jsonT)...), ofResp)
	part("requests", "json", append([]types.Type{ptrTo(c.named("protocol", "Request"))}, reqs...), ofReq)
	part("configurations", "toml", sorted(tomlT), ofConf)

	// encoders
	for _, n := range []string{"MarshalResponse", "MarshalRequest"} {
		f := c.fn("application", n)
		e := c.run(f, nil)
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			if x.class() == retErr {
				continue
			}
			st := x.St
			for _, ev := range st.allEvents() {
				if (ev.Kind == "store" || ev.Kind == "mapset" || ev.Kind == "mapdel") && len(ev.Args) > 0 {
					re.check(freshBase(ev.Args[0]), n+" writes", ev.Pos, "encoding a message changes it (%s)", ev.Name)
				}
			}
			ok, why := false, "no encoder is called"
			for _, ev := range st.Events() {
				if ev.Kind != "call" || len(ev.Args) == 0 {
					continue
				}
				var val *Term
				switch {
				case strings.HasPrefix(ev.Name, "encoding/json.Marshal"):
					val = ev.Args[0]
					if ev.Res != nil && ev.Res.Op == OTuple && x.Res[0] != ev.Res.Args[0] && e.content(st, x.Res[0]) != ev.Res.Args[0] && e.content(st, x.Res[0]) != e.content(st, ev.Res.Args[0]) {
						why = "the encoding is not what is returned"
						continue
					}
				case strings.HasSuffix(ev.Name, "encoding/json.Encoder).Encode") && len(ev.Args) > 1:
					val = ev.Args[1]
				default:
					continue
				}
				v := unIface(val)
				if n == "MarshalResponse" {
					why = "what is encoded is not the given response"
					ok = ok || v == e.arg(0).T
					continue
				}
				why = "what is encoded is not the given request"
				ty := v.T
				if ty == nil {
					continue
				}
				var parts []*Term
				if s := structOf(ty); s != nil {
					for i := 0; i < s.NumFields(); i++ {
						parts = append(parts, e.sel(st, V{v, ty}, s.Field(i).Name()).T)
					}
				}
				have := 0
				for _, a := range e.Args {
					for _, p := range parts {
						if p == a {
							have++
							break
						}
					}
				}
				ok = ok || have == len(e.Args)
			}
			re.check(ok, n, x.where(), "%s", why)
		}
	}

	// envelopes decoded into a type other than the encoded one
	rd := c.Rule("decoders", "what a message is decoded into has every field of what was encoded, under the same name", 2)
	for n, want := range map[string]types.Type{
		"UnmarshalResponse": c.named("protocol", "Response"),
		"UnmarshalRequest":  c.named("protocol", "Request"),
	} {
		f := c.fn("application", n)
		found := map[string]types.Type{}
		for h := range c.reachableFrom(f) {
			if fnPkg(h) != "application" {
				continue
			}
			c.eachInstr(h, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				pk, recv, m := target(ci)
				if pk != "encoding/json" || !(m == "Unmarshal" || recv == "Decoder" && m == "Decode") {
					return
				}
				for _, a := range ci.Common().Args {
					mi, ok := a.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					t := mi.X.Type()
					for elemOf(t) != nil {
						t = elemOf(t)
					}
					if structOf(t) == nil {
						continue
					}
					// the type of a message: has a field for the body
					for _, g := range carriedFields(want, "json") {
						for _, h := range carriedFields(t, "json") {
							if g.why == "" && h.why == "" && strings.EqualFold(g.name, h.name) {
								found[c.pos(in)] = t
							}
						}
					}
				}
			})
		}
		if len(found) == 0 {
			rd.fail(n, "", "no decoding of the fields of %s is found", typeName(want))
		}
		for pos, t := range found {
			for _, g := range carriedFields(want, "json") {
				have := false
				for _, h := range carriedFields(t, "json") {
					have = have || h.why == "" && strings.EqualFold(g.name, h.name) && g.str == h.str
				}
				rd.check(have && g.why == "", n, pos, "the field %s of what was encoded is not decoded", g.key)
			}
		}
	}

	// requests made for a caller
	mr := c.fn("application", "MarshalRequest")
	codes := map[string]int64{}
	for k, t := range c.reqKinds() {
		codes[typeName(t)] = k
	}
	for _, s := range c.callSites(func(h *ssa.Function) bool { return h == mr }) {
		f := s.Fn
		if isTestHelper(c, f) || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		e := c.run(f, &Opts{Name: "carry", Opaque: func(g *ssa.Function) (bool, bool) { return g == mr, g == mr }})
		for _, x := range e.Exits {
			if x.Kind != "return" || x.class() == retErr {
				continue
			}
			ok, why := false, "no request is encoded"
			for _, ev := range x.St.Events() {
				if ev.Kind != "call" || fnOf(ev) != mr || len(ev.Args) != 2 {
					continue
				}
				body := unIface(ev.Args[1])
				st := structOf(body.T)
				if body.T == nil || st == nil {
					why = "the body of the request is not known"
					continue
				}
				ok = true
				for i, p := range f.Params {
					if !isString(p.Type()) && !isBytesT(p.Type()) && !isInteger(p.Type()) {
						continue
					}
					have := 0
					for j := 0; j < st.NumFields(); j++ {
						v := e.content(x.St, e.sel(x.St, V{body, body.T}, st.Field(j).Name()).T)
						if v == e.content(x.St, e.Args[i]) && types.Identical(st.Field(j).Type().Underlying(), p.Type().Underlying()) {
							have++
						}
					}
					if isInteger(p.Type()) && ev.Args[0] == e.Args[i] {
						have++
					}
					if have == 0 {
						ok, why = false, fmt.Sprintf("the caller's %s is not in the request", p.Name())
					} else if have > 1 {
						ok, why = false, fmt.Sprintf("the caller's %s is in the request twice", p.Name())
					}
				}
				if ev.Res != nil && ev.Res.Op == OTuple && x.Res[0] != ev.Res.Args[0] {
					ok, why = false, "what is returned is not the encoded request"
				}
			}
			rq.check(ok, fnName(f), x.where(), "%s", why)
		}
	}

	// kinds of answers
	g := c.fn("application", "UnmarshalResponse")
	decoded := func(k int64) map[string]bool {
		r := map[string]bool{}
		e := c.run(g, &Opts{Name: "t" + itoa(k), Pre: func(st *State, args []*Term) {
			for i, p := range g.Params {
				if isInteger(p.Type()) {
					st.assume(EqI(args[i], intConst(k, p.Type())))
				}
			}
		}})
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			b := e.sel(x.St, V{x.Res[0], ptrTo(c.named("protocol", "Response"))}, "DirectoryResponse").T
			if b.Op == OIface {
				r[typeName(b.Obj.(types.Type))] = true
			}
		}
		return r
	}
	dec := map[string]map[string]bool{} // request kind -> body kinds
	for k, kind := range c.reqKinds() {
		dec[typeName(kind)] = decoded(k)
	}
	// histories of roots are asked for by auditors and by their clients
	if ks := dec[typeName(c.named("protocol", "STRHistoryRequest"))]; ks == nil {
		n := typeName(c.named("protocol", "STRHistoryRequest"))
		dec[n] = decoded(c.constVal("protocol", "STRType"))
		dec[typeName(c.named("protocol", "AuditingRequest"))] = dec[n]
	}
	for _, f := range append(ofReq, ofHist...) {
		kind := ""
		for _, p := range f.Params {
			if t := elemOf(p.Type()); t != nil && dec[typeName(t)] != nil {
				kind = typeName(t)
			}
		}
		if kind == "" || f.Signature.Results().Len() == 0 || !isPtrTo(f.Signature.Results().At(0).Type(), "protocol.Response") {
			continue
		}
		e := c.run(f, nil)
		seen := map[string]bool{}
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			b := e.sel(x.St, V{x.Res[0], f.Signature.Results().At(0).Type()}, "DirectoryResponse").T
			if b.Op == OIface {
				tn := typeName(b.Obj.(types.Type))
				seen[tn] = true
				ra.check(dec[kind][tn], "answer of "+fnName(f), x.where(), "answers a %s with a %s, which is not what the client decodes", kind, tn)
			}
		}
	}
}
