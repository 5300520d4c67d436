package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: where private keys may flow.

// secretT: the type of a private signing or VRF key, or of a pointer to one.
func secretT(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch typeName(t) {
	case "crypto/sign.PrivateKey", "crypto/vrf.PrivateKey":
		return true
	}
	return false
}

// derives: calls whose results are meant to be published.
func derives(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	switch f.Name() {
	case "Sign", "Public", "Prove", "Compute":
	default:
		return false
	}
	if f.Signature.Recv() != nil {
		return secretT(f.Signature.Recv().Type()) || strings.HasSuffix(types.TypeString(f.Signature.Recv().Type(), nil), "crypto/ed25519.PrivateKey")
	}
	return strings.HasSuffix(pkgOf(f), "crypto/ed25519")
}

func pkgOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// target: package, receiver type and name of what a call calls.
func target(ci ssa.CallInstruction) (pkg, recv, name string) {
	cm := ci.Common()
	if cm.IsInvoke() {
		ty := cm.Value.Type()
		if n, ok := ty.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path(), n.Obj().Name(), cm.Method.Name()
		}
		if cm.Method.Pkg() != nil {
			return cm.Method.Pkg().Path(), "interface", cm.Method.Name()
		}
		return "", "interface", cm.Method.Name()
	}
	if g := cm.StaticCallee(); g != nil {
		if r := g.Signature.Recv(); r != nil {
			rt := r.Type()
			if p, ok := rt.(*types.Pointer); ok {
				rt = p.Elem()
			}
			recv = rt.String()
			if n, ok := rt.(*types.Named); ok {
				recv = n.Obj().Name()
			}
		}
		return pkgOf(g), recv, g.Name()
	}
	return "", "", "a function value"
}

// computes: the function only computes its results (and what it stores in its
// arguments) from its arguments.
func computes(ci ssa.CallInstruction) bool {
	pkg, recv, name := target(ci)
	writer := strings.HasPrefix(name, "Write")
	switch {
	case pkg == "crypto/tls", strings.HasPrefix(pkg, "golang.org/x/crypto/ssh"), strings.HasPrefix(pkg, "golang.org/x/crypto/openpgp"):
		return false
	case pkg == "hash", pkg == "bytes" && recv != "" && name != "WriteTo", pkg == "strings" && recv == "Builder",
		strings.HasPrefix(pkg, "crypto/sha"), pkg == "crypto/hmac", pkg == "golang.org/x/crypto/sha3", pkg == "golang.org/x/crypto/blake2b":
		return true
	case writer:
		return false
	case strings.HasPrefix(pkg, "crypto/"), strings.HasPrefix(pkg, "golang.org/x/crypto/"), pkg == "crypto":
		return true
	case pkg == "io":
		return name == "ReadFull" || name == "ReadAtLeast"
	case pkg == "fmt":
		return strings.HasPrefix(name, "Sprint") || strings.HasPrefix(name, "Append") || name == "Errorf"
	}
	switch pkg {
	case "bytes", "strings", "strconv", "errors", "hash", "encoding/hex", "encoding/base64", "encoding/base32", "encoding/binary", "encoding/pem", "encoding/asn1", "math/big", "sort", "slices", "unicode/utf8", "math/bits":
		return recv == "" || writer == false && recv != "Encoder"
	case "encoding/json":
		return strings.HasPrefix(name, "Marshal")
	}
	return false
}

// keyTaint: everything computed from a private key, except what a signature,
// an index, a proof or a public key is.
func (c *Ctx) keyTaint() *taint {
	t := c.newTaint()
	t.stop = func(ci ssa.CallInstruction, f *ssa.Function, arg int) bool {
		return arg == -1 && derives(f) || f != nil && f.Blocks == nil && derives(f) || f != nil && !inRepo(f) && derives(f)
	}
	t.result = func(ci ssa.CallInstruction, g *ssa.Function, ty types.Type) bool {
		pkg, _, name := target(ci)
		if pkg == "fmt" && name == "Errorf" || pkg == "errors" {
			return true
		}
		if isErrorType(ty) {
			return false
		}
		if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (strings.HasPrefix(name, "Write") || strings.HasPrefix(name, "Read") || strings.HasPrefix(name, "Fprint") || strings.HasPrefix(name, "Print")) {
			return false // a number of bytes
		}
		return true
	}
	t.writes = func(ci ssa.CallInstruction, g *ssa.Function, arg int) bool {
		pkg, _, name := target(ci)
		if pkg == "os" {
			return false
		}
		if strings.HasPrefix(name, "Write") || strings.HasPrefix(name, "Sum") || strings.HasPrefix(name, "Fprint") {
			// the receiver or the writer
			return arg == 0
		}
		if name == "Read" || name == "ReadFull" || name == "ReadAtLeast" {
			// what is read goes into the buffer; the reader doesn't keep it
			args := ci.Common().Args
			if ci.Common().IsInvoke() {
				arg--
			}
			if arg < 0 || arg >= len(args) {
				return false
			}
			_, ok := args[arg].Type().Underlying().(*types.Slice)
			return ok
		}
		switch {
		case strings.HasSuffix(pkg, "crypto/ed25519"), pkg == "bytes" && name != "Read" && name != "ReadFrom", pkg == "crypto/subtle" && name != "ConstantTimeCopy":
			return false
		case pkg == "os", pkg == "io/ioutil", pkg == "fmt", pkg == "strings":
			return false
		}
		return true
	}
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value)
	back = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		if !secretT(v.Type()) {
			if _, ok := v.(*ssa.Parameter); !ok {
				t.add(v, v)
			}
		}
		switch x := v.(type) {
		case *ssa.ChangeType:
			back(x.X)
		case *ssa.Convert:
			back(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				back(e)
			}
		case *ssa.Slice:
			back(x.X)
		case *ssa.UnOp:
			// what a local variable was set to
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, in := range *refs(al) {
					if s, ok := in.(*ssa.Store); ok && s.Addr == al {
						back(s.Val)
					}
				}
			}
		case *ssa.Parameter:
			if isTestHelper(c, x.Parent()) {
				return
			}
			t.add(v, v)
			for _, ci := range t.calls[x.Parent()] {
				if a := argAt(ci, x); a != nil && !isTestHelper(c, ci.Parent()) {
					back(a)
				}
			}
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				for _, g := range c.p.callees(cl) {
					for _, r := range returnsOf(g) {
						if x.Index < len(r.Results) {
							back(r.Results[x.Index])
						}
					}
				}
			}
		case *ssa.Call:
			for _, g := range c.p.callees(x) {
				for _, r := range returnsOf(g) {
					if len(r.Results) == 1 {
						back(r.Results[0])
					}
				}
			}
		}
	}
	for _, f := range c.p.Fns {
		if isTestHelper(c, f) {
			continue
		}
		for _, p := range f.Params {
			if secretT(p.Type()) {
				t.add(p, p)
			}
		}
		for _, p := range f.FreeVars {
			if secretT(p.Type()) {
				t.add(p, p)
			}
		}
		c.eachInstr(f, func(in ssa.Instruction) {
			v, ok := in.(ssa.Value)
			if !ok || !secretT(v.Type()) {
				return
			}
			t.add(v, v)
			switch x := v.(type) {
			case *ssa.ChangeType:
				back(x.X)
			case *ssa.Convert:
				back(x.X)
			}
		})
	}
	t.run()
	return t
}

func returnsOf(g *ssa.Function) []*ssa.Return {
	var r []*ssa.Return
	if g == nil || !inRepo(g) {
		return nil
	}
	for _, b := range g.Blocks {
		if len(b.Instrs) > 0 {
			if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				r = append(r, x)
			}
		}
	}
	return r
}

// showsSecret: printing (all fields, pointers only at the top) or encoding
// (exported fields) a value of type ty shows a secret; the answer is where.
func showsSecret(ty types.Type, enc string, fields map[string]ssa.Value) string {
	seen := map[string]bool{}
	var w func(ty types.Type, path string, depth int) string
	w = func(ty types.Type, path string, depth int) string {
		k := types.TypeString(ty, nil)
		if depth > 0 && seen[k] {
			return ""
		}
		seen[k] = true
		if _, ok := ty.Underlying().(*types.Pointer); !ok && secretT(ty) {
			return path
		}
		switch u := ty.Underlying().(type) {
		case *types.Pointer:
			if depth > 0 && enc == "" {
				return ""
			}
			return w(u.Elem(), path, depth)
		case *types.Slice:
			return w(u.Elem(), path+"[]", depth+1)
		case *types.Array:
			return w(u.Elem(), path+"[]", depth+1)
		case *types.Map:
			if r := w(u.Key(), path+"[key]", depth+1); r != "" {
				return r
			}
			return w(u.Elem(), path+"[]", depth+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				fd := u.Field(i)
				if enc != "" {
					tag := reflect.StructTag(u.Tag(i)).Get(enc)
					if tag == "-" || !fd.Exported() && !(fd.Embedded() && structOf(fd.Type()) != nil) {
						continue
					}
				}
				fp := path + "." + fd.Name()
				if _, ok := fields[typeName(ty)+"."+fd.Name()]; ok {
					if _, isS := fd.Type().Underlying().(*types.Struct); !isS {
						return fp
					}
				}
				if r := w(fd.Type(), fp, depth+1); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return w(ty, typeName(ty), 0)
}

// permOf: the permissions given to a new file; every call site that passes
// them counts.
func (c *Ctx) permOf(t *taint, v ssa.Value, at ssa.Instruction, depth int, f func(ok bool, at ssa.Instruction)) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			f(false, at)
			return
		}
		n, _ := constant.Int64Val(constant.ToInt(x.Value))
		f(n&077 == 0, at)
		return
	case *ssa.ChangeType:
		c.permOf(t, x.X, at, depth, f)
		return
	case *ssa.Convert:
		c.permOf(t, x.X, at, depth, f)
		return
	case *ssa.BinOp:
		if x.Op.String() == "&" {
			for _, o := range []ssa.Value{x.X, x.Y} {
				if k, ok := o.(*ssa.Const); ok && k.Value != nil {
					if n, ok := constant.Int64Val(constant.ToInt(k.Value)); ok && n&077 == 0 {
						f(true, at)
						return
					}
				}
			}
		}
	case *ssa.Phi:
		if depth < 6 {
			for _, e := range x.Edges {
				c.permOf(t, e, at, depth+1, f)
			}
			return
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			n := 0
			ok := true
			for _, s := range c.p.Fns {
				c.eachInstr(s, func(in ssa.Instruction) {
					if st, is := in.(*ssa.Store); is && st.Addr == g {
						n++
						if k, is := st.Val.(*ssa.Const); !is || k.Value == nil {
							ok = false
						} else if m, is := constant.Int64Val(constant.ToInt(k.Value)); !is || m&077 != 0 {
							ok = false
						}
					}
				})
			}
			f(ok && n > 0, at)
			return
		}
	case *ssa.Parameter:
		if depth < 6 {
			fn := x.Parent()
			n := 0
			for _, ci := range t.calls[fn] {
				secret := false
				for i, p := range fn.Params {
					if _, ok := t.vals[p]; !ok || i >= len(fn.Params) {
						continue
					}
					if a := argAt(ci, p); a != nil {
						if _, ok := t.vals[a]; ok {
							secret = true
						}
					}
				}
				if secret {
					n++
					if a := argAt(ci, x); a != nil {
						c.permOf(t, a, ci, depth+1, f)
					} else {
						f(false, ci)
					}
				}
			}
			if n > 0 {
				return
			}
		}
	}
	f(false, at)
}

// openedBy: the call that opened the file v.
func openedBy(v ssa.Value, depth int) []*ssa.Call {
	if depth > 6 {
		return []*ssa.Call{nil}
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return []*ssa.Call{cl}
		}
	case *ssa.Phi:
		var r []*ssa.Call
		for _, e := range x.Edges {
			r = append(r, openedBy(e, depth+1)...)
		}
		return r
	case *ssa.MakeInterface:
		return openedBy(x.X, depth+1)
	case *ssa.ChangeInterface:
		return openedBy(x.X, depth+1)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			var r []*ssa.Call
			for _, in := range *refs(al) {
				if s, ok := in.(*ssa.Store); ok && s.Addr == al {
					r = append(r, openedBy(s.Val, depth+1)...)
				}
			}
			return r
		}
	case *ssa.Call:
		return []*ssa.Call{x}
	}
	return []*ssa.Call{nil}
}

func propC20(c *Ctx) {
	ru := c.Rule("uses", "what is computed from a private key is only given to functions that compute", 2)
	rf := c.Rule("files", "a file that a private key is written to is created readable by its owner only", 1)
	rw := c.Rule("encoded", "nothing that is sent or saved holds a private key in a field that is encoded", 2)
	rs := c.Rule("shown", "no value whose printed or encoded form shows a private key is printed or encoded", 1)
	rx := c.Rule("text", "no method that renders a value renders a private key", 0)
	t := c.keyTaint()

	name := func(ci ssa.CallInstruction) string {
		p, r, n := target(ci)
		if r != "" {
			return p + "." + r + "." + n
		}
		if p == "" {
			return n
		}
		return p + "." + n
	}
	fileWrites := map[ssa.CallInstruction]bool{}
	vals := t.sorted()
	for _, v := range vals {
		if v.Parent() == nil {
			continue
		}
		for _, in := range *refs(v) {
			if pn, ok := in.(*ssa.Panic); ok && pn.X == v {
				ru.fail("panic in "+fnName(v.Parent()), c.pos(in), "a panic shows a private key: %s", t.path(v))
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cm := ci.Common()
			if b, ok := cm.Value.(*ssa.Builtin); ok {
				if b.Name() == "print" || b.Name() == "println" {
					ru.fail("print in "+fnName(v.Parent()), c.pos(in), "a private key is printed: %s", t.path(v))
				}
				continue
			}
			repo := false
			if pkg, _, _ := target(ci); !cm.IsInvoke() || strings.HasPrefix(pkg, modPath) {
				for _, g := range c.p.callees(ci) {
					if g.Blocks != nil && inRepo(g) {
						repo = true
					}
				}
			}
			if repo {
				continue
			}
			if cm.Value == v && !cm.IsInvoke() {
				continue // a closure that captures something secret
			}
			pkg, recv, n := target(ci)
			where := name(ci) + " in " + fnName(v.Parent())
			switch {
			case derives(cm.StaticCallee()), computes(ci):
				ru.ok("%s", where)
			case (pkg == "os" || pkg == "io/ioutil") && recv == "" && n == "WriteFile" && len(cm.Args) == 3 && cm.Args[1] == v && cm.Args[0] != v:
				if fileWrites[ci] {
					continue
				}
				fileWrites[ci] = true
				c.permOf(t, cm.Args[2], ci, 0, func(ok bool, at ssa.Instruction) {
					rf.check(ok, "key file written in "+fnName(at.Parent()), c.pos(at), "a private key is written to a file that others may read: %s", t.path(v))
				})
			case pkg == "os" && recv == "File" && (n == "Write" || n == "WriteString" || n == "WriteAt"):
				if cm.Args[0] == v {
					continue // the file, not what is written
				}
				if fileWrites[ci] {
					continue
				}
				fileWrites[ci] = true
				for _, op := range openedBy(cm.Args[0], 0) {
					on := "?"
					if op != nil {
						on = name(op)
					}
					switch {
					case on == "os.OpenFile":
						c.permOf(t, op.Call.Args[2], op, 0, func(ok bool, at ssa.Instruction) {
							rf.check(ok, "key file written in "+fnName(at.Parent()), c.pos(at), "a private key is written to a file that others may read: %s", t.path(v))
						})
					case on == "os.CreateTemp" || on == "io/ioutil.TempFile":
						rf.ok("key file written in %s", fnName(op.Parent()))
					default:
						rf.fail("key file written in "+fnName(v.Parent()), c.pos(in), "a private key is written to a file whose permissions aren't those of a key file (%s): %s", on, t.path(v))
					}
				}
			case pkg == "os" && recv == "File":
				// closing, renaming or syncing a file with a key in it
				if n == "Chmod" {
					rf.fail("key file changed in "+fnName(v.Parent()), c.pos(in), "the permissions of a key file are changed")
				}
			default:
				ru.fail(where, c.pos(in), "a private key, or something computed from it that is not a signature, an index or a public key, is given to %s: %s", name(ci), t.path(v))
			}
		}
	}
	// no function that writes key files gives others access afterwards
	for ci := range fileWrites {
		fn := ci.Parent()
		scope := map[*ssa.Function]bool{fn: true}
		for _, p := range fn.Params {
			if _, ok := t.vals[p]; ok {
				for _, cl := range t.calls[fn] {
					if a := argAt(cl, p); a != nil {
						if _, ok := t.vals[a]; ok {
							scope[cl.Parent()] = true
						}
					}
				}
			}
		}
		for f := range scope {
			c.eachInstr(f, func(in ssa.Instruction) {
				cl, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				if pkg, recv, n := target(cl); pkg == "os" && n == "Chmod" {
					a := cl.Common().Args
					_ = recv
					c.permOf(t, a[len(a)-1], cl, 0, func(ok bool, at ssa.Instruction) {
						rf.check(ok, "permissions changed in "+fnName(at.Parent()), c.pos(at), "a function that writes a key file gives others access to files")
					})
				}
			})
		}
	}

	// types
	tops := map[string]types.Type{}
	for _, ty := range c.sentTypes() {
		tops[typeName(ty)] = ty
	}
	encodes := func(ci ssa.CallInstruction) string {
		pkg, _, n := target(ci)
		switch {
		case strings.HasSuffix(pkg, "/toml") && n == "Encode", strings.HasSuffix(pkg, "/toml") && n == "Marshal":
			return "toml"
		case pkg == "encoding/json" && (strings.HasPrefix(n, "Marshal") || n == "Encode"):
			return "json"
		case pkg == "encoding/gob" && strings.HasPrefix(n, "Encode"):
			return "gob"
		case pkg == "encoding/xml" && (strings.HasPrefix(n, "Marshal") || n == "Encode"):
			return "xml"
		}
		return ""
	}
	prints := func(ci ssa.CallInstruction) string {
		pkg, _, n := target(ci)
		switch {
		case pkg == "fmt", pkg == "log":
			return "print"
		case strings.HasPrefix(pkg, "go.uber.org/zap"):
			return "json"
		}
		_ = n
		return ""
	}
	for _, ft := range []string{"print", "json", "toml", "gob", "xml"} {
		enc := ft
		if ft == "print" {
			enc = ""
		}
		tt := c.newTaint()
		tt.stop = func(ci ssa.CallInstruction, f *ssa.Function, arg int) bool {
			return ci.Common().IsInvoke() && arg == 0
		}
		tt.deny = func(v ssa.Value, in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.FieldAddr, *ssa.Field, *ssa.Return:
				_, isI := v.Type().Underlying().(*types.Interface)
				if _, ok := x.(*ssa.Return); ok {
					return !isI
				}
				return true
			case *ssa.UnOp:
				p, ok := v.Type().Underlying().(*types.Pointer)
				if !ok {
					return true
				}
				_, isI := p.Elem().Underlying().(*types.Interface)
				_, isS := p.Elem().Underlying().(*types.Slice)
				return !isI && !isS
			case *ssa.TypeAssert:
				_, isI := x.AssertedType.Underlying().(*types.Interface)
				return !isI
			case ssa.CallInstruction:
				return x.Common().IsInvoke() && x.Common().Value == v
			}
			return false
		}
		for _, f := range c.p.Fns {
			if isTestHelper(c, f) {
				continue
			}
			c.eachInstr(f, func(in ssa.Instruction) {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					return
				}
				if _, ok := t.vals[mi.X]; ok && secretT(mi.X.Type()) {
					return
				}
				if showsSecret(mi.X.Type(), enc, t.fields) != "" {
					tt.add(mi, mi)
				}
			})
		}
		srcs := len(tt.vals)
		tt.result = func(ci ssa.CallInstruction, g *ssa.Function, ty types.Type) bool { return false }
		tt.run()
		n := 0
		for _, f := range c.p.Fns {
			if isTestHelper(c, f) {
				continue
			}
			c.eachInstr(f, func(in ssa.Instruction) {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					return
				}
				how := encodes(ci)
				if how == "" {
					how = prints(ci)
				}
				if how != ft {
					return
				}
				n++
				w := ""
				for _, a := range ci.Common().Args {
					if ft != "print" && encodes(ci) != "" {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							tops[typeName(mi.X.Type())] = mi.X.Type()
						}
					}
					if _, ok := tt.vals[a]; ok {
						w = tt.path(a)
					}
				}
				rs.check(w == "", name(ci)+" in "+fnName(f), c.pos(in), "shows a private key: %s", w)
			})
		}
		_ = srcs
	}
	// configurations are encoded through an interface
	loader, _ := c.named("application", "AppConfig").Underlying().(*types.Interface)
	if loader != nil {
		for _, im := range c.p.Implementers(loader) {
			tops[typeName(im)] = im
		}
	}
	var ks []string
	for k := range tops {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w := ""
		for _, enc := range []string{"json", "toml"} {
			if w == "" {
				w = showsSecret(tops[k], enc, t.fields)
			}
		}
		rw.check(w == "", "encoded type "+k, c.p.Pos(resPos(tops[k])), "%s holds a private key and is encoded with it", w)
	}
	// methods that printing and encoding call
	for _, f := range c.p.Fns {
		if isTestHelper(c, f) || f.Signature.Recv() == nil {
			continue
		}
		switch f.Name() {
		case "String", "GoString", "Error", "MarshalJSON", "MarshalText", "MarshalBinary", "GobEncode", "MarshalTOML":
		default:
			continue
		}
		w := ""
		for _, r := range returnsOf(f) {
			for _, x := range r.Results {
				if _, ok := t.vals[x]; ok {
					w = t.path(x)
				}
			}
		}
		rx.check(w == "", fnName(f), c.p.Pos(f.Pos()), "renders a private key: %s", w)
	}
}

func init() {
	checks["C20"] = propC20
	expl["C20"] = "every value that may be computed from a private signing or VRF key (forward dataflow over the whole repository, from every value of a private key's type and from the bytes converted to one), every call that receives one, every type that is sent, saved, printed or logged"
}
