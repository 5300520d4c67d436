package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of functions whose bodies are not analysed: cryptographic primitives
// (uninterpreted but deterministic), bit/byte utilities, the standard library.

var opaqueRepo = map[string]bool{
	"crypto.MakeRand":               true,
	"(crypto/sign.PrivateKey).Sign": true, "(crypto/sign.PrivateKey).Public": true, "(crypto/sign.PublicKey).Verify": true,
	"crypto/sign.GenerateKey":         true,
	"(crypto/vrf.PrivateKey).Compute": true, "(crypto/vrf.PrivateKey).Prove": true, "(crypto/vrf.PublicKey).Verify": true,
	"(crypto/vrf.PrivateKey).Public": true, "crypto/vrf.GenerateKey": true,
}

func (e *Engine) defaultOpaque(f *ssa.Function) bool {
	p := e.p
	n := fnName(f)
	if opaqueRepo[n] {
		return true
	}
	pk := fnPkg(f)
	if strings.HasPrefix(pk, "crypto/internal/") {
		return true
	}
	if !p.recursive(f, nil) {
		return false
	}
	if e.o.Opaque == nil {
		return true
	}
	// recursion through a function that is opaque anyway is none
	return p.recursive(f, func(g *ssa.Function) bool {
		o, d := e.o.Opaque(g)
		return o && d
	})
}

// recursive: f can call itself.
func (p *Program) recursive(f *ssa.Function, cut func(*ssa.Function) bool) bool {
	if v, ok := p.recMemo[f]; ok && cut == nil {
		return v
	}
	seen := map[*ssa.Function]bool{}
	var w func(g *ssa.Function) bool
	w = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, h := range p.callees(c) {
					if h == f {
						return true
					}
					if h != nil && cut != nil && cut(h) {
						continue
					}
					if h == nil || seen[h] || h.Blocks == nil || !inRepo(h) {
						continue
					}
					seen[h] = true
					if w(h) {
						return true
					}
				}
			}
		}
		return false
	}
	r := w(f)
	if cut == nil {
		p.recMemo[f] = r
	}
	return r
}

var purePrefixes = []string{
	"bytes.", "strings.", "strconv.", "fmt.Sprint", "fmt.Errorf", "errors.New", "path/filepath.", "path.", "encoding/hex.", "encoding/base64.",
	"unicode", "math.", "math/bits.", "(time.Time).", "(time.Duration).", "time.Duration", "crypto/subtle.", "crypto/hmac.Equal", "hash/", "reflect.",
	"(encoding/binary.", "fmt.Print", "fmt.Fprint", "log.Print", "net/url.Parse", "(*net/url.URL).", "(error).Error", "(net/url.Values).Get",
	"golang.org/x/crypto/ed25519.Verify", "golang.org/x/crypto/ed25519.Sign", "(golang.org/x/crypto/ed25519.PrivateKey).Public", "crypto/ed25519.Verify", "crypto/ed25519.Sign", "(crypto/ed25519.PrivateKey).Public",
	"(crypto/ed25519", "encoding/json.Marshal", "(reflect.", "sort.Search", "crypto/tls.Server", "crypto/tls.Client", "crypto/tls.NewListener", "os.IsNotExist", "os.IsExist", "errors.Is",
}

func pureExternal(name string) bool {
	n := strings.TrimPrefix(name, "github.com/coniks-sys/coniks-go/vendor/")
	if strings.HasPrefix(n, "bytes.NewBuffer") || n == "bytes.NewReader" {
		return false
	}
	for _, p := range purePrefixes {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func short(name string) string {
	return strings.Replace(name, "vendor/", "", 1)
}

func bytesEq(a, b *Term) *Term {
	if a.Op == ONil {
		return mkEq0(linOf(mkLen(b)))
	}
	if b.Op == ONil {
		return mkEq0(linOf(mkLen(a)))
	}
	if a.Op == OCat && len(a.Args) == 0 {
		return mkEq0(linOf(mkLen(b)))
	}
	if b.Op == OCat && len(b.Args) == 0 {
		return mkEq0(linOf(mkLen(a)))
	}
	if la, ok := mkLen(a).Int(); ok {
		if lb, ok := mkLen(b).Int(); ok && la != lb {
			return False
		}
	}
	return mkEq(a, b)
}

// elemsContent: the concatenation of the elements of a [][]byte value.
func (e *Engine) elemsContent(st *State, s *Term) (*Term, bool) {
	s = e.content(st, s)
	if s.Op == ONil {
		return mkCat(nil), true
	}
	if s.Op == OCat {
		var parts []*Term
		for _, a := range s.Args {
			if a.Op == OElem {
				parts = append(parts, e.content(st, a.Args[0]))
			} else {
				return nil, false
			}
		}
		return mkCat(types.NewSlice(types.Typ[types.Byte]), parts...), true
	}
	return nil, false
}

func cellOf(name string, a *Term) *Term { return mk(OFAddr, name, nil, a) }

func tbool() types.Type { return types.Typ[types.Bool] }

func bytesT() types.Type { return types.NewSlice(types.Typ[types.Byte]) }

func (e *Engine) model(p P, in ssa.CallInstruction, f *ssa.Function, name string, args []*Term, st *State, ev *Event, k func(*State, []*Term)) bool {
	n := short(name)
	if e.o.Opaque != nil {
		if op, dec := e.o.Opaque(f); dec && !op {
			return false
		}
	}
	A := ev.Args // resolved contents
	done := func(res ...*Term) bool {
		ev.Res = tupled(res, nil)
		e.log(ev, st)
		if inRepo(f) {
			if e.models == nil {
				e.models = map[string]bool{}
			}
			e.models[n] = true
		}
		k(st, res)
		return true
	}
	if !e.precondition(p, in, n, args, st) {
		return true
	}
	switch n {
	case "crypto.Digest":
		if c, ok := e.elemsContent(st, args[0]); ok {
			return done(mk(OHash, "Digest", bytesT(), c))
		}
		return done(mk(OHash, "DigestL", bytesT(), A[0]))
	case "utils.ULongToBytes":
		return done(mk(OCall, "LE64", bytesT(), A[0]))
	case "utils.LongToBytes":
		return done(mk(OCall, "LE64", bytesT(), A[0]))
	case "utils.UInt32ToBytes":
		return done(mk(OCall, "LE32", bytesT(), A[0]))
	case "utils.ToBits":
		return done(mk(OCall, "utils.ToBits", f.Signature.Results().At(0).Type(), A[0]))
	case "utils.ToBytes":
		if A[0].Op == OCall && A[0].Aux == "utils.ToBits" {
			return done(A[0].Args[0])
		}
		return done(mk(OCall, "utils.ToBytes", f.Signature.Results().At(0).Type(), A[0]))
	case "utils.GetNthBit":
		if !e.bounds(p, in.(ssa.Instruction), A[1], mulTerm(mkLen(A[0]), intConst(8, types.Typ[types.Int])), A[0], st) {
			return true
		}
		return done(mkBit(A[0], A[1]))
	case "(crypto/sign.PrivateKey).Sign":
		return done(mk(OCall, "sign.Sign", bytesT(), A[0], A[1]))
	case "(crypto/sign.PrivateKey).Public":
		return done(mk(OCall, "sign.Public", f.Signature.Results().At(0).Type(), A[0]), mk(OCall, "sign.PublicOK", tbool(), A[0]))
	case "(crypto/sign.PublicKey).Verify":
		return done(mk(OCall, "sign.Verify", tbool(), A...))
	case "(crypto/vrf.PublicKey).Verify":
		return done(mk(OCall, "vrf.Verify", tbool(), A...))
	case "(crypto/vrf.PrivateKey).Compute":
		return done(mk(OCall, "VRF.index", bytesT(), A...))
	case "(crypto/vrf.PrivateKey).Prove":
		return done(mk(OCall, "VRF.index", bytesT(), A...), mk(OCall, "VRF.proof", bytesT(), A...))
	case "(crypto/vrf.PrivateKey).Public":
		return done(mk(OCall, "vrf.Public", f.Signature.Results().At(0).Type(), A[0]), mk(OCall, "vrf.PublicOK", tbool(), A[0]))
	case "bytes.Equal", "crypto/hmac.Equal":
		return done(bytesEq(A[0], A[1]))
	case "strings.Compare", "bytes.Compare", "crypto/subtle.ConstantTimeCompare":
		e.log(ev, st)
		c := bytesEq(A[0], A[1])
		yes, no := intConst(0, types.Typ[types.Int]), e.uniq(OHav, "cmp", p, in, types.Typ[types.Int])
		if n == "crypto/subtle.ConstantTimeCompare" {
			yes, no = intConst(1, types.Typ[types.Int]), intConst(0, types.Typ[types.Int])
		}
		e.forkOn(st, c, func(st *State, v bool) {
			if v {
				k(st, []*Term{yes})
			} else {
				if !no.IsConst() {
					st.assume(mkNot(mkEq0(linOf(no))))
				}
				k(st, []*Term{no})
			}
		})
		return true
	case "strings.EqualFold":
		return false
	case "fmt.Sprintf":
		if t := sprintf(A); t != nil {
			return done(t)
		}
	case "strings.Join":
		if c, ok := e.elemsContent(st, args[0]); ok && A[1].Op == OConst && A[1].Aux == "s" {
			return done(mkCat(types.Typ[types.String], c))
		}
	case "bytes.Clone", "slices.Clone":
		return done(A[0])
	case "errors.New", "fmt.Errorf":
		r := e.uniq(OCall, n, p, in, f.Signature.Results().At(0).Type(), A...)
		st.assume(mkNot(mkIsNil(r)))
		return done(r)
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock":
		return e.lockOp(p, in, ev, args[0], 2, "lock", st, k)
	case "(*sync.RWMutex).RLock":
		return e.lockOp(p, in, ev, args[0], 1, "lock", st, k)
	case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock":
		return e.lockOp(p, in, ev, args[0], 2, "unlock", st, k)
	case "(*sync.RWMutex).RUnlock":
		return e.lockOp(p, in, ev, args[0], 1, "unlock", st, k)
	case "(*sync.RWMutex).RLocker":
		r := mk(OCall, "RLocker", f.Signature.Results().At(0).Type(), args[0])
		st.assume(mkNot(mkIsNil(r)))
		return done(r)
	case "(*sync.Once).Do":
		if fv := args[1]; fv.Op == OClosure || fv.Op == OFunc {
			e.log(ev, st)
			e.callFn(p, in, fv.Obj.(*ssa.Function), nil, fv.Args, st, func(st *State, _ []*Term) { k(st, nil) })
			return true
		}
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		e.log(ev, st)
		if e.disc == 0 {
			e.exit(&Exit{Kind: "exit", Res: args, St: st, Pos: e.pos(in), In: fnName(p.fr.fn)})
		}
		return true
	case "encoding/json.Unmarshal":
		return e.decode(p, in, ev, args[1], A[0], 0, st, k)
	case "github.com/BurntSushi/toml.DecodeFile", "github.com/BurntSushi/toml.Decode":
		return e.decode(p, in, ev, args[1], A[0], 1, st, k)
	case "golang.org/x/crypto/sha3.NewShake256", "golang.org/x/crypto/sha3.NewShake128", "crypto/sha512.New", "crypto/sha256.New", "golang.org/x/crypto/sha3.New256", "golang.org/x/crypto/sha3.New512":
		o := e.uniq(OAlloc, "hash:"+n, p, in, f.Signature.Results().At(0).Type())
		st.setCell(cellOf("$content", o), mkCat(bytesT()))
		st.setCell(cellOf("$off", o), intConst(0, nil))
		return done(o)
	case "golang.org/x/crypto/sha3.ShakeSum256", "golang.org/x/crypto/sha3.ShakeSum128":
		e.copyTo(p, in, st, args[0], xof(strings.TrimPrefix(n, "golang.org/x/crypto/sha3.ShakeSum"), A[1], intConst(0, nil), mkLen(A[0])))
		return done()
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		c := cellOf("$content", args[0])
		e.initBuf(st, c, args[0])
		st.setCell(c, mkCat(bytesT(), st.cells[c], A[1]))
		return done(mkLen(A[1]), Nil)
	case "(*bytes.Buffer).WriteByte":
		c := cellOf("$content", args[0])
		e.initBuf(st, c, args[0])
		st.setCell(c, mkCat(bytesT(), st.cells[c], mk(OElem, "", nil, A[1])))
		return done(Nil)
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		c := cellOf("$content", args[0])
		e.initBuf(st, c, args[0])
		return done(st.cells[c])
	case "(*bytes.Buffer).Len":
		c := cellOf("$content", args[0])
		e.initBuf(st, c, args[0])
		return done(mkLen(st.cells[c]))
	case "(*bytes.Buffer).Reset":
		st.setCell(cellOf("$content", args[0]), mkCat(bytesT()))
		return done()
	case "bytes.NewBuffer", "bytes.NewBufferString":
		o := e.uniq(OAlloc, "buffer", p, in, f.Signature.Results().At(0).Type())
		st.setCell(cellOf("$content", o), mkCat(bytesT(), A[0]))
		return done(o)
	case "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint16",
		"(encoding/binary.bigEndian).PutUint64", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint16":
		enc, n := intEncodingOf(name)
		e.copyTo(p, in, st, prefix(args[1], n), mk(OCall, enc, bytesT(), A[2]))
		return done()
	case "encoding/binary.Write":
		// an integer written to a buffer
		if x := args[2]; x.Op == OIface && args[0].Op == OIface && args[1].Op == OIface && args[0].Args[0].T != nil && args[1].Args[0].T != nil && typeName(elemOf(args[0].Args[0].T)) == "bytes.Buffer" {
			bits, _, ok := intSize(x.Args[0].T)
			if b, basic := x.Args[0].T.Underlying().(*types.Basic); ok && basic && b.Kind() != types.Int && b.Kind() != types.Uint && b.Kind() != types.Uintptr && bits > 8 {
				order := "LE"
				if strings.HasSuffix(typeName(args[1].Args[0].T), "bigEndian") {
					order = "BE"
				}
				c := cellOf("$content", args[0].Args[0])
				e.initBuf(st, c, args[0].Args[0])
				st.setCell(c, mkCat(bytesT(), st.cells[c], mk(OCall, order+strconv.Itoa(bits), bytesT(), x.Args[0])))
				return done(Nil)
			}
		}
	case "(encoding/binary.littleEndian).AppendUint64", "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint16",
		"(encoding/binary.bigEndian).AppendUint64", "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint16":
		enc, _ := intEncodingOf(name)
		return done(mkCat(bytesT(), e.content(st, args[1]), mk(OCall, enc, bytesT(), A[2])))
	case "bytes.Join":
		if c, ok := e.elemsContent(st, args[0]); ok && (A[1].Op == ONil || mkLen(A[1]) == intConst(0, types.Typ[types.Int])) {
			return done(c)
		}
	case "time.Duration":
		return done(A[0])
	}
	if strings.HasPrefix(n, "(*application.Logger).") {
		if strings.HasSuffix(n, ".Panic") || strings.HasSuffix(n, ".Fatal") {
			e.log(ev, st)
			e.unwind(st, p, "panic", A[1], e.pos(in))
			return true
		}
		return done(e.opaqueResults(p, in, n, A, f.Signature, true)...)
	}
	if n == "application.NewLogger" {
		return done(e.opaqueResults(p, in, n, A, f.Signature, true)...)
	}
	if !inRepo(f) && f.Signature.Recv() == nil && strings.HasPrefix(n, "strings.") && n == "strings.ToLower" {
		return done(mk(OCall, n, f.Signature.Results().At(0).Type(), A...))
	}
	if pureExternal(n) && !inRepo(f) {
		res := e.opaqueResults(p, in, n, A, f.Signature, false)
		return done(res...)
	}
	return false
}

// sprintf: a format made of text and %s verbs for strings is a concatenation.
func sprintf(A []*Term) *Term {
	f, ok := A[0].Str()
	if !ok || len(A) < 2 {
		return nil
	}
	var vals []*Term
	switch A[1].Op {
	case ONil:
	case OCat:
		for _, a := range A[1].Args {
			if a.Op != OElem || a.Args[0].Op != OIface {
				return nil
			}
			v := a.Args[0].Args[0]
			if t, ok := a.Args[0].Obj.(types.Type); !ok || !types.Identical(t, types.Typ[types.String]) {
				return nil
			}
			vals = append(vals, v)
		}
	case OElem:
		return nil
	default:
		return nil
	}
	var out []*Term
	text := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			text += f[i : i+1]
			continue
		}
		if i+1 >= len(f) || f[i+1] != 's' && f[i+1] != 'v' || len(vals) == 0 {
			return nil
		}
		if text != "" {
			out = append(out, strConst(text))
		}
		text = ""
		out = append(out, vals[0])
		vals = vals[1:]
		i++
	}
	if len(vals) != 0 {
		return nil
	}
	if text != "" {
		out = append(out, strConst(text))
	}
	return mkCat(types.Typ[types.String], out...)
}

func prefix(t *Term, n int64) *Term {
	if t.Op == OARef {
		return mk(OARef, "", t.T, t.Args[0], t.Args[1], AddC(t.Args[1], n))
	}
	return mkSub(t, intConst(0, types.Typ[types.Int]), intConst(n, types.Typ[types.Int]), t.T)
}

func xof(kind string, content, off, n *Term) *Term {
	return mk(OCall, "xof"+kind, bytesT(), content, off, n)
}

// precondition: what an external function needs in order not to panic.
func (e *Engine) precondition(p P, in ssa.CallInstruction, n string, args []*Term, st *State) bool {
	least := func(i int, have func(*Term) *Term, k int64) bool {
		if i >= len(args) {
			return true
		}
		return e.obl("call", p, in, mkGe0(linAdd(linOf(have(args[i])), linConst(k), -1)), args[i], st)
	}
	self := func(t *Term) *Term { return t }
	switch n {
	case "strings.Repeat", "bytes.Repeat", "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return least(1, self, 0)
	case "time.NewTicker", "(*time.Ticker).Reset":
		return least(len(args)-1, self, 1)
	case "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n":
		return least(0, self, 1)
	}
	if strings.HasPrefix(n, "(encoding/binary.") && !strings.Contains(n, ".Append") {
		for i, w := range []string{"int16", "int32", "int64"} {
			if strings.HasSuffix(strings.ToLower(n), w) {
				return least(1, mkLen, 2<<uint(i))
			}
		}
	}
	return true
}

func (e *Engine) initBuf(st *State, c, a *Term) {
	if st.cells[c] == nil {
		if h := e.havOf(st, c); h != nil {
			st.setCell(c, mk(ODeref, "$content", bytesT(), h))
		} else if isFreshAddr(a) {
			st.setCell(c, mkCat(bytesT()))
		} else {
			st.setCell(c, mk(ODeref, "$content", bytesT(), a))
		}
	}
}

// decode models json.Unmarshal / toml.Decode*: the target may afterwards hold
// anything the input describes.
func (e *Engine) decode(p P, in ssa.CallInstruction, ev *Event, target, data *Term, errIdx int, st *State, k func(*State, []*Term)) bool {
	sig := in.Common().Signature()
	var res []*Term
	call := e.uniq(OCall, "decode", p, in, nil, data)
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if sig.Results().Len() == 1 {
			res = append(res, mk(OExtr, "err", t, call))
		} else {
			res = append(res, mk(OExtr, strconv.Itoa(i), t, call))
		}
	}
	x := target
	if x.Op == OIface {
		x = x.Args[0]
	}
	st.setCell(cellOf("$decoded", x), True)
	out := e.uniq(OOut, "decoded", p, in, elemOf(x.T), data)
	if isFreshAddr(x) && isJSON(ev.Name) {
		ev.Res = tupled(append(res, out), nil)
		if data.Op == ONil || data.Op == OCat && len(data.Args) == 0 {
			// no input is an error
			if len(res) == 1 && !st.assume(mkNot(mkIsNil(res[0]))) {
				return true
			}
		}
		n := 0
		e.decodeInto(p, in, x, elemOf(x.T), out, &n, []*State{st}, func(st *State) {
			ev2 := *ev
			e.log(&ev2, st)
			k(st, res)
		})
		return true
	} else if isFreshAddr(x) {
		e.havocTo(st, x, out)
	} else if et := elemOf(x.T); et != nil {
		// unknown target object: every field of that type may change
		if s, ok := isStructT(et); ok {
			for i := 0; i < s.NumFields(); i++ {
				set := false
				if _, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok && !isJSON(ev.Name) {
					set = st.knownNonNil(e.load(st, faddr(x, et, i), s.Field(i).Type()))
				}
				e.setVersion(st, typeName(et)+"."+s.Field(i).Name(), internID("dec"+strconv.Itoa(out.ID)+s.Field(i).Name()))
				if set {
					// there is no null: a pointer that is set stays set
					st.assume(mkNot(mkIsNil(e.load(st, faddr(x, et, i), s.Field(i).Type()))))
				}
			}
		}
	}
	ev.Res = tupled(append(res, out), nil)
	e.log(ev, st)
	k(st, res)
	return true
}

func isJSON(n string) bool { return strings.HasPrefix(n, "encoding/json.") }

// decodeInto: the ways encoding/json can leave the fresh variable at x. A
// pointer that is there is kept and what it points to is filled, or it is set
// to nil by a null; an interface that holds a pointer is treated alike, any
// other one gets a value of no declared type.
func (e *Engine) decodeInto(p P, in ssa.CallInstruction, x *Term, t types.Type, out *Term, n *int, sts []*State, k func(*State)) {
	type slot struct {
		a   *Term
		t   types.Type
		cur *Term
	}
	var slots []slot
	look := func(a *Term, t types.Type) {
		switch t.Underlying().(type) {
		case *types.Interface:
			slots = append(slots, slot{a, t, nil})
		case *types.Pointer:
			if c := e.load(sts[0], a, t); c.Op == OAlloc {
				slots = append(slots, slot{a, t, nil})
			}
		}
	}
	if s, ok := isStructT(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Exported() {
				look(faddr(x, t, i), s.Field(i).Type())
			}
		}
	} else {
		look(x, t)
	}
	if len(slots) > 2 {
		slots = nil
	}
	var all []*State
	for _, st := range sts {
		for i := range slots {
			slots[i].cur = e.load(st, slots[i].a, slots[i].t)
		}
		e.havocTo(st, x, out)
		cur := []*State{st}
		for i, s := range slots {
			var next []*State
			for _, st := range cur {
				ptr := s.cur
				if ptr.Op == OIface {
					ptr = ptr.Args[0]
				}
				// null
				st2 := st.clone()
				st2.setCell(s.a, Nil)
				next = append(next, st2)
				switch {
				case ptr.Op == OAlloc && isFreshAddr(ptr):
					st.setCell(s.a, s.cur)
					e.havocTo(st, ptr, e.uniq(OOut, "decoded"+strconv.Itoa(i+1), p, in, elemOf(ptr.T), out.Args...))
					st.setCell(cellOf("$decoded", ptr), True)
				case s.cur.Op == ONil:
					st.setCell(s.a, e.uniq(OHav, genericVal+strconv.Itoa(i), p, in, s.t))
				default:
					st.setCell(s.a, e.uniq(OHav, "decoded"+strconv.Itoa(i), p, in, s.t))
				}
				next = append(next, st)
			}
			cur = next
		}
		all = append(all, cur...)
	}
	for i, st := range all {
		if i < len(all)-1 {
			st.shC, st.shA = true, true
		}
		k(st)
	}
}

func (e *Engine) lockOp(p P, in ssa.CallInstruction, ev *Event, a *Term, mode int, kind string, st *State, k func(*State, []*Term)) bool {
	ev2 := *ev
	ev2.Kind = kind
	if mode == 1 {
		ev2.Name = "R"
	} else {
		ev2.Name = "W"
	}
	ev2.Args = []*Term{a}
	key := "lock:" + strconv.Itoa(a.ID)
	if kind == "lock" {
		if st.aux[key] != 0 {
			ev2.Kind = "relock"
		}
		e.log(&ev2, st)
		st.setAux(key, mode)
	} else {
		if st.aux[key] != mode {
			ev2.Kind = "badunlock"
		}
		e.log(&ev2, st)
		st.setAux(key, 0)
	}
	k(st, nil)
	return true
}

// heldLocks lists the locks held in st: term id -> mode.
func (s *State) heldLocks() map[int]int {
	r := map[int]int{}
	for k, v := range s.aux {
		if strings.HasPrefix(k, "lock:") && v != 0 {
			id, _ := strconv.Atoi(k[5:])
			r[id] = v
		}
	}
	return r
}

func (e *Engine) modelInvoke(p P, in ssa.CallInstruction, cc *ssa.CallCommon, name string, recv *Term, args []*Term, st *State, k func(*State, []*Term)) bool {
	m := cc.Method.Name()
	if recv.Op == OCall && recv.Aux == "RLocker" {
		ev := &Event{Name: name, Pos: e.pos(in), In: fnName(p.fr.fn), Stack: p.fr.stack}
		switch m {
		case "Lock":
			return e.lockOp(p, in, ev, recv.Args[0], 1, "lock", st, k)
		case "Unlock":
			return e.lockOp(p, in, ev, recv.Args[0], 1, "unlock", st, k)
		}
	}
	if recv.Op == OAlloc && strings.HasPrefix(recv.Aux, "hash:") {
		c, o := cellOf("$content", recv), cellOf("$off", recv)
		ev := &Event{Kind: "call", Name: "hash." + m, Args: append([]*Term{recv}, args...), Pos: e.pos(in), In: fnName(p.fr.fn), Stack: p.fr.stack}
		for i := range ev.Args {
			ev.Args[i] = e.content(st, ev.Args[i])
		}
		e.log(ev, st)
		kind := hashKind(recv.Aux)
		switch m {
		case "Write":
			a := e.content(st, args[0])
			st.setCell(c, mkCat(bytesT(), st.cells[c], a))
			k(st, []*Term{mkLen(a), Nil})
		case "Read":
			n := mkLen(e.content(st, args[0]))
			e.copyTo(p, in, st, args[0], xof(kind, st.cells[c], st.cells[o], n))
			st.setCell(o, Add(st.cells[o], n))
			k(st, []*Term{n, Nil})
		case "Reset":
			st.setCell(c, mkCat(bytesT()))
			st.setCell(o, intConst(0, nil))
			k(st, nil)
		case "Sum":
			k(st, []*Term{mkCat(bytesT(), e.content(st, args[0]), mk(OCall, "sum"+kind, bytesT(), st.cells[c]))})
		default:
			return false
		}
		return true
	}
	if m == "Error" && len(args) == 0 {
		k(st, []*Term{mk(OCall, "Error", types.Typ[types.String], recv)})
		return true
	}
	return false
}

func hashKind(aux string) string {
	s := aux
	if i := strings.Index(s, "#"); i >= 0 {
		s = s[:i]
	}
	for _, x := range []string{"256", "128", "512"} {
		if strings.HasSuffix(s, x) {
			return x
		}
	}
	return s
}

// intEncodingOf: the encoding a function of encoding/binary writes.
func intEncodingOf(name string) (enc string, bytes int64) {
	enc, bytes = "LE", 8
	if strings.Contains(name, "bigEndian") {
		enc = "BE"
	}
	switch {
	case strings.HasSuffix(name, "32"):
		return enc + "32", 4
	case strings.HasSuffix(name, "16"):
		return enc + "16", 2
	}
	return enc + "64", bytes
}
