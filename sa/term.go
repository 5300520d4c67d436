package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are the abstract values: hash-consed value-number expressions over
// the inputs of the analysed entry point. Two program points compute "the
// same value" exactly when their terms are the same pointer.

type Op int

const (
	OConst   Op = iota // Aux = exact constant
	ONil               // nil / zero reference
	OZero              // zero value of a composite type
	OParam             // Aux = name
	OGlobal            // address of a package-level variable
	OSent              // sentinel error held by a never-reassigned global
	OFunc              // function value
	OClosure           // function value with bindings (Args)
	OAlloc             // fresh object (address)
	OFAddr             // address of field: Args[0] base pointer, Aux field
	OIAddr             // address of element: Args[0] base, Args[1] index
	OFVal              // initial content of a field: Args[0] base, Aux field@version
	ODeref             // initial content behind a pointer: Aux version
	OField             // field of a struct value
	OStruct            // struct value, Aux = field names, Args = values
	OIdx               // element of an array/slice/string value
	OLen
	OCap
	OCat   // concatenation of sequences
	OElem  // one-element sequence
	OSub   // subsequence [lo,hi)
	OFit   // array of fixed size filled from a sequence (copy)
	OSegs  // byte array assembled from ranges
	OUpd   // array/content with one element replaced
	OARef  // slice value referring to the mutable array at Args[0], [Args[1]:Args[2]]
	OCall  // result of an opaque call; Aux name[#unique]
	OTuple // multiple results
	OExtr  // component of an opaque tuple
	OOut   // value written by an opaque call through its i-th argument
	OIface // interface value of known dynamic type; Aux type
	OAssert
	OBin
	OUn
	OConv
	OLin // linear form
	OGe0 // boolean: linear form >= 0
	OEq0 // boolean: linear form == 0
	OEq  // boolean: equality
	OIsNil
	OTypeIs // boolean: dynamic type of Args[0] is Aux
	ONot
	OMapGet
	OMapHas
	OMap  // fresh map object
	OPhi  // loop-carried value without closed form
	OIV   // iteration counter of a loop (0,1,2,...)
	OLag  // value of Args[1] in the previous iteration (Args[0] in the first)
	OAcc  // sequence accumulated by a loop: Args[0] initial, Args[1] per-iteration segment, Args[2] iteration counter
	OHav  // unknown value
	OBit  // bit Args[1] of byte string Args[0]
	OHash // hash of a byte string; Aux kind
)

type Term struct {
	ID   int
	Op   Op
	Aux  string
	Args []*Term
	T    types.Type
	Obj  interface{}
	lin  *Lin
	ment map[*Term]bool
}

type Lin struct {
	C     int64
	Atoms []*Term
	K     []int64
}

type termTable struct {
	m map[string]*Term
	n int
}

var TT = &termTable{m: map[string]*Term{}}

func mk(op Op, aux string, t types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(op)))
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		if a == nil {
			panic("nil arg in term " + aux)
		}
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if x, ok := TT.m[k]; ok {
		if x.T == nil && t != nil {
			x.T = t
		}
		return x
	}
	TT.n++
	x := &Term{ID: TT.n, Op: op, Aux: aux, Args: append([]*Term(nil), args...), T: t}
	TT.m[k] = x
	return x
}

func intConst(v int64, t types.Type) *Term { return mk(OConst, "i"+strconv.FormatInt(v, 10), t) }
func boolConst(b bool) *Term {
	if b {
		return mk(OConst, "btrue", types.Typ[types.Bool])
	}
	return mk(OConst, "bfalse", types.Typ[types.Bool])
}
func strConst(s string) *Term { return mk(OConst, "s"+s, types.Typ[types.String]) }

var (
	True  = boolConst(true)
	False = boolConst(false)
	Nil   = mk(ONil, "", nil)
)

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) Int() (int64, bool) {
	if t.Op == OConst && strings.HasPrefix(t.Aux, "i") {
		v, err := strconv.ParseInt(t.Aux[1:], 10, 64)
		return v, err == nil
	}
	return 0, false
}
func (t *Term) Str() (string, bool) {
	if t.Op == OConst && strings.HasPrefix(t.Aux, "s") {
		return t.Aux[1:], true
	}
	return "", false
}

// mentions reports whether x occurs in t.
func (t *Term) mentions(x *Term) bool {
	if t == x {
		return true
	}
	if len(t.Args) == 0 || t.ID < x.ID && false {
		return false
	}
	if v, ok := t.ment[x]; ok {
		return v
	}
	r := false
	for _, a := range t.Args {
		if a.mentions(x) {
			r = true
			break
		}
	}
	if t.ment == nil {
		t.ment = map[*Term]bool{}
	}
	t.ment[x] = r
	return r
}

func anySub(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// ---------- linear forms

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func linOf(t *Term) *Lin {
	if t.Op == OLin {
		return t.lin
	}
	if v, ok := t.Int(); ok {
		return &Lin{C: v}
	}
	return &Lin{Atoms: []*Term{t}, K: []int64{1}}
}

func linAdd(a, b *Lin, kb int64) *Lin {
	m := map[*Term]int64{}
	for i, x := range a.Atoms {
		m[x] += a.K[i]
	}
	for i, x := range b.Atoms {
		m[x] += kb * b.K[i]
	}
	r := &Lin{C: a.C + kb*b.C}
	for x, k := range m {
		if k != 0 {
			r.Atoms = append(r.Atoms, x)
		}
	}
	sort.Slice(r.Atoms, func(i, j int) bool { return r.Atoms[i].ID < r.Atoms[j].ID })
	for _, x := range r.Atoms {
		r.K = append(r.K, m[x])
	}
	return r
}

func linScale(a *Lin, k int64) *Lin { return linAdd(&Lin{}, a, k) }
func linConst(c int64) *Lin         { return &Lin{C: c} }

func linTerm(l *Lin, t types.Type) *Term {
	if len(l.Atoms) == 0 {
		return intConst(l.C, t)
	}
	if len(l.Atoms) == 1 && l.K[0] == 1 && l.C == 0 {
		return l.Atoms[0]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", l.C)
	for _, k := range l.K {
		fmt.Fprintf(&sb, ",%d", k)
	}
	r := mk(OLin, sb.String(), t, l.Atoms...)
	r.lin = l
	return r
}

// nonNeg: the atom is known to be >= 0 by its nature.
func nonNeg(t *Term) bool {
	switch t.Op {
	case OLen, OCap, OIV:
		return true
	case OBin:
		if (t.Aux == "/" || t.Aux == "%") && len(t.Args) == 2 {
			return natural(t.Args[0]) && natural(t.Args[1])
		}
	}
	return isUnsigned(t.T)
}

func natural(t *Term) bool {
	if v, ok := t.Int(); ok {
		return v >= 0
	}
	if t.Op == OLin {
		l := linOf(t)
		for i, a := range l.Atoms {
			if l.K[i] < 0 || !nonNeg(a) {
				return false
			}
		}
		return l.C >= 0
	}
	return nonNeg(t)
}

// mkGe0 builds the canonical boolean for l >= 0.
func mkGe0(l *Lin) *Term {
	if len(l.Atoms) == 0 {
		return boolConst(l.C >= 0)
	}
	allPos, allNeg := l.C >= 0, l.C < 0
	for i, a := range l.Atoms {
		if !(l.K[i] > 0 && nonNeg(a)) {
			allPos = false
		}
		if !(l.K[i] < 0 && nonNeg(a)) {
			allNeg = false
		}
	}
	if allPos {
		return True
	}
	if allNeg {
		return False
	}
	if len(l.Atoms) == 1 && nonNeg(l.Atoms[0]) {
		k := l.K[0]
		if k > 0 { // x >= ceil(-C/k)
			lo := int64(math.Ceil(float64(-l.C) / float64(k)))
			if lo <= 0 {
				return True
			}
			if lo == 1 {
				return mkNot(mkEq0(&Lin{Atoms: l.Atoms, K: []int64{1}}))
			}
			l = &Lin{C: -lo, Atoms: l.Atoms, K: []int64{1}}
		} else {
			hi := int64(math.Floor(float64(l.C) / float64(-k)))
			if hi < 0 {
				return False
			}
			if hi == 0 {
				return mkEq0(&Lin{Atoms: l.Atoms, K: []int64{1}})
			}
			l = &Lin{C: hi, Atoms: l.Atoms, K: []int64{-1}}
		}
	}
	return mk(OGe0, "", types.Typ[types.Bool], linTermRaw(l))
}

// linTermRaw wraps l as a term usable as an argument (constants included).
func linTermRaw(l *Lin) *Term { return linTerm(l, nil) }

func mkEq0(l *Lin) *Term {
	if len(l.Atoms) == 0 {
		return boolConst(l.C == 0)
	}
	if l.K[0] < 0 {
		l = linScale(l, -1)
	}
	// impossible by sign
	if l.C > 0 {
		pos := true
		for i, a := range l.Atoms {
			if !(l.K[i] > 0 && nonNeg(a)) {
				pos = false
			}
		}
		if pos {
			return False
		}
	}
	if len(l.Atoms) == 1 && l.K[0] != 1 {
		if l.C%l.K[0] != 0 {
			return False
		}
		l = &Lin{C: l.C / l.K[0], Atoms: l.Atoms, K: []int64{1}}
	}
	return mk(OEq0, "", types.Typ[types.Bool], linTermRaw(l))
}

func mkNot(t *Term) *Term {
	switch t {
	case True:
		return False
	case False:
		return True
	}
	switch t.Op {
	case ONot:
		return t.Args[0]
	case OGe0:
		l := linOf(t.Args[0])
		return mkGe0(linAdd(linConst(-1), l, -1))
	}
	return mk(ONot, "", types.Typ[types.Bool], t)
}

func Add(a, b *Term) *Term { return linTerm(linAdd(linOf(a), linOf(b), 1), a.T) }
func Sub(a, b *Term) *Term { return linTerm(linAdd(linOf(a), linOf(b), -1), a.T) }
func AddC(a *Term, c int64) *Term {
	return linTerm(linAdd(linOf(a), linConst(c), 1), a.T)
}

// Lt etc. build conditions for queries.
func Lt(a, b *Term) *Term { return mkGe0(linAdd(linAdd(linOf(b), linOf(a), -1), linConst(1), -1)) }
func Le(a, b *Term) *Term { return mkGe0(linAdd(linOf(b), linOf(a), -1)) }
func EqI(a, b *Term) *Term {
	return mkEq0(linAdd(linOf(a), linOf(b), -1))
}

// mkEq builds equality of non-integer values.
func mkEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Op == ONil || b.Op == ONil {
		if a.Op == ONil {
			a, b = b, a
		}
		return mkIsNil(a)
	}
	if isInteger(a.T) || isInteger(b.T) || a.Op == OLin || b.Op == OLin {
		return EqI(a, b)
	}
	if a == True {
		return b
	}
	if b == True {
		return a
	}
	if a == False {
		return mkNot(b)
	}
	if b == False {
		return mkNot(a)
	}
	if distinct(a, b) {
		return False
	}
	if a.Op == OIface && b.Op == OIface {
		if a.Aux != b.Aux {
			return False
		}
		return mkEq(a.Args[0], b.Args[0])
	}
	// x (interface) == wrapped constant etc. stays symbolic
	// len(s)==0 / s=="" unification
	if s, ok := b.Str(); ok && s == "" {
		return mkEq0(linOf(mkLen(a)))
	}
	if s, ok := a.Str(); ok && s == "" {
		return mkEq0(linOf(mkLen(b)))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OEq, "", types.Typ[types.Bool], a, b)
}

func isFreshAddr(t *Term) bool {
	switch t.Op {
	case OAlloc, OMap:
		return true
	case OFAddr, OIAddr:
		return isFreshAddr(t.Args[0])
	}
	return false
}

func distinct(a, b *Term) bool {
	if a.Op == OConst && b.Op == OConst {
		return a.Aux != b.Aux
	}
	if a.Op == OSent && b.Op == OSent {
		return true
	}
	if a.Op == OAlloc && b.Op == OAlloc {
		return a.Aux != b.Aux
	}
	if (a.Op == OSent && b.Op == OIface) || (b.Op == OSent && a.Op == OIface) {
		return true
	}
	if a.Op == OAlloc && (b.Op == OFVal || b.Op == OParam) || b.Op == OAlloc && (a.Op == OFVal || a.Op == OParam) {
		return true
	}
	return false
}

func nonNilTerm(t *Term) bool {
	switch t.Op {
	case OAlloc, OFAddr, OIAddr, OGlobal, OFunc, OClosure, OSent, OIface, OMap, OARef, OStruct:
		return true
	case OCat:
		for _, a := range t.Args {
			if a.Op == OElem {
				return true
			}
		}
		return false
	case OHash:
		return true
	case OConst:
		return true
	}
	return false
}

func mkIsNil(t *Term) *Term {
	if t.Op == ONil {
		return True
	}
	if nonNilTerm(t) {
		return False
	}
	if t.Op == OCat || t.Op == OAcc {
		// append(nil-ish...) - treat as its own atom
	}
	return mk(OIsNil, "", types.Typ[types.Bool], t)
}

func mkLen(t *Term) *Term {
	switch t.Op {
	case ONil:
		return intConst(0, types.Typ[types.Int])
	case OConst:
		if s, ok := t.Str(); ok {
			return intConst(int64(len(s)), types.Typ[types.Int])
		}
	case OElem:
		return intConst(1, types.Typ[types.Int])
	case OCat:
		l := &Lin{}
		for _, a := range t.Args {
			l = linAdd(l, linOf(mkLen(a)), 1)
		}
		return linTerm(l, types.Typ[types.Int])
	case OSub:
		return Sub(t.Args[2], t.Args[1])
	case OAcc:
		return Add(mkLen(t.Args[0]), mulTerm(mkLen(t.Args[1]), t.Args[2]))
	case OARef:
		return Sub(t.Args[2], t.Args[1])
	case OFit:
		return t.Args[1]
	case OSegs:
		return mkLen(t.Args[0])
	case OZero:
		if len(t.Args) == 1 {
			return t.Args[0]
		}
	case OHash:
		return intConst(32, types.Typ[types.Int])
	case OUpd:
		return mkLen(t.Args[0])
	case OCall:
		if strings.HasPrefix(t.Aux, "utils.ToBits") {
			return linTerm(linScale(linOf(mkLen(t.Args[0])), 8), types.Typ[types.Int])
		}
		if n, ok := intEncoding(t); ok {
			return intConst(int64(n), types.Typ[types.Int])
		}
		if strings.HasPrefix(t.Aux, "xof") {
			return t.Args[2]
		}
		if t.Aux == "sign.Sign" {
			return intConst(64, types.Typ[types.Int])
		}
		if t.Aux == "VRF.index" {
			return intConst(32, types.Typ[types.Int])
		}
	}
	if t.T != nil {
		if a, ok := t.T.Underlying().(*types.Array); ok && a.Len() >= 0 {
			return intConst(a.Len(), types.Typ[types.Int])
		}
	}
	return mk(OLen, "", types.Typ[types.Int], t)
}

func mulTerm(a, b *Term) *Term {
	if v, ok := a.Int(); ok {
		return linTerm(linScale(linOf(b), v), b.T)
	}
	if v, ok := b.Int(); ok {
		return linTerm(linScale(linOf(a), v), a.T)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(OBin, "*", a.T, a, b)
}

func mkCat(t types.Type, parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		switch {
		case p.Op == ONil:
		case p.Op == OCat:
			out = append(out, p.Args...)
		case p.Op == OConst && p.Aux == "s":
		case p.Op == OZero && (p.Aux == "0" || strings.HasPrefix(p.Aux, "0:")):
		case p.Op == OZero && len(p.Args) == 1 && isInt0(p.Args[0]):
		default:
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return mk(OCat, "", t)
	}
	if len(out) == 1 && out[0].Op != OElem {
		return out[0]
	}
	return mk(OCat, "", t, out...)
}

func isInt0(t *Term) bool { v, ok := t.Int(); return ok && v == 0 }

// mkIdx selects element i of sequence x.
func mkIdx(x, i *Term, t types.Type) *Term {
	switch x.Op {
	case OSub:
		return mkIdx(x.Args[0], Add(x.Args[1], i), t)
	case OCat:
		if k, ok := i.Int(); ok {
			n := int64(0)
			for _, a := range x.Args {
				if a.Op != OElem {
					break
				}
				if n == k {
					return a.Args[0]
				}
				n++
			}
		}
	case OCall:
		if strings.HasPrefix(x.Aux, "utils.ToBits") {
			return mkBit(x.Args[0], i)
		}
	case OUpd:
		if x.Args[1] == i {
			return x.Args[2]
		}
		_, c1 := x.Args[1].Int()
		_, c2 := i.Int()
		if c1 && c2 {
			return mkIdx(x.Args[0], i, t)
		}
	case OZero:
		if t != nil {
			return zeroOf(t)
		}
	}
	return mk(OIdx, "", t, x, i)
}

func mkBit(bs, i *Term) *Term { return mk(OBit, "", types.Typ[types.Bool], bs, i) }

func mkSub(x, lo, hi *Term, t types.Type) *Term {
	if v, ok := lo.Int(); ok && v == 0 && hi == mkLen(x) {
		return x
	}
	if x.Op == OSub {
		return mkSub(x.Args[0], Add(x.Args[1], lo), Add(x.Args[1], hi), t)
	}
	if lo == hi {
		return mk(OCat, "", t)
	}
	if x.Op == OSegs {
		if x.Args[1] == lo && x.Args[2] == hi {
			w := Sub(hi, lo)
			if mkLen(x.Args[3]) == w {
				return x.Args[3]
			}
			return mk(OFit, "", t, x.Args[3], w, mkSub(x.Args[0], lo, hi, t))
		}
		a, ok1 := x.Args[1].Int()
		b, ok2 := x.Args[2].Int()
		c, ok3 := lo.Int()
		d, ok4 := hi.Int()
		if ok1 && ok2 && ok3 && ok4 && (d <= a || b <= c) {
			return mkSub(x.Args[0], lo, hi, t)
		}
	}
	if x.Op == OCat {
		// cut at the boundaries of parts of known lengths
		a, ok1 := lo.Int()
		b, ok2 := hi.Int()
		at, from := int64(0), -1
		for i, p := range x.Args {
			if !ok1 || !ok2 {
				break
			}
			if at == a {
				from = i
			}
			n, ok := mkLen(p).Int()
			if !ok {
				break
			}
			if from < 0 && at+n > a && b <= at+n {
				return mkSub(p, intConst(a-at, lo.T), intConst(b-at, lo.T), t)
			}
			at += n
			if at == b && from >= 0 {
				return mkCat(t, x.Args[from:i+1]...)
			}
			if at > b {
				break
			}
		}
	}
	return mk(OSub, "", t, x, lo, hi)
}

func mkField(x *Term, name string, t types.Type) *Term {
	if x.Op == OStruct {
		names := strings.Split(x.Aux, ",")
		for i, n := range names {
			if n == name {
				return x.Args[i]
			}
		}
	}
	if x.Op == OZero {
		return zeroOf(t)
	}
	return mk(OField, name, t, x)
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return intConst(0, t)
		case u.Info()&types.IsString != 0:
			return strConst("")
		case u.Info()&types.IsFloat != 0:
			return mk(OConst, "f0", t)
		}
		return Nil
	case *types.Struct:
		var names []string
		var vals []*Term
		for i := 0; i < u.NumFields(); i++ {
			names = append(names, u.Field(i).Name())
			vals = append(vals, zeroOf(u.Field(i).Type()))
		}
		return mk(OStruct, strings.Join(names, ","), t, vals...)
	case *types.Array:
		return mk(OZero, strconv.FormatInt(u.Len(), 10)+":"+u.Elem().String(), t)
	}
	return Nil
}

// subst replaces terms bottom-up.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var w func(*Term) *Term
	w = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = w(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return w(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case OLin:
		l := linConst(t.lin.C)
		for i, a := range args {
			l = linAdd(l, linOf(a), t.lin.K[i])
		}
		return linTerm(l, t.T)
	case OGe0:
		return mkGe0(linOf(args[0]))
	case OEq0:
		return mkEq0(linOf(args[0]))
	case OEq:
		return mkEq(args[0], args[1])
	case OIsNil:
		return mkIsNil(args[0])
	case OTypeIs:
		if pt, ok := t.Obj.(types.Type); ok {
			return typeIs(args[0], pt)
		}
	case ONot:
		return mkNot(args[0])
	case OLen:
		return mkLen(args[0])
	case OCat:
		return mkCat(t.T, args...)
	case OIdx:
		return mkIdx(args[0], args[1], t.T)
	case OSub:
		return mkSub(args[0], args[1], args[2], t.T)
	case OLag:
		return mkLag(args[0], args[1], args[2])
	case OField:
		return mkField(args[0], t.Aux, t.T)
	}
	return mk(t.Op, t.Aux, t.T, args...)
}

// mkLag: value that is init in iteration 0 and body(IV-1) afterwards.
func mkLag(init, body, iv *Term) *Term {
	prev := subst(body, map[*Term]*Term{iv: AddC(iv, -1)})
	at0 := subst(prev, map[*Term]*Term{iv: intConst(0, iv.T)})
	if at0 == init {
		return prev
	}
	return mk(OLag, "", body.T, init, body, iv)
}

// ---------- rendering

func (t *Term) String() string { return t.render(0) }

func (t *Term) render(d int) string {
	if d > 14 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].render(d + 1) }
	all := func() string {
		var s []string
		for i := range t.Args {
			s = append(s, a(i))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		if s, ok := t.Str(); ok {
			return strconv.Quote(s)
		}
		return t.Aux[1:]
	case ONil:
		return "nil"
	case OZero:
		return "zero[" + t.Aux + "]"
	case OParam:
		if i := strings.IndexByte(t.Aux, 0); i >= 0 {
			return shortAux(t.Aux[:i])
		}
		return shortAux(t.Aux)
	case OGlobal, OSent, OFunc:
		return shortAux(t.Aux)
	case OClosure:
		return "closure " + shortAux(t.Aux)
	case OAlloc:
		return "new:" + shortAux(t.Aux)
	case OMap:
		return "newmap:" + shortAux(t.Aux)
	case OFAddr:
		return "&" + a(0) + "." + fieldShort(t.Aux)
	case OIAddr:
		return "&" + a(0) + "[" + a(1) + "]"
	case OFVal:
		return a(0) + "." + fieldShort(t.Aux)
	case ODeref:
		return "*" + a(0) + t.Aux
	case OField:
		return a(0) + "." + t.Aux
	case OStruct:
		return "{" + all() + "}"
	case OIdx:
		return a(0) + "[" + a(1) + "]"
	case OLen:
		return "len(" + a(0) + ")"
	case OCap:
		return "cap(" + a(0) + ")"
	case OCat:
		var s []string
		for i := range t.Args {
			s = append(s, a(i))
		}
		return "<" + strings.Join(s, " ++ ") + ">"
	case OElem:
		return "·" + a(0)
	case OSub:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OARef:
		return "slice(" + all() + ")"
	case OCall:
		return shortAux(t.Aux) + "(" + all() + ")"
	case OTuple:
		return "(" + all() + ")"
	case OExtr:
		return a(0) + "." + t.Aux
	case OIface:
		return a(0)
	case OAssert:
		return a(0) + ".(" + shortAux(t.Aux) + ")"
	case OBin:
		return "(" + a(0) + " " + t.Aux + " " + a(1) + ")"
	case OLin:
		var s []string
		for i, k := range t.lin.K {
			if k == 1 {
				s = append(s, "+"+a(i))
			} else if k == -1 {
				s = append(s, "-"+a(i))
			} else {
				s = append(s, fmt.Sprintf("%+d*%s", k, a(i)))
			}
		}
		if t.lin.C != 0 {
			s = append(s, fmt.Sprintf("%+d", t.lin.C))
		}
		return "(" + strings.TrimPrefix(strings.Join(s, ""), "+") + ")"
	case OGe0:
		return a(0) + ">=0"
	case OEq0:
		return a(0) + "==0"
	case OEq:
		return a(0) + "==" + a(1)
	case OIsNil:
		return a(0) + "==nil"
	case OTypeIs:
		return a(0) + " is " + shortAux(t.Aux)
	case ONot:
		return "!(" + a(0) + ")"
	case OMapGet:
		return a(0) + "{" + a(1) + "}"
	case OMapHas:
		return a(1) + " in " + a(0)
	case OPhi:
		return "phi:" + shortAux(t.Aux)
	case OIV:
		return "i:" + shortAux(t.Aux)
	case OLag:
		return "lag(" + a(0) + "; " + a(1) + ")"
	case OAcc:
		return "acc(" + a(0) + "; " + a(1) + ")"
	case OBit:
		return "bit(" + a(0) + ", " + a(1) + ")"
	case OHash:
		return t.Aux + "(" + all() + ")"
	}
	return fmt.Sprintf("op%d:%s(%s)", t.Op, shortAux(t.Aux), all())
}

func fieldShort(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func shortAux(s string) string {
	s = strings.ReplaceAll(s, "github.com/coniks-sys/coniks-go/", "")
	return s
}

var _ = ssa.BuilderMode(0)
