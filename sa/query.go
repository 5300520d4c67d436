package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is the context of one property check: the rules it decides, what it
// looked at, and what it found.
type Ctx struct {
	p     *Program
	id    string
	tier  string
	rules []*Rule
	funcs map[string]bool
	engs  map[string]*Engine
	paths int
	calls int
	steps int
	loops int
	sites map[string]bool
	assum []string

	verdicts map[string]verdict
	expl     string
}

type Rule struct {
	c     *Ctx
	id    string
	text  string
	n     int
	floor int
	samp  []string
	bad   map[string]*Viol
}

type Viol struct {
	Rule, Construct, Pos, Why string
}

func (c *Ctx) Rule(id, text string, floor int) *Rule {
	r := &Rule{c: c, id: id, text: text, floor: floor, bad: map[string]*Viol{}}
	c.rules = append(c.rules, r)
	return r
}

func (r *Rule) ok(format string, a ...interface{}) {
	r.n++
	if len(r.samp) < 4 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 300 {
			s = strings.ToValidUTF8(s[:300], "") + "…"
		}
		for _, x := range r.samp {
			if x == s {
				return
			}
		}
		r.samp = append(r.samp, s)
	}
}

// fail records a violation. construct identifies it independent of lines.
func (r *Rule) fail(construct, pos, format string, a ...interface{}) {
	r.n++
	if v := r.bad[construct]; v != nil {
		return
	}
	r.bad[construct] = &Viol{r.id, construct, pos, fmt.Sprintf(format, a...)}
}

// check is fail unless cond.
func (r *Rule) check(cond bool, construct, pos, format string, a ...interface{}) bool {
	if cond {
		r.ok("%s (%s)", construct, pos)
		return true
	}
	r.fail(construct, pos, format, a...)
	return false
}

// ---------- anchors

type anchorErr struct{ what string }

func (c *Ctx) assume(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, x := range c.assum {
		if x == s {
			return
		}
	}
	c.assum = append(c.assum, s)
}

func (c *Ctx) fn(pkg, name string) *ssa.Function {
	f := c.p.Func(pkg, name)
	if f == nil || f.Blocks == nil {
		panic(anchorErr{"function " + pkg + "." + name})
	}
	return f
}

func (c *Ctx) method(pkg, typ, name string) *ssa.Function {
	f := c.p.Method(pkg, typ, name)
	if f == nil || f.Blocks == nil {
		panic(anchorErr{"method " + pkg + "." + typ + "." + name})
	}
	return f
}

func (c *Ctx) named(pkg, typ string) *types.Named {
	n := c.p.Named(pkg, typ)
	if n == nil {
		panic(anchorErr{"type " + pkg + "." + typ})
	}
	return n
}

func (c *Ctx) constVal(pkg, name string) int64 {
	if sp := c.p.SPkgs[pkg]; sp != nil {
		if o, ok := sp.Pkg.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(constant.ToInt(o.Val())); ok {
				return v
			}
		}
	}
	panic(anchorErr{"constant " + pkg + "." + name})
}

// run explores fn; failures to decide are reported through rule "undecided".
func (c *Ctx) run(fn *ssa.Function, o *Opts) *Engine {
	key := ""
	if o == nil {
		key = fnName(fn)
	} else if o.Name != "" {
		key = fnName(fn) + "#" + o.Name
	}
	if key != "" {
		if e := c.engs[key]; e != nil {
			return e
		}
	}
	e := c.p.Explore(fn, o)
	e.splitFlags()
	if key != "" {
		c.engs[key] = e
	}
	c.account(e)
	if e.abort != "" {
		panic(anchorErr{"undecided: analysis of " + fnName(fn) + " stopped: " + e.abort})
	}
	return e
}

func (c *Ctx) account(e *Engine) {
	c.paths += len(e.Exits)
	c.calls += e.Calls
	c.steps += e.Steps
	c.loops += e.Loops
	for f := range e.Funcs {
		c.funcs[f] = true
	}
}

// ---------- typed values

// V is a term together with its static Go type.
type V struct {
	T  *Term
	Ty types.Type
}

func (e *Engine) arg(i int) V {
	return V{e.Args[i], e.root.Params[i].Type()}
}

// byType returns the unique parameter whose type prints as the given suffix.
func (e *Engine) argOf(ty types.Type, n int) V {
	k := 0
	for i, p := range e.root.Params {
		if types.Identical(p.Type(), ty) {
			if k == n {
				return e.arg(i)
			}
			k++
		}
	}
	panic(anchorErr{fmt.Sprintf("parameter of type %v in %s", ty, fnName(e.root))})
}

// fieldPath resolves a (possibly promoted) field name.
func fieldIndex(t types.Type, name string) ([]int, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, true
		}
	}
	// promoted fields, breadth first
	type item struct {
		t    types.Type
		path []int
	}
	q := []item{{t, nil}}
	for d := 0; d < 5 && len(q) > 0; d++ {
		var nq []item
		for _, it := range q {
			tt := it.t
			if p, ok := tt.Underlying().(*types.Pointer); ok {
				tt = p.Elem()
			}
			s, ok := tt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				pp := append(append([]int(nil), it.path...), i)
				if s.Field(i).Name() == name {
					return pp, true
				}
				if s.Field(i).Embedded() {
					nq = append(nq, item{s.Field(i).Type(), pp})
				}
			}
		}
		q = nq
	}
	return nil, false
}

// fieldByType: the unique field of (pointer to) struct t whose type satisfies f.
func fieldByType(t types.Type, f func(types.Type) bool) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	r := ""
	for i := 0; i < st.NumFields(); i++ {
		if f(st.Field(i).Type()) {
			if r != "" {
				return ""
			}
			r = st.Field(i).Name()
		}
	}
	return r
}

func (c *Ctx) fieldT(t types.Type, what string, f func(types.Type) bool) string {
	n := fieldByType(t, f)
	if n == "" {
		panic(anchorErr{"the field of " + typeName(t) + " holding " + what})
	}
	return n
}

// sel reads a dotted field path in state st.
func (e *Engine) sel(st *State, v V, path string) V {
	for _, name := range strings.Split(path, ".") {
		idx, ok := fieldIndex(v.Ty, name)
		if !ok {
			panic(anchorErr{"field " + name + " of " + v.Ty.String()})
		}
		for _, i := range idx {
			v = e.sel1(st, v, i)
		}
	}
	return v
}

func (e *Engine) sel1(st *State, v V, i int) V {
	t := v.Ty
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		s := t.Underlying().(*types.Struct)
		ft := s.Field(i).Type()
		return V{e.load(st, faddr(v.T, t, i), ft), ft}
	}
	s := t.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	return V{mkField(v.T, s.Field(i).Name(), ft), ft}
}

// at: element i of a slice, array or string value.
func (e *Engine) at(st *State, v V, i *Term) V {
	et := elemOf(v.Ty)
	if et == nil {
		switch u := v.Ty.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		}
	}
	return V{mkIdx(e.content(st, v.T), i, et), et}
}

// ---------- classification of exits

type retKind int

const (
	retOK retKind = iota
	retErr
	retMaybe
	retOther // panic, exit
)

func errOf(x *Exit) *Term {
	if x.Kind != "return" || len(x.Res) == 0 {
		return nil
	}
	return x.Res[len(x.Res)-1]
}

func (x *Exit) class() retKind {
	t := errOf(x)
	if t == nil {
		return retOther
	}
	switch {
	case t.Op == ONil:
		return retOK
	case t.Op == OIface || t.Op == OSent:
		return retErr
	}
	if b, ok := x.St.eval(mkIsNil(t)); ok {
		if b {
			return retOK
		}
		return retErr
	}
	return retMaybe
}

// intValue: the value the facts give an integer, one of the candidates.
func (s *State) intValue(t *Term, cands []int64) (int64, bool) {
	if v, ok := codeOf(s, t); ok {
		return v, true
	}
	if t.Op == OIface {
		t = t.Args[0]
	}
	for _, k := range cands {
		if s.Holds(EqI(t, intConst(k, t.T))) {
			return k, true
		}
	}
	return 0, false
}

// code of an exit returning (possibly inside an interface) an integer code.
func codeOf(st *State, t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if k := st.constOf(t); k != nil {
		t = k
	}
	if t.Op == OIface {
		t = t.Args[0]
	}
	if k := st.constOf(t); k != nil {
		t = k
	}
	if v, ok := t.Int(); ok {
		return v, true
	}
	return 0, false
}

func (x *Exit) where() string {
	if x.St != nil && x.St.lastRet != "" {
		return x.St.lastRet
	}
	return x.Pos
}

// ---------- fact queries

// pos iterates over the facts that hold positively.
func (s *State) posFact(f func(t *Term) bool) *Term {
	for n := s.facts; n != nil; n = n.up {
		if n.val && f(n.atom) {
			return n.atom
		}
	}
	return nil
}

func (s *State) negFact(f func(t *Term) bool) *Term {
	for n := s.facts; n != nil; n = n.up {
		if !n.val && f(n.atom) {
			return n.atom
		}
	}
	return nil
}

// same: a and b denote equal values under the facts.
func (s *State) same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if isIntTerm(a) && isIntTerm(b) {
		if s.Holds(EqI(a, b)) {
			return true
		}
	}
	if s.Holds(mkEq(a, b)) {
		return true
	}
	// congruence: same operator over equal arguments
	if a.Op == b.Op && a.Aux == b.Aux && len(a.Args) == len(b.Args) && len(a.Args) > 0 && a.Op != OLin && a.Op != OCat {
		for i := range a.Args {
			if !s.same(a.Args[i], b.Args[i]) {
				return false
			}
		}
		return true
	}
	if a.Op == OCat && b.Op == OCat && len(a.Args) == len(b.Args) {
		for i := range a.Args {
			if !s.same(a.Args[i], b.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func isIntTerm(t *Term) bool { return t.T != nil && isInteger(t.T) }

func (s *State) differ(a, b *Term) bool {
	if isIntTerm(a) && isIntTerm(b) {
		if s.Holds(mkNot(EqI(a, b))) {
			return true
		}
	}
	return s.Holds(mkNot(mkEq(a, b)))
}

// verified: a signature check by key over a message accepted by msg, with the
// given signature, succeeded on this path.
func (s *State) sigFact(val bool, key, sig *Term, msg func(m *Term) bool) bool {
	for n := s.facts; n != nil; n = n.up {
		if n.val == val && n.atom.Op == OCall && n.atom.Aux == "sign.Verify" {
			a := n.atom.Args
			if (key == nil || s.same(a[0], key)) && (sig == nil || s.same(a[2], sig)) && (msg == nil || msg(a[1])) {
				return true
			}
		}
	}
	return false
}

// parts of a byte string.
func parts(t *Term) []*Term {
	if t.Op == OCat {
		var r []*Term
		for _, a := range t.Args {
			r = append(r, parts(a)...)
		}
		return r
	}
	return []*Term{t}
}

// intEncoding: t is the encoding of an integer in n bytes, in either order.
func intEncoding(t *Term) (n int, ok bool) {
	if t.Op == OCall && len(t.Args) == 1 {
		switch t.Aux {
		case "LE64", "BE64":
			return 8, true
		case "LE32", "BE32":
			return 4, true
		case "LE16", "BE16":
			return 2, true
		}
	}
	return 0, false
}

func isIntEncoding(t *Term) bool { _, ok := intEncoding(t); return ok }

// strip removes value preserving wrappers: integer encodings, conversions.
func strip(t *Term) *Term {
	for {
		switch {
		case t.Op == OConv && len(t.Args) == 1 && !narrows(t):
			t = t.Args[0]
		case isIntEncoding(t):
			t = t.Args[0]
		case t.Op == OElem && len(t.Args) == 1:
			t = t.Args[0]
		default:
			return t
		}
	}
}

// narrows: the conversion can lose information.
func narrows(t *Term) bool {
	if t.T == nil || t.Args[0].T == nil {
		return true
	}
	fs, _, ok1 := intSize(t.Args[0].T)
	ts, _, ok2 := intSize(t.T)
	return !ok1 || !ok2 || ts < fs
}

// carries: the byte string m contains x as one of its parts.
func (s *State) carries(m, x *Term) bool {
	sx := strip(x)
	for _, q := range parts(m) {
		if sq := strip(q); sq == sx || s != nil && s.same(sq, sx) {
			return true
		}
	}
	return false
}

// ---------- loops

// resolve builds from alternative alt of loop rec the facts of one iteration,
// split into the first iteration and the later ones where values carried one
// iteration behind occur.
func iterStates(rec *LoopRec, alt *State) []*State {
	lags := map[*Term]bool{}
	for n := alt.facts; n != nil; n = n.up {
		anySub(n.atom, func(t *Term) bool {
			if t.Op == OLag && t.Args[2] == rec.IV {
				lags[t] = true
			}
			return false
		})
	}
	if len(lags) == 0 {
		return []*State{alt.clone()}
	}
	var r []*State
	for _, first := range []bool{true, false} {
		s := alt.clone()
		var ok bool
		if first {
			ok = s.assume(EqI(rec.IV, intConst(0, rec.IV.T)))
		} else {
			ok = s.assume(mkGe0(linAdd(linOf(rec.IV), linConst(-1), 1)))
		}
		if !ok {
			continue
		}
		m := map[*Term]*Term{}
		for t := range lags {
			if first {
				m[t] = t.Args[0]
			} else {
				m[t] = subst(t.Args[1], map[*Term]*Term{rec.IV: AddC(rec.IV, -1)})
			}
		}
		for n := alt.facts; n != nil; n = n.up {
			a := subst(n.atom, m)
			if a != n.atom {
				if !n.val {
					a = mkNot(a)
				}
				if !s.assume(a) {
					ok = false
					break
				}
			}
		}
		if ok {
			r = append(r, s)
		}
	}
	return r
}

// forall: pred holds for every index idx with lo <= idx < hi, because some
// completed loop established it for each of them (or the range is empty).
func (s *State) forall(lo int64, hi *Term, pred func(st *State, idx *Term) bool) bool {
	return s.forallN(lo, hi, pred, 2)
}

func (s *State) forallN(lo int64, hi *Term, pred func(st *State, idx *Term) bool, peel int) bool {
	if s.Holds(mkGe0(linAdd(linConst(lo), linOf(hi), -1))) {
		return true
	}
	// a range known to have few elements: check them one by one
	for k := int64(1); k <= 3; k++ {
		if s.Holds(mkGe0(linAdd(linConst(lo+k), linOf(hi), -1))) {
			ok := true
			for j := int64(0); j < k && ok; j++ {
				ok = s.instAt(intConst(lo+j, types.Typ[types.Int]), pred)
			}
			return ok
		}
	}
	for n := s.loops; n != nil; n = n.up {
		if s.forallIn(n.rec, lo, hi, pred) {
			return true
		}
	}
	// the first element handled on its own
	return peel > 0 && s.instAt(intConst(lo, types.Typ[types.Int]), pred) && s.forallN(lo+1, hi, pred, peel-1)
}

func (s *State) forallIn(rec *LoopRec, lo int64, hi *Term, pred func(st *State, idx *Term) bool) bool {
	alts := s.alts(rec)
	for _, sh := range []int64{0, 1, -1, lo, 2} {
		if sh > lo {
			continue
		}
		// elements IV+sh for iterations 0..IV-1 cover [sh, IV+sh)
		if !s.Holds(mkGe0(linAdd(linAdd(linOf(rec.IV), linOf(hi), -1), linConst(sh), 1))) {
			continue
		}
		ok := len(alts) > 0
		for _, alt := range alts {
			for _, a := range iterStates(rec, alt) {
				idx := AddC(rec.IV, sh)
				if sh < lo && !a.assume(mkGe0(linAdd(linOf(idx), linConst(lo), -1))) {
					continue
				}
				if !predAt(a, idx, pred) {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
	}
	// a loop counting down
	for _, sh := range []int64{-1, -2, 0} {
		idx := linTerm(linAdd(linAdd(linOf(hi), linOf(rec.IV), -1), linConst(sh), 1), rec.IV.T)
		// iterations 0..IV-1 cover (hi+sh-IV, hi+sh]; need hi+sh-IV+1 <= lo and sh>=-1
		if sh < -1 || !s.Holds(mkGe0(linAdd(linAdd(linOf(rec.IV), linConst(lo), 1), linAdd(linOf(hi), linConst(sh+1), 1), -1))) {
			continue
		}
		ok := len(alts) > 0
		for _, alt := range alts {
			for _, a := range iterStates(rec, alt) {
				if !predAt(a, idx, pred) {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// predAt: pred holds at idx; an element whose position is known is also known
// by that position.
func predAt(s *State, idx *Term, pred func(st *State, idx *Term) bool) bool {
	if pred(s, idx) {
		return true
	}
	n := s.normIdx(idx)
	return n != idx && pred(s, n)
}

// instAt: pred holds at index idx, by the path facts or because a completed
// loop iteration handled that index.
func (s *State) instAt(idx *Term, pred func(st *State, idx *Term) bool) bool {
	if pred(s, idx) {
		return true
	}
	for n := s.loops; n != nil; n = n.up {
		rec := n.rec
		for _, sh := range []int64{0, 1, -1} {
			it := AddC(idx, -sh) // iteration handling idx
			if !s.Holds(mkGe0(linOf(it))) || !s.Holds(mkGe0(linAdd(linAdd(linOf(rec.IV), linOf(it), -1), linConst(-1), 1))) {
				continue
			}
			ok, some, alts := true, false, s.alts(rec)
			for _, alt := range alts {
				for _, a := range iterStates(rec, alt) {
					t := a.at(rec.IV, it)
					if t == nil {
						continue
					}
					some = true
					if !pred(t, idx) {
						ok = false
					}
				}
			}
			if ok && some {
				return true
			}
		}
	}
	return false
}

// at substitutes a value for an iteration counter; nil when contradictory.
func (s *State) at(iv, val *Term) *State {
	t := newState()
	t.cells, t.shC = s.cells, true
	t.aux, t.shA = s.aux, true
	t.loops = s.loops
	t.events = s.events
	m := map[*Term]*Term{iv: val}
	var fs []*factNode
	for n := s.facts; n != nil; n = n.up {
		fs = append(fs, n)
	}
	for i := len(fs) - 1; i >= 0; i-- {
		a := subst(fs[i].atom, m)
		if !fs[i].val {
			a = mkNot(a)
		}
		if !t.assume(a) {
			return nil
		}
	}
	if iv != val && isIntTerm(iv) {
		if !t.assume(EqI(iv, val)) {
			return nil
		}
	}
	return t
}

// resolveLag: the value a variable that trails a loop by one iteration has,
// once it is known whether the loop ran.
func (s *State) resolveLag(t *Term) *Term {
	if t.Op != OLag {
		return t
	}
	iv := t.Args[2]
	if s.Holds(mkGe0(linAdd(linOf(iv), linConst(-1), 1))) {
		return subst(t.Args[1], map[*Term]*Term{iv: AddC(iv, -1)})
	}
	if s.Holds(EqI(iv, intConst(0, iv.T))) {
		return t.Args[0]
	}
	return t
}

// exitValues: the possible values of t at an exit, a trailing variable being
// split by whether its loop ran.
func (s *State) exitValues(t *Term, f func(st *State, v *Term) bool) bool {
	if t.Op != OLag {
		return f(s, t)
	}
	if r := s.resolveLag(t); r != t {
		return f(s, r)
	}
	iv := t.Args[2]
	a := s.clone()
	if a.assume(EqI(iv, intConst(0, iv.T))) && a.consistent() && !f(a, t.Args[0]) {
		return false
	}
	b := s.clone()
	if b.assume(mkGe0(linAdd(linOf(iv), linConst(-1), 1))) && b.consistent() && !f(b, subst(t.Args[1], map[*Term]*Term{iv: AddC(iv, -1)})) {
		return false
	}
	return true
}

// ---------- events

func (s *State) eventsOf(kind string) []*Event {
	var r []*Event
	for _, ev := range s.Events() {
		if ev.Kind == kind {
			r = append(r, ev)
		}
	}
	return r
}

// allEvents returns the path's events including those inside loop bodies
// (once per alternative of the loop).
type locEvent struct {
	*Event
	rec *LoopRec // innermost summarised loop containing it, nil at top level
	alt *State
}

func (s *State) allEvents() []locEvent {
	var r []locEvent
	var walk func(evs []*Event, rec *LoopRec, alt *State)
	walk = func(evs []*Event, rec *LoopRec, alt *State) {
		for _, ev := range evs {
			r = append(r, locEvent{ev, rec, alt})
			if ev.Kind == "loop" && ev.Loop != nil {
				for _, a := range ev.Loop.Alts {
					walk(a.EventsSince(ev.Loop.Base), ev.Loop, a)
				}
			}
		}
	}
	walk(s.Events(), nil, nil)
	return r
}

// ---------- sites

// Site is a call, store or other instruction of the resolved program.
type Site struct {
	Fn *ssa.Function
	In ssa.Instruction
}

func (c *Ctx) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok && v.Pos().IsValid() {
			p = v.Pos()
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	return c.p.Pos(p)
}

// callSites: every call (go, defer included) that may invoke a function
// accepted by f, in the whole repository.
func (c *Ctx) callSites(f func(callee *ssa.Function) bool) []Site {
	var r []Site
	for _, fn := range c.p.Fns {
		c.eachInstr(fn, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, g := range c.p.callees(ci) {
				if f(g) {
					r = append(r, Site{fn, in})
					c.sites[c.pos(in)] = true
					return
				}
			}
		})
	}
	return r
}

func (c *Ctx) eachInstr(fn *ssa.Function, f func(in ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}

// callersOf: the functions (closures attributed to themselves) from which fn
// can be called directly.
func (c *Ctx) callersOf(fn *ssa.Function) []*ssa.Function {
	m := map[*ssa.Function]bool{}
	for _, s := range c.callSites(func(g *ssa.Function) bool { return g == fn }) {
		m[s.Fn] = true
	}
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return fnName(r[i]) < fnName(r[j]) })
	return r
}

// fieldStores: every instruction that may write the given field
// ("pkg.Type.field"), including stores of the whole struct.
func (c *Ctx) fieldStores(key string) []Site {
	var r []Site
	hit := func(fn *ssa.Function, in ssa.Instruction) {
		r = append(r, Site{fn, in})
		c.sites[c.pos(in)] = true
	}
	for _, fn := range c.p.Fns {
		c.eachInstr(fn, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, isField := s.Addr.(*ssa.FieldAddr)
			if isField && structKey(fa.X.Type(), fa.Field) == key {
				hit(fn, in)
				return
			}
			et := s.Val.Type()
			if _, ok := et.Underlying().(*types.Struct); ok {
				// whole-struct store
				if a, ok := s.Addr.(*ssa.Alloc); (!ok || a.Heap) && holdsField(et, key) {
					hit(fn, in)
				}
				return
			}
			// store through a pointer the field's address may have become
			switch s.Addr.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global:
				return
			}
			for _, k := range c.p.addrTaken()[typeName(et)] {
				if k == key {
					hit(fn, in)
				}
			}
		})
	}
	return r
}

// holdsField: a value of struct type t contains the field.
func holdsField(t types.Type, key string) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if structKey(t, i) == key || holdsField(st.Field(i).Type(), key) {
			return true
		}
	}
	return false
}

// roots: the entry points among the transitive callers of the given
// functions: exported functions and methods, main functions, functions whose
// address is taken and functions nobody calls.
func (c *Ctx) reaching(targets map[*ssa.Function]bool) map[*ssa.Function]bool {
	rev := c.revCalls()
	seen := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for f := range targets {
		seen[f] = true
		q = append(q, f)
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, g := range rev[f] {
			if !seen[g] {
				seen[g] = true
				q = append(q, g)
			}
		}
	}
	return seen
}

func (c *Ctx) revCalls() map[*ssa.Function][]*ssa.Function {
	rev := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range c.p.Fns {
		c.eachInstr(fn, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range c.p.callees(ci) {
					rev[g] = append(rev[g], fn)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				if g, ok := mc.Fn.(*ssa.Function); ok {
					rev[g] = append(rev[g], fn)
				}
			}
		})
	}
	return rev
}

// reachableFrom: functions reachable from the given ones (calls and closures).
func (c *Ctx) reachableFrom(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for _, f := range roots {
		if f != nil && !seen[f] {
			seen[f] = true
			q = append(q, f)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		add := func(g *ssa.Function) {
			if g != nil && !seen[g] {
				seen[g] = true
				q = append(q, g)
			}
		}
		c.eachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range c.p.callees(ci) {
					add(g)
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					add(g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
		})
	}
	return seen
}

func isPtrTo(t types.Type, name string) bool {
	p, ok := t.(*types.Pointer)
	return ok && typeName(p.Elem()) == name
}

// consistent: no arithmetic fact of the path is refuted by the others.
func (s *State) consistent() bool {
	for n := s.facts; n != nil; n = n.up {
		switch n.atom.Op {
		case OEq0:
			l := linOf(n.atom.Args[0])
			if n.val {
				if s.proveGe0(linAdd(l, linConst(-1), 1), 4) || s.proveGe0(linAdd(linConst(-1), l, -1), 4) {
					return false
				}
			} else if s.proveGe0(l, 4) && s.proveGe0(linScale(l, -1), 4) {
				return false
			}
		case OGe0:
			l := linOf(n.atom.Args[0])
			if n.val && s.proveGe0(linAdd(linConst(-1), l, -1), 4) || !n.val && s.proveGe0(l, 4) {
				return false
			}
		}
	}
	return true
}

// lastIteration: the loop was run at least once before this exit, and what
// its last iteration may have been satisfies the predicate.
func lastIteration(st *State, rec *LoopRec, pred func(alt *State) bool) bool {
	if !carriedExclude(rec, st, rec.Base, func(ph *PhiRec) *Term { return ph.Init }) {
		return false
	}
	n := 0
	for i, a := range rec.Alts {
		if carriedExclude(rec, st, a, func(ph *PhiRec) *Term { return ph.Next[i] }) {
			continue
		}
		if !pred(a) {
			return false
		}
		n++
	}
	return n > 0
}

// carriedExclude: what st says about the values carried by the loop is not
// true of the values val in the state in.
func carriedExclude(rec *LoopRec, st, in *State, val func(ph *PhiRec) *Term) bool {
	carried, sub := map[*Term]bool{}, map[*Term]*Term{}
	for _, ph := range rec.Phis {
		if !ph.IsCell && ph.Class == "" {
			carried[ph.Term] = true
			if v := val(ph); v != nil {
				sub[ph.Term] = v
			}
		}
	}
	if len(sub) == 0 {
		return false
	}
	for _, f := range st.Facts() {
		if anySub(f, func(t *Term) bool { return carried[t] }) {
			if v, ok := in.eval(subst(f, sub)); ok && !v {
				return true
			}
		}
	}
	return false
}

// alts: what a completed round of the loop may have been, seen from s: a round
// after which the loop neither goes on nor gets to s is not among them.
func (s *State) alts(rec *LoopRec) []*State {
	var r []*State
	for i, a := range rec.Alts {
		next := func(ph *PhiRec) *Term { return ph.Next[i] }
		dead := carriedExclude(rec, s, a, next)
		for _, b := range rec.Alts {
			dead = dead && carriedExclude(rec, b, a, next)
		}
		if !dead {
			r = append(r, a)
		}
	}
	return r
}

// flagOf: the loop that carries the value t from round to round.
func flagOf(st *State, t *Term) (*LoopRec, *PhiRec) {
	for n := st.loops; n != nil; n = n.up {
		for _, ph := range n.rec.Phis {
			if ph.Term == t && !ph.IsCell && ph.Class == "" {
				return n.rec, ph
			}
		}
	}
	return nil, nil
}

// splitFlags: an exit that returns the error a loop carried is two exits.
func (e *Engine) splitFlags() {
	var r []*Exit
	for _, x := range e.Exits {
		t := errOf(x)
		if t == nil || t.T == nil || !isErrorType(t.T) || x.class() != retMaybe {
			r = append(r, x)
			continue
		}
		if rec, _ := flagOf(x.St, t); rec == nil {
			r = append(r, x)
			continue
		}
		for _, nilErr := range []bool{true, false} {
			y := *x
			y.St = x.St.clone()
			f := mkIsNil(t)
			if !nilErr {
				f = mkNot(f)
			}
			if y.St.assume(f) {
				r = append(r, &y)
			}
		}
	}
	e.Exits = r
}

type errCase struct {
	St  *State
	Err *Term
}

// errCases: the errors an exit may return, each with what is known where it
// came up.
func (x *Exit) errCases() []errCase {
	t := errOf(x)
	rec, ph := flagOf(x.St, t)
	if rec == nil {
		return []errCase{{x.St, t}}
	}
	var r []errCase
	if !rec.Base.knownNil(ph.Init) {
		r = append(r, errCase{rec.Base, ph.Init})
	}
	for i, a := range rec.Alts {
		if ph.Next[i] == nil || ph.Next[i] == t || a.knownNil(ph.Next[i]) {
			continue
		}
		r = append(r, errCase{a, ph.Next[i]})
	}
	return r
}
