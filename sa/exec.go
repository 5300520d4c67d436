package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a path-sensitive dataflow analysis over SSA: the abstract
// state is (value numbers, known branch facts, heap cells, effects), the
// states of a program point are kept as a set (no join), loops are solved to a
// fixpoint and summarised by closed forms. Nothing is executed.

type Frame struct {
	fn     *ssa.Function
	parent *Frame
	ctx    int
	depth  int
	ret    func(st *State, res []*Term)
	ivs    []*Term
	stack  []string
	site   string
	hasLp  bool
	freev  []*Term
}

type loopCtx struct {
	loop *loopT
	mode int // 0 unroll, 1 discovery, 2 final
	iter int
	iv   *Term
	coll *collector
	up   *loopCtx
}

type collector struct {
	edges []backEdge
	gone  map[string]bool // versions modified on paths that leave (unused)
}

type backEdge struct {
	st   *State
	vals map[*ssa.Phi]*Term
}

// P is the position-independent part of an activation on one path.
type P struct {
	fr  *Frame
	env map[ssa.Value]*Term
	lc  *loopCtx
}

type Exit struct {
	Kind string // return, panic, exit, stop
	Res  []*Term
	St   *State
	Pos  string
	In   string
	What string
	Go   string // where the goroutine that ends here was started
}

type Obl struct {
	Kind  string
	Pos   string
	In    string
	Stack []string
	Cond  *Term
	Subj  *Term
	OK    bool
	Fails []OblFail // all distinct ones
}

type OblFail struct {
	Cond, Subj *Term
	St         *State // the path
}

// MakeRec is an allocation whose size is given by a number.
type MakeRec struct {
	In, Pos string
	N       *Term
	St      *State
}

type Opts struct {
	Name     string
	Args     map[int]*Term // override parameter terms
	Pre      func(st *State, args []*Term)
	Opaque   func(f *ssa.Function) (bool, bool) // (opaque?, decided?)
	LogLoad  func(key string) bool              // record load events for these field keys
	LogCalls func(e *Event) bool                // which events go to the global log
	FollowGo bool
	MaxSteps int
	FreeVars []*Term
	MaxDepth int
	Assume   func(c *Term) // unused
	NoUnroll bool
}

type Engine struct {
	p       *Program
	o       *Opts
	root    *ssa.Function
	Args    []*Term
	Exits   []*Exit
	Log     []*Event
	Obls    map[string]*Obl
	Makes   []MakeRec
	Steps   int
	Funcs   map[string]bool
	Calls   int
	disc    int
	abort   string
	intern  map[string]int
	Undecid []string
	inGo    int
	goDone  map[string]int
	goSite  string
	GoExits []*Exit // how the goroutines followed end
	Loops   int
	Recs    []*LoopRec      // the loops summarised, also those which are never left
	Looped  map[*loopT]bool // the loops entered, summarised or followed iteration by iteration
	long    map[*loopT]bool // loops with many iterations, which are summarised
	models  map[string]bool // functions of the repository taken by their contract
}

type stopErr struct{ why string }

var internTab = map[string]int{}

func internID(s string) int {
	if v, ok := internTab[s]; ok {
		return v
	}
	v := len(internTab) + 1
	internTab[s] = v
	return v
}

var fnIDs = map[*ssa.Function]int{}

func fnID(f *ssa.Function) int {
	if v, ok := fnIDs[f]; ok {
		return v
	}
	fnIDs[f] = len(fnIDs) + 1
	return fnIDs[f]
}

// Explore runs the analysis from entry point fn.
func (p *Program) Explore(fn *ssa.Function, o *Opts) *Engine {
	long := map[*loopT]bool{}
	for {
		n := len(long)
		if e := p.explore(fn, o, long); len(long) == n {
			return e
		}
		// a loop was followed iteration by iteration for too long: start over
		// and summarise it
	}
}

func (p *Program) explore(fn *ssa.Function, o *Opts, long map[*loopT]bool) (e *Engine) {
	if o == nil {
		o = &Opts{}
	}
	if o.MaxSteps == 0 {
		o.MaxSteps = 6000000
	}
	if o.MaxDepth == 0 {
		o.MaxDepth = 45
	}
	e = &Engine{p: p, o: o, root: fn, Obls: map[string]*Obl{}, Funcs: map[string]bool{}, goDone: map[string]int{}, long: long}
	st := newState()
	for i, pr := range fn.Params {
		var t *Term
		if o.Args != nil && o.Args[i] != nil {
			t = o.Args[i]
		} else {
			t = mk(OParam, paramName(fn, i)+"\x00"+typeName(pr.Type()), pr.Type())
		}
		e.Args = append(e.Args, t)
	}
	// the receiver of an entry point is a real object
	if fn.Signature.Recv() != nil && len(e.Args) > 0 {
		st.assume(mkNot(mkIsNil(e.Args[0])))
	}
	if o.Pre != nil {
		o.Pre(st, e.Args)
	}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stopErr); ok {
				e.abort = s.why
				return
			}
			panic(r)
		}
	}()
	free := o.FreeVars
	for len(free) < len(fn.FreeVars) {
		fv := fn.FreeVars[len(free)]
		free = append(free, mk(OParam, "freevar:"+fv.Name(), fv.Type()))
	}
	e.enter(nil, st, fn, e.Args, free, "root", nil, func(st *State, res []*Term) {
		e.exit(&Exit{Kind: "return", Res: res, St: st, Pos: p.Pos(fn.Pos()), In: fnName(fn)})
	})
	return e
}

func paramName(fn *ssa.Function, i int) string {
	if fn.Signature.Recv() != nil && i == 0 {
		return "recv"
	}
	n := i
	if fn.Signature.Recv() != nil {
		n--
	}
	return "arg" + strconv.Itoa(n)
}

func (e *Engine) exit(x *Exit) {
	if e.disc > 0 {
		return
	}
	if e.inGo > 0 {
		x.Go = e.goSite
		e.GoExits = append(e.GoExits, x)
		if len(e.GoExits) > 20000 {
			panic(stopErr{"too many exits"})
		}
		return
	}
	e.Exits = append(e.Exits, x)
	if len(e.Exits) > 60000 {
		panic(stopErr{"too many exits"})
	}
}

func (e *Engine) log(ev *Event, st *State) {
	st.addEvent(ev)
	if e.o.LogCalls != nil && e.o.LogCalls(ev) {
		ev.St = st.clone()
		if e.disc == 0 {
			e.Log = append(e.Log, ev)
		}
	}
}

// made records an allocation of n elements.
func (e *Engine) made(p P, in ssa.Instruction, n *Term, st *State) {
	if e.disc == 0 {
		e.Makes = append(e.Makes, MakeRec{fnName(p.fr.fn), e.pos(in), n, st.clone()})
	}
}

func (e *Engine) obl(kind string, P P, in ssa.Instruction, cond, subj *Term, st *State) bool {
	v, ok := st.eval(cond)
	if e.disc == 0 && !ok && st.loops != nil && e.byLoop(cond, st) {
		v, ok = true, true
	}
	if e.disc == 0 {
		pos := e.pos(in)
		k := kind + "@" + pos + "@" + P.fr.fn.Name()
		ob := e.Obls[k]
		if ob == nil {
			ob = &Obl{Kind: kind, Pos: pos, In: fnName(P.fr.fn), OK: true}
			e.Obls[k] = ob
		}
		if !(ok && v) {
			if n := len(ob.Fails); n == 0 || ob.Fails[n-1].Cond != cond || ob.Fails[n-1].St.facts != st.facts {
				ob.Fails = append(ob.Fails, OblFail{cond, subj, st.clone()})
			}
		}
		if !(ok && v) && ob.OK {
			ob.OK = false
			ob.Cond, ob.Subj, ob.Stack = cond, subj, P.fr.stack
		} else if !(ok && v) && ob.Subj != nil && subj != nil && !rooted(ob.Subj) && rooted(subj) {
			ob.Cond, ob.Subj, ob.Stack = cond, subj, P.fr.stack
		}
	}
	return st.assume(cond)
}

// byLoop: a loop that has run established the condition for every element, and
// it is about one of them.
func (e *Engine) byLoop(cond *Term, st *State) bool {
	seen := map[*Term]bool{}
	var idx []*Term
	anySub(cond, func(t *Term) bool {
		if t.Op == OIdx && len(t.Args) == 2 && !seen[t.Args[1]] {
			seen[t.Args[1]] = true
			idx = append(idx, t.Args[1])
		}
		return false
	})
	for _, i := range idx {
		if st.instAt(i, func(a *State, _ *Term) bool { return a.Holds(cond) }) {
			return true
		}
	}
	return false
}

func rooted(t *Term) bool {
	return anySub(t, func(x *Term) bool { return x.Op == OParam || x.Op == OOut })
}

func (e *Engine) pos(in ssa.Instruction) string {
	ps := in.Pos()
	if !ps.IsValid() {
		// look for a neighbouring position
		b := in.Block()
		for i, x := range b.Instrs {
			if x == in {
				for j := i; j < len(b.Instrs); j++ {
					if b.Instrs[j].Pos().IsValid() {
						return e.p.Pos(b.Instrs[j].Pos())
					}
				}
				for j := i; j >= 0; j-- {
					if b.Instrs[j].Pos().IsValid() {
						return e.p.Pos(b.Instrs[j].Pos())
					}
				}
			}
		}
	}
	return e.p.Pos(ps)
}

// ---------- calls

func (e *Engine) enter(caller *Frame, st *State, fn *ssa.Function, args, free []*Term, siteKey string, ivs []*Term, k func(*State, []*Term)) {
	depth := 0
	pctx := 0
	var stack []string
	if caller != nil {
		depth = caller.depth + 1
		pctx = caller.ctx
		stack = append(append([]string(nil), caller.stack...), fnName(caller.fn)+"@"+siteKeyPos(siteKey))
	}
	if depth > e.o.MaxDepth {
		panic(stopErr{"inlining depth exceeded at " + fnName(fn)})
	}
	fr := &Frame{fn: fn, parent: caller, ctx: internID(fmt.Sprintf("c%d/%d/%s", pctx, fnID(fn), siteKey)), depth: depth, ret: k, ivs: ivs, stack: stack}
	fr.hasLp = len(e.p.loops(fn).byHeader) > 0
	fr.freev = free
	e.Funcs[fnName(fn)] = true
	env := map[ssa.Value]*Term{}
	for i, pr := range fn.Params {
		env[pr] = args[i]
	}
	for i, fv := range fn.FreeVars {
		env[fv] = free[i]
	}
	e.block(P{fr, env, nil}, fn.Blocks[0], nil, st)
}

func siteKeyPos(k string) string {
	if i := strings.Index(k, "#"); i >= 0 {
		return k[:i]
	}
	return k
}

func (e *Engine) siteKey(p P, in ssa.Instruction) string {
	var sb strings.Builder
	sb.WriteString(e.pos(in))
	sb.WriteByte('#')
	b := in.Block()
	sb.WriteString(strconv.Itoa(b.Index))
	sb.WriteByte('.')
	for i, x := range b.Instrs {
		if x == in {
			sb.WriteString(strconv.Itoa(i))
			break
		}
	}
	for l := p.lc; l != nil; l = l.up {
		if l.mode == 0 {
			fmt.Fprintf(&sb, "u%d", l.iter)
		}
	}
	return sb.String()
}

func (e *Engine) ivsOf(p P) []*Term {
	r := append([]*Term(nil), p.fr.ivs...)
	for l := p.lc; l != nil; l = l.up {
		if l.mode != 0 && l.iv != nil {
			r = append(r, l.iv)
		}
	}
	return r
}

// uniq builds a value unique to this site, context and iteration.
func (e *Engine) uniq(op Op, name string, p P, in ssa.Instruction, t types.Type, args ...*Term) *Term {
	k := internID(fmt.Sprintf("v%d/%d/%s", p.fr.ctx, fnID(p.fr.fn), e.siteKey(p, in)))
	a := append(append([]*Term(nil), args...), e.ivsOf(p)...)
	return mk(op, name+"#"+strconv.Itoa(k), t, a...)
}

func cloneEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	r := make(map[ssa.Value]*Term, len(m)+8)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (p P) fork() P {
	if p.fr.hasLp {
		p.env = cloneEnv(p.env)
	}
	return p
}

// ---------- control flow

func (e *Engine) jump(p P, from, to *ssa.BasicBlock, st *State) {
	// leaving loops
	for p.lc != nil && !p.lc.loop.Body[to] {
		if p.lc.mode == 1 {
			return // discovery looks at one iteration only
		}
		p.lc = p.lc.up
	}
	lp := e.p.loops(p.fr.fn).byHeader[to]
	if lp == nil {
		e.block(p, to, from, st)
		return
	}
	if p.lc != nil && p.lc.loop == lp {
		// back edge
		c := p.lc
		switch c.mode {
		case 1:
			vals := map[*ssa.Phi]*Term{}
			for _, in := range to.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					vals[ph] = e.val(p, st, ph.Edges[predIdx(to, from)])
				}
			}
			c.coll.edges = append(c.coll.edges, backEdge{st: st.clone(), vals: vals})
			return
		case 2:
			return
		case 0:
			nc := *c
			nc.iter++
			if nc.iter > 70 {
				e.long[lp] = true
				panic(stopErr{"unrolling bound exceeded in " + fnName(p.fr.fn)})
			}
			p.lc = c.up
			e.enterLoop(p, lp, from, st, nc.iter)
			return
		}
	}
	e.enterLoop(p, lp, from, st, 0)
}

func predIdx(b, from *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == from {
			return i
		}
	}
	panic("no pred")
}

// decidable: does the header's own condition have a known outcome?
func (e *Engine) decidable(p P, lp *loopT, from *ssa.BasicBlock, st *State) bool {
	h := lp.Header
	env := cloneEnv(p.env)
	q := P{p.fr, env, p.lc}
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			env[x] = e.val(p, st, x.Edges[predIdx(h, from)])
		case *ssa.BinOp:
			env[x] = e.binop(q, x, st)
		case *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				env[x] = mkLen(e.content(st, e.val(q, st, x.Call.Args[0])))
				continue
			}
			return false
		case *ssa.UnOp:
			if x.Op == token.MUL {
				a := e.val(q, st, x.X)
				if a.Op != OAlloc {
					return false
				}
				env[x] = e.load(st, a, x.Type())
				continue
			}
			if x.Op == token.NOT {
				env[x] = mkNot(e.val(q, st, x.X))
				continue
			}
			return false
		case *ssa.If:
			c := env[x.Cond]
			if c == nil {
				return false
			}
			if c != True && c != False {
				// known not to be entered
				v, ok := st.eval(c)
				i := 0
				if !v {
					i = 1
				}
				return ok && !lp.Body[h.Succs[i]] && lp.Body[h.Succs[1-i]]
			}
			return lp.Body[h.Succs[0]] != lp.Body[h.Succs[1]]
		default:
			return false
		}
	}
	return false
}

func (e *Engine) enterLoop(p P, lp *loopT, from *ssa.BasicBlock, st *State, iter int) {
	h := lp.Header
	if e.Looped == nil {
		e.Looped = map[*loopT]bool{}
	}
	e.Looped[lp] = true
	if !e.o.NoUnroll && !e.long[lp] && e.decidable(p, lp, from, st) {
		q := p.fork()
		q.lc = &loopCtx{loop: lp, mode: 0, iter: iter, up: p.lc}
		e.block(q, h, from, st)
		return
	}
	e.Loops++
	key := fmt.Sprintf("%s:b%d/%d.%d", fnName(p.fr.fn), h.Index, p.fr.ctx, iter)
	for l := p.lc; l != nil; l = l.up {
		if l.mode == 0 {
			key += fmt.Sprintf("u%d", l.iter)
		}
	}
	iv := mk(OIV, key, types.Typ[types.Int])
	// outer iterations distinguish values computed inside
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	pi := predIdx(h, from)
	type lv struct {
		name  string
		init  *Term
		unk   *Term // opaque symbol
		cur   *Term // current hypothesis
		class string
		ph    *ssa.Phi
		cell  *Term
		fixed bool
	}
	var vars []*lv
	for i, ph := range phis {
		init := e.val(p, st, ph.Edges[pi])
		u := mk(OPhi, fmt.Sprintf("%s:%d:%s", key, i, ph.Comment), ph.Type(), iv)
		vars = append(vars, &lv{name: ph.Name(), init: init, unk: u, cur: u, ph: ph})
	}
	modKeys := map[string]bool{}
	cellVars := map[*Term]*lv{}
	var cellOrder []*lv
	var inv []*Term // what is known to hold whenever the header is reached
	header := func() *State {
		s := st.clone()
		ks := make([]string, 0, len(modKeys))
		for k := range modKeys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			e.setVersion(s, k, internID("ver"+key+k))
		}
		for _, v := range cellOrder {
			s.setCell(v.cell, v.cur)
		}
		for _, f := range inv {
			s.assume(f)
		}
		return s
	}
	round := func() (*State, []backEdge) {
		s := header()
		base := s.clone()
		c := &collector{}
		env := cloneEnv(p.env)
		for _, v := range vars {
			if v.ph != nil {
				env[v.ph] = v.cur
			}
		}
		e.disc++
		e.blockFrom(P{p.fr, env, &loopCtx{loop: lp, mode: 1, iv: iv, coll: c, up: p.lc}}, h, len(phis), s)
		e.disc--
		return base, c.edges
	}
	// phase 1: find what the body modifies
	var edges []backEdge
	var base *State
	for n := 0; ; n++ {
		base, edges = round()
		changed := false
		for _, be := range edges {
			for k, v := range be.st.aux {
				if base.aux[k] != v && strings.HasPrefix(k, "ver:") && !modKeys[k[4:]] {
					modKeys[k[4:]] = true
					changed = true
				}
			}
			for a, v := range be.st.cells {
				if base.cells[a] == v || cellVars[a] != nil || a.mentions(iv) || anySub(a, func(x *Term) bool {
					for _, lvv := range vars {
						if x == lvv.unk {
							return true
						}
					}
					return false
				}) {
					continue
				}
				if _, had := base.cells[a]; !had {
					// a cell created in the body: for pre-existing objects the
					// header value is the lazily loaded one
					if isFreshAddr(rootOf(a)) && rootAllocIn(rootOf(a), p.fr.ctx, st) && !st.hasRoot(rootOf(a)) {
						continue
					}
					if !isFreshAddr(rootOf(a)) && a.Op != OFAddr {
						continue // covered by the field version
					}
				}
				init := st.cells[a]
				if init == nil {
					init = e.initialCell(st, a, v)
				}
				x := &lv{cell: a, init: init, unk: mk(OHav, fmt.Sprintf("cell:%s:%d", key, a.ID), typeOr(init.T, v.T), iv)}
				x.cur = x.unk
				cellVars[a] = x
				cellOrder = append(cellOrder, x)
				changed = true
			}
			for a := range base.cells {
				if _, still := be.st.cells[a]; !still && cellVars[a] == nil && isFreshAddr(rootOf(a)) {
					x := &lv{cell: a, init: base.cells[a], unk: mk(OHav, fmt.Sprintf("cell:%s:%d", key, a.ID), base.cells[a].T, iv)}
					x.cur = x.unk
					cellVars[a] = x
					cellOrder = append(cellOrder, x)
					changed = true
				}
			}
		}
		sort.Slice(cellOrder, func(i, j int) bool { return cellOrder[i].cell.ID < cellOrder[j].cell.ID })
		if !changed || n > 12 {
			break
		}
	}
	all := append(append([]*lv(nil), vars...), cellOrder...)
	next := func(be backEdge, v *lv) *Term {
		if v.ph != nil {
			return be.vals[v.ph]
		}
		if x := be.st.cells[v.cell]; x != nil {
			return x
		}
		if !isFreshAddr(rootOf(v.cell)) {
			return nil // overwritten through an address that may be this one
		}
		return v.unk
	}
	same := func(v *lv) *Term {
		var r *Term
		for _, be := range edges {
			n := next(be, v)
			if n == nil || r != nil && r != n {
				return nil
			}
			r = n
		}
		return r
	}
	classify := func(v *lv) {
		if v.fixed || v.class != "" || len(edges) == 0 {
			return
		}
		n := same(v)
		if n == nil {
			// alternatives appending different elements
			if seg := e.mixedSeg(v.unk, key, iv, len(edges), func(i int) *Term { return next(edges[i], v) }); seg != nil {
				v.class = "acc"
				v.cur = mk(OAcc, "", v.unk.T, v.init, seg, iv)
				return
			}
		}
		if lo, el := e.fillSeg(v.unk, key, iv, len(edges), func(i int) *Term { return next(edges[i], v) }, func(x *Term) *Term {
			for _, w := range vars {
				if w.cur != w.unk {
					x = subst(x, map[*Term]*Term{w.unk: w.cur})
				}
			}
			return x
		}); lo != nil {
			v.class = "fill"
			v.cur = mkFill(v.init, lo, el, iv)
			return
		}
		if n == nil {
			return
		}
		switch {
		case n == v.unk || n == v.init:
			v.class, v.cur = "inv", v.init
			return
		case isInteger(v.unk.T):
			d := linAdd(linOf(n), linOf(v.unk), -1)
			if len(d.Atoms) == 0 {
				v.class = "lin"
				v.cur = linTerm(linAdd(linOf(v.init), linScale(linOf(iv), d.C), 1), v.unk.T)
				return
			}
		case n.Op == OSub && n.Args[0] == v.unk && n.Args[2] == mkLen(v.unk):
			if c, ok := n.Args[1].Int(); ok {
				v.class = "adv"
				l := mkLen(v.init)
				v.cur = mkSub(v.init, mulTerm(intConst(c, iv.T), iv), l, v.init.T)
				return
			}
		case n.Op == OCat && len(n.Args) > 1 && n.Args[0] == v.unk:
			seg := mkCat(n.T, n.Args[1:]...)
			if !seg.mentions(v.unk) {
				v.class = "acc"
				v.cur = mk(OAcc, "", v.unk.T, v.init, seg, iv)
				return
			}
		}
	}
	lagClass := func(v *lv) {
		if v.fixed || v.class != "" || len(edges) == 0 {
			return
		}
		n := same(v)
		if n == nil {
			return
		}
		for _, w := range all {
			if w.class == "" && n.mentions(w.unk) {
				return
			}
		}
		v.class = "lag"
		v.cur = mkLag(v.init, n, iv)
	}
	nextIV := AddC(iv, 1)
	verify := func() bool {
		ok := true
		for _, v := range all {
			if v.class == "" {
				continue
			}
			want := v.cur
			switch v.class {
			case "acc":
				want = nil
				for _, be := range edges {
					n := next(be, v)
					if n == nil || n != mkCat(n.T, v.cur, v.cur.Args[1]) && !(isMixed(v.cur.Args[1]) && oneMore(n, v.cur)) {
						want = v.unk // force failure
					}
				}
				if want == nil {
					continue
				}
			case "fill":
				want = nil
				lo, el := fillOf(v.cur)
				for _, be := range edges {
					n := next(be, v)
					if n == nil || n.Op != OUpd || n.Args[0] != v.cur || n.Args[1] != Add(lo, iv) || !isMixed(el) && n.Args[2] != el.Args[0] {
						want = v.unk
					}
				}
				if want == nil {
					continue
				}
			case "lag":
				want = subst(v.cur, map[*Term]*Term{iv: nextIV})
				body := v.cur
				for _, be := range edges {
					n := next(be, v)
					// closed form at IV+1 must be the value computed now
					if v.cur.Op == OLag {
						body = v.cur.Args[1]
					} else {
						body = want
					}
					if n != body {
						v.class, v.cur, v.fixed = "", v.unk, true
						ok = false
						break
					}
				}
				continue
			default:
				want = subst(v.cur, map[*Term]*Term{iv: nextIV})
			}
			for _, be := range edges {
				if next(be, v) != want {
					v.class, v.cur, v.fixed = "", v.unk, true
					ok = false
					break
				}
			}
		}
		return ok
	}
	for _, v := range all {
		classify(v)
	}
	// a counter that starts on one side of a number, moves by one and stops at
	// the number stays on its side
	closed := map[*Term]*Term{}
	for _, v := range all {
		if v.class == "lin" || v.class == "inv" {
			closed[v.unk] = v.cur
		}
	}
	inv = onSide(iv, st, base, edges, closed)
	for again := true; again; {
		again = false
		base, edges = round()
		for n := 0; n < 6 && !verify(); n++ {
			base, edges = round()
		}
		for _, f := range inv {
			for _, be := range edges {
				if !be.st.Holds(mkGe0(linAdd(linOf(f.Args[0]), linConst(1), -1))) {
					inv, again = nil, true
					break
				}
			}
		}
	}
	// second phase: values that follow a closed form one iteration behind
	any := false
	for _, v := range all {
		c := v.class
		lagClass(v)
		if v.class != c {
			any = true
		}
	}
	if any {
		base, edges = round()
		for n := 0; n < 6 && !verify(); n++ {
			base, edges = round()
		}
	}
	// newly discovered modifications under the refined hypothesis would make
	// the summary unsound: check the frame condition again
	for _, be := range edges {
		for k, v := range be.st.aux {
			if strings.HasPrefix(k, "ver:") && base.aux[k] != v && !modKeys[k[4:]] {
				panic(stopErr{"loop frame condition not stable in " + key})
			}
		}
	}
	rec := &LoopRec{loop: lp, fn: p.fr.fn, Key: key, IV: iv, Base: base, In: fnName(p.fr.fn), Depth: p.fr.depth, Pos: e.p.Pos(loopPos(h))}
	for _, be := range edges {
		rec.Alts = append(rec.Alts, be.st)
	}
	for _, v := range all {
		pr := &PhiRec{Ty: v.unk.T, Term: v.cur, Init: v.init, Class: v.class, IsCell: v.cell != nil}
		if v.ph != nil {
			pr.Name = v.ph.Comment
		}
		for _, be := range edges {
			pr.Next = append(pr.Next, next(be, v))
		}
		rec.Phis = append(rec.Phis, pr)
	}
	if e.disc == 0 {
		e.Recs = append(e.Recs, rec)
	}
	s := header()
	// an upper bound of the counter: what every iteration required of it held
	// in the last one, and holds trivially if there was none
	for i, be := range edges {
		if i > 0 {
			break
		}
		for n := be.st.facts; n != nil && n != base.facts; n = n.up {
			if n.atom.Op != OGe0 || !n.val {
				continue
			}
			l := linOf(n.atom.Args[0])
			k := int64(0)
			for j, a := range l.Atoms {
				if a == iv {
					k = l.K[j]
				} else if a.mentions(iv) {
					k = 0
					break
				}
			}
			if k != -1 {
				continue
			}
			common := true
			for _, o := range edges[1:] {
				if !o.st.Holds(n.atom) {
					common = false
				}
			}
			last := linAdd(l, linConst(1), 1)
			if common && st.Holds(mkGe0(linAdd(last, linOf(iv), 1))) {
				s.assume(mkGe0(last))
			}
		}
	}
	s.loops = &loopNode{rec: rec, up: s.loops}
	s.addEvent(&Event{Kind: "loop", Loop: rec, In: fnName(p.fr.fn), Pos: rec.Pos, Stack: p.fr.stack})
	env := cloneEnv(p.env)
	for _, v := range vars {
		if v.ph != nil {
			env[v.ph] = v.cur
		}
	}
	e.blockFrom(P{p.fr, env, &loopCtx{loop: lp, mode: 2, iv: iv, up: p.lc}}, h, len(phis), s)
}

// onSide: the facts L-iv>=0 for every L with L-iv!=0 in all iterations and
// L>=0 at the beginning. closed: closed forms of loop-carried values.
func onSide(iv *Term, st, base *State, edges []backEdge, closed map[*Term]*Term) []*Term {
	var r []*Term
	if len(edges) == 0 {
		return nil
	}
	for n := edges[0].st.facts; n != nil && n != base.facts; n = n.up {
		if n.atom.Op != OEq0 || n.val {
			continue
		}
		at := subst(n.atom, closed)
		if at.Op != OEq0 {
			continue
		}
		l := linOf(at.Args[0])
		k := int64(0)
		for j, a := range l.Atoms {
			if a == iv {
				k = l.K[j]
			} else if a.mentions(iv) {
				k = 0
				break
			}
		}
		if k != 1 && k != -1 {
			continue
		}
		common := true
		for _, o := range edges[1:] {
			if !o.st.Holds(mkNot(n.atom)) {
				common = false
			}
		}
		if k == 1 {
			l = linScale(l, -1)
		}
		if common && st.Holds(mkGe0(linAdd(l, linOf(iv), 1))) {
			r = append(r, mkGe0(l))
		}
	}
	return r
}

// mixedSeg: every alternative appends exactly one element, not the same one.
// The appended element is then an unknown of the iteration; the alternatives'
// values are kept with the loop record.
func (e *Engine) mixedSeg(unk *Term, key string, iv *Term, n int, next func(i int) *Term) *Term {
	if n < 2 {
		return nil
	}
	var t types.Type
	for i := 0; i < n; i++ {
		x := next(i)
		if x == nil || !oneMore(x, unk) {
			return nil
		}
		el := x.Args[1].Args[0]
		if el.mentions(unk) {
			return nil
		}
		if t == nil || el.Op != ONil {
			t = el.T
		}
	}
	return mk(OElem, "", t, mk(OHav, "elem:"+key+":"+strconv.Itoa(unk.ID), t, iv))
}

// fillSeg: every alternative sets exactly position lo+iv of the list.
func (e *Engine) fillSeg(unk *Term, key string, iv *Term, n int, next func(i int) *Term, res func(*Term) *Term) (lo, seg *Term) {
	var val *Term
	for i := 0; i < n; i++ {
		x := next(i)
		if x == nil || x.Op != OUpd || x.Args[0] != unk || x.Args[2].mentions(unk) {
			return nil, nil
		}
		l := Sub(res(x.Args[1]), iv)
		if l.mentions(iv) || l.mentions(unk) || lo != nil && l != lo {
			return nil, nil
		}
		lo = l
		switch {
		case i == 0:
			val = x.Args[2]
		case val != nil && val != x.Args[2]:
			val = nil
		}
	}
	if lo == nil {
		return nil, nil
	}
	t := next(0).Args[2].T
	if val != nil {
		val = res(val)
	} else {
		val = mk(OHav, "elem:"+key+":"+strconv.Itoa(unk.ID), t, iv)
	}
	return lo, mk(OElem, "", t, val)
}

func mkFill(init, lo, el, iv *Term) *Term {
	return mk(OCat, "fill", init.T, mkSub(init, intConst(0, types.Typ[types.Int]), lo, init.T),
		mk(OAcc, "", init.T, mk(OCat, "", init.T), el, iv),
		mkSub(init, Add(lo, iv), mkLen(init), init.T))
}

func fillOf(t *Term) (lo, el *Term) { return mkLen(t.Args[0]), t.Args[1].Args[1] }

func isMixed(seg *Term) bool {
	if seg.Op == OCat && len(seg.Args) == 1 {
		seg = seg.Args[0]
	}
	return seg.Op == OElem && seg.Args[0].Op == OHav && strings.HasPrefix(seg.Args[0].Aux, "elem:")
}

// oneMore: x is list with one element appended.
func oneMore(x, list *Term) bool {
	return x.Op == OCat && len(x.Args) == 2 && x.Args[0] == list && x.Args[1].Op == OElem
}

// initialCell: what a cell first written inside a loop held before it.
func (e *Engine) initialCell(st *State, a, v *Term) *Term {
	switch {
	case a.Op == OMapHas:
		return False
	case a.Op == OMapGet:
		if a.T != nil {
			return zeroOf(a.T)
		}
	case a.Op == OFAddr && a.Aux == "$content":
		s := st.clone()
		e.initBuf(s, a, a.Args[0])
		return s.cells[a]
	case a.Op == OFAddr && strings.HasPrefix(a.Aux, "$"):
		return mk(OHav, "none", nil)
	}
	t := elemOf(a.T)
	if t == nil {
		t = v.T
	}
	if t == nil {
		return mk(OHav, "unknown", nil, a)
	}
	return e.load(st.clone(), a, t)
}

func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range h.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func typeOr(a, b types.Type) types.Type {
	if a != nil {
		return a
	}
	return b
}

func rootOf(t *Term) *Term {
	for t.Op == OFAddr || t.Op == OIAddr || t.Op == OMapGet || t.Op == OMapHas || t.Op == OARef {
		t = t.Args[0]
	}
	return t
}

// hasRoot: some cell of the object already exists.
func (s *State) hasRoot(r *Term) bool {
	if s.aux["born:"+strconv.Itoa(r.ID)] != 0 {
		return true
	}
	return false
}

func rootAllocIn(r *Term, ctx int, st *State) bool { return true }

func (e *Engine) block(p P, b, from *ssa.BasicBlock, st *State) {
	n := 0
	if from != nil {
		idx := -1
		var vals []*Term
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if idx < 0 {
				idx = predIdx(b, from)
			}
			vals = append(vals, e.val(p, st, ph.Edges[idx]))
			n++
		}
		for i := 0; i < n; i++ {
			p.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
		}
	}
	e.blockFrom(p, b, n, st)
}

func (e *Engine) branch(p P, b *ssa.BasicBlock, c *Term, st *State) {
	if v, ok := st.eval(c); ok {
		if v {
			e.jump(p, b, b.Succs[0], st)
		} else {
			e.jump(p, b, b.Succs[1], st)
		}
		return
	}
	e.forkOn(st, c, func(st *State, v bool) {
		if v {
			e.jump(p.fork(), b, b.Succs[0], st)
		} else {
			e.jump(p.fork(), b, b.Succs[1], st)
		}
	})
}

// forkOn explores both outcomes of a boolean term.
func (e *Engine) forkOn(st *State, c *Term, k func(*State, bool)) {
	if v, ok := st.eval(c); ok {
		k(st, v)
		return
	}
	s2 := st.clone()
	if st.assume(c) {
		k(st, true)
	}
	if s2.assume(mkNot(c)) {
		k(s2, false)
	}
}

func (e *Engine) blockFrom(p P, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		e.Steps++
		if e.Steps > e.o.MaxSteps {
			panic(stopErr{"step bound exceeded"})
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			e.branch(p, b, e.val(p, st, x.Cond), st)
			return
		case *ssa.Jump:
			e.jump(p, b, b.Succs[0], st)
			return
		case *ssa.Return:
			// leaving every loop of this frame
			for l := p.lc; l != nil; l = l.up {
				if l.mode == 1 {
					return
				}
			}
			var res []*Term
			for _, r := range x.Results {
				res = append(res, e.val(p, st, r))
			}
			st.lastRet = e.pos(x)
			p.fr.ret(st, res)
			return
		case *ssa.Panic:
			v := e.val(p, st, x.X)
			e.log(&Event{Kind: "panic", Args: []*Term{v}, Pos: e.pos(x), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
			e.unwind(st, p, "panic", v, e.pos(x))
			return
		case *ssa.RunDefers:
			j := i + 1
			e.runDefers(st, p.fr, func(st *State) {
				e.blockFrom(p.fork(), b, j, st)
			})
			return
		case ssa.CallInstruction:
			switch c := x.(type) {
			case *ssa.Call:
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
					if !e.builtin(p, c, bi, st) {
						return
					}
					continue
				}
				j := i + 1
				snap := p
				if p.fr.hasLp {
					snap.env = cloneEnv(p.env)
				}
				e.call(p, c, &c.Call, st, func(st *State, res []*Term) {
					q := snap
					if p.fr.hasLp {
						q.env = cloneEnv(snap.env)
					}
					q.env[c] = tupled(res, c.Type())
					e.blockFrom(q, b, j, st)
				})
				return
			case *ssa.Go:
				e.goStmt(p, c, st)
			case *ssa.Defer:
				e.deferStmt(p, c, st)
			}
		case *ssa.Select:
			j := i + 1
			e.selectStmt(p, x, st, func(q P, st *State, r *Term) {
				q.env[x] = r
				e.blockFrom(q, b, j, st)
			})
			return
		case *ssa.TypeAssert:
			if x.CommaOk {
				j := i + 1
				e.assertOK(p, x, st, func(q P, st *State, v, ok *Term) {
					q.env[x] = mk(OTuple, "", x.Type(), v, ok)
					e.blockFrom(q, b, j, st)
				})
				return
			}
			v := e.val(p, st, x.X)
			r, c := e.assertTo(st, v, x.AssertedType)
			if c == False {
				e.obl("assert", p, in, False, v, st)
				e.unwind(st, p, "panic", Nil, e.pos(x))
				return
			}
			if !e.obl("assert", p, in, c, v, st) {
				return
			}
			p.env[x] = r
		case *ssa.Lookup:
			j := i + 1
			if e.lookup(p, x, st, func(q P, st *State, r *Term) {
				q.env[x] = r
				e.blockFrom(q, b, j, st)
			}) {
				return
			}
		case *ssa.Next:
			j := i + 1
			e.next(p, x, st, func(q P, st *State, r *Term) {
				q.env[x] = r
				e.blockFrom(q, b, j, st)
			})
			return
		default:
			if !e.simple(p, in, st) {
				return
			}
		}
	}
}

func tupled(res []*Term, t types.Type) *Term {
	if len(res) == 0 {
		return Nil
	}
	if len(res) == 1 {
		return res[0]
	}
	return mk(OTuple, "", t, res...)
}

// unwind: run the deferred calls of every frame, then leave the entry point.
func (e *Engine) unwind(st *State, p P, kind string, v *Term, pos string) {
	if e.disc > 0 {
		return
	}
	fr := p.fr
	var step func(st *State, f *Frame)
	step = func(st *State, f *Frame) {
		if f == nil {
			e.exit(&Exit{Kind: kind, St: st, Pos: pos, In: fnName(fr.fn), What: v.String(), Res: []*Term{v}})
			return
		}
		e.runDefers(st, f, func(st *State) { step(st, f.parent) })
	}
	step(st, fr)
}

func (e *Engine) runDefers(st *State, fr *Frame, k func(*State)) {
	if st.defers == nil || st.defers.fr != fr {
		k(st)
		return
	}
	d := st.defers
	st.defers = d.up
	d.call(st, func(st *State) { e.runDefers(st, fr, k) })
}

func (e *Engine) deferStmt(p P, c *ssa.Defer, st *State) {
	cc := &c.Call
	fnv, args := e.callArgs(p, cc, st)
	q := p
	e.log(&Event{Kind: "defer", Name: e.calleeName(cc), Args: args, Pos: e.pos(c), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
	st.defers = &deferNode{fr: p.fr, up: st.defers, call: func(st *State, k func(*State)) {
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			e.log(&Event{Kind: "builtin", Name: cc.Value.Name(), Args: args, Pos: e.pos(c), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
			k(st)
			return
		}
		q2 := q
		if q.fr.hasLp {
			q2.env = cloneEnv(q.env)
		}
		e.callV(q2, c, cc, fnv, args, st, func(st *State, _ []*Term) { k(st) })
	}}
}

func (e *Engine) goStmt(p P, c *ssa.Go, st *State) {
	cc := &c.Call
	fnv, args := e.callArgs(p, cc, st)
	ev := &Event{Kind: "go", Name: e.calleeName(cc), Args: append([]*Term{fnv}, args...), Pos: e.pos(c), In: fnName(p.fr.fn), Stack: p.fr.stack}
	if f := cc.StaticCallee(); f != nil {
		ev.Fn = f
	} else if fnv != nil && (fnv.Op == OClosure || fnv.Op == OFunc) {
		ev.Fn = fnv.Obj
	}
	e.log(ev, st)
	if !e.o.FollowGo || e.disc > 0 {
		return
	}
	s := st.clone()
	s2 := *s
	s2.defers = nil
	// a new goroutine holds no locks
	for k := range st.aux {
		if strings.HasPrefix(k, "lock:") {
			(&s2).setAux(k, 0)
		}
	}
	key := e.pos(c) + fnName(p.fr.fn)
	if e.goDone[key]++; e.goDone[key] > 64 {
		panic(stopErr{"a goroutine is started in too many states"})
	}
	s2.addEvent(&Event{Kind: "goroutine", Pos: e.pos(c), In: fnName(p.fr.fn)})
	e.inGo++
	up := e.goSite
	e.goSite = e.pos(c)
	e.callV(p, c, cc, fnv, args, &s2, func(st *State, _ []*Term) {
		e.exit(&Exit{Kind: "return", St: st, Pos: e.pos(c), In: ev.Name})
	})
	e.goSite = up
	e.inGo--
}

func (e *Engine) calleeName(cc *ssa.CallCommon) string {
	if f := cc.StaticCallee(); f != nil {
		return fnName(f)
	}
	if cc.IsInvoke() {
		return "(" + typeName(cc.Value.Type()) + ")." + cc.Method.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "dynamic"
}

func (e *Engine) callArgs(p P, cc *ssa.CallCommon, st *State) (*Term, []*Term) {
	var args []*Term
	var fv *Term
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fv = e.val(p, st, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, e.val(p, st, a))
	}
	return fv, args
}

func (e *Engine) call(p P, in ssa.CallInstruction, cc *ssa.CallCommon, st *State, k func(*State, []*Term)) {
	fv, args := e.callArgs(p, cc, st)
	e.callV(p, in, cc, fv, args, st, k)
}

func (e *Engine) callV(p P, in ssa.CallInstruction, cc *ssa.CallCommon, fv *Term, args []*Term, st *State, k func(*State, []*Term)) {
	e.Calls++
	if cc.IsInvoke() {
		e.invoke(p, in, cc, fv, args, st, k)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		var free []*Term
		if fv != nil && fv.Op == OClosure {
			free = fv.Args
		}
		e.callFn(p, in, f, args, free, st, k)
		return
	}
	if fv.Op == OClosure || fv.Op == OFunc {
		f := fv.Obj.(*ssa.Function)
		e.callFn(p, in, f, args, fv.Args, st, k)
		return
	}
	// unknown function value
	res := e.opaqueResults(p, in, "dyncall", append([]*Term{fv}, args...), cc.Signature(), true)
	e.log(&Event{Kind: "call", Name: "dyncall", Args: append([]*Term{fv}, args...), Res: tupled(res, nil), Pos: e.pos(in), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
	e.havocArgs(p, in, args, st)
	k(st, res)
}

func (e *Engine) onStack(fr *Frame, f *ssa.Function) bool {
	for ; fr != nil; fr = fr.parent {
		if fr.fn == f {
			return true
		}
	}
	return false
}

func (e *Engine) callFn(p P, in ssa.CallInstruction, f *ssa.Function, args, free []*Term, st *State, k func(*State, []*Term)) {
	name := fnName(f)
	ev := &Event{Kind: "call", Name: name, Fn: f, Args: args, Pos: e.pos(in), In: fnName(p.fr.fn), Stack: p.fr.stack}
	if len(args) > 0 {
		ca := make([]*Term, len(args))
		for i, a := range args {
			ca[i] = e.content(st, a)
		}
		ev.Args = ca
	}
	if f.Blocks == nil || !inRepo(f) && f.Synthetic == "" {
		if e.callbacks(p, in, f, name, args, st, k) {
			return
		}
	}
	if e.model(p, in, f, name, args, st, ev, k) {
		return
	}
	opaque, decided := false, false
	if e.o.Opaque != nil {
		opaque, decided = e.o.Opaque(f)
	}
	if !decided {
		opaque = e.defaultOpaque(f)
	}
	if f.Blocks == nil || !inRepo(f) && f.Synthetic == "" {
		opaque = true
	}
	if !opaque && e.onStack(p.fr, f) {
		opaque = true
	}
	if opaque {
		e.opaqueCall(p, in, f, name, args, st, ev, k)
		return
	}
	e.log(ev, st)
	e.enter(p.fr, st, f, args, free, e.siteKey(p, in), e.ivsOf(p), func(st *State, res []*Term) {
		e.log(&Event{Kind: "ret", Name: name, Fn: f, Args: ev.Args, Res: tupled(res, nil), Pos: e.pos(in), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
		k(st, res)
	})
}

func (e *Engine) opaqueResults(p P, in ssa.CallInstruction, name string, args []*Term, sig *types.Signature, unique bool) []*Term {
	n := sig.Results().Len()
	var call *Term
	var t types.Type
	if n == 1 {
		t = sig.Results().At(0).Type()
	}
	if unique {
		call = e.uniq(OCall, name, p, in, t, args...)
	} else {
		call = mk(OCall, name, t, args...)
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return []*Term{call}
	}
	var res []*Term
	for i := 0; i < n; i++ {
		res = append(res, mk(OExtr, strconv.Itoa(i), sig.Results().At(i).Type(), call))
	}
	return res
}

// callbacks: functions of this repository given to a library are called by it,
// any number of times, with any arguments.
func (e *Engine) callbacks(p P, in ssa.CallInstruction, f *ssa.Function, name string, args []*Term, st *State, k func(*State, []*Term)) bool {
	arg := func(i int) *Term {
		if i >= len(args) {
			return nil
		}
		if a := args[i]; a.Op == OIface {
			return a.Args[0]
		}
		return args[i]
	}
	sorts := strings.HasPrefix(name, "sort.S") || strings.HasPrefix(name, "slices.Sort")
	type cb struct {
		f    *ssa.Function
		free []*Term
		recv *Term
	}
	var cbs []cb
	for i, a := range args {
		x := arg(i)
		if x.Op == OClosure || x.Op == OFunc {
			if g, ok := x.Obj.(*ssa.Function); ok && g.Blocks != nil && inRepo(g) && !e.onStack(p.fr, g) {
				cbs = append(cbs, cb{g, x.Args, nil})
			}
		}
		if t, ok := a.Obj.(types.Type); ok && a.Op == OIface && i == 0 && strings.HasPrefix(name, "sort.") {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				for _, m := range []string{"Len", "Less", "Swap"} {
					if sel := e.p.SSA.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), m); sel != nil {
						if g := e.p.SSA.MethodValue(sel); g != nil && g.Blocks != nil && !e.onStack(p.fr, g) {
							cbs = append(cbs, cb{g, nil, x})
						}
					}
				}
			}
		}
	}
	if len(cbs) == 0 {
		return false
	}
	if name == "(*sync.Once).Do" {
		// at most once
		s2 := st.clone()
		e.enter(p.fr, s2, cbs[0].f, nil, cbs[0].free, e.siteKey(p, in), e.ivsOf(p), func(st *State, _ []*Term) { k(st, nil) })
		k(st, nil)
		return true
	}
	havoc := func(st *State, c cb) {
		ms := e.p.ModSet(c.f)
		ks := make([]string, 0, len(ms))
		for m := range ms {
			ks = append(ks, m)
		}
		sort.Strings(ks)
		for _, m := range ks {
			e.setVersion(st, m, internID(fmt.Sprintf("cb%d/%s/%s/%v", p.fr.ctx, e.siteKey(p, in), m, ivKey(e.ivsOf(p)))))
		}
		if len(ms) > 0 {
			e.havocMod(p, in, c.free, ms, st)
		}
	}
	if sorts && len(args) > 0 {
		x := arg(0)
		if x.T != nil {
			if sl, ok := x.T.Underlying().(*types.Slice); ok {
				m := "elem:" + typeName(sl.Elem())
				e.setVersion(st, m, internID(fmt.Sprintf("sort%d/%s/%v", p.fr.ctx, e.siteKey(p, in), ivKey(e.ivsOf(p)))))
			}
		}
		e.havocArgs(p, in, []*Term{x}, st)
	}
	for _, c := range cbs {
		havoc(st, c)
	}
	if e.disc > 0 {
		return false
	}
	async := name == "time.AfterFunc"
	for _, c := range cbs {
		s := st.clone()
		s2 := *s
		if async {
			s2.defers = nil
			for k := range st.aux {
				if strings.HasPrefix(k, "lock:") {
					(&s2).setAux(k, 0)
				}
			}
		}
		var ps []*Term
		n := 0
		for i, pr := range c.f.Params {
			if i == 0 && c.recv != nil {
				ps = append(ps, c.recv)
				continue
			}
			v := e.uniq(OCall, fmt.Sprintf("%s.callback%d", name, n), p, in, pr.Type())
			n++
			ps = append(ps, v)
			if b, ok := pr.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				// the positions a library asks about
				var lim *Term
				switch {
				case strings.HasPrefix(name, "sort.S") && arg(0).T != nil && isSlice(arg(0).T):
					lim = mkLen(arg(0))
				case name == "sort.Search":
					lim = arg(0)
				}
				if lim != nil {
					(&s2).assume(mkGe0(linOf(v)))
					(&s2).assume(Lt(v, lim))
				}
			}
		}
		e.enter(p.fr, &s2, c.f, ps, c.free, e.siteKey(p, in), e.ivsOf(p), func(*State, []*Term) {})
	}
	return false
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// opaqueCall: a call whose body is not looked into.
func (e *Engine) opaqueCall(p P, in ssa.CallInstruction, f *ssa.Function, name string, args []*Term, st *State, ev *Event, k func(*State, []*Term)) {
	repo := inRepo(f)
	curve := strings.Contains(name, "internal/ed25519/")
	unique := !curve && !pureExternal(name)
	ca := make([]*Term, len(args))
	for i, a := range args {
		ca[i] = e.content(st, a)
		if curve {
			ca[i] = e.deep(st, a)
		}
	}
	if curve {
		pm := e.p.paramMut[f]
		var rest []*Term
		for i, a := range ca {
			if !pm[i] {
				rest = append(rest, a)
			} else if !onlyWritten(f, i) {
				rest = append(rest, a)
			}
		}
		for i := range args {
			if pm[i] {
				pt, ok := args[i].T, true
				var et types.Type
				if args[i].T != nil {
					if q, o2 := args[i].T.Underlying().(*types.Pointer); o2 {
						et = q.Elem()
					}
				}
				_ = pt
				_ = ok
				if et == nil {
					et = f.Params[i].Type().Underlying().(*types.Pointer).Elem()
				}
				e.store(st, args[i], mk(OOut, name+"."+strconv.Itoa(i), et, rest...), et)
			}
		}
		res := e.opaqueResults(p, in, name, rest, f.Signature, false)
		ev.Res = tupled(res, nil)
		e.log(ev, st)
		k(st, res)
		return
	}
	res := e.opaqueResults(p, in, name, ca, f.Signature, unique)
	if e.o.LogCalls != nil && e.o.LogCalls(ev) {
		ev.Pre = st.clone()
	}
	if repo {
		// effects by mod set
		ms := e.p.ModSet(f)
		ks := make([]string, 0, len(ms))
		for m := range ms {
			ks = append(ks, m)
		}
		sort.Strings(ks)
		for _, m := range ks {
			e.setVersion(st, m, internID(fmt.Sprintf("opq%d/%s/%s/%v", p.fr.ctx, e.siteKey(p, in), m, ivKey(e.ivsOf(p)))))
		}
		if len(ms) == 0 && f.Signature.Results().Len() > 0 && !callsImpure(e.p, f) {
			res = e.opaqueResults(p, in, e.versioned(st, name), ca, f.Signature, false)
		}
		if len(ms) > 0 {
			e.havocMod(p, in, args, ms, st)
		}
	} else if !pureExternal(name) {
		e.havocArgs(p, in, args, st)
	}
	ev.Res = tupled(res, nil)
	e.log(ev, st)
	k(st, res)
}

func ivKey(ts []*Term) string {
	var s []string
	for _, t := range ts {
		s = append(s, strconv.Itoa(t.ID))
	}
	return strings.Join(s, ",")
}

// versioned: a call result depends on the memory state.
func (e *Engine) versioned(st *State, name string) string {
	var ks []string
	for k, v := range st.aux {
		if strings.HasPrefix(k, "ver:") {
			ks = append(ks, k+"="+strconv.Itoa(v))
		}
	}
	sort.Strings(ks)
	if len(ks) == 0 {
		return name
	}
	return name + "@" + strconv.Itoa(internID(strings.Join(ks, ";")))
}

func onlyWritten(f *ssa.Function, i int) bool {
	pr := f.Params[i]
	for _, r := range *pr.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != pr {
				return false
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			for _, r2 := range *x.(ssa.Value).Referrers() {
				switch y := r2.(type) {
				case *ssa.Store:
					if y.Addr != x.(ssa.Value) {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func callsImpure(p *Program, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var w func(g *ssa.Function) bool
	w = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		if g.Blocks == nil || !inRepo(g) {
			return !pureExternal(fnName(g))
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, ok := c.Common().Value.(*ssa.Builtin); ok {
						continue
					}
					cs := p.callees(c)
					if len(cs) == 0 {
						return true
					}
					for _, x := range cs {
						if w(x) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return w(f)
}

// havocArgs: an unknown callee may write through what it is given.
func (e *Engine) havocArgs(p P, in ssa.Instruction, args []*Term, st *State) {
	for i, a := range args {
		x := a
		if x.Op == OIface {
			x = x.Args[0]
		}
		switch x.Op {
		case OAlloc, OFAddr, OIAddr:
			if isFreshAddr(x) {
				e.havocObj(p, in, x, i, st)
			}
		case OARef:
			if isFreshAddr(x.Args[0]) || x.Args[0].Op == OFAddr {
				e.store(st, x.Args[0], e.uniq(OHav, "buf"+strconv.Itoa(i), p, in, arrType(st, x)), arrType(st, x))
			}
		}
	}
}

// flat: values of the type refer to nothing but bytes.
func flat(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() != types.UnsafePointer
	case *types.Array:
		return flat(u.Elem())
	}
	return false
}

// havocMod: a callee known to write only the given fields forgets those
// fields of the fresh objects reachable from its arguments.
func (e *Engine) havocMod(p P, in ssa.Instruction, args []*Term, ms map[string]bool, st *State) {
	seen := map[*Term]bool{}
	var q []*Term
	var add func(t *Term)
	visited := map[*Term]bool{}
	add = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		if (t.Op == OAlloc || t.Op == OMap) && !seen[t] {
			seen[t] = true
			q = append(q, t)
		}
		if (t.Op == OCall || t.Op == OExtr) && t.T != nil && flat(t.T) {
			return // computed from its arguments, but it does not refer to them
		}
		for _, a := range t.Args {
			add(a)
		}
	}
	for _, a := range args {
		add(a)
	}
	for len(q) > 0 {
		o := q[0]
		q = q[1:]
		for a, v := range st.cells {
			if rootOf(a) == o {
				add(v)
			}
		}
	}
	var objs []*Term
	for o := range seen {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
	n := 0
	for _, o := range objs {
		var w func(a *Term, t types.Type)
		w = func(a *Term, t types.Type) {
			if s, ok := isStructT(t); ok {
				for i := 0; i < s.NumFields(); i++ {
					ft := s.Field(i).Type()
					fa := faddr(a, t, i)
					if ms[structKey(t, i)] {
						e.store(st, fa, e.uniq(OHav, "mod"+strconv.Itoa(n), p, in, ft), ft)
						n++
					} else if _, ok := isStructT(ft); ok {
						w(fa, ft)
					}
				}
				return
			}
			if ms["deref:"+typeName(t)] {
				e.store(st, a, e.uniq(OHav, "mod"+strconv.Itoa(n), p, in, t), t)
				n++
			}
		}
		if ms[decodes] && o.Op == OAlloc {
			e.havocObj(p, in, o, n, st)
			n++
			continue
		}
		if et := elemOf(o.T); o.Op == OAlloc && et != nil {
			if _, isArr := et.Underlying().(*types.Array); isArr {
				e.havocObj(p, in, o, 0, st)
			} else {
				w(o, et)
			}
		} else if o.Op == OAlloc {
			e.havocObj(p, in, o, 0, st)
		}
	}
	for i, a := range args {
		if a.Op == OARef && (isFreshAddr(a.Args[0]) || a.Args[0].Op == OFAddr) {
			e.store(st, a.Args[0], e.uniq(OHav, "buf"+strconv.Itoa(i), p, in, arrType(st, a)), arrType(st, a))
		}
	}
}

func arrType(st *State, x *Term) types.Type {
	if x.Args[0].T != nil {
		if pt, ok := x.Args[0].T.Underlying().(*types.Pointer); ok {
			return pt.Elem()
		}
	}
	return nil
}

func (e *Engine) havocObj(p P, in ssa.Instruction, x *Term, i int, st *State) {
	v := e.uniq(OHav, "obj"+strconv.Itoa(i), p, in, elemOf(x.T))
	e.havocTo(st, x, v)
}

// havocTo forgets an object's content; fields are then derived from v.
func (e *Engine) havocTo(st *State, x, v *Term) {
	for a := range st.cells {
		if a == x || underAddr(a, x) {
			st.setCell(a, nil)
		}
	}
	st.setCell(mk(OFAddr, "$hav", nil, x), v)
}

func underAddr(a, x *Term) bool {
	for a.Op == OFAddr || a.Op == OIAddr {
		a = a.Args[0]
		if a == x {
			return true
		}
	}
	return false
}

func (e *Engine) invoke(p P, in ssa.CallInstruction, cc *ssa.CallCommon, recv *Term, args []*Term, st *State, k func(*State, []*Term)) {
	if recv.Op == OIface {
		t := recv.Obj.(types.Type)
		if f := e.p.lookupMethod(t, cc.Method.Name(), cc.Method.Pkg()); f != nil {
			e.callFn(p, in, f, append([]*Term{recv.Args[0]}, args...), nil, st, k)
			return
		}
	}
	if recv.Op == OSent && cc.Method.Name() == "Error" {
		k(st, []*Term{mk(OCall, "Error", types.Typ[types.String], recv)})
		return
	}
	if !e.obl("nil", p, in, mkNot(mkIsNil(recv)), recv, st) {
		return
	}
	name := "(" + typeName(cc.Value.Type()) + ")." + cc.Method.Name()
	// known dynamic type from a fact
	for n := st.facts; n != nil; n = n.up {
		if n.atom.Op == OTypeIs && n.val && n.atom.Args[0] == recv {
			t := n.atom.Obj.(types.Type)
			if _, isI := t.Underlying().(*types.Interface); !isI {
				if f := e.p.lookupMethod(t, cc.Method.Name(), cc.Method.Pkg()); f != nil && inRepo(f) {
					r, _ := e.assertTo(st, recv, t)
					e.callFn(p, in, f, append([]*Term{r}, args...), nil, st, k)
					return
				}
			}
		}
	}
	if e.modelInvoke(p, in, cc, name, recv, args, st, k) {
		return
	}
	// few repository implementations: split on the dynamic type
	if nt, ok := cc.Value.Type().(*types.Named); ok && nt.Obj().Pkg() != nil && strings.HasPrefix(nt.Obj().Pkg().Path(), modPath) {
		impls := e.p.Implementers(nt)
		var fs []*ssa.Function
		for _, t := range impls {
			fs = append(fs, e.p.lookupMethod(t, cc.Method.Name(), cc.Method.Pkg()))
		}
		if len(impls) > 0 && len(impls) <= 4 {
			for i, t := range impls {
				s := st.clone()
				s.shC, s.shA = true, true
				if !s.assume(typeIs(recv, t)) {
					continue
				}
				if fs[i] == nil {
					continue
				}
				r, _ := e.assertTo(s, recv, t)
				e.callFn(p.fork(), in, fs[i], append([]*Term{r}, args...), nil, s, k)
			}
			return
		}
	}
	ca := []*Term{recv}
	for _, a := range args {
		ca = append(ca, e.content(st, a))
	}
	res := e.opaqueResults(p, in, name, ca, cc.Signature(), true)
	e.havocArgs(p, in, args, st)
	e.log(&Event{Kind: "call", Name: name, Args: ca, Res: tupled(res, nil), Pos: e.pos(in), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
	k(st, res)
}

func typeIs(x *Term, t types.Type) *Term {
	if x.Op == OIface {
		return boolConst(types.Identical(x.Obj.(types.Type), t))
	}
	if x.Op == ONil || x.Op == OHav && strings.HasPrefix(x.Aux, genericVal) && !plain(t) {
		return False
	}
	r := mk(OTypeIs, typeName(t), types.Typ[types.Bool], x)
	r.Obj = t
	return r
}

// genericVal marks what a decoder puts into an interface of its own accord:
// maps, slices, strings, numbers and booleans, none of a declared type.
const genericVal = "generic"

func plain(t types.Type) bool {
	switch t.(type) {
	case *types.Named, *types.Pointer:
		return false
	}
	return true
}

func (e *Engine) assertTo(st *State, v *Term, t types.Type) (*Term, *Term) {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if v.Op == OIface {
			return v, boolConst(types.Implements(v.Obj.(types.Type), it))
		}
		if v.Op == ONil {
			return Nil, False
		}
		// static type already implements it: only nil fails
		if v.T != nil {
			if vi, ok := v.T.Underlying().(*types.Interface); ok && types.Implements(vi, it) {
				return v, mkNot(mkIsNil(v))
			}
		}
		return v, typeIs(v, t)
	}
	if v.Op == OIface {
		if types.Identical(v.Obj.(types.Type), t) {
			return v.Args[0], True
		}
		return Nil, False
	}
	if v.Op == ONil || v.Op == OSent {
		return Nil, False
	}
	return mk(OAssert, typeName(t), t, v), typeIs(v, t)
}

func (e *Engine) assertOK(p P, x *ssa.TypeAssert, st *State, k func(P, *State, *Term, *Term)) {
	v := e.val(p, st, x.X)
	r, c := e.assertTo(st, v, x.AssertedType)
	zero := zeroOf(x.AssertedType)
	if b, ok := st.eval(c); ok {
		if b {
			k(p, st, r, True)
		} else {
			k(p, st, zero, False)
		}
		return
	}
	s2 := st.clone()
	if st.assume(c) {
		k(p.fork(), st, r, True)
	}
	if s2.assume(mkNot(c)) {
		k(p.fork(), s2, zero, False)
	}
}

// ---------- values

func (e *Engine) val(p P, st *State, v ssa.Value) *Term {
	if t, ok := p.env[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return mk(OGlobal, x.RelString(nil), x.Type())
	case *ssa.Function:
		r := mk(OFunc, x.RelString(nil), x.Type())
		r.Obj = x
		return r
	case *ssa.Builtin:
		return mk(OFunc, "builtin "+x.Name(), x.Type())
	}
	panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, p.fr.fn))
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolConst(constant.BoolVal(c.Value))
	case constant.String:
		return strConst(constant.StringVal(c.Value))
	case constant.Int:
		if v, ok := constant.Int64Val(c.Value); ok {
			return intConst(v, c.Type())
		}
		return mk(OConst, "u"+c.Value.ExactString(), c.Type())
	}
	return mk(OConst, "f"+c.Value.ExactString(), c.Type())
}

func verKey(key string) string { return "ver:" + key }

func (e *Engine) setVersion(st *State, key string, v int) {
	st.setAux(verKey(key), v)
	for a := range st.cells {
		if isFreshAddr(rootOf(a)) {
			continue
		}
		if cellKey(a) == key {
			st.setCell(a, nil)
		}
	}
}

func cellKey(a *Term) string {
	switch a.Op {
	case OFAddr:
		return a.Aux
	case OIAddr:
		if a.T != nil {
			if pt, ok := a.T.Underlying().(*types.Pointer); ok {
				return "elem:" + typeName(pt.Elem())
			}
		}
	case OMapGet, OMapHas:
		if i := strings.LastIndex(a.Aux, "@"); i >= 0 {
			return a.Aux[:i]
		}
		return a.Aux
	case OGlobal:
		return "global:" + a.Aux
	}
	if a.T != nil {
		if pt, ok := a.T.Underlying().(*types.Pointer); ok {
			return "deref:" + typeName(pt.Elem())
		}
	}
	return "?"
}

var verCounter = 0

func isStructT(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}
func isArrayT(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Array)
	return s, ok
}

func faddr(base *Term, t types.Type, i int) *Term {
	st := t.Underlying().(*types.Struct)
	return mk(OFAddr, typeName(t)+"."+st.Field(i).Name(), types.NewPointer(st.Field(i).Type()), base)
}

// load reads memory.
func (e *Engine) load(st *State, a *Term, t types.Type) *Term {
	if x := structInArray(a); x != nil {
		if x == a {
			if x.Args[0].Op == OARef {
				return mkIdx(e.load(st, x.Args[0].Args[0], elemOf(x.Args[0].Args[0].T)), Add(x.Args[0].Args[1], x.Args[1]), t)
			}
			return mkIdx(e.load(st, x.Args[0], elemOf(x.Args[0].T)), x.Args[1], t)
		}
		return mkField(e.load(st, a.Args[0], elemOf(a.Args[0].T)), fieldShort(a.Aux), t)
	}
	if s, ok := isStructT(t); ok && s.NumFields() <= 60 && s.NumFields() > 0 {
		if v, ok := st.cells[a]; ok {
			return v
		}
		var names []string
		var vals []*Term
		for i := 0; i < s.NumFields(); i++ {
			names = append(names, s.Field(i).Name())
			vals = append(vals, e.load(st, faddr(a, t, i), s.Field(i).Type()))
		}
		// {x.f1, x.f2, ...} is x
		if len(vals) > 0 && vals[0].Op == OField {
			x := vals[0].Args[0]
			all := true
			for i, v := range vals {
				if v.Op != OField || v.Args[0] != x || v.Aux != names[i] {
					all = false
				}
			}
			if all {
				return x
			}
		}
		return mk(OStruct, strings.Join(names, ","), t, vals...)
	}
	if v, ok := st.cells[a]; ok {
		if v.T == nil && len(v.Args) == 0 {
			v.T = t
		}
		return seqNorm(v, t)
	}
	switch a.Op {
	case OFAddr:
		base := a.Args[0]
		if h := e.havOf(st, a); h != nil {
			v := mkField(h, fieldShort(a.Aux), t)
			st.setCell(a, v)
			return v
		}
		if isFreshAddr(base) {
			return zeroOf(t)
		}
		// field of a struct held in a structure-valued parent
		v := mk(OFVal, a.Aux+e.verSuffix(st, a.Aux), t, base)
		return v
	case OIAddr:
		// element of an array or slice
		base := a.Args[0]
		idx := a.Args[1]
		if isAddrOfArray(base) {
			return mkIdx(e.load(st, base, elemOf(base.T)), idx, t)
		}
		if base.Op == OARef {
			return mkIdx(e.load(st, base.Args[0], elemOf(base.Args[0].T)), Add(base.Args[1], idx), t)
		}
		key := "elem:" + typeName(t)
		if st.aux[verKey(key)] == 0 {
			return mkIdx(base, idx, t)
		}
		return mk(OIdx, "@"+strconv.Itoa(st.aux[verKey(key)]), t, base, idx)
	case OAlloc:
		if h := st.cells[mk(OFAddr, "$hav", nil, a)]; h != nil {
			v := mkField(h, "$val", t)
			st.setCell(a, v)
			return v
		}
		return zeroOf(t)
	case OGlobal:
		return e.loadGlobal(st, a, t)
	}
	key := "deref:" + typeName(t)
	return mk(ODeref, e.verSuffix(st, key), t, a)
}

func (e *Engine) havOf(st *State, a *Term) *Term {
	x := a
	var path []string
	for x.Op == OFAddr {
		if len(path) > 0 || true {
			path = append(path, fieldShort(x.Aux))
		}
		x = x.Args[0]
		if h := st.cells[mk(OFAddr, "$hav", nil, x)]; h != nil {
			// a = x.f1.f2 : path reversed, last one applied by the caller
			for i := len(path) - 1; i > 0; i-- {
				h = mkField(h, path[i], nil)
			}
			return h
		}
	}
	return nil
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return nil
}

func isAddrOfArray(t *Term) bool {
	et := elemOf(t.T)
	_, ok := isArrayT(et)
	return ok
}

func (e *Engine) verSuffix(st *State, key string) string {
	v := st.aux[verKey(key)]
	if v == 0 {
		return ""
	}
	return "@" + strconv.Itoa(v)
}

func (e *Engine) loadGlobal(st *State, a *Term, t types.Type) *Term {
	g := e.p.globalByName(a.Aux)
	if g != nil && e.p.globalStores[g] == 0 {
		if iv, ok := e.p.initVals[g]; ok {
			switch x := iv.(type) {
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil {
					n := fnName(f)
					if n == "errors.New" || n == "fmt.Errorf" {
						return mk(OSent, shortAux(a.Aux), t)
					}
				}
			case *ssa.Const:
				return constTerm(x)
			case *ssa.Convert:
				if c, ok := x.X.(*ssa.Const); ok {
					return constTerm(c)
				}
			case *ssa.MakeInterface:
				if c, ok := x.X.(*ssa.Const); ok {
					r := mk(OIface, typeName(c.Type()), t, constTerm(c))
					r.Obj = c.Type()
					return r
				}
			}
		}
		if !inRepoGlobal(g) && types.Identical(t, types.Universe.Lookup("error").Type()) {
			return mk(OSent, shortAux(a.Aux), t)
		}
	}
	if g != nil && !inRepoGlobal(g) && t != nil && types.Identical(t, types.Universe.Lookup("error").Type()) {
		return mk(OSent, shortAux(a.Aux), t)
	}
	return mk(ODeref, e.verSuffix(st, "global:"+a.Aux), t, a)
}

func inRepoGlobal(g *ssa.Global) bool { return strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) }

var globalIdx map[string]*ssa.Global

func (p *Program) globalByName(n string) *ssa.Global {
	if globalIdx == nil {
		globalIdx = map[string]*ssa.Global{}
		for _, sp := range p.SSA.AllPackages() {
			for _, m := range sp.Members {
				if g, ok := m.(*ssa.Global); ok {
					globalIdx[g.RelString(nil)] = g
				}
			}
		}
	}
	return globalIdx[n]
}

// store writes memory.
func (e *Engine) store(st *State, a, v *Term, t types.Type) {
	if x := structInArray(a); x != nil && x != a {
		// a field of an array element: the element changes as a whole
		pt := elemOf(a.Args[0].T)
		e.store(st, a.Args[0], setField(e.load(st, a.Args[0], pt), fieldShort(a.Aux), v, pt), pt)
		return
	} else if x != nil {
		base, idx := a.Args[0], a.Args[1]
		if base.Op == OARef {
			base, idx = base.Args[0], Add(base.Args[1], idx)
		}
		at := elemOf(base.T)
		e.store(st, base, mkUpd(e.load(st, base, at), idx, v, at), at)
		return
	}
	if s, ok := isStructT(t); ok && s.NumFields() > 0 && s.NumFields() <= 60 {
		if h := mk(OFAddr, "$hav", nil, a); st.cells[h] != nil {
			st.setCell(h, nil)
		}
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, faddr(a, t, i), mkField(v, s.Field(i).Name(), s.Field(i).Type()), s.Field(i).Type())
		}
		return
	}
	fresh := isFreshAddr(rootOf(a))
	switch a.Op {
	case OIAddr:
		base, idx := a.Args[0], a.Args[1]
		if isAddrOfArray(base) {
			at := elemOf(base.T)
			e.store(st, base, mkUpd(e.load(st, base, at), idx, v, at), at)
			return
		}
		if base.Op == OARef {
			at := elemOf(base.Args[0].T)
			i := Add(base.Args[1], idx)
			e.store(st, base.Args[0], mkUpd(e.load(st, base.Args[0], at), i, v, at), at)
			return
		}
	}
	if !fresh {
		verCounter++
		key := cellKey(a)
		// deterministic version: derived from what is written
		nv := internID(fmt.Sprintf("st%d/%d/%d", st.aux[verKey(key)], a.ID, v.ID))
		e.setVersion(st, key, nv)
	}
	st.setCell(a, v)
}

// structInArray: the address of the struct in an array that a is, or is a
// field of.
func structInArray(a *Term) *Term {
	x := a
	for x.Op == OFAddr {
		if strings.HasPrefix(x.Aux, "$") || elemOf(x.Args[0].T) == nil {
			return nil
		}
		x = x.Args[0]
	}
	if x.Op != OIAddr || !isAddrOfArray(x.Args[0]) && x.Args[0].Op != OARef {
		return nil
	}
	if s, ok := isStructT(elemOf(x.T)); !ok || s.NumFields() == 0 {
		return nil
	}
	return x
}

// setField: the struct value x with one field replaced.
func setField(x *Term, name string, v *Term, t types.Type) *Term {
	s := t.Underlying().(*types.Struct)
	var names []string
	var vals []*Term
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		names = append(names, n)
		if n == name {
			vals = append(vals, v)
		} else {
			vals = append(vals, mkField(x, n, s.Field(i).Type()))
		}
	}
	return mk(OStruct, strings.Join(names, ","), t, vals...)
}

func mkUpd(c, i, v *Term, t types.Type) *Term {
	if c.Op == OUpd && c.Args[1] == i {
		c = c.Args[0]
	}
	if k, ok := i.Int(); ok && c.Op == OCat && k >= 0 && int(k) < len(c.Args) {
		all := true
		for _, a := range c.Args {
			if a.Op != OElem {
				all = false
			}
		}
		if all {
			args := append([]*Term(nil), c.Args...)
			args[k] = mk(OElem, "", v.T, v)
			return mk(OCat, "", t, args...)
		}
	}
	return mk(OUpd, "", t, c, i, v)
}

// seqNorm turns element-wise constructed small arrays into sequences.
func seqNorm(v *Term, t types.Type) *Term {
	if v.Op != OUpd {
		return v
	}
	at, ok := isArrayT(t)
	if !ok {
		at, ok = isArrayT(v.T)
	}
	if !ok || at.Len() > 16 || at.Len() < 0 {
		return v
	}
	n := int(at.Len())
	el := make([]*Term, n)
	x := v
	for x.Op == OUpd {
		k, ok := x.Args[1].Int()
		if !ok || int(k) >= n || k < 0 {
			return v
		}
		if el[k] == nil {
			el[k] = mk(OElem, "", x.Args[2].T, x.Args[2])
		}
		x = x.Args[0]
	}
	for i := range el {
		if el[i] == nil {
			if x.Op != OZero {
				return v
			}
			el[i] = mk(OElem, "", at.Elem(), zeroOf(at.Elem()))
		}
	}
	return mk(OCat, "", v.T, el...)
}

// content resolves a slice value that refers to a mutable array.
func (e *Engine) content(st *State, t *Term) *Term {
	if t.Op == OARef {
		at := elemOf(t.Args[0].T)
		c := e.load(st, t.Args[0], at)
		return mkSub(c, t.Args[1], t.Args[2], t.T)
	}
	return t
}

// deep resolves a pointer to the content it points to (for pure primitives).
func (e *Engine) deep(st *State, t *Term) *Term {
	if t.Op == OARef {
		return e.content(st, t)
	}
	if t.T != nil {
		if pt, ok := t.T.Underlying().(*types.Pointer); ok {
			return e.load(st, t, pt.Elem())
		}
	}
	return t
}

func (e *Engine) deref(p P, in ssa.Instruction, a *Term, st *State) bool {
	if a.Op == OAlloc || a.Op == OGlobal || a.Op == OFAddr || a.Op == OIAddr {
		return true
	}
	return e.obl("nil", p, in, mkNot(mkIsNil(a)), a, st)
}

func (e *Engine) simple(p P, in ssa.Instruction, st *State) bool {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := e.uniq(OAlloc, typeName(x.Type().Underlying().(*types.Pointer).Elem()), p, x, x.Type())
		// re-execution in a loop yields a new object: forget the old content
		for a := range st.cells {
			if a == t || rootOf(a) == t {
				st.setCell(a, nil)
			}
		}
		st.setAux("born:"+strconv.Itoa(t.ID), 1)
		p.env[x] = t
	case *ssa.FieldAddr:
		b := e.val(p, st, x.X)
		if !e.deref(p, in, b, st) {
			return false
		}
		p.env[x] = faddr(b, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.IndexAddr:
		b := e.val(p, st, x.X)
		i := st.normIdx(e.val(p, st, x.Index))
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if !e.deref(p, in, b, st) {
				return false
			}
			at, _ := isArrayT(elemOf(x.X.Type()))
			if !e.bounds(p, in, i, intConst(at.Len(), types.Typ[types.Int]), b, st) {
				return false
			}
		} else if !e.bounds(p, in, i, mkLen(e.content(st, b)), b, st) {
			return false
		}
		p.env[x] = mk(OIAddr, "", x.Type(), b, i)
	case *ssa.Index:
		b, i := e.content(st, e.val(p, st, x.X)), st.normIdx(e.val(p, st, x.Index))
		if !e.bounds(p, in, i, mkLen(b), b, st) {
			return false
		}
		p.env[x] = mkIdx(b, i, x.Type())
	case *ssa.Field:
		s := x.X.Type().Underlying().(*types.Struct)
		p.env[x] = mkField(e.val(p, st, x.X), s.Field(x.Field).Name(), x.Type())
	case *ssa.Store:
		a := e.val(p, st, x.Addr)
		if !e.deref(p, in, a, st) {
			return false
		}
		v := e.val(p, st, x.Val)
		e.store(st, a, v, x.Val.Type())
		ev := &Event{Kind: "store", Name: cellName(a), Args: []*Term{a, e.content(st, v)}, Pos: e.pos(x), In: fnName(p.fr.fn), Stack: p.fr.stack}
		if a.Op != OAlloc {
			e.log(ev, st)
		}
	case *ssa.UnOp:
		a := e.val(p, st, x.X)
		switch x.Op {
		case token.MUL:
			if !e.deref(p, in, a, st) {
				return false
			}
			if e.o.LogLoad != nil {
				n := cellName(a)
				if e.o.LogLoad(n) {
					e.log(&Event{Kind: "load", Name: n, Args: []*Term{a}, Pos: e.pos(x), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
				}
			}
			p.env[x] = e.load(st, a, x.Type())
		case token.NOT:
			p.env[x] = mkNot(a)
		case token.SUB:
			if isInteger(x.Type()) && !isUnsigned(x.Type()) {
				p.env[x] = linTerm(linScale(linOf(a), -1), x.Type())
			} else {
				p.env[x] = mk(OUn, "-", x.Type(), a)
			}
		case token.ARROW:
			v := e.uniq(OHav, "recv", p, x, x.Type(), a)
			e.log(&Event{Kind: "recv", Args: []*Term{a}, Res: v, Pos: e.pos(x), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
			p.env[x] = v
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				p.env[x] = mk(OTuple, "", x.Type(), mk(OExtr, "0", tt.At(0).Type(), v), mk(OExtr, "1", tt.At(1).Type(), v))
			}
		default:
			p.env[x] = mk(OUn, x.Op.String(), x.Type(), a)
		}
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			if isInteger(x.Type()) {
				y := e.val(p, st, x.Y)
				if !e.obl("div", p, in, mkNot(mkEq0(linOf(y))), y, st) {
					return false
				}
			}
		}
		p.env[x] = e.binop(p, x, st)
	case *ssa.ChangeType:
		p.env[x] = e.val(p, st, x.X)
	case *ssa.ChangeInterface:
		p.env[x] = e.val(p, st, x.X)
	case *ssa.Convert:
		p.env[x] = e.convert(p, x, st)
	case *ssa.MultiConvert:
		p.env[x] = mk(OConv, typeName(x.Type()), x.Type(), e.val(p, st, x.X))
	case *ssa.MakeInterface:
		v := e.val(p, st, x.X)
		r := mk(OIface, typeName(x.X.Type()), x.Type(), v)
		r.Obj = x.X.Type()
		p.env[x] = r
	case *ssa.MakeClosure:
		var b []*Term
		for _, y := range x.Bindings {
			b = append(b, e.val(p, st, y))
		}
		f := x.Fn.(*ssa.Function)
		r := mk(OClosure, f.RelString(nil), x.Type(), b...)
		r.Obj = f
		p.env[x] = r
	case *ssa.MakeMap:
		if x.Reserve != nil {
			e.made(p, in, e.val(p, st, x.Reserve), st)
		}
		t := e.uniq(OMap, typeName(x.Type()), p, x, x.Type())
		for a := range st.cells {
			if rootOf(a) == t {
				st.setCell(a, nil)
			}
		}
		p.env[x] = t
	case *ssa.MakeChan:
		p.env[x] = e.uniq(OAlloc, "chan", p, x, x.Type())
	case *ssa.MakeSlice:
		n := e.val(p, st, x.Len)
		st0 := x.Type().Underlying().(*types.Slice)
		if !e.obl("makelen", p, in, mkGe0(linOf(n)), n, st) {
			return false
		}
		e.made(p, in, n, st)
		e.made(p, in, e.val(p, st, x.Cap), st)
		var at types.Type
		if k, ok := n.Int(); ok {
			at = types.NewArray(st0.Elem(), k)
		} else {
			at = types.NewArray(st0.Elem(), -1)
		}
		a := e.uniq(OAlloc, "make", p, x, types.NewPointer(at))
		for c := range st.cells {
			if c == a || rootOf(c) == a {
				st.setCell(c, nil)
			}
		}
		st.setAux("born:"+strconv.Itoa(a.ID), 1)
		st.setCell(a, mk(OZero, "n:"+typeName(st0.Elem()), at, n))
		p.env[x] = mk(OARef, "", x.Type(), a, intConst(0, types.Typ[types.Int]), n)
	case *ssa.Slice:
		return e.slice(p, x, st)
	case *ssa.Extract:
		t := e.val(p, st, x.Tuple)
		if t.Op == OTuple {
			p.env[x] = t.Args[x.Index]
		} else {
			p.env[x] = mk(OExtr, strconv.Itoa(x.Index), x.Type(), t)
		}
	case *ssa.MapUpdate:
		m, k, v := e.val(p, st, x.Map), e.val(p, st, x.Key), e.val(p, st, x.Value)
		k, v = e.content(st, k), v
		if !e.obl("nilmap", p, in, mkNot(mkIsNil(m)), m, st) {
			return false
		}
		e.mapSet(st, m, k, v, True, x.Map.Type())
		e.log(&Event{Kind: "mapset", Name: cellName(m), MapT: x.Map.Type(), Args: []*Term{m, k, e.content(st, v)}, Pos: e.pos(x), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
	case *ssa.Range:
		p.env[x] = mk(OCall, "range", nil, e.val(p, st, x.X))
	case *ssa.Send:
		e.log(&Event{Kind: "send", Args: []*Term{e.val(p, st, x.Chan), e.val(p, st, x.X)}, Pos: e.pos(x), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
	case *ssa.SliceToArrayPointer:
		p.env[x] = mk(OConv, typeName(x.Type()), x.Type(), e.val(p, st, x.X))
	default:
		panic(stopErr{fmt.Sprintf("instruction %T not handled in %s", in, fnName(p.fr.fn))})
	}
	return true
}

// cellName names what an address denotes: Type.field, global, ...
func cellName(a *Term) string {
	switch a.Op {
	case OFAddr, OFVal:
		s := a.Aux
		if i := strings.LastIndex(s, "@"); i >= 0 {
			s = s[:i]
		}
		return s
	case OIAddr:
		return "elem of " + cellName(a.Args[0])
	case OGlobal:
		return "global " + shortAux(a.Aux)
	case OAlloc:
		return "local"
	case OARef:
		return cellName(a.Args[0])
	}
	return "?"
}

func (e *Engine) bounds(p P, in ssa.Instruction, i, n, subj *Term, st *State) bool {
	if !isUnsigned(i.T) {
		if !e.obl("index", p, in, mkGe0(linOf(i)), subj, st) {
			return false
		}
	}
	return e.obl("index", p, in, Lt(i, n), subj, st)
}

func (e *Engine) slice(p P, x *ssa.Slice, st *State) bool {
	b := e.val(p, st, x.X)
	zero := intConst(0, types.Typ[types.Int])
	lo := zero
	if x.Low != nil {
		lo = e.val(p, st, x.Low)
	}
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if !e.deref(p, x, b, st) {
			return false
		}
		at, _ := isArrayT(elemOf(x.X.Type()))
		n := intConst(at.Len(), types.Typ[types.Int])
		hi := n
		if x.High != nil {
			hi = e.val(p, st, x.High)
			if !e.obl("slice", p, x, Le(hi, n), b, st) {
				return false
			}
		}
		if !e.obl("slice", p, x, Le(lo, hi), b, st) {
			return false
		}
		if b.T == nil {
			b.T = x.X.Type()
		}
		p.env[x] = mk(OARef, "", x.Type(), b, lo, hi)
		return true
	}
	if b.Op == OARef {
		hi := Sub(b.Args[2], b.Args[1])
		if x.High != nil {
			h2 := e.val(p, st, x.High)
			if h2 != hi {
				// may extend up to the capacity of the array
				if !e.obl("slice", p, x, Le(h2, hi), b, st) {
					return false
				}
			}
			hi = h2
		}
		if !e.obl("slice", p, x, Le(lo, hi), b, st) || !e.obl("slice", p, x, mkGe0(linOf(lo)), b, st) {
			return false
		}
		p.env[x] = mk(OARef, "", x.Type(), b.Args[0], Add(b.Args[1], lo), Add(b.Args[1], hi))
		return true
	}
	n := mkLen(b)
	hi := n
	if x.High != nil {
		hi = e.val(p, st, x.High)
		if !e.obl("slice", p, x, Le(hi, n), b, st) {
			return false
		}
	}
	if !e.obl("slice", p, x, Le(lo, hi), b, st) || !e.obl("slice", p, x, mkGe0(linOf(lo)), b, st) {
		return false
	}
	p.env[x] = mkSub(b, lo, hi, x.Type())
	return true
}

func (e *Engine) binop(p P, x *ssa.BinOp, st *State) *Term {
	a, b := e.val(p, st, x.X), e.val(p, st, x.Y)
	return e.binopT(x.Op, a, b, x.X.Type(), x.Type(), st)
}

func (e *Engine) binopT(op token.Token, a, b *Term, xt, rt types.Type, st *State) *Term {
	switch op {
	case token.ADD:
		if isInteger(rt) {
			return linTerm(linAdd(linOf(a), linOf(b), 1), rt)
		}
		if isString(rt) {
			return mkCat(rt, a, b)
		}
	case token.SUB:
		if isInteger(rt) {
			d := linAdd(linOf(a), linOf(b), -1)
			if isUnsigned(rt) {
				if v, ok := st.eval(mkGe0(d)); ok && v {
					return linTerm(d, rt)
				}
				if len(d.Atoms) == 0 && d.C >= 0 {
					return linTerm(d, rt)
				}
				return mk(OBin, "-", rt, a, b)
			}
			return linTerm(d, rt)
		}
	case token.MUL:
		if isInteger(rt) {
			return mulTerm(a, b)
		}
	case token.EQL:
		return e.eq(a, b, xt, st)
	case token.NEQ:
		return mkNot(e.eq(a, b, xt, st))
	case token.LSS:
		if isInteger(xt) {
			return Lt(unw(a, st), unw(b, st))
		}
	case token.LEQ:
		if isInteger(xt) {
			return Le(unw(a, st), unw(b, st))
		}
	case token.GTR:
		if isInteger(xt) {
			return Lt(unw(b, st), unw(a, st))
		}
	case token.GEQ:
		if isInteger(xt) {
			return Le(unw(b, st), unw(a, st))
		}
	}
	if op == token.SHL || op == token.SHR || op == token.AND || op == token.OR || op == token.QUO || op == token.REM || op == token.XOR {
		u, ok1 := a.Int()
		v, ok2 := b.Int()
		if ok1 && ok2 {
			switch op {
			case token.SHL:
				if v < 62 {
					return intConst(u<<uint(v), rt)
				}
			case token.SHR:
				return intConst(u>>uint(v), rt)
			case token.AND:
				return intConst(u&v, rt)
			case token.OR:
				return intConst(u|v, rt)
			case token.QUO:
				if v != 0 {
					return intConst(u/v, rt)
				}
			case token.REM:
				if v != 0 {
					return intConst(u%v, rt)
				}
			}
		}
	}
	if op == token.GTR {
		return mk(OBin, "<", rt, b, a)
	}
	if op == token.GEQ {
		return mk(OBin, "<=", rt, b, a)
	}
	return mk(OBin, op.String(), rt, a, b)
}

// unw: a wrapped unsigned difference that is provably fine by now.
func unw(a *Term, st *State) *Term {
	if a.Op == OBin && a.Aux == "-" && isInteger(a.T) {
		d := linAdd(linOf(a.Args[0]), linOf(a.Args[1]), -1)
		if v, ok := st.eval(mkGe0(d)); ok && v {
			return linTerm(d, a.T)
		}
	}
	return a
}

// linMod expands wrapped differences (valid in equations).
func linMod(t *Term) *Lin {
	l := linOf(t)
	r := linConst(l.C)
	for i, a := range l.Atoms {
		if a.Op == OBin && a.Aux == "-" && isInteger(a.T) {
			d := linAdd(linMod(a.Args[0]), linMod(a.Args[1]), -1)
			r = linAdd(r, d, l.K[i])
		} else {
			r = linAdd(r, linOf(a), l.K[i])
		}
	}
	return r
}

func (e *Engine) eq(a, b *Term, t types.Type, st *State) *Term {
	if isInteger(t) {
		return mkEq0(linAdd(linMod(a), linMod(b), -1))
	}
	if _, ok := isStructT(t); ok && a.Op == OStruct && b.Op == OStruct && a != b {
		return mkEq(a, b)
	}
	return mkEq(a, b)
}

func (e *Engine) convert(p P, x *ssa.Convert, st *State) *Term {
	a := e.val(p, st, x.X)
	from, to := x.X.Type(), x.Type()
	return e.conv(a, from, to, st)
}

func intSize(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, uns, true
	case types.Int16, types.Uint16:
		return 16, uns, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, uns, true
	}
	return 64, uns, true
}

func (e *Engine) conv(a *Term, from, to types.Type, st *State) *Term {
	isSeq := func(t types.Type) bool {
		if isString(t) {
			return true
		}
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	if isSeq(from) && isSeq(to) {
		return e.content(st, a)
	}
	fs, fu, ok1 := intSize(from)
	ts, tu, ok2 := intSize(to)
	if ok1 && ok2 {
		if v, ok := a.Int(); ok {
			if ts == 64 || v >= 0 && v < int64(1)<<uint(ts-1) {
				if !(tu && v < 0) {
					return intConst(v, to)
				}
			}
		}
		if fu == tu && ts >= fs || fu && !tu && ts > fs {
			return a
		}
		if fs == ts && fu != tu || ts > fs {
			// sign change of equal width: the identity on non-negative values
			if !fu && tu {
				if v, ok := st.eval(mkGe0(linOf(a))); ok && v {
					return a
				}
			}
		}
		if ts < fs {
			// narrowing a provably small value
			lim := int64(1)<<uint(min(ts, 62)) - 1
			if !tu {
				lim = int64(1)<<uint(ts-1) - 1
			}
			v1, o1 := st.eval(mkGe0(linOf(a)))
			v2, o2 := st.eval(mkGe0(linAdd(linConst(lim), linOf(a), -1)))
			if o1 && v1 && o2 && v2 {
				return a
			}
		}
		return mk(OConv, typeName(to), to, a)
	}
	if isString(to) || isString(from) {
		return mk(OConv, typeName(to), to, e.content(st, a))
	}
	return mk(OConv, typeName(to), to, a)
}

// ---------- maps

func mapVer(t types.Type) string { return "map:" + typeName(t.Underlying()) }

func (e *Engine) mapTerms(st *State, m, k *Term, t types.Type) (*Term, *Term) {
	ver := ""
	if m.Op != OMap {
		ver = e.verSuffix(st, mapVer(t))
	}
	et := t.Underlying().(*types.Map).Elem()
	return mk(OMapGet, mapVer(t)+ver, et, m, k), mk(OMapHas, mapVer(t)+ver, types.Typ[types.Bool], m, k)
}

func (e *Engine) mapSet(st *State, m, k, v, has *Term, t types.Type) {
	if m.Op != OMap {
		nv := internID(fmt.Sprintf("ms%d/%d/%d/%d/%d", st.aux[verKey(mapVer(t))], m.ID, k.ID, v.ID, has.ID))
		e.setVersion(st, mapVer(t), nv)
	} else {
		st.setAux("mapn:"+strconv.Itoa(m.ID), internID(fmt.Sprintf("mn%d/%d/%d/%d", st.aux["mapn:"+strconv.Itoa(m.ID)], k.ID, v.ID, has.ID)))
		// other keys that may be equal
		for a := range st.cells {
			if (a.Op == OMapGet || a.Op == OMapHas) && a.Args[0] == m && a.Args[1] != k && !distinct(a.Args[1], k) {
				st.setCell(a, nil)
				st.setAux("mapfuzzy:"+strconv.Itoa(m.ID), 1)
			}
		}
	}
	g, h := e.mapTerms(st, m, k, t)
	st.setCell(g, v)
	st.setCell(h, has)
}

func (e *Engine) lookup(p P, x *ssa.Lookup, st *State, k func(P, *State, *Term)) bool {
	m := e.val(p, st, x.X)
	key := e.content(st, e.val(p, st, x.Index))
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		m = e.content(st, m)
		if !e.bounds(p, x, key, mkLen(m), m, st) {
			return true
		}
		p.env[x] = mkIdx(m, key, x.Type())
		return false
	}
	if e.o.LogLoad != nil {
		n := "map " + cellName(m)
		if e.o.LogLoad(n) {
			e.log(&Event{Kind: "load", Name: n, Args: []*Term{m, key}, Pos: e.pos(x), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
		}
	}
	zero := zeroOf(mt.Elem())
	res := func(v, ok *Term) *Term {
		if x.CommaOk {
			return mk(OTuple, "", x.Type(), v, ok)
		}
		return v
	}
	// constant tables
	if m.Op == ODeref && m.Args[0].Op == OGlobal {
		if g := e.p.globalByName(m.Args[0].Aux); g != nil {
			if es, ok := e.p.constMaps[g]; ok {
				return e.constLookup(p, x, st, es, key, zero, mt, res, k)
			}
		}
	}
	g, h := e.mapTerms(st, m, key, x.X.Type())
	gv, hv := st.cells[g], st.cells[h]
	if hv == nil {
		hv = h
		if m.Op == OMap && st.aux["mapfuzzy:"+strconv.Itoa(m.ID)] == 0 {
			// a fresh map holds exactly what was put in
			may := false
			for a := range st.cells {
				if a.Op == OMapHas && a.Args[0] == m && !distinct(a.Args[1], key) {
					may = true
				}
			}
			if !may && st.aux["maphav:"+strconv.Itoa(m.ID)] == 0 {
				hv = False
			}
		}
	}
	if gv == nil {
		gv = g
	}
	if m.Op == ONil {
		hv = False
	}
	e.forkOn(st, hv, func(st *State, v bool) {
		q := p.fork()
		if v {
			k(q, st, res(gv, True))
		} else {
			k(q, st, res(zero, False))
		}
	})
	return true
}

func (e *Engine) constLookup(p P, x *ssa.Lookup, st *State, es []constEntry, key, zero *Term, mt *types.Map, res func(v, ok *Term) *Term, k func(P, *State, *Term)) bool {
	cv := func(v ssa.Value) *Term {
		switch y := v.(type) {
		case *ssa.Const:
			return constTerm(y)
		case *ssa.MakeInterface:
			if c, ok := y.X.(*ssa.Const); ok {
				r := mk(OIface, typeName(c.Type()), y.Type(), constTerm(c))
				r.Obj = c.Type()
				return r
			}
		case *ssa.UnOp:
			if g, ok := y.X.(*ssa.Global); ok && y.Op == token.MUL {
				return e.loadGlobal(st, mk(OGlobal, g.RelString(nil), g.Type()), y.Type())
			}
		}
		return nil
	}
	small := len(es) <= 8
	var ks, vs []*Term
	for _, c := range es {
		kt, vt := c.KT, c.VT
		if kt == nil {
			kt, vt = cv(c.K), cv(c.V)
		}
		if kt == nil {
			small = false
			break
		}
		if vt == nil {
			vt = mk(OMapGet, "const", mt.Elem(), e.val(p, st, x.X), kt)
		}
		ks, vs = append(ks, kt), append(vs, vt)
	}
	// exact key
	other := len(ks) == len(es)
	for i, kt := range ks {
		c := e.eq(key, kt, mt.Key(), st)
		v, ok := st.eval(c)
		if kt == key || ok && v {
			k(p, st, res(vs[i], True))
			return true
		}
		other = other && ok
	}
	if other {
		k(p, st, res(zero, False))
		return true
	}
	if !small || len(ks) != len(es) {
		// membership is a single condition
		m := e.val(p, st, x.X)
		g, h := e.mapTerms(st, m, key, x.X.Type())
		e.forkOn(st, h, func(st *State, v bool) {
			q := p.fork()
			if v {
				k(q, st, res(g, True))
			} else {
				k(q, st, res(zero, False))
			}
		})
		return true
	}
	for i, kt := range ks {
		c := e.eq(key, kt, mt.Key(), st)
		if v, ok := st.eval(c); ok && !v {
			continue
		}
		s := st.clone()
		if s.assume(c) {
			k(p.fork(), s, res(vs[i], True))
		}
		if !st.assume(mkNot(c)) {
			return true
		}
	}
	k(p.fork(), st, res(zero, False))
	return true
}

func (e *Engine) next(p P, x *ssa.Next, st *State, k func(P, *State, *Term)) {
	it := e.val(p, st, x.Iter)
	m := it.Args[0]
	tt := x.Type().(*types.Tuple)
	okT := e.uniq(OHav, "rangeok", p, x, types.Typ[types.Bool], m)
	kt := tt.At(1).Type()
	vt := tt.At(2).Type()
	e.forkOn(st, okT, func(st *State, v bool) {
		q := p.fork()
		if !v {
			k(q, st, mk(OTuple, "", x.Type(), False, zeroT(kt), zeroT(vt)))
			return
		}
		kk := e.uniq(OHav, "rangekey", q, x, kt, m)
		var vv *Term
		if x.IsString {
			vv = e.uniq(OHav, "rangerune", q, x, vt, m)
		} else if m.T != nil {
			if _, isM := m.T.Underlying().(*types.Map); isM {
				g, h := e.mapTerms(st, m, kk, m.T)
				st.assume(h)
				vv = g
			}
		}
		if vv == nil {
			vv = e.uniq(OHav, "rangeval", q, x, vt, m)
		}
		k(q, st, mk(OTuple, "", x.Type(), True, kk, vv))
	})
}

func zeroT(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Nil
	}
	return zeroOf(t)
}

func (e *Engine) selectStmt(p P, x *ssa.Select, st *State, k func(P, *State, *Term)) {
	n := len(x.States)
	tt := x.Type().(*types.Tuple)
	total := n
	if !x.Blocking {
		total++
	}
	for i := 0; i < total; i++ {
		s := st.clone()
		q := p.fork()
		idx := int64(i)
		if i == n {
			idx = -1
		}
		vals := []*Term{intConst(idx, types.Typ[types.Int]), boolConst(true)}
		ri := 2
		for j, ss := range x.States {
			if ss.Dir == types.RecvOnly {
				var v *Term
				if j == i {
					ch := e.val(p, s, ss.Chan)
					v = e.uniq(OHav, "recv"+strconv.Itoa(j), q, x, tt.At(ri).Type(), ch)
					vals[1] = e.uniq(OHav, "recvok"+strconv.Itoa(j), q, x, types.Typ[types.Bool], ch)
					e.log(&Event{Kind: "recv", Args: []*Term{ch}, Res: v, Pos: e.p.Pos(ss.Pos), In: fnName(p.fr.fn), Stack: p.fr.stack}, s)
				} else {
					v = zeroOf(tt.At(ri).Type())
				}
				vals = append(vals, v)
				ri++
			} else if j == i {
				e.log(&Event{Kind: "send", Args: []*Term{e.val(p, s, ss.Chan), e.val(p, s, ss.Send)}, Pos: e.p.Pos(ss.Pos), In: fnName(p.fr.fn), Stack: p.fr.stack}, s)
			}
		}
		if i == n {
			e.log(&Event{Kind: "seldefault", Pos: e.pos(x), In: fnName(p.fr.fn), Stack: p.fr.stack}, s)
		}
		k(q, s, mk(OTuple, "", x.Type(), vals...))
	}
}

func (e *Engine) builtin(p P, c *ssa.Call, b *ssa.Builtin, st *State) bool {
	args := c.Call.Args
	v := func(i int) *Term { return e.val(p, st, args[i]) }
	switch b.Name() {
	case "len":
		x := v(0)
		if _, ok := args[0].Type().Underlying().(*types.Map); ok {
			aux := "map" + e.verSuffix(st, mapVer(args[0].Type()))
			if x.Op == OMap {
				aux = "map." + strconv.Itoa(st.aux["mapn:"+strconv.Itoa(x.ID)])
			}
			p.env[c] = mk(OLen, aux, types.Typ[types.Int], x)
		} else if pt, ok := args[0].Type().Underlying().(*types.Pointer); ok {
			at, _ := isArrayT(pt.Elem())
			p.env[c] = intConst(at.Len(), types.Typ[types.Int])
		} else {
			p.env[c] = mkLen(e.content(st, x))
		}
	case "cap":
		p.env[c] = mk(OCap, "", types.Typ[types.Int], e.content(st, v(0)))
	case "append":
		a := e.content(st, v(0))
		r := a
		if len(args) > 1 {
			r = mkCat(c.Type(), a, e.content(st, v(1)))
		}
		p.env[c] = r
	case "copy":
		e.copyTo(p, c, st, v(0), e.content(st, v(1)))
		p.env[c] = minmax(st, "min", types.Typ[types.Int], mkLen(e.content(st, v(0))), mkLen(e.content(st, v(1))))
	case "delete":
		m, k := v(0), e.content(st, v(1))
		e.mapSet(st, m, k, zeroOf(args[0].Type().Underlying().(*types.Map).Elem()), False, args[0].Type())
		e.log(&Event{Kind: "mapdel", MapT: c.Call.Args[0].Type(), Name: cellName(m), Args: []*Term{m, k}, Pos: e.pos(c), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
	case "close":
		e.log(&Event{Kind: "close", Args: []*Term{v(0)}, Pos: e.pos(c), In: fnName(p.fr.fn), Stack: p.fr.stack}, st)
	case "print", "println", "recover":
		p.env[c] = Nil
	case "ssa:wrapnilchk":
		p.env[c] = v(0)
	case "min", "max":
		r := v(0)
		for i := 1; i < len(args); i++ {
			r = minmax(st, b.Name(), c.Type(), r, v(i))
		}
		p.env[c] = r
	default:
		panic(stopErr{"builtin " + b.Name() + " not handled"})
	}
	return true
}

func minmax(st *State, name string, t types.Type, a, b *Term) *Term {
	if isInteger(t) {
		if name == "max" {
			if st.Holds(Le(a, b)) {
				return b
			}
			if st.Holds(Le(b, a)) {
				return a
			}
		} else {
			if st.Holds(Le(a, b)) {
				return a
			}
			if st.Holds(Le(b, a)) {
				return b
			}
		}
	}
	return mk(OBin, name, t, a, b)
}

func (e *Engine) copyTo(p P, in ssa.Instruction, st *State, dst, src *Term) {
	ev := &Event{Kind: "store", Name: "elem of " + cellName(dst), Args: []*Term{dst, src}, Pos: e.pos(in), In: fnName(p.fr.fn), Stack: p.fr.stack}
	if dst.Op == OARef {
		a := dst.Args[0]
		at := elemOf(a.T)
		cur := e.load(st, a, at)
		n := mkLen(cur)
		if v, ok := dst.Args[1].Int(); ok && v == 0 && dst.Args[2] == n {
			if mkLen(src) == n {
				e.store(st, a, src, at)
			} else {
				e.store(st, a, mk(OFit, "", at, src, n, cur), at)
			}
		} else {
			e.store(st, a, mk(OSegs, "", at, cur, dst.Args[1], dst.Args[2], src), at)
		}
		if a.Op != OAlloc {
			e.log(ev, st)
		}
		return
	}
	// writing into a slice of unknown origin
	if dst.T != nil {
		if s, ok := dst.T.Underlying().(*types.Slice); ok {
			e.setVersion(st, "elem:"+typeName(s.Elem()), internID(fmt.Sprintf("cp%d/%d", dst.ID, src.ID)))
		}
	}
	e.log(ev, st)
}
