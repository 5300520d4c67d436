package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type factNode struct {
	atom *Term
	val  bool
	up   *factNode
	n    int
}

type evNode struct {
	ev *Event
	up *evNode
}

type loopNode struct {
	rec *LoopRec
	up  *loopNode
}

type deferNode struct {
	fr   *Frame
	call func(st *State, k func(*State))
	up   *deferNode
}

// Event is one effect on a path: a call, a store, a lock operation, ...
type Event struct {
	Kind  string // call ret store mapset mapdel go send recv lock unlock load close panic
	Name  string
	Fn    interface{} // *ssa.Function when resolved
	Args  []*Term
	Res   *Term
	Pos   string
	In    string // function containing the site
	Stack []string
	St    *State
	Pre   *State     // before the effects of an external callee (logged calls)
	MapT  types.Type // static type of the map of a mapset or mapdel
	Loop  *LoopRec   // for Kind=="loop": the finished loop
}

// LoopRec summarises a loop: what every completed iteration satisfies.
type LoopRec struct {
	Key   string
	IV    *Term
	Alts  []*State // states at the back edges, relative to the symbolic iteration IV
	Base  *State   // state at the header
	Phis  []*PhiRec
	In    string
	Depth int
	Pos   string
	loop  *loopT
	fn    *ssa.Function
}

type PhiRec struct {
	Ty     types.Type
	Term   *Term // value at the header
	Init   *Term
	Next   []*Term // per alternative
	Class  string
	Name   string
	IsCell bool
}

type State struct {
	facts   *factNode
	events  *evNode
	loops   *loopNode
	defers  *deferNode
	cells   map[*Term]*Term
	aux     map[string]int
	shC     bool
	shA     bool
	lastRet string
}

func newState() *State {
	return &State{cells: map[*Term]*Term{}, aux: map[string]int{}}
}

func (s *State) clone() *State {
	s.shC, s.shA = true, true
	c := *s
	return &c
}

func (s *State) setCell(k, v *Term) {
	if s.shC {
		m := make(map[*Term]*Term, len(s.cells)+4)
		for a, b := range s.cells {
			m[a] = b
		}
		s.cells, s.shC = m, false
	}
	if v == nil {
		delete(s.cells, k)
	} else {
		s.cells[k] = v
	}
}

func (s *State) setAux(k string, v int) {
	if s.shA {
		m := make(map[string]int, len(s.aux)+4)
		for a, b := range s.aux {
			m[a] = b
		}
		s.aux, s.shA = m, false
	}
	s.aux[k] = v
}

func (s *State) addEvent(e *Event) { s.events = &evNode{ev: e, up: s.events} }

// Events returns the path's events oldest first.
func (s *State) Events() []*Event {
	var r []*Event
	for n := s.events; n != nil; n = n.up {
		r = append(r, n.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) EventsSince(base *State) []*Event {
	var r []*Event
	for n := s.events; n != nil && n != base.events; n = n.up {
		r = append(r, n.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) Facts() []*Term {
	var r []*Term
	for n := s.facts; n != nil; n = n.up {
		if n.val {
			r = append(r, n.atom)
		} else {
			r = append(r, mkNot(n.atom))
		}
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// tri-state evaluation of a boolean term under the path facts.
func (s *State) eval(c *Term) (bool, bool) {
	if c == True {
		return true, true
	}
	if c == False {
		return false, true
	}
	if c.Op == ONot {
		v, ok := s.eval(c.Args[0])
		return !v, ok
	}
	for n := s.facts; n != nil; n = n.up {
		if n.atom == c {
			return n.val, true
		}
	}
	switch c.Op {
	case OGe0:
		l := linOf(c.Args[0])
		if s.proveGe0(l, 5) {
			return true, true
		}
		if s.proveGe0(linAdd(linConst(-1), l, -1), 5) {
			return false, true
		}
		// l+1 >= 0 and l+1 != 0
		for n := s.facts; n != nil; n = n.up {
			if n.atom.Op == OEq0 && !n.val {
				if up := linAdd(l, linConst(1), 1); n.atom == mkEq0(up) && s.proveGe0(up, 4) {
					return true, true
				}
			}
		}
	case OEq0:
		l := linOf(c.Args[0])
		p, q := s.proveGe0(l, 4), s.proveGe0(linScale(l, -1), 4)
		if p && q {
			return true, true
		}
		if s.proveGe0(linAdd(l, linConst(-1), 1), 4) || s.proveGe0(linAdd(linConst(-1), l, -1), 4) {
			return false, true
		}
	case OEq:
		a, b := c.Args[0], c.Args[1]
		ca, cb := s.constOf(a), s.constOf(b)
		if ca != nil && cb != nil && distinct(ca, cb) {
			return false, true
		}
		if ca != nil && ca == cb {
			return true, true
		}
		// nil versus non-nil
		if s.knownNonNil(a) && s.knownNil(b) || s.knownNonNil(b) && s.knownNil(a) {
			return false, true
		}
	case OIsNil:
		x := c.Args[0]
		for n := s.facts; n != nil; n = n.up {
			if n.atom.Op == OTypeIs && n.val && n.atom.Args[0] == x {
				return false, true
			}
			if n.atom.Op == OEq && n.val {
				a, b := n.atom.Args[0], n.atom.Args[1]
				if a == x && nonNilTerm(b) || b == x && nonNilTerm(a) {
					return false, true
				}
			}
			// a sequence of non-zero length is not nil
			if n.atom.Op == OEq0 && !n.val && n.atom.Args[0] == mkLenNoNew(x) {
				return false, true
			}
		}
	case OTypeIs:
		x := c.Args[0]
		for n := s.facts; n != nil; n = n.up {
			if n.atom.Op == OTypeIs && n.val && n.atom.Args[0] == x && n.atom.Aux != c.Aux {
				return false, true
			}
			if n.atom.Op == OIsNil && n.val && n.atom.Args[0] == x {
				return false, true
			}
		}
	}
	return false, false
}

func mkLenNoNew(t *Term) *Term { return mk(OLen, "", types.Typ[types.Int], t) }

func (s *State) knownNonNil(x *Term) bool {
	v, ok := s.eval(mkIsNil(x))
	return ok && !v
}
func (s *State) knownNil(x *Term) bool {
	v, ok := s.eval(mkIsNil(x))
	return ok && v
}

func (s *State) constOf(x *Term) *Term {
	switch x.Op {
	case OConst, OSent:
		return x
	case OIface:
		return x
	}
	for n := s.facts; n != nil; n = n.up {
		if n.atom.Op == OEq && n.val {
			a, b := n.atom.Args[0], n.atom.Args[1]
			if a == x && (b.Op == OConst || b.Op == OSent || b.Op == OIface) {
				return b
			}
			if b == x && (a.Op == OConst || a.Op == OSent || a.Op == OIface) {
				return a
			}
		}
	}
	return nil
}

// Holds: the facts entail c.
func (s *State) Holds(c *Term) bool {
	v, ok := s.eval(c)
	return ok && v
}

// assume adds c; false when the path becomes infeasible.
func (s *State) assume(c *Term) bool {
	if v, ok := s.eval(c); ok {
		return v
	}
	val := true
	if c.Op == ONot {
		c, val = c.Args[0], false
	}
	n := 0
	if s.facts != nil {
		n = s.facts.n
	}
	s.facts = &factNode{atom: c, val: val, up: s.facts, n: n + 1}
	// bool-valued equality propagation: len(x) facts are linear already
	return true
}

// proveGe0 tries to derive l >= 0 from the linear facts by eliminating atoms.
func (s *State) proveGe0(l *Lin, depth int) bool {
	ok := l.C >= 0
	for i, a := range l.Atoms {
		if !(l.K[i] > 0 && s.nonNegAtom(a)) {
			ok = false
			break
		}
	}
	if ok {
		return true
	}
	if depth == 0 {
		return false
	}
	// pick the first atom that blocks
	for i, a := range l.Atoms {
		if l.K[i] > 0 && s.nonNegAtom(a) {
			continue
		}
		for n := s.facts; n != nil; n = n.up {
			var f *Lin
			switch {
			case n.atom.Op == OGe0 && n.val:
				f = linOf(n.atom.Args[0])
			case n.atom.Op == OEq0 && n.val:
				f = linOf(n.atom.Args[0])
				for j, b := range f.Atoms {
					if b == a && (f.K[j] > 0) != (l.K[i] > 0) {
						f = linScale(f, -1)
						break
					}
				}
			case n.atom.Op == OEq0 && !n.val:
				// x != 0 with x >= 0 means x >= 1
				g := linOf(n.atom.Args[0])
				if len(g.Atoms) == 1 && g.C == 0 && s.nonNegAtom(g.Atoms[0]) {
					f = linAdd(g, linConst(-1), 1)
				}
			}
			if f == nil {
				continue
			}
			if s.proveWith(l, i, f, depth) {
				return true
			}
		}
		for _, f := range s.divisions(l) {
			if s.proveWith(l, i, f, depth) {
				return true
			}
		}
		return false
	}
	// only the constant blocks: use a lower bound of some positive atom
	for i, a := range l.Atoms {
		for n := s.facts; n != nil; n = n.up {
			var f *Lin
			if n.atom.Op == OGe0 && n.val {
				f = linOf(n.atom.Args[0])
			} else if n.atom.Op == OEq0 && !n.val {
				g := linOf(n.atom.Args[0])
				if len(g.Atoms) == 1 && g.C == 0 && s.nonNegAtom(g.Atoms[0]) {
					f = linAdd(g, linConst(-1), 1)
				}
			} else if n.atom.Op == OEq0 && n.val {
				f = linOf(n.atom.Args[0])
				for j, b := range f.Atoms {
					if b == a && f.K[j] < 0 {
						f = linScale(f, -1)
						break
					}
				}
			}
			if f == nil {
				continue
			}
			if s.proveWith(l, i, f, depth) {
				return true
			}
		}
	}
	return false
}

// proveWith eliminates the i-th atom of l with the fact f >= 0.
func (s *State) proveWith(l *Lin, i int, f *Lin, depth int) bool {
	for j, b := range f.Atoms {
		if b != l.Atoms[i] || (f.K[j] > 0) != (l.K[i] > 0) {
			continue
		}
		if f.K[j] == l.K[i] {
			return s.proveGe0(linAdd(l, f, -1), depth-1)
		}
		x, y := f.K[j], l.K[i]
		if x < 0 {
			x, y = -x, -y
		}
		if x > 1<<20 || y > 1<<20 {
			return false
		}
		g := gcd(x, y)
		return s.proveGe0(linAdd(linScale(l, x/g), f, -y/g), depth-1)
	}
	return false
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// divisions: what holds of the quotients of naturals by constants that l and
// the facts mention: k*q <= y <= k*q+k-1.
func (s *State) divisions(l *Lin) []*Lin {
	var r []*Lin
	var seen map[*Term]bool
	add := func(x *Lin) {
		for _, q := range x.Atoms {
			if q.Op != OBin || q.Aux != "/" || len(q.Args) != 2 || seen[q] {
				continue
			}
			k, ok := q.Args[1].Int()
			if !ok || k <= 0 || !natural(q.Args[0]) {
				continue
			}
			if seen == nil {
				seen = map[*Term]bool{}
			}
			seen[q] = true
			d := linAdd(linOf(q.Args[0]), &Lin{Atoms: []*Term{q}, K: []int64{k}}, -1)
			r = append(r, d, linAdd(linConst(k-1), d, -1))
		}
	}
	add(l)
	for n := s.facts; n != nil; n = n.up {
		if n.atom.Op == OGe0 || n.atom.Op == OEq0 {
			add(linOf(n.atom.Args[0]))
		}
	}
	return r
}

func (s *State) nonNegAtom(a *Term) bool { return nonNeg(a) }

// ---- conveniences for queries

func (s *State) HoldsAll(cs ...*Term) bool {
	for _, c := range cs {
		if !s.Holds(c) {
			return false
		}
	}
	return true
}

// HoldsForall: for every index e with lo<=e<hi, prop(e) holds, established by
// a completed loop (or because the range is empty). prop builds the condition
// from the iteration counter term.
func (s *State) ForallByLoop(prop func(iv *Term) *Term, lo int64, hi *Term) bool {
	// empty range
	if s.Holds(mkGe0(linAdd(linConst(lo), linOf(hi), -1))) {
		return true
	}
	for n := s.loops; n != nil; n = n.up {
		rec := n.rec
		// iterations completed: IV; elements covered: those the property maps
		// iteration k -> element k+lo ; needs IV >= hi-lo at this point
		need := mkGe0(linAdd(linAdd(linOf(rec.IV), linOf(hi), -1), linConst(lo), 1))
		if !s.Holds(need) {
			continue
		}
		alts := s.alts(rec)
		ok := len(alts) > 0
		for _, alt := range alts {
			if !alt.Holds(prop(AddC(rec.IV, lo))) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// HoldsAt additionally instantiates completed loops' per-iteration facts at
// the given index.
func (s *State) HoldsInst(c *Term, idx *Term) bool {
	if s.Holds(c) {
		return true
	}
	for n := s.loops; n != nil; n = n.up {
		rec := n.rec
		if c.mentions(rec.IV) && idx == rec.IV {
			continue
		}
		// idx < IV completed iterations
		if !s.Holds(mkGe0(linAdd(linAdd(linOf(rec.IV), linOf(idx), -1), linConst(-1), 1))) {
			continue
		}
		if !s.Holds(mkGe0(linOf(idx))) {
			continue
		}
		alts := s.alts(rec)
		ok := len(alts) > 0
		for _, alt := range alts {
			t := newState()
			m := map[*Term]*Term{rec.IV: idx}
			for f := alt.facts; f != nil; f = f.up {
				a := subst(f.atom, m)
				if !f.val {
					a = mkNot(a)
				}
				t.facts = &factNode{atom: a, val: true, up: t.facts}
				if a.Op == ONot {
					t.facts.atom, t.facts.val = a.Args[0], false
				}
			}
			for l := alt.loops; l != nil; l = l.up {
				t.loops = &loopNode{rec: l.rec, up: t.loops}
			}
			if !t.Holds(c) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// normIdx replaces an index by the constant the facts determine for it.
func (s *State) normIdx(i *Term) *Term {
	if i.IsConst() {
		return i
	}
	l := linOf(i)
	if len(l.Atoms) == 0 || len(l.Atoms) > 3 {
		return i
	}
	r := linConst(l.C)
	for k, a := range l.Atoms {
		found := false
		for n := s.facts; n != nil; n = n.up {
			if n.val && n.atom.Op == OEq0 {
				f := linOf(n.atom.Args[0])
				if len(f.Atoms) == 1 && f.Atoms[0] == a && f.C%f.K[0] == 0 {
					r = linAdd(r, linConst(-f.C/f.K[0]*l.K[k]), 1)
					found = true
					break
				}
			}
		}
		if !found {
			return i
		}
	}
	return linTerm(r, i.T)
}
