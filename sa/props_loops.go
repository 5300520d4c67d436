package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C39: everything done for a message, an update or a load ends

func init() {
	checks["C39"] = propC39
	expl["C39"] = "Every loop of the repository is summarised by exploring the functions it is reached from; each iteration that goes on must carry a fact that bounds the counter or a value that moves by a constant, by a quantity that is held in memory and not merely claimed by a peer. Loops that wait for the outside in every iteration are allowed only outside of the handling of messages. Recursive calls must descend."
}

// peerTypes: what arrives from the outside.
func (c *Ctx) peerTypes() map[string]bool {
	r := map[string]bool{}
	for _, t := range c.reqKinds() {
		r[typeName(t)] = true
	}
	for _, n := range []string{"Request", "Response", "DirectoryProof", "STRHistoryRange", "DirSTR", "TemporaryBinding", "STRHistoryRequest", "AuditingRequest", "Policies"} {
		if t := c.p.Named("protocol", n); t != nil {
			r[typeName(t)] = true
		}
	}
	for _, n := range []string{"AuthenticationPath", "ProofNode", "SignedTreeRoot"} {
		if t := c.p.Named("merkletree", n); t != nil {
			r[typeName(t)] = true
		}
	}
	return r
}

type boundQ struct {
	c    *Ctx
	peer map[string]bool
	rec  *LoopRec
	inv  map[*Term]bool // loop-carried values of the loop
}

// origin: the parameter, allocation or unknown that a value was read from.
func origin(t *Term) *Term {
	for {
		switch t.Op {
		case OFVal, ODeref, OField, OFAddr, OIAddr, OMapGet, OMapHas, OARef, OAssert, OConv, OExtr, OIface, OIdx, OSub:
			if len(t.Args) == 0 {
				return t
			}
			t = t.Args[0]
		default:
			return t
		}
	}
}

// claimed: the number is one that a peer may choose freely.
func (q *boundQ) claimed(t *Term) bool {
	if t.Op == OLen || t.Op == OCap || t.Op == OIV {
		return false
	}
	if b, ok := t.T.(*types.Basic); ok && isInteger(t.T) {
		switch b.Kind() {
		case types.Int8, types.Uint8, types.Int16, types.Uint16:
			return false
		}
	}
	if t.Op == OBin || t.Op == OLin {
		for _, a := range t.Args {
			if q.claimed(a) {
				return true
			}
		}
		if t.Op == OLin {
			for _, a := range linOf(t).Atoms {
				if q.claimed(a) {
					return true
				}
			}
		}
		return false
	}
	o := origin(t)
	switch o.Op {
	case OParam:
		ty := o.T
		for {
			if e := elemOf(ty); e != nil {
				ty = e
			} else if s, ok := ty.Underlying().(*types.Slice); ok {
				ty = s.Elem()
			} else {
				break
			}
		}
		return q.peer[typeName(ty)] || isInteger(o.T) || isBytesT(o.T) || isString(o.T)
	case OOut, OHav, OCall:
		return true
	}
	return false
}

// bounded: facts of the state bound the number by something that is held.
func (q *boundQ) bounded(st *State, t *Term, depth int) bool {
	if !q.claimed(t) {
		return true
	}
	if depth > 3 {
		return false
	}
	for _, f := range st.Facts() {
		if f.Op != OGe0 && f.Op != OEq0 {
			continue
		}
		l := linOf(f.Args[0])
		ok, has := true, false
		for i, a := range l.Atoms {
			switch {
			case a == t && (l.K[i] < 0 || f.Op == OEq0):
				has = true
			case l.K[i] < 0 && nonNeg(a):
			case q.varies(a) || !q.bounded(st, a, depth+1):
				ok = false
			}
		}
		if ok && has {
			return true
		}
	}
	return false
}

// varies: the value is not the same in all iterations of the loop.
func (q *boundQ) varies(t *Term) bool {
	return t.mentions(q.rec.IV) || anySub(t, func(x *Term) bool { return q.inv[x] })
}

// limits: some fact of the state keeps s*v below a held quantity.
func (q *boundQ) limits(st *State, v *Term, s int64, step int64) bool {
	for _, f := range st.Facts() {
		neg := false
		if f.Op == ONot && f.Args[0].Op == OEq0 {
			neg, f = true, f.Args[0]
		}
		if f.Op != OGe0 && !neg {
			continue
		}
		l := linOf(f.Args[0])
		k := int64(0)
		rest := true
		for i, a := range l.Atoms {
			if a == v {
				k = l.K[i]
				continue
			}
			if q.varies(a) {
				rest = false
			}
		}
		if !rest || k == 0 {
			continue
		}
		if neg {
			// v != K: an end if v starts on this side of K and moves by one
			if k*s > 0 {
				l = linScale(l, -1)
			}
			if step != 1 || k != 1 && k != -1 {
				continue
			}
			init := q.initial(v)
			if init == nil {
				continue
			}
			at := linAdd(l, linOf(v), -l.coef(v))
			at = linAdd(at, linOf(init), l.coef(v))
			if !q.rec.Base.Holds(mkGe0(at)) {
				continue
			}
		} else if k*s > 0 {
			continue
		}
		ok := true
		for i, a := range l.Atoms {
			if a == v || l.K[i] < 0 && nonNeg(a) {
				continue
			}
			if !q.bounded(st, a, 0) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if s < 0 {
			// counting down: the cost is the initial value
			init := q.initial(v)
			if init == nil {
				continue
			}
			for i, a := range linOf(init).Atoms {
				if linOf(init).K[i] > 0 && !q.bounded(q.rec.Base, a, 0) {
					ok = false
				}
			}
			if !ok {
				continue
			}
		}
		return true
	}
	return false
}

func (l *Lin) coef(a *Term) int64 {
	for i, x := range l.Atoms {
		if x == a {
			return l.K[i]
		}
	}
	return 0
}

func (q *boundQ) initial(v *Term) *Term {
	if v == q.rec.IV {
		return intConst(0, v.T)
	}
	for _, ph := range q.rec.Phis {
		if ph.Term == v {
			return ph.Init
		}
	}
	return nil
}

// overMap: the iteration takes another key of a map or string.
func (q *boundQ) overMap(st *State) bool {
	for _, f := range st.Facts() {
		if f.Op != OHav || !strings.HasPrefix(f.Aux, "rangeok") || !f.mentions(q.rec.IV) {
			continue
		}
		m := f.Args[0]
		for _, ev := range st.EventsSince(q.rec.Base) {
			if ev.Kind == "mapset" && ev.Args[0] == m && !strings.HasPrefix(ev.Args[1].Aux, "rangekey") {
				return false
			}
		}
		return true
	}
	return false
}

// ends: why the loop may go on for ever, or for as long as a peer likes.
func (q *boundQ) ends() string {
	rec := q.rec
	if len(rec.Alts) == 0 {
		return ""
	}
	byIV := true
	for _, a := range rec.Alts {
		if !q.limits(a, rec.IV, 1, 1) && !q.overMap(a) {
			byIV = false
		}
	}
	if byIV {
		for _, ph := range rec.Phis {
			if ph.Class == "lin" && fewBits(ph.Ty) && !q.narrow(ph) {
				return fmt.Sprintf("the counter %s has too few bits", ph.Name)
			}
		}
		return ""
	}
	why := "no bound of the number of iterations is established"
	// a value that moves by constants
	for _, ph := range rec.Phis {
		if !isInteger(ph.Term.T) {
			continue
		}
		for _, s := range []int64{1, -1} {
			prog := make([]bool, len(rec.Alts))
			ok := true
			for i, a := range rec.Alts {
				n := ph.Next[i]
				if n == nil {
					ok = false
					break
				}
				d := linAdd(linOf(n), linOf(ph.Term), -1)
				if len(d.Atoms) > 0 || d.C*s < 0 {
					ok = false
					break
				}
				prog[i] = d.C != 0
				if prog[i] && !q.limits(a, ph.Term, s, d.C*s) {
					ok = false
					break
				}
			}
			if ok && fewBits(ph.Term.T) {
				ok = false
			}
			if ok && q.progresses(prog) {
				return ""
			}
		}
	}
	// following the links of a structure
	for _, ph := range rec.Phis {
		if ph.Class != "" {
			continue
		}
		prog := make([]bool, len(rec.Alts))
		links := map[string]bool{}
		any, away := false, false
		for i := range rec.Alts {
			n := ph.Next[i]
			if n == nil {
				continue
			}
			if l := linkOf(n, ph.Term); l != "" {
				prog[i], any = true, true
				links[l] = true
			} else if n != ph.Term && n.Op != ONil {
				away = true
			}
		}
		if any && !away && q.progresses(prog) && !q.c.inverse(links) {
			q.c.assume("following %s comes to an end (the structure has no cycles)", strings.Join(sortedSet(links), ", "))
			return ""
		}
	}
	return why
}

func fewBits(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8, types.Int16, types.Uint16:
		return true
	}
	return false
}

// narrow: a counter of few bits is compared with nothing wider.
func (q *boundQ) narrow(ph *PhiRec) bool {
	for _, a := range q.rec.Alts {
		ok := false
		for _, f := range a.Facts() {
			if f.Op == ONot {
				f = f.Args[0]
			}
			if f.Op != OGe0 && f.Op != OEq0 || !f.mentions(q.rec.IV) {
				continue
			}
			nar := true
			for _, t := range linOf(f.Args[0]).Atoms {
				nar = nar && (t == q.rec.IV || fewBits(t.T))
			}
			ok = ok || nar
		}
		if !ok {
			return false
		}
	}
	return true
}

// progresses: iterations without progress cannot follow each other for ever.
func (q *boundQ) progresses(prog []bool) bool {
	n := len(prog)
	next := make([][]int, n)
	for i := range prog {
		if prog[i] {
			continue
		}
		for j := range prog {
			if !prog[j] && !q.excluded(i, j) {
				next[i] = append(next[i], j)
			}
		}
	}
	state := make([]int, n)
	var cyc func(i int) bool
	cyc = func(i int) bool {
		state[i] = 1
		for _, j := range next[i] {
			if state[j] == 1 || state[j] == 0 && cyc(j) {
				return true
			}
		}
		state[i] = 2
		return false
	}
	for i := range prog {
		if !prog[i] && state[i] == 0 && cyc(i) {
			return false
		}
	}
	return true
}

// excluded: alternative j cannot follow alternative i, since the carried
// values contradict a fact of j.
func (q *boundQ) excluded(i, j int) bool {
	sub := map[*Term]*Term{}
	carried := map[*Term]bool{}
	for _, ph := range q.rec.Phis {
		if ph.IsCell || ph.Next[i] == nil {
			continue
		}
		sub[ph.Term] = ph.Next[i]
		carried[ph.Term] = true
	}
	for _, f := range q.rec.Alts[j].Facts() {
		neg := f.Op == ONot
		a := f
		if neg {
			a = f.Args[0]
		}
		if a.Op != OTypeIs && a.Op != OIsNil && a.Op != OGe0 && a.Op != OEq0 && !carried[a] {
			continue
		}
		plain := true
		for _, x := range a.Args {
			if x.Op == OLin {
				for _, at := range linOf(x).Atoms {
					if q.varies(at) && !carried[at] {
						plain = false
					}
				}
			} else if q.varies(x) && !carried[x] {
				plain = false
			}
		}
		if !plain {
			continue
		}
		if v, ok := q.rec.Alts[i].eval(subst(a, sub)); ok && v == neg {
			return true
		}
	}
	return false
}

// linkOf: n is read from a field of the object at v (and not v itself).
func linkOf(n, v *Term) string {
	l := ""
	for n != v {
		switch n.Op {
		case OFVal:
			if l == "" {
				l = strings.Split(n.Aux, "@")[0]
			}
		case OField, ODeref, OFAddr, OAssert, OConv, OIface, OIdx, OIAddr, OMapGet:
		default:
			return ""
		}
		if len(n.Args) == 0 {
			return ""
		}
		n = n.Args[0]
	}
	return l
}

// inverse: two of the links lead back and forth.
func (c *Ctx) inverse(links map[string]bool) bool {
	if len(links) < 2 {
		return false
	}
	up, down := false, false
	for l := range links {
		if strings.HasSuffix(l, "parent") {
			up = true
		} else {
			down = true
		}
	}
	return up && down
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// waits: every iteration waits for something outside of the program.
func (c *Ctx) waits(rec *LoopRec) bool {
	for _, a := range rec.Alts {
		w := false
		for _, ev := range a.EventsSince(rec.Base) {
			switch ev.Kind {
			case "recv", "send":
				w = true
			case "call":
				f := fnOf(ev)
				if f == nil || !inRepo(f) {
					w = w || !pureExternal(ev.Name)
					continue
				}
				for g := range c.reachableFrom(f) {
					c.eachInstr(g, func(in ssa.Instruction) {
						if ci, ok := in.(ssa.CallInstruction); ok {
							if h := ci.Common().StaticCallee(); h != nil && !inRepo(h) && !pureExternal(fnName(h)) {
								w = true
							}
						}
					})
				}
			}
		}
		if !w {
			return false
		}
	}
	return true
}

func propC39(c *Ctx) {
	rl := c.Rule("loops", "every loop on the way of a message, an update or a load is bounded by what is held, not by what a peer claims", 15)
	rs := c.Rule("services", "a loop that runs for the life of the program waits in every iteration and is not part of the handling of a message", 3)
	rr := c.Rule("recursion", "a recursive call descends into a part of what its caller was given", 2)

	skip := func(f *ssa.Function) bool {
		return !inRepo(f) || isTestHelper(c, f) || strings.HasPrefix(fnPkg(f), "crypto/internal") || f.Name() == "init" && f.Signature.Recv() == nil
	}
	looping := map[*ssa.Function]bool{}
	for _, f := range c.p.Fns {
		if skip(f) {
			continue
		}
		if len(c.p.loops(f).byHeader) > 0 {
			looping[f] = true
		}
	}
	// what is done for messages, updates and loads
	var handlers []*ssa.Function
	for _, f := range c.p.Fns {
		if skip(f) || f.Synthetic != "" {
			continue
		}
		pk := fnPkg(f)
		exp := f.Object() != nil && f.Object().Exported()
		switch {
		case strings.HasPrefix(pk, "protocol"), strings.HasPrefix(pk, "merkletree"), strings.HasPrefix(pk, "crypto"), strings.HasPrefix(pk, "storage"), pk == "utils":
			handlers = append(handlers, f)
		case f.Signature.Params().Len() == 1 && isPtrTo(f.Signature.Params().At(0).Type(), "protocol.Request"):
			handlers = append(handlers, f)
		case exp && f.Name() == "Load", exp && f.Name() == "Save", exp && f.Name() == "HandleRegistration", exp && strings.Contains(f.Name(), "arshalRe"):
			handlers = append(handlers, f)
		}
	}
	um := c.fn("application", "UnmarshalRequest")
	for _, s := range c.callSites(func(h *ssa.Function) bool { return h == um }) {
		if !isTestHelper(c, s.Fn) {
			handlers = append(handlers, s.Fn)
		}
	}
	handling := c.reachableFrom(handlers...)

	// a loop is judged in its function; if that does not tell, where the
	// function is called
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.p.Fns {
		if skip(f) || f.Synthetic != "" {
			continue
		}
		has := map[*ssa.Function]bool{}
		add := func(g *ssa.Function) {
			if g != nil && g != f && !has[g] {
				has[g] = true
				callers[g] = append(callers[g], f)
			}
		}
		c.eachInstr(f, func(in ssa.Instruction) {
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range c.p.callees(ci) {
					add(g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				add(mc.Fn.(*ssa.Function))
			}
		})
	}
	peer := c.peerTypes()
	type outcome struct {
		why   string
		waits bool
		pos   string
	}
	memo := map[*ssa.Function]map[*loopT]*outcome{}
	explore := func(f *ssa.Function) map[*loopT]*outcome {
		if r, ok := memo[f]; ok {
			return r
		}
		r := map[*loopT]*outcome{}
		memo[f] = r
		pk := fnPkg(f)
		e := c.run(f, &Opts{Name: "loops", Opaque: func(g *ssa.Function) (bool, bool) {
			cut := isTestHelper(c, g) || strings.HasPrefix(pk, "cli/") && inRepo(g) && g != f && g.Parent() != f
			return cut, cut
		}})
		for lp := range e.Looped {
			r[lp] = &outcome{waits: true}
		}
		for _, rec := range e.Recs {
			q := &boundQ{c: c, peer: peer, rec: rec, inv: map[*Term]bool{}}
			for _, ph := range rec.Phis {
				q.inv[ph.Term] = true
			}
			o := r[rec.loop]
			o.pos = rec.Pos
			if why := q.ends(); why != "" {
				o.why = why
				o.waits = o.waits && c.waits(rec)
			}
		}
		return r
	}
	var judge func(lp *loopT, f *ssa.Function, on map[*ssa.Function]bool) *outcome
	judge = func(lp *loopT, f *ssa.Function, on map[*ssa.Function]bool) *outcome {
		o := explore(f)[lp]
		if o == nil || o.why == "" {
			return o
		}
		up := false
		for _, g := range callers[f] {
			if on[g] || len(on) > 6 {
				continue
			}
			on[g] = true
			if r := judge(lp, g, on); r != nil {
				if r.why != "" {
					return r
				}
				up = true
			}
			delete(on, g)
		}
		if up {
			return &outcome{pos: o.pos}
		}
		return o
	}
	var ls []*ssa.Function
	for f := range looping {
		ls = append(ls, f)
	}
	sort.Slice(ls, func(i, j int) bool { return fnName(ls[i]) < fnName(ls[j]) })
	for _, f := range ls {
		var lps []*loopT
		for _, lp := range c.p.loops(f).byHeader {
			lps = append(lps, lp)
		}
		sort.Slice(lps, func(i, j int) bool { return lps[i].Header.Index < lps[j].Header.Index })
		for _, lp := range lps {
			o := judge(lp, f, map[*ssa.Function]bool{f: true})
			name := "loop of " + fnName(f)
			pos := c.p.Pos(loopPos(lp.Header))
			switch {
			case o == nil:
				c.assume("a loop of %s is never entered", fnName(f))
			case o.why == "":
				rl.ok("%s at %s", name, pos)
			case !handling[f]:
				rs.check(o.waits, name, pos, "the loop does not end and goes round without waiting for anything")
			default:
				rl.fail(name, pos, "%s", o.why)
			}
		}
	}

	// recursion
	for _, f := range c.p.Fns {
		if skip(f) || f.Synthetic != "" {
			continue
		}
		c.eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			for _, g := range c.p.callees(ci) {
				if g == nil || !inRepo(g) || g != f && !c.reachableFrom(g)[f] {
					continue
				}
				args := ci.Common().Args
				if ci.Common().IsInvoke() {
					args = append([]ssa.Value{ci.Common().Value}, args...)
				}
				ok := false
				for _, a := range args {
					ok = ok || descends(a, 0)
				}
				rr.check(ok, fnName(f), c.pos(in), "%s is called again on what is not a part of what %s was given", fnName(g), fnName(f))
			}
		})
	}
}

// descends: the value is read from a field (not a link to the parent) of
// something given to the function.
func descends(v ssa.Value, fields int) bool {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			if strings.HasSuffix(structKey(x.X.Type(), x.Field), "parent") {
				return false
			}
			fields++
			v = x.X
		case *ssa.Field:
			if strings.HasSuffix(structKey(x.X.Type(), x.Field), "parent") {
				return false
			}
			fields++
			v = x.X
		case *ssa.IndexAddr:
			fields++
			v = x.X
		case *ssa.Index:
			fields++
			v = x.X
		case *ssa.Lookup:
			fields++
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.Next:
			v = x.Iter
		case *ssa.Range:
			fields++
			v = x.X
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !descends(e, fields) {
					return false
				}
			}
			return len(x.Edges) > 0
		case *ssa.Slice:
			if x.Low != nil {
				fields++
			}
			v = x.X
		case *ssa.Parameter, *ssa.FreeVar:
			return fields > 0
		case *ssa.BinOp:
			return false
		default:
			return false
		}
	}
	return false
}
