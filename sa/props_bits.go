package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	checks["C37"] = propC37
	expl["C37"] = "The conversions' bodies are summarised (loops included) and evaluated in a domain of symbolic bits, for every position written as 8*q+r with symbolic q and each r of 0..7: which bit of which byte every result bit is."
}

// A symbolic bit: constant 0 or 1, the disjunction of named source bits, or
// the negation of one, or unknown.
type sbit struct {
	kind byte // '0' '1' 's' 'n' '?', or 'p': a condition on the position
	src  map[string]bool
}

var bit0, bit1, bitU = sbit{kind: '0'}, sbit{kind: '1'}, sbit{kind: '?'}

func srcBit(s string) sbit { return sbit{'s', map[string]bool{s: true}} }

func (b sbit) is(s string) bool { return b.kind == 's' && len(b.src) == 1 && b.src[s] }

func (b sbit) String() string {
	if b.kind == 's' || b.kind == 'n' {
		var r []string
		for k := range b.src {
			r = append(r, k)
		}
		s := strings.Join(r, "|")
		if b.kind == 'n' {
			return "not " + s
		}
		return s
	}
	return string(b.kind)
}

func bitNot(b sbit) sbit {
	switch {
	case b.kind == '0':
		return bit1
	case b.kind == '1':
		return bit0
	case b.kind == 's' && len(b.src) == 1:
		return sbit{'n', b.src}
	case b.kind == 'n':
		return sbit{'s', b.src}
	}
	return bitU
}

func bitOr(a, b sbit) sbit {
	switch {
	case a.kind == '1' || b.kind == '1':
		return bit1
	case a.kind == '0':
		return b
	case b.kind == '0':
		return a
	case a.kind == 's' && b.kind == 's':
		m := map[string]bool{}
		for k := range a.src {
			m[k] = true
		}
		for k := range b.src {
			m[k] = true
		}
		return sbit{'s', m}
	}
	return bitU
}

func bitAnd(a, b sbit) sbit {
	switch {
	case a.kind == '0' || b.kind == '0':
		return bit0
	case a.kind == '1':
		return b
	case b.kind == '1':
		return a
	}
	return bitU
}

func bitXor(a, b sbit) sbit {
	switch {
	case a.kind == '0':
		return b
	case b.kind == '0':
		return a
	case a.kind == '1':
		return bitNot(b)
	case b.kind == '1':
		return bitNot(a)
	}
	return bitU
}

// bitEnv evaluates terms with some integers given as 8*q+r.
type bitEnv struct {
	val map[*Term]*Lin
}

func (b *bitEnv) int(t *Term) *Lin {
	if l := b.val[t]; l != nil {
		return l
	}
	if v, ok := t.Int(); ok {
		return linConst(v)
	}
	// a quotient and remainder of a form whose variable parts are divisible
	div := func(x *Term, n int64) (q *Lin, r int64, ok bool) {
		l := b.int(x)
		if l == nil || n <= 0 {
			return nil, 0, false
		}
		q = &Lin{}
		for i, a := range l.Atoms {
			if l.K[i] < 0 || l.K[i]%n != 0 {
				return nil, 0, false
			}
			q = linAdd(q, &Lin{Atoms: []*Term{a}, K: []int64{1}}, l.K[i]/n)
		}
		if l.C < 0 {
			return nil, 0, false
		}
		return linAdd(q, linConst(l.C/n), 1), l.C % n, true
	}
	switch t.Op {
	case OLin:
		r := linConst(t.lin.C)
		for i, a := range t.lin.Atoms {
			l := b.int(a)
			if l == nil {
				return nil
			}
			r = linAdd(r, l, t.lin.K[i])
		}
		return r
	case OConv:
		if len(t.Args) != 1 {
			return nil
		}
		l := b.int(t.Args[0])
		if l != nil && narrows(t) && !(len(l.Atoms) == 0 && l.C >= 0 && l.C < 128) {
			// positions are taken to fit into 32 bits
			if n, _, ok := intSize(t.T); !ok || n < 32 {
				return nil
			}
		}
		return l
	case OBin:
		if len(t.Args) != 2 {
			return nil
		}
		k := b.int(t.Args[1])
		if t.Aux == "-" || t.Aux == "+" {
			l := b.int(t.Args[0])
			if l == nil || k == nil {
				return nil
			}
			if t.Aux == "-" {
				l = linAdd(l, k, -1)
			} else {
				l = linAdd(l, k, 1)
			}
			return l
		}
		if k == nil || len(k.Atoms) > 0 {
			return nil
		}
		switch t.Aux {
		case "/":
			if q, _, ok := div(t.Args[0], k.C); ok {
				return q
			}
		case "%":
			if _, r, ok := div(t.Args[0], k.C); ok {
				return linConst(r)
			}
		case ">>":
			if k.C >= 0 && k.C < 31 {
				if q, _, ok := div(t.Args[0], 1<<uint(k.C)); ok {
					return q
				}
			}
		case "&":
			if k.C&(k.C+1) == 0 {
				if _, r, ok := div(t.Args[0], k.C+1); ok {
					return linConst(r)
				}
			}
		case "^":
			if l := b.int(t.Args[0]); l != nil && len(l.Atoms) == 0 {
				return linConst(l.C ^ k.C)
			}
		case "*", "<<":
			if l := b.int(t.Args[0]); l != nil {
				if t.Aux == "*" {
					return linScale(l, k.C)
				}
				if k.C >= 0 && k.C < 31 {
					return linScale(l, 1<<uint(k.C))
				}
			}
		}
	}
	return nil
}

func bitName(seq *Term, at *Lin, pos int) string {
	return fmt.Sprintf("%v[%v].%d", seq, linTerm(at, types.Typ[types.Int]), pos)
}

func boolName(seq *Term, at *Lin) string {
	return fmt.Sprintf("%v[%v]", seq, linTerm(at, types.Typ[types.Int]))
}

// bits: the bits of a non-negative integer, lowest first.
func (b *bitEnv) bits(t *Term) (r [64]sbit) {
	unknown := func() (r [64]sbit) {
		for i := range r {
			r[i] = bitU
		}
		return
	}
	if l := b.int(t); l != nil && len(l.Atoms) == 0 && l.C >= 0 {
		for i := range r {
			r[i] = bit0
			if l.C>>uint(i)&1 == 1 {
				r[i] = bit1
			}
		}
		return r
	}
	width := 64
	if t.T != nil {
		if n, _, ok := intSize(t.T); ok && n > 0 && n <= 64 {
			width = n
		}
	}
	cut := func(r [64]sbit) [64]sbit {
		for i := width; i < 64; i++ {
			r[i] = bit0
		}
		return r
	}
	switch t.Op {
	case OIdx:
		l := b.int(t.Args[1])
		if l == nil {
			return unknown()
		}
		for i := range r {
			r[i] = bit0
			if i < 8 {
				r[i] = srcBit(bitName(t.Args[0], l, i))
			}
		}
		return r
	case OParam:
		n, _, ok := intSize(t.T)
		if !ok {
			return unknown()
		}
		for i := range r {
			r[i] = bit0
			if i < n {
				r[i] = srcBit(intBit(t, i))
			}
		}
		return r
	case OConv:
		if len(t.Args) == 1 {
			return cut(b.bits(t.Args[0]))
		}
	case OBin:
		if len(t.Args) != 2 {
			return unknown()
		}
		x, y := b.bits(t.Args[0]), b.bits(t.Args[1])
		k := b.int(t.Args[1])
		kc := k != nil && len(k.Atoms) == 0 && k.C >= 0 && k.C < 1<<31
		switch t.Aux {
		case "&", "|", "^", "&^":
			for i := range r {
				switch t.Aux {
				case "&":
					r[i] = bitAnd(x[i], y[i])
				case "|":
					r[i] = bitOr(x[i], y[i])
				case "^":
					r[i] = bitXor(x[i], y[i])
				default:
					r[i] = bitAnd(x[i], bitNot(y[i]))
				}
			}
			return r
		case "<<", ">>", "*", "/", "%":
			if !kc {
				return unknown()
			}
			n := int(k.C)
			if t.Aux != "<<" && t.Aux != ">>" {
				n = 0
				for 1<<uint(n) < k.C {
					n++
				}
				if 1<<uint(n) != k.C {
					return unknown()
				}
			}
			for i := range r {
				r[i] = bit0
				switch t.Aux {
				case "<<", "*":
					if i-n >= 0 {
						r[i] = x[i-n]
					}
				case ">>", "/":
					if i+n < 64 {
						r[i] = x[i+n]
					}
				case "%":
					if i < n {
						r[i] = x[i]
					}
				}
			}
			return cut(r)
		}
	}
	return unknown()
}

// truth: the value of a condition.
func (b *bitEnv) truth(t *Term) sbit {
	switch t.Op {
	case ONot:
		return bitNot(b.truth(t.Args[0]))
	case OBit:
		// what GetNthBit yields
		for r := int64(0); r < 8; r++ {
			if l := b.int(t.Args[1]); l != nil {
				q := &Lin{}
				ok := l.C >= 0
				for i, a := range l.Atoms {
					ok = ok && l.K[i]%8 == 0 && l.K[i] > 0
					q = linAdd(q, &Lin{Atoms: []*Term{a}, K: []int64{1}}, l.K[i]/8)
				}
				if !ok {
					return bitU
				}
				return srcBit(bitName(t.Args[0], linAdd(q, linConst(l.C/8), 1), int(7-l.C%8)))
			}
		}
		return bitU
	case OIdx:
		if l := b.int(t.Args[1]); l != nil {
			return srcBit(boolName(t.Args[0], l))
		}
		return bitU
	case OEq0, OGe0:
		var l *Lin
		if a := t.Args[0]; true {
			l = linOf(a)
		}
		// one integer with at most one bit that is not known
		if n := b.linInt(l); n != nil {
			if len(n.Atoms) == 0 {
				if t.Op == OEq0 && n.C == 0 || t.Op == OGe0 && n.C >= 0 {
					return bit1
				}
				return bit0
			}
			if t.Op == OGe0 {
				all := n.C >= 0
				for i, a := range n.Atoms {
					all = all && n.K[i] > 0 && nonNeg(a)
				}
				if all {
					return bit1
				}
			}
			return sbit{kind: 'p'}
		}
		if len(l.Atoms) != 1 {
			return bitU
		}
		bs := b.bits(l.Atoms[0])
		base, pos := int64(0), -1
		for i, x := range bs {
			switch x.kind {
			case '0':
			case '1':
				if i > 40 {
					return bitU
				}
				base |= 1 << uint(i)
			case '?':
				return bitU
			default:
				if pos >= 0 || i > 40 {
					return bitU
				}
				pos = i
			}
		}
		test := func(v int64) bool {
			n := l.K[0]*v + l.C
			return t.Op == OEq0 && n == 0 || t.Op == OGe0 && n >= 0
		}
		lo := test(base)
		if pos < 0 {
			if lo {
				return bit1
			}
			return bit0
		}
		hi := test(base | 1<<uint(pos))
		switch {
		case lo && hi:
			return bit1
		case !lo && !hi:
			return bit0
		case hi:
			return bs[pos]
		default:
			return bitNot(bs[pos])
		}
	}
	switch t {
	case True:
		return bit1
	case False:
		return bit0
	}
	return bitU
}

func (b *bitEnv) linInt(l *Lin) *Lin {
	r := linConst(l.C)
	for i, a := range l.Atoms {
		n := b.int(a)
		if n == nil {
			return nil
		}
		r = linAdd(r, n, l.K[i])
	}
	return r
}

// facts: the source bits known to be set or unset on a path; false when the
// path is impossible for these integers.
func (b *bitEnv) facts(st *State, upto *factNode) (map[string]bool, bool) {
	m := map[string]bool{}
	for n := st.facts; n != nil && n != upto; n = n.up {
		v := b.truth(n.atom)
		if !n.val {
			v = bitNot(v)
		}
		switch {
		case v.kind == '0':
			return nil, false
		case (v.kind == 's' || v.kind == 'n') && len(v.src) == 1:
			for k := range v.src {
				if old, ok := m[k]; ok && old != (v.kind == 's') {
					return nil, false
				}
				m[k] = v.kind == 's'
			}
		}
	}
	return m, true
}

// under: a bit once some source bits are known.
func (b sbit) under(m map[string]bool) sbit {
	if b.kind != 's' && b.kind != 'n' {
		return b
	}
	r := bit0
	for k := range b.src {
		v, ok := m[k]
		switch {
		case !ok:
			r = bitOr(r, srcBit(k))
		case v:
			r = bit1
		}
	}
	if b.kind == 'n' {
		return bitNot(r)
	}
	return r
}

// agrees: the bit equals the source bit want; known tells whether that could
// be decided.
func agrees(v sbit, want string, m map[string]bool) (ok, known bool) {
	if v.kind == 'p' {
		// depends on the position only, beyond its remainder by 8
		return false, true
	}
	if v.is(want) {
		return true, true
	}
	x := v.under(m)
	w := srcBit(want).under(m)
	switch {
	case x.kind == '?':
		return false, false
	case x.kind == w.kind && (x.kind == '0' || x.kind == '1'):
		return true, true
	}
	return x.is(want), true
}

// ---------- contracts

// Verdict on whether a function does what the analysis takes it to do.
type verdict struct {
	state byte // 'y' yes, 'n' no, '?' not decided
	what  string
	pos   string
	n     int
}

func yes(n int) verdict { return verdict{'y', "", "", n} }

func (c *Ctx) contract(name string) (v verdict) {
	key := "contract:" + name
	if old, ok := c.verdicts[key]; ok {
		return old
	}
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(anchorErr); ok {
				v = verdict{'?', a.what, "", 0}
			} else {
				panic(r)
			}
		}
		if c.verdicts == nil {
			c.verdicts = map[string]verdict{}
		}
		c.verdicts[key] = v
	}()
	f := contracts[name]
	if f == nil {
		return verdict{'?', "no rule for " + name, "", 0}
	}
	return f(c)
}

var contracts map[string]func(c *Ctx) verdict

func init() {
	contracts = map[string]func(c *Ctx) verdict{
		"utils.GetNthBit":    bitReader,
		"utils.ToBits":       func(c *Ctx) verdict { return bitFiller(c, "ToBits") },
		"utils.ToBytes":      func(c *Ctx) verdict { return bitFiller(c, "ToBytes") },
		"utils.ULongToBytes": func(c *Ctx) verdict { return intEncoder(c, "ULongToBytes") },
		"utils.LongToBytes":  func(c *Ctx) verdict { return intEncoder(c, "LongToBytes") },
		"utils.UInt32ToBytes": func(c *Ctx) verdict {
			return intEncoder(c, "UInt32ToBytes")
		},
		"crypto.Digest":                   digestContract,
		"(crypto/sign.PublicKey).Verify":  signVerify,
		"(crypto/sign.PrivateKey).Sign":   signSign,
		"(crypto/sign.PrivateKey).Public": func(c *Ctx) verdict { return keyPublic(c, "crypto/sign") },
		"(crypto/vrf.PrivateKey).Public":  func(c *Ctx) verdict { return keyPublic(c, "crypto/vrf") },
	}
}

// reliesOn reports, for every function of the repository that the analyses of
// this check took by its contract, when its body breaks the contract.
func (c *Ctx) reliesOn() {
	var names []string
	seen := map[string]bool{}
	for more := true; more; {
		// deciding a contract may rely on another one
		more = false
		for _, e := range c.engs {
			for n := range e.models {
				if !seen[n] && contracts[n] != nil {
					seen[n], more = true, true
					names = append(names, n)
				}
			}
		}
		for _, n := range names {
			c.contract(n)
		}
	}
	if len(names) == 0 {
		return
	}
	for _, r := range c.rules {
		if r.id == "contracts" {
			return
		}
	}
	sort.Strings(names)
	r := c.Rule("contracts", "functions taken by their contract (bit and byte conversions, digest, signature wrappers) do not break it", 0)
	for _, n := range names {
		switch v := c.contract(n); v.state {
		case 'y':
			r.ok("%s", n)
		case 'n':
			r.fail(n, v.pos, "%s", v.what)
		default:
			c.assume("%s does what its name says (decided by C18, C19 or C37): %s", n, v.what)
		}
	}
}

// quotient is the symbolic number of whole bytes before a position.
func quotient() *Term {
	return mk(OParam, "q", types.Typ[types.Uint])
}

func qLin(k, r int64) *Lin {
	return linAdd(linConst(r), &Lin{Atoms: []*Term{quotient()}, K: []int64{1}}, k)
}

// bitReader: GetNthBit(bs, n) is bit 7-n%8 of byte n/8.
func bitReader(c *Ctx) verdict {
	e := c.run(c.fn("utils", "GetNthBit"), nil)
	n := 0
	for r := int64(0); r < 8; r++ {
		env := &bitEnv{map[*Term]*Lin{e.Args[1]: qLin(8, r)}}
		want := bitName(e.Args[0], qLin(1, 0), int(7-r))
		for _, x := range e.Exits {
			if x.Kind != "return" {
				continue
			}
			m, ok := env.facts(x.St, nil)
			if !ok {
				continue
			}
			v := env.truth(x.Res[0])
			ok, known := agrees(v, want, m)
			if !ok {
				return mismatch(known, x.where(), "the bit at position 8*q+%d is read as %v instead of %s", r, v, want)
			}
			n++
		}
	}
	if n < 8 {
		return verdict{'?', "not every position is read", c.p.Pos(e.root.Pos()), 0}
	}
	return yes(n)
}

func mismatch(known bool, pos, f string, a ...interface{}) verdict {
	s := byte('?')
	if known {
		s = 'n'
	}
	return verdict{s, fmt.Sprintf(f, a...), pos, 0}
}

// bitFiller: ToBits and ToBytes convert every position, bit 7-i%8 of byte i/8
// being element i of the list of bits.
func bitFiller(c *Ctx, name string) verdict {
	fn := c.fn("utils", name)
	toBits := name == "ToBits"
	e := c.run(fn, nil)
	src := e.Args[0]
	n := 0
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St
		if st.Holds(EqI(mkLen(src), intConst(0, nil))) {
			if !st.Holds(EqI(mkLen(x.Res[0]), intConst(0, nil))) {
				return mismatch(true, x.where(), "something is made from nothing")
			}
			n++
			continue
		}
		cont := e.content(st, x.Res[0])
		// length
		l := mkLen(cont)
		if cont != x.Res[0] {
			l = mkLen(x.Res[0])
		}
		var rec *LoopRec
		var acc *PhiRec
		for k := st.loops; k != nil && rec == nil; k = k.up {
			for _, ph := range k.rec.Phis {
				if ph.Term == cont || ph.Term == x.Res[0] || headIs(cont, ph.Term) {
					rec, acc = k.rec, ph
				}
			}
		}
		if rec == nil {
			return verdict{'?', "the loop that makes the result is not recognised", x.where(), 0}
		}
		bits8 := linTerm(linScale(linOf(mkLen(src)), 8), types.Typ[types.Int])
		mode := ""
		switch {
		case toBits && st.Holds(EqI(rec.IV, bits8)) || !toBits && st.Holds(EqI(rec.IV, mkLen(src))):
			mode = "positions"
		case toBits && st.Holds(EqI(rec.IV, mkLen(src))):
			mode = "bytes"
		case st.Holds(mkGe0(linAdd(linAdd(linOf(mkLen(src)), linConst(-1), 1), linOf(rec.IV), -1))):
			return mismatch(true, x.where(), "the conversion ends before the last position")
		case toBits && st.Holds(mkGe0(linAdd(linAdd(linOf(bits8), linConst(-1), 1), linOf(l), -1))):
			return mismatch(true, x.where(), "the result has %v elements, fewer than there are bits", l)
		default:
			// lengths for which the loop cannot have gone through all positions
			for r := int64(0); r < 8; r++ {
				env := &bitEnv{map[*Term]*Lin{mkLen(src): qLin(8, r), rec.IV: qLin(8, r)}}
				if toBits {
					env = &bitEnv{map[*Term]*Lin{mkLen(src): qLin(8, r), rec.IV: qLin(64, 8*r)}}
				}
				if _, ok := env.facts(st, nil); !ok && lenFits(src, st, r) {
					return mismatch(true, x.where(), "the conversion ends before the last position, at %v", rec.IV)
				}
			}
			// or does not reach the last one
			for r := int64(0); r < 8; r++ {
				env := &bitEnv{map[*Term]*Lin{mkLen(src): qLin(8, r+1), rec.IV: qLin(8, r)}}
				if toBits {
					env = &bitEnv{map[*Term]*Lin{mkLen(src): qLin(1, 1), rec.IV: qLin(8, 7)}}
				}
				some := false
				for _, alt := range rec.Alts {
					_, ok := env.facts(alt, nil)
					some = some || ok
				}
				if !some && len(rec.Alts) > 0 {
					return mismatch(true, rec.Pos, "the conversion does not reach the last position")
				}
			}
			return verdict{'?', "the positions gone through are not known", x.where(), 0}
		}
		appends := false
		for i, alt := range rec.Alts {
			if i >= len(acc.Next) || acc.Next[i] == nil {
				return verdict{'?', "an iteration's effect is not known", x.where(), 0}
			}
			nx := acc.Next[i]
			for r := int64(0); r < 8; r++ {
				env := &bitEnv{map[*Term]*Lin{}}
				var ps []int64
				if mode == "positions" {
					env.val[rec.IV] = qLin(8, r)
					ps = []int64{r}
				} else {
					env.val[rec.IV] = qLin(1, 0)
					ps = []int64{0, 1, 2, 3, 4, 5, 6, 7}
					if r > 0 {
						break
					}
				}
				m, ok := env.facts(alt, rec.Base.facts)
				if !ok {
					continue
				}
				v := fillStep(env, src, acc.Term, nx, toBits, ps, m, &appends)
				if v.state != 'y' {
					v.pos = rec.Pos
					return v
				}
				n++
			}
		}
		// what the result starts from, and its length
		if appends {
			if !st.Holds(EqI(mkLen(acc.Init), intConst(0, nil))) {
				return verdict{'?', "the result does not start out empty", rec.Pos, 0}
			}
			continue
		}
		if acc.Init.Op != OZero {
			return verdict{'?', "the result does not start out as zero", rec.Pos, 0}
		}
		if toBits {
			if !st.Holds(EqI(l, bits8)) {
				return mismatch(true, x.where(), "the result has %v elements instead of %v", l, bits8)
			}
			continue
		}
		if w := roundsUp(st, l, mkLen(src)); !w {
			return mismatch(true, x.where(), "the result has %v bytes", l)
		}
	}
	if n == 0 {
		return verdict{'?', "no conversion found", c.p.Pos(fn.Pos()), 0}
	}
	return yes(n)
}

// lenFits: the path can be taken for a length of 8*q+r.
func lenFits(src *Term, st *State, r int64) bool {
	env := &bitEnv{map[*Term]*Lin{mkLen(src): qLin(8, r)}}
	_, ok := env.facts(st, nil)
	return ok
}

// headIs: the contents are those of t, possibly with a rest not filled yet.
func headIs(c, t *Term) bool {
	return c.Op == OSub && c.Args[0] == t || c.Op == OCat && len(c.Args) > 0 && c.Args[0] == t
}

// roundsUp: l is n/8 rounded up.
func roundsUp(st *State, l, n *Term) bool {
	for r := int64(0); r < 8; r++ {
		env := &bitEnv{map[*Term]*Lin{n: qLin(8, r)}}
		if _, ok := env.facts(st, nil); !ok {
			continue
		}
		want := qLin(1, (r+7)/8)
		got := env.int(l)
		if got == nil || linTerm(got, nil) != linTerm(want, nil) {
			return false
		}
	}
	return true
}

// fillStep: one iteration's effect on the result is that of the positions
// 8*q+p for p in ps.
func fillStep(env *bitEnv, src, prev, next *Term, toBits bool, ps []int64, m map[string]bool, appends *bool) verdict {
	want := func(p int64) string {
		if toBits {
			return bitName(src, qLin(1, 0), int(7-p))
		}
		return boolName(src, qLin(8, p))
	}
	if toBits && next.Op == OCat && len(next.Args) > 0 && next.Args[0] == prev {
		*appends = true
		els := next.Args[1:]
		if len(els) != len(ps) {
			return mismatch(true, "", "%d bits are appended for %d positions", len(els), len(ps))
		}
		for i, p := range ps {
			if els[i].Op != OElem {
				return verdict{'?', "what is appended is not known", "", 0}
			}
			v := env.truth(els[i].Args[0])
			if ok, known := agrees(v, want(p), m); !ok {
				return mismatch(known, "", "bit 8*q+%d is %v instead of %s", p, v, want(p))
			}
		}
		return yes(1)
	}
	type wr struct{ idx, val *Term }
	var ws []wr
	t := next
	for t.Op == OUpd {
		ws = append([]wr{{t.Args[1], t.Args[2]}}, ws...)
		t = t.Args[0]
	}
	if t != prev {
		return verdict{'?', fmt.Sprintf("the result is changed in a way that is not recognised: %v", next), "", 0}
	}
	if toBits {
		got := map[int64]sbit{}
		for _, w := range ws {
			l := env.int(w.idx)
			hit := false
			for _, p := range ps {
				if l != nil && linTerm(l, nil) == linTerm(qLin(8, p), nil) {
					got[p] = env.truth(w.val)
					hit = true
				}
			}
			if !hit {
				return mismatch(l != nil, "", "a bit is written at %v", w.idx)
			}
		}
		for _, p := range ps {
			v, ok := got[p]
			if !ok {
				v = bit0
			}
			if ok, known := agrees(v, want(p), m); !ok {
				return mismatch(known, "", "bit 8*q+%d is %v instead of %s", p, v, want(p))
			}
		}
		return yes(1)
	}
	// bytes: the bit of this position is set, all others stay
	if len(ws) > 1 {
		return verdict{'?', "a byte is written more than once", "", 0}
	}
	p := ps[0]
	at := qLin(1, 0)
	for k := 0; k < 8; k++ {
		keep := srcBit(bitName(prev, at, k))
		v := keep
		if len(ws) == 1 {
			l := env.int(ws[0].idx)
			if l == nil || linTerm(l, nil) != linTerm(at, nil) {
				return mismatch(l != nil, "", "position 8*q+%d is written to byte %v", p, ws[0].idx)
			}
			v = env.bits(ws[0].val)[k]
		}
		if int64(k) != 7-p {
			if !v.is(bitName(prev, at, k)) {
				return mismatch(v.kind != '?', "", "position 8*q+%d also changes bit %d of its byte", p, k)
			}
			continue
		}
		// this bit was 0 before: nobody else writes it
		zero := map[string]bool{bitName(prev, at, k): false}
		for a, b := range m {
			zero[a] = b
		}
		if ok, known := agrees(v.under(zero), want(p), m); !ok {
			return mismatch(known, "", "position 8*q+%d is stored as %v instead of %s", p, v, want(p))
		}
	}
	return yes(1)
}

// intEncoder: an integer's encoding keeps all of its bytes.
func intEncoder(c *Ctx, n string) verdict {
	f := c.p.Func("utils", n)
	if f == nil {
		return verdict{'?', "utils." + n, "", 0}
	}
	e := c.run(f, nil)
	k := 0
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		v := unfit(x.St, e.content(x.St, x.Res[0]))
		w := v
		cut := false
		for {
			if w.Op == OConv && len(w.Args) == 1 {
				cut = cut || narrows(w)
				w = w.Args[0]
			} else if n, ok := intEncoding(w); ok {
				fs, _, ok := intSize(w.Args[0].T)
				cut = cut || ok && fs > 8*n
				w = w.Args[0]
			} else {
				break
			}
		}
		switch {
		case v != w && w == e.Args[0] && !cut:
		case v != w && w == e.Args[0]:
			return mismatch(true, x.where(), "the encoding of an integer loses information: %s", v)
		default:
			if r := byteWise(v, e.Args[0]); r.state != 'y' {
				r.pos = x.where()
				return r
			}
		}
		k++
	}
	if k == 0 {
		return verdict{'?', "no encoding found", c.p.Pos(f.Pos()), 0}
	}
	return yes(k)
}

// byteWise: the sequence v consists of the bytes of the integer n, each once.
func byteWise(v, n *Term) verdict {
	env := &bitEnv{map[*Term]*Lin{}}
	var bs [][]sbit
	for _, p := range parts(v) {
		b, ok := env.seq(p)
		if !ok {
			return verdict{'?', "the parts of the encoding are not known: " + v.String(), "", 0}
		}
		bs = append(bs, b...)
	}
	size, _, ok := intSize(n.T)
	if !ok {
		return verdict{'?', "not an integer", "", 0}
	}
	have := map[string]bool{}
	for _, b := range bs {
		first := -1
		pad := true
		for _, x := range b {
			pad = pad && x.kind == '0'
		}
		if pad {
			continue
		}
		for i, x := range b {
			if x.kind == '?' {
				return verdict{'?', "a byte of the encoding is not known: " + v.String(), "", 0}
			}
			for k := 0; k < size; k++ {
				if i == 0 && k%8 == 0 && x.is(intBit(n, k)) {
					first = k
				}
			}
			if first < 0 || !x.is(intBit(n, first+i)) {
				return mismatch(true, "", "byte %v of the encoding is not a byte of the integer", b)
			}
			have[intBit(n, first+i)] = true
		}
	}
	if len(have) < size {
		return mismatch(true, "", "the encoding of an integer loses information: %s", v)
	}
	if len(bs) != size/8 {
		return verdict{'?', "the encoding has more bytes than the integer", "", 0}
	}
	return yes(1)
}

// seq: the bytes of a sequence of constant length.
func (env *bitEnv) seq(p *Term) (bs [][]sbit, ok bool) {
	switch k, enc := intEncoding(p); {
	case enc:
		all := env.bits(p.Args[0])
		for i := 0; i < k; i++ {
			at := 8 * i
			if p.Aux[0] == 'B' {
				at = 8 * (k - 1 - i)
			}
			bs = append(bs, all[at:at+8])
		}
		return bs, true
	case p.Op == OElem && len(p.Args) == 1:
		b := env.bits(p.Args[0])
		return append(bs, b[:8]), true
	case p.Op == OZero:
		if n, ok := mkLen(p).Int(); ok && n >= 0 && n <= 64 {
			for ; n > 0; n-- {
				bs = append(bs, []sbit{bit0, bit0, bit0, bit0, bit0, bit0, bit0, bit0})
			}
			return bs, true
		}
	case p.Op == OCat:
		for _, a := range p.Args {
			b, ok := env.seq(a)
			if !ok {
				return nil, false
			}
			bs = append(bs, b...)
		}
		return bs, true
	case p.Op == OSegs && len(p.Args) > 0:
		if bs, ok = env.seq(p.Args[0]); !ok {
			return nil, false
		}
		for i := 1; i+2 < len(p.Args); i += 3 {
			lo, ok1 := p.Args[i].Int()
			hi, ok2 := p.Args[i+1].Int()
			b, ok3 := env.seq(p.Args[i+2])
			if !ok1 || !ok2 || !ok3 || lo < 0 || hi > int64(len(bs)) || hi-lo != int64(len(b)) {
				return nil, false
			}
			copy(bs[lo:hi], b)
		}
		return bs, true
	case p.Op == OUpd && len(p.Args) == 3:
		if bs, ok = env.seq(p.Args[0]); !ok {
			return nil, false
		}
		i, ok := p.Args[1].Int()
		if !ok || i < 0 || i >= int64(len(bs)) {
			return nil, false
		}
		b := env.bits(p.Args[2])
		bs[i] = b[:8]
		return bs, true
	}
	return nil, false
}

func intBit(n *Term, k int) string { return fmt.Sprintf("%v.%d", n, k) }

// digestContract: a digest covers every byte string given, in order.
func digestContract(c *Ctx) verdict {
	size := c.constVal("crypto", "HashSizeByte")
	e := c.run(c.fn("crypto", "Digest"), nil)
	k := 0
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		v := e.content(x.St, x.Res[0])
		if h := xofOf(v, size); h == nil {
			return mismatch(xofOf(v, 0) != nil, x.where(), "the digest is not the hash's output of full size")
		} else if s := joinState(x.St, h, e.Args[0]); s != 'y' {
			return mismatch(s == 'n', x.where(), "the digest does not cover all byte strings given")
		}
		k++
	}
	if k == 0 {
		return verdict{'?', "no digest found", "", 0}
	}
	return yes(k)
}

func isEd(t *Term, name string, args ...*Term) bool {
	if t.Op != OCall || !strings.HasSuffix(strings.SplitN(t.Aux, "#", 2)[0], "ed25519."+name) || len(t.Args) != len(args) {
		return false
	}
	for i, a := range args {
		x := t.Args[i]
		for x.Op == OConv && len(x.Args) == 1 {
			x = x.Args[0]
		}
		if x != a {
			return false
		}
	}
	return true
}

// plainTerm: nothing in t comes from something the analysis does not know.
func plainTerm(t *Term) bool {
	return !anySub(t, func(t *Term) bool {
		return t.Op == OHav || t.Op == OPhi || t.Op == OCall || t.Op == OExtr || t.Op == OOut || t.Op == OAcc || t.Op == ODeref || t.Op == OAssert
	})
}

// plainFacts: nothing on the path was decided by something unknown.
func plainFacts(st *State) bool {
	for n := st.facts; n != nil; n = n.up {
		a := n.atom
		if a.Op == OCall && strings.HasSuffix(strings.SplitN(a.Aux, "#", 2)[0], "ed25519.Verify") {
			for _, x := range a.Args {
				if !plainTerm(x) {
					return false
				}
			}
			continue
		}
		if !plainTerm(a) {
			return false
		}
	}
	return true
}

// signsAll: v is the Ed25519 signature with the key over the message.
func signsAll(v, key, msg *Term) bool {
	if isEd(v, "Sign", key, msg) {
		return true
	}
	if v.Op != OExtr || v.Aux != "0" || len(v.Args) == 0 {
		return false
	}
	t := v.Args[0]
	if t.Op != OCall || len(t.Args) != 4 || !strings.HasSuffix(strings.SplitN(t.Aux, "#", 2)[0], "ed25519.PrivateKey).Sign") {
		return false
	}
	conv := func(x *Term) *Term {
		for (x.Op == OConv || x.Op == OIface) && len(x.Args) == 1 {
			x = x.Args[0]
		}
		return x
	}
	return conv(t.Args[0]) == key && conv(t.Args[2]) == msg && isInt(conv(t.Args[3]), 0)
}

// signVerify: a signature is accepted exactly when Ed25519 accepts it for the
// key and the whole message.
func signVerify(c *Ctx) verdict {
	e := c.run(c.method("crypto/sign", "PublicKey", "Verify"), nil)
	pk, msg, sig := e.Args[0], e.Args[1], e.Args[2]
	is := func(t *Term) bool { return isEd(t, "Verify", pk, msg, sig) }
	k := 0
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		if st := x.St.clone(); st.assume(x.Res[0]) {
			if st.posFact(is) == nil {
				return mismatch(plainFacts(st), x.where(), "a signature is accepted that was not verified over the whole message under the given key")
			}
			k++
		}
		if st := x.St.clone(); st.assume(mkNot(x.Res[0])) && st.negFact(is) == nil {
			size := func(t *Term, n string) bool {
				return st.Holds(mkNot(EqI(mkLen(t), intConst(c.constVal("crypto/sign", n), nil))))
			}
			if !size(pk, "PublicKeySize") && !size(sig, "SignatureSize") {
				return mismatch(plainFacts(st), x.where(), "a signature is rejected although it was not found to be wrong")
			}
		}
	}
	if k == 0 {
		return verdict{'?', "nothing is accepted", "", 0}
	}
	return yes(k)
}

// signSign: what is signed is the whole message.
func signSign(c *Ctx) verdict {
	e := c.run(c.method("crypto/sign", "PrivateKey", "Sign"), nil)
	k := 0
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		v := unfit(x.St, e.content(x.St, x.Res[0]))
		if !signsAll(v, e.Args[0], e.Args[1]) {
			in := v
			if v.Op == OCall && len(v.Args) == 2 && strings.HasSuffix(strings.SplitN(v.Aux, "#", 2)[0], "ed25519.Sign") {
				in = mkCat(nil, v.Args...)
			}
			return mismatch(plainTerm(in), x.where(), "the signature is not made over the whole message with the given key: %v", v)
		}
		k++
	}
	if k == 0 {
		return verdict{'?', "no signature", "", 0}
	}
	return yes(k)
}

// keyPublic: the public key given out is the one that belongs to the private
// key, and only then it is reported to be valid.
func keyPublic(c *Ctx, pkg string) verdict {
	e := c.run(c.method(pkg, "PrivateKey", "Public"), nil)
	k := 0
	for _, x := range e.Exits {
		if x.Kind != "return" {
			continue
		}
		st := x.St.clone()
		if !st.assume(x.Res[1]) {
			continue
		}
		v := e.content(st, x.Res[0])
		of := anySub(v, func(t *Term) bool {
			return t.Op == OCall && strings.HasSuffix(strings.SplitN(t.Aux, "#", 2)[0], "ed25519.PrivateKey).Public") && len(t.Args) == 1 && anySub(t.Args[0], func(u *Term) bool { return u == e.Args[0] })
		}) && v.Op == OAssert
		// or its second half, which is what the library returns
		half := unfit(st, v)
		if half.Op == OFit && isInt(half.Args[1], 32) {
			half = half.Args[0]
		}
		of = of || half.Op == OSub && half.Args[0] == e.Args[0] && isInt(half.Args[1], 32) && (isInt(half.Args[2], 64) || half.Args[2] == mkLen(e.Args[0]))
		if !of {
			return mismatch(plainTerm(half) && (half.Op == OSub || half.Op == OParam || half.Op == ONil || half.Op == OZero), x.where(), "the public key is not the one of the private key: %v", v)
		}
		k++
	}
	if k == 0 {
		return verdict{'?', "no public key is given out", "", 0}
	}
	return yes(k)
}

func isInt(t *Term, n int64) bool {
	v, ok := t.Int()
	return ok && v == n
}

// wrapped: name does what it is taken to do; undecided is a failure too.
func (c *Ctx) wrapped(r *Rule, names ...string) {
	for _, n := range names {
		v := c.contract(n)
		r.check(v.state == 'y', n, v.pos, "%s", v.what)
	}
}

// ---------- C37

func propC37(c *Ctx) {
	rb := c.Rule("bits", "element i of the bits of a byte string is bit 7-i%8 of its byte i/8, for every position, and nothing is left out", 1)
	rn := c.Rule("n-th bit", "reading the n-th bit yields that element", 1)
	ri := c.Rule("back", "bytes made from bits have that element at that place, unset bits after the last one, and the size rounded up", 1)
	re := c.Rule("integers", "the encoding of an integer has all of its bytes", 1)
	rs := c.Rule("contracts", "every function of the repository that the analyses take by its contract is one of these or decided by C18, C19 or C33", 1)
	for _, q := range []struct {
		r *Rule
		n string
	}{{rb, "utils.ToBits"}, {rn, "utils.GetNthBit"}, {ri, "utils.ToBytes"}, {re, "utils.ULongToBytes"}, {re, "utils.LongToBytes"}, {re, "utils.UInt32ToBytes"}} {
		if f := c.p.Func("utils", strings.TrimPrefix(q.n, "utils.")); f == nil && q.r == re {
			continue
		}
		v := c.contract(q.n)
		if v.state != 'y' {
			q.r.fail(q.n, v.pos, "%s", v.what)
			continue
		}
		for i := 0; i < v.n; i++ {
			q.r.ok("%s: %d cases (position mod 8, path)", q.n, v.n)
		}
	}
	rs.ok("%d contracts", len(contracts))
}
