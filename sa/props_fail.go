package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- C40: a failed step is never taken for a success

func init() {
	checks["C40"] = propC40
	expl["C40"] = "Every function of the repository that calls something which can fail is explored by itself, its callees unknown. On each way out, and at the end of each round of its loops, every error obtained on the way must be known to be nil, be passed on, or be known to be one the function provides for; otherwise the function must not report success (nil error, an answer without an error code, true), and one without such a result must have said so (log, panic, exit)."
}

// harmless: a failure of this operation leaves nothing undone that somebody
// relies on, or it is a question rather than a step.
func harmless(pkg, name string) bool {
	for _, s := range []string{").Close", ".CloseWrite", ".CloseRead", ".SetDeadline", ".SetReadDeadline", ".SetWriteDeadline", ".Restore", ".Sync"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	for _, s := range []string{"(hash.Hash)", "(*bytes.Buffer)", "encoding/binary.Write", "(*strings.Builder)", "(*bufio.Writer).Write", "fmt.Print", "fmt.Fprint", "os.Remove", "(io.Writer).Write", "os.Stat", "os.Lstat"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	if strings.Contains(name, "sha3.") || strings.Contains(name, "sha512.") || strings.Contains(name, "sha256.") {
		return true
	}
	if strings.HasPrefix(pkg, "cli/") {
		// what a terminal shows; flags whose values were parsed before
		return strings.Contains(name, "erminal") || strings.Contains(name, "/term.") || strings.HasPrefix(name, "strconv.Parse") || strings.Contains(name, "pflag.")
	}
	return false
}

// says: the event tells somebody that something went wrong.
func says(ev *Event) bool {
	switch ev.Kind {
	case "panic", "send":
		return true
	case "call":
		if f := fnOf(ev); f != nil && isLogFn(f) {
			return true
		}
		n := ev.Name
		return strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.Logger).") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || n == "os.Exit" || strings.Contains(n, "zap.")
	}
	return false
}

type failQ struct {
	c  *Ctx
	e  *Engine
	f  *ssa.Function
	ok map[int64]bool // codes of answers that are no failures
}

// errs: the errors a call returned.
func (q *failQ) errs(ev *Event) []*Term {
	if ev.Res == nil {
		return nil
	}
	l := []*Term{ev.Res}
	if ev.Res.Op == OTuple {
		l = ev.Res.Args
	}
	var r []*Term
	for _, t := range l {
		if t.T != nil && types.Identical(t.T, types.Universe.Lookup("error").Type()) && (t.Op == OCall || t.Op == OExtr || t.Op == OOut || t.Op == OHav) {
			r = append(r, t)
		}
	}
	return r
}

// provided: the error is known to be a particular one.
func provided(st *State, r *Term) bool {
	for _, f := range st.Facts() {
		switch f.Op {
		case OEq:
			if f.Args[0] == r && !r.mentions(f.Args[1]) || f.Args[1] == r {
				return true
			}
		case OTypeIs:
			if f.Args[0] == r {
				return true
			}
		case OCall, OExtr:
			// a predicate about the error
			if f.T != nil && isBool(f.T) && f.mentions(r) {
				return true
			}
		}
	}
	return false
}

// judge: "" if the exit does not take the failure r for a success.
func (q *failQ) judge(x *Exit, r *Term) string {
	if x.Kind != "return" {
		return ""
	}
	sig := q.f.Signature.Results()
	n := sig.Len()
	if n > 0 && isErrorType(sig.At(n-1).Type()) {
		if x.class() == retErr || x.Res[n-1].mentions(r) || x.Res[n-1] == r {
			return ""
		}
		return "success is returned"
	}
	for i := 0; i < n; i++ {
		t := sig.At(i).Type()
		if isPtrTo(t, "protocol.Response") {
			v := V{x.Res[i], t}
			if x.Res[i].mentions(r) {
				return ""
			}
			code := q.e.sel(x.St, v, "Error").T
			if k, ok := code.Int(); ok {
				if q.ok[k] {
					return "an answer without an error is returned"
				}
				return ""
			}
			if code.mentions(r) {
				return ""
			}
			return "an answer that may be a success is returned"
		}
	}
	for i := 0; i < n; i++ {
		t := x.Res[i]
		if t.mentions(r) || t.Op == ONil || t == False || x.St.Holds(mkIsNilOf(t)) {
			return ""
		}
		if s, ok := strOf(t); ok && s != "" {
			return "" // a message
		}
		if t.Op == OCat || t.Op == OConst && isString(t.T) {
			return ""
		}
	}
	return "nothing tells of it"
}

func mkIsNilOf(t *Term) *Term {
	if t.T != nil {
		switch t.T.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
			return mkIsNil(t)
		}
	}
	return False
}

func strOf(t *Term) (string, bool) {
	if t.Op == OConst && isString(t.T) {
		return t.Aux, true
	}
	return "", false
}

// passed: the error goes somewhere else: stored, sent or given to a function
// after the call.
func passed(evs []*Event, i int, r *Term) bool {
	for _, ev := range evs[i+1:] {
		switch ev.Kind {
		case "store", "send", "mapset":
			for _, a := range ev.Args {
				if a.mentions(r) {
					return true
				}
			}
		case "call", "go":
			for _, a := range ev.Args {
				f := fnOf(ev)
				if a.mentions(r) && (says(ev) || f != nil && inRepo(f)) {
					return true
				}
			}
		}
	}
	return false
}

// kept: every round looks at what the round before has left in the variable,
// or leaves it as it is.
func kept(rec *LoopRec, ph *PhiRec) bool {
	for i, a := range rec.Alts {
		ok := ph.Next[i] != nil && ph.Next[i].mentions(ph.Term)
		for _, f := range a.Facts() {
			ok = ok || f.mentions(ph.Term)
		}
		if !ok {
			return false
		}
	}
	return true
}

func propC40(c *Ctx) {
	rs := c.Rule("success", "no function reports success when a step it took may have failed", 25)
	rl := c.Rule("rounds", "no round of a loop goes on as if nothing had happened when a step it took may have failed", 2)
	ru := c.Rule("examined", "the error of every call is looked at or passed on", 40)

	okCodes := map[int64]bool{}
	for _, n := range []string{"ReqSuccess", "ReqNameExisted", "ReqNameNotFound"} {
		okCodes[c.constVal("protocol", n)] = true
	}
	skip := func(f *ssa.Function) bool {
		return !inRepo(f) || isTestHelper(c, f) || strings.HasPrefix(fnPkg(f), "crypto/internal") || f.Name() == "init" && f.Signature.Recv() == nil || f.Synthetic != ""
	}
	// functions of the repository that never fail
	sure := map[string]bool{}
	for _, f := range c.p.Fns {
		res := f.Signature.Results()
		if !inRepo(f) || len(f.Blocks) == 0 || res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
			continue
		}
		never := true
		c.eachInstr(f, func(in ssa.Instruction) {
			if r, ok := in.(*ssa.Return); ok {
				k, ok := r.Results[len(r.Results)-1].(*ssa.Const)
				never = never && ok && k.IsNil()
			}
		})
		if never {
			sure[fnName(f)] = true
		}
	}
	harmless := func(pkg, name string) bool { return sure[name] || harmless(pkg, name) }
	callee := func(ci ssa.CallInstruction) string {
		cc := ci.Common()
		if g := cc.StaticCallee(); g != nil {
			return fnName(g)
		}
		if cc.IsInvoke() {
			return "(" + typeName(cc.Value.Type()) + ")." + cc.Method.Name()
		}
		return "dyncall"
	}
	var fns []*ssa.Function
	for _, f := range c.p.Fns {
		if skip(f) {
			continue
		}
		some := false
		c.eachInstr(f, func(in ssa.Instruction) {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			res := ci.Common().Signature().Results()
			k := -1
			for i := 0; i < res.Len(); i++ {
				if types.Identical(res.At(i).Type(), types.Universe.Lookup("error").Type()) {
					k = i
				}
			}
			n := callee(ci)
			if k < 0 || harmless(fnPkg(f), n) {
				return
			}
			v := ci.Value()
			used := false
			if v != nil {
				for _, u := range *refs(v) {
					if ex, ok := u.(*ssa.Extract); ok {
						used = used || ex.Index == k && len(*refs(ex)) > 0
					} else if _, dbg := u.(*ssa.DebugRef); !dbg {
						used = true
					}
				}
			}
			ru.check(used, "call of "+n+" in "+fnName(f), c.pos(in), "the error is thrown away")
			some = true
		})
		if some {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, f := range fns {
		// closures that run as a part of f
		mine := map[string]bool{fnName(f): true}
		for _, g := range f.AnonFuncs {
			mine[fnName(g)] = true
		}
		e := c.run(f, &Opts{Name: "fail", Opaque: func(g *ssa.Function) (bool, bool) {
			res := g.Signature.Results()
			answer := res.Len() == 1 && isPtrTo(res.At(0).Type(), "protocol.Response") && fnPkg(g) == "protocol"
			for i := 0; i < g.Signature.Params().Len(); i++ {
				// what deals with a failure
				answer = answer || isErrorType(g.Signature.Params().At(i).Type())
			}
			cut := inRepo(g) && g != f && !mine[fnName(g)] && !answer
			return cut, cut
		}})
		q := &failQ{c: c, e: e, f: f, ok: okCodes}
		for _, x := range e.Exits {
			evs := x.St.Events()
			for i, ev := range evs {
				if ev.Kind != "call" || !mine[ev.In] || harmless(fnPkg(f), ev.Name) {
					continue
				}
				for _, r := range q.errs(ev) {
					if x.St.knownNil(r) || provided(x.St, r) {
						rs.ok("%s in %s", ev.Name, fnName(f))
						continue
					}
					w := q.judge(x, r)
					if w == "nothing tells of it" {
						for _, l := range evs[i+1:] {
							if says(l) {
								w = ""
							}
						}
						if passed(evs, i, r) {
							w = ""
						}
					}
					rs.check(w == "", ev.Name+" in "+fnName(f), ev.Pos, "%s may have failed, but %s", ev.Name, w)
				}
			}
		}
		for _, rec := range e.Recs {
			if rec.fn != f {
				continue
			}
			for ai, a := range rec.Alts {
				evs := a.EventsSince(rec.Base)
				for i, ev := range evs {
					if ev.Kind != "call" || !mine[ev.In] || harmless(fnPkg(f), ev.Name) {
						continue
					}
					for _, r := range q.errs(ev) {
						if a.knownNil(r) || provided(a, r) || passed(evs, i, r) {
							rl.ok("%s in %s", ev.Name, fnName(f))
							continue
						}
						ok := false
						for _, l := range evs[i+1:] {
							ok = ok || says(l)
						}
						for _, ph := range rec.Phis {
							ok = ok || ph.Next[ai] != nil && ph.Next[ai].mentions(r) && kept(rec, ph)
						}
						rl.check(ok, ev.Name+" in "+fnName(f), ev.Pos, "%s may have failed, and the loop goes on", ev.Name)
					}
				}
			}
		}
	}
}
