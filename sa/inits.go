package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Constant evaluation of package initialisers: which constants the tables
// filled by init functions, or built by a call in a variable's initialiser,
// hold. Only what is determined by constants in the source is evaluated; a
// branch on anything else, or a table reached by code that isn't followed,
// leaves the table unknown.

type cCell struct{ v any } // a variable

type cAgg struct { // an array or a struct
	els []*cCell
}

type cMap struct {
	ks, vs []*Term
	bad    bool
}

type cSlice struct {
	a      *cAgg
	lo, hi int
}

type cUnknown struct{}

type cIter struct{}

type cTuple []any

type initEval struct {
	p     *Program
	globs map[*ssa.Global]*cCell
	steps int
	fail  bool
}

func (p *Program) evalInits() {
	writers := map[*ssa.Global]bool{} // tables used otherwise than looked up outside the initialisers
	for _, f := range p.Fns {
		isInit := f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || len(f.Name()) > 5 && f.Name()[:5] == "init#")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || isInit {
						continue
					}
					u, ok := in.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						writers[g] = true
						continue
					}
					for _, r := range *u.Referrers() {
						switch r := r.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						case *ssa.Call:
							if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
								writers[g] = true
							}
						default:
							writers[g] = true
						}
					}
				}
			}
		}
	}
	for _, sp := range p.SPkgs {
		need := false
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !writers[g] && p.constMaps[g] == nil {
				if pt, ok := g.Type().(*types.Pointer); ok {
					if _, ok := pt.Elem().Underlying().(*types.Map); ok {
						need = true
					}
				}
			}
		}
		f := sp.Func("init")
		if !need || f == nil {
			continue
		}
		ev := &initEval{p: p, globs: map[*ssa.Global]*cCell{}}
		ev.call(f, nil, nil, 0)
		if ev.fail {
			continue
		}
		for g, c := range ev.globs {
			if m, ok := c.v.(*cMap); ok && !m.bad && !writers[g] && p.constMaps[g] == nil {
				es := []constEntry{}
				for i, k := range m.ks {
					es = append(es, constEntry{KT: k, VT: m.vs[i]})
				}
				p.constMaps[g] = es
			}
		}
	}
}

func czero(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Array:
		a := &cAgg{}
		if u.Len() > 4096 {
			return cUnknown{}
		}
		for i := int64(0); i < u.Len(); i++ {
			a.els = append(a.els, &cCell{czero(u.Elem())})
		}
		return a
	case *types.Struct:
		a := &cAgg{}
		for i := 0; i < u.NumFields(); i++ {
			a.els = append(a.els, &cCell{czero(u.Field(i).Type())})
		}
		return a
	case *types.Basic:
		return zeroOf(t)
	}
	return cUnknown{}
}

func ccopy(v any) any {
	if a, ok := v.(*cAgg); ok {
		b := &cAgg{}
		for _, e := range a.els {
			b.els = append(b.els, &cCell{ccopy(e.v)})
		}
		return b
	}
	return v
}

// spoil: what v leads to may be changed by code that isn't followed.
func (ev *initEval) spoil(v any, depth int) {
	if depth > 8 {
		ev.fail = true
		return
	}
	switch x := v.(type) {
	case *cMap:
		x.bad = true
	case *cCell:
		ev.spoil(x.v, depth+1)
		x.v = cUnknown{}
	case *cAgg:
		for _, e := range x.els {
			ev.spoil(e, depth+1)
		}
	case cSlice:
		for _, e := range x.a.els {
			ev.spoil(e, depth+1)
		}
	}
}

func (ev *initEval) call(f *ssa.Function, args []any, free []any, depth int) any {
	if f.Blocks == nil || !inRepo(f) || depth > 10 || ev.fail {
		for _, a := range append(args, free...) {
			ev.spoil(a, 0)
		}
		return cUnknown{}
	}
	env := map[ssa.Value]any{}
	for i, p := range f.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(free) {
			env[p] = free[i]
		}
	}
	val := func(v ssa.Value) any {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				if _, ok := x.Type().Underlying().(*types.Basic); !ok {
					return czero(x.Type())
				}
			}
			return constTerm(x)
		case *ssa.Global:
			c := ev.globs[x]
			if c == nil {
				c = &cCell{czero(x.Type().(*types.Pointer).Elem())}
				if !inRepo2(x) {
					c.v = cUnknown{}
				}
				if x.Name() == "init$guard" {
					c.v = False
				}
				ev.globs[x] = c
			}
			return c
		case *ssa.Function:
			return x
		}
		if r, ok := env[v]; ok {
			return r
		}
		return cUnknown{}
	}
	b, prev := f.Blocks[0], (*ssa.BasicBlock)(nil)
	for {
		phis := map[ssa.Value]any{}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			if ev.steps++; ev.steps > 200000 || ev.fail {
				ev.fail = true
				return cUnknown{}
			}
			switch x := in.(type) {
			case *ssa.Phi:
				for i, p := range b.Preds {
					if p == prev {
						phis[x] = val(x.Edges[i])
					}
				}
				continue
			}
			for k, v := range phis {
				env[k] = v
			}
			phis = map[ssa.Value]any{}
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Alloc:
				env[x] = &cCell{czero(x.Type().(*types.Pointer).Elem())}
			case *ssa.MakeMap:
				env[x] = &cMap{}
			case *ssa.MakeInterface:
				if t, ok := val(x.X).(*Term); ok {
					r := mk(OIface, typeName(x.X.Type()), x.Type(), t)
					r.Obj = x.X.Type()
					env[x] = r
				} else {
					ev.spoil(val(x.X), 0)
				}
			case *ssa.ChangeType:
				env[x] = val(x.X)
			case *ssa.ChangeInterface:
				env[x] = val(x.X)
			case *ssa.Convert:
				env[x] = cUnknown{}
				if t, ok := val(x.X).(*Term); ok && t.Op == OConst {
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && isIntTerm(t) {
						if n, ok := t.Int(); ok && n >= 0 && n < 1<<7 {
							env[x] = intConst(n, x.Type())
						}
					}
				}
			case *ssa.FieldAddr:
				env[x] = ev.part(val(x.X), x.Field)
			case *ssa.IndexAddr:
				i, ok := cInt(val(x.Index))
				if !ok {
					ev.spoil(val(x.X), 0)
					break
				}
				if s, ok := val(x.X).(cSlice); ok {
					if i < 0 || s.lo+i >= s.hi {
						ev.fail = true
						return cUnknown{}
					}
					env[x] = s.a.els[s.lo+i]
				} else {
					env[x] = ev.part(val(x.X), i)
				}
			case *ssa.Field:
				if a, ok := val(x.X).(*cAgg); ok {
					env[x] = a.els[x.Field].v
				}
			case *ssa.Index:
				if a, ok := val(x.X).(*cAgg); ok {
					if i, ok := cInt(val(x.Index)); ok && i >= 0 && i < len(a.els) {
						env[x] = a.els[i].v
					}
				}
			case *ssa.Slice:
				if x.Low == nil && x.High == nil {
					switch v := val(x.X).(type) {
					case *cCell:
						if a, ok := v.v.(*cAgg); ok {
							env[x] = cSlice{a, 0, len(a.els)}
							break
						}
						ev.spoil(v, 0)
					case cSlice:
						env[x] = v
					}
				} else {
					ev.spoil(val(x.X), 0)
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					if c, ok := val(x.X).(*cCell); ok {
						env[x] = ccopy(c.v)
					}
				case token.NOT:
					if t, ok := val(x.X).(*Term); ok && (t == True || t == False) {
						env[x] = boolConst(t == False)
					}
				default:
					env[x] = cUnknown{}
				}
			case *ssa.BinOp:
				env[x] = cBin(x, val(x.X), val(x.Y))
			case *ssa.Store:
				c, ok := val(x.Addr).(*cCell)
				if !ok {
					ev.spoil(val(x.Val), 0)
					break
				}
				c.v = ccopy(val(x.Val))
			case *ssa.MapUpdate:
				m, ok := val(x.Map).(*cMap)
				if !ok {
					ev.spoil(val(x.Value), 0)
					break
				}
				k, ok1 := val(x.Key).(*Term)
				v, ok2 := val(x.Value).(*Term)
				if !ok1 || !ok2 {
					m.bad = true
					break
				}
				done := false
				for i := range m.ks {
					if m.ks[i] == k {
						m.vs[i], done = v, true
					}
				}
				if !done {
					m.ks, m.vs = append(m.ks, k), append(m.vs, v)
				}
			case *ssa.Lookup:
				env[x] = cUnknown{}
			case *ssa.MakeClosure:
				var fv []any
				for _, bd := range x.Bindings {
					fv = append(fv, val(bd))
				}
				env[x] = cTuple{x.Fn.(*ssa.Function), cTuple(fv)}
			case *ssa.Call:
				var as []any
				for _, a := range x.Call.Args {
					as = append(as, val(a))
				}
				env[x] = ev.callValue(x, val, as, depth)
			case *ssa.Extract:
				if t, ok := val(x.Tuple).(cTuple); ok && x.Index < len(t) {
					env[x] = t[x.Index]
				}
			case *ssa.Return:
				if len(x.Results) == 1 {
					return val(x.Results[0])
				}
				var r cTuple
				for _, v := range x.Results {
					r = append(r, val(v))
				}
				return r
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				switch val(x.Cond) {
				case any(True):
					next = b.Succs[0]
				case any(False):
					next = b.Succs[1]
				default:
					ev.fail = true
					return cUnknown{}
				}
			case *ssa.Panic, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Send:
				ev.fail = true
				return cUnknown{}
			default:
				for _, op := range in.Operands(nil) {
					if *op != nil {
						ev.spoil(val(*op), 0)
					}
				}
			}
		}
		if next == nil {
			ev.fail = true
			return cUnknown{}
		}
		b, prev = next, b
	}
}

func (ev *initEval) callValue(x *ssa.Call, val func(ssa.Value) any, as []any, depth int) any {
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() == "len" && len(as) == 1 {
			switch s := as[0].(type) {
			case cSlice:
				return intConst(int64(s.hi-s.lo), types.Typ[types.Int])
			case *cAgg:
				return intConst(int64(len(s.els)), types.Typ[types.Int])
			}
			return cUnknown{}
		}
		for _, a := range as {
			ev.spoil(a, 0)
		}
		return cUnknown{}
	}
	if x.Call.IsInvoke() {
		ev.spoil(val(x.Call.Value), 0)
		for _, a := range as {
			ev.spoil(a, 0)
		}
		return cUnknown{}
	}
	if g := x.Call.StaticCallee(); g != nil {
		var free []any
		if c, ok := val(x.Call.Value).(cTuple); ok && len(c) == 2 {
			free, _ = c[1].(cTuple)
		}
		if g.Name() == "init" && g.Synthetic != "" {
			return cUnknown{} // an imported package's own initialiser
		}
		return ev.call(g, as, free, depth+1)
	}
	if c, ok := val(x.Call.Value).(cTuple); ok && len(c) == 2 {
		if g, ok := c[0].(*ssa.Function); ok {
			free, _ := c[1].(cTuple)
			return ev.call(g, as, free, depth+1)
		}
	}
	ev.fail = true // any function of the repository may run
	return cUnknown{}
}

func (ev *initEval) part(v any, i int) any {
	if c, ok := v.(*cCell); ok {
		if a, ok := c.v.(*cAgg); ok && i >= 0 && i < len(a.els) {
			return a.els[i]
		}
	}
	return cUnknown{}
}

func inRepo2(g *ssa.Global) bool { return g.Pkg != nil && inRepoGlobal(g) }

func cInt(v any) (int, bool) {
	t, ok := v.(*Term)
	if !ok || t.Op != OConst {
		return 0, false
	}
	n, ok := t.Int()
	return int(n), ok
}

func cBin(x *ssa.BinOp, a, b any) any {
	i, ok1 := cInt(a)
	j, ok2 := cInt(b)
	if !ok1 || !ok2 {
		return cUnknown{}
	}
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return boolConst(constant.Compare(constant.MakeInt64(int64(i)), x.Op, constant.MakeInt64(int64(j))))
	case token.ADD:
		if i > -1<<20 && i < 1<<20 && j > -1<<6 && j < 1<<6 {
			if i+j >= 0 && i+j < 1<<7 || types.Identical(x.Type(), types.Typ[types.Int]) {
				return intConst(int64(i+j), x.Type())
			}
		}
	}
	return cUnknown{}
}
