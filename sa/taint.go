package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// taint is an interprocedural, flow- and context-insensitive, field-based
// forward dataflow over the whole repository: which SSA values may be derived
// from the sources. It over-approximates every flow through values, memory
// (by field, by allocation site and by backing array), calls, closures and
// results; calls accepted by stop end a flow.
type taint struct {
	c      *Ctx
	stop   func(call ssa.CallInstruction, callee *ssa.Function, arg int) bool
	skip   func(f *ssa.Function) bool
	deny   func(v ssa.Value, in ssa.Instruction) bool                        // this flow isn't followed
	result func(ci ssa.CallInstruction, g *ssa.Function, ty types.Type) bool // a result of an unknown function derived from its arguments
	writes func(ci ssa.CallInstruction, g *ssa.Function, arg int) bool       // an argument an unknown function may store data in
	vals   map[ssa.Value]ssa.Value                                           // tainted value -> where it came from
	fields map[string]ssa.Value
	mem    map[ssa.Value]bool // backing stores: allocations, globals, sequences
	globs  map[*ssa.Global]bool
	work   []ssa.Value

	loads map[string][]ssa.Value // field key -> addresses
	calls map[*ssa.Function][]ssa.CallInstruction
	freeB map[*ssa.Function][]*ssa.MakeClosure
	globU map[*ssa.Global][]ssa.Instruction
	phase map[ssa.Value]bool
	keys  bool // some map has tainted keys
}

func (c *Ctx) newTaint() *taint {
	t := &taint{c: c, vals: map[ssa.Value]ssa.Value{}, fields: map[string]ssa.Value{}, mem: map[ssa.Value]bool{}, globs: map[*ssa.Global]bool{},
		loads: map[string][]ssa.Value{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, freeB: map[*ssa.Function][]*ssa.MakeClosure{}, globU: map[*ssa.Global][]ssa.Instruction{}}
	for _, f := range c.p.Fns {
		if isTestHelper(c, f) {
			continue
		}
		c.eachInstr(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				k := structKey(x.X.Type(), x.Field)
				t.loads[k] = append(t.loads[k], x)
			case *ssa.Field:
				k := structKey(x.X.Type(), x.Field)
				t.loads[k] = append(t.loads[k], x)
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				t.freeB[g] = append(t.freeB[g], x)
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				for _, g := range c.p.callees(ci) {
					t.calls[g] = append(t.calls[g], ci)
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					t.globU[g] = append(t.globU[g], in)
				}
			}
		})
	}
	return t
}

// add marks v as tainted.
func (t *taint) add(v, from ssa.Value) {
	if v == nil {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if _, ok := t.vals[v]; ok {
		return
	}
	if !carriesData(v.Type()) {
		return
	}
	t.vals[v] = from
	t.work = append(t.work, v)
}

// carriesData: booleans and errors made of constants carry no secret.
func carriesData(ty types.Type) bool {
	if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return false
	}
	return true
}

func (t *taint) addField(k string, from ssa.Value) {
	if _, ok := t.fields[k]; ok {
		return
	}
	t.fields[k] = from
	for _, v := range t.loads[k] {
		t.addAddr(v, from)
	}
}

// addAddr: the memory at address (or the field value) v holds tainted data.
func (t *taint) addAddr(v, from ssa.Value) { t.add(v, from) }

// into: tainted data is written to memory reached through v.
func (t *taint) into(v, from ssa.Value) {
	if v == nil || t.mem[v] {
		return
	}
	t.mem[v] = true
	t.add(v, from)
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t.addField(structKey(x.X.Type(), x.Field), from)
		if a, ok := x.X.(*ssa.Alloc); ok {
			_ = a // the enclosing object is tainted through its field only
		}
	case *ssa.IndexAddr:
		t.into(x.X, from)
	case *ssa.Slice:
		t.into(x.X, from)
	case *ssa.UnOp:
		t.into(x.X, from)
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.into(e, from)
		}
	case *ssa.ChangeType:
		t.into(x.X, from)
	case *ssa.Convert:
		t.into(x.X, from)
	case *ssa.MakeInterface:
		t.into(x.X, from)
	case *ssa.TypeAssert:
		t.into(x.X, from)
	case *ssa.Global:
		if !t.globs[x] {
			t.globs[x] = true
			for _, in := range t.globU[x] {
				if u, ok := in.(ssa.Value); ok {
					t.add(u, from)
				}
			}
		}
	case *ssa.Parameter:
		for _, ci := range t.calls[x.Parent()] {
			if a := argAt(ci, x); a != nil {
				t.into(a, from)
			}
		}
	case *ssa.FreeVar:
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				for _, mc := range t.freeB[x.Parent()] {
					t.into(mc.Bindings[i], from)
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			t.into(x.Call.Args[0], from)
		}
	case *ssa.Extract:
		t.into(x.Tuple, from)
	}
}

// argAt: the argument a call passes for a parameter.
func argAt(ci ssa.CallInstruction, p *ssa.Parameter) ssa.Value {
	cm := ci.Common()
	for i, q := range p.Parent().Params {
		if q != p {
			continue
		}
		if cm.IsInvoke() {
			if i == 0 {
				return cm.Value
			}
			if i-1 < len(cm.Args) {
				return cm.Args[i-1]
			}
			return nil
		}
		if i < len(cm.Args) {
			return cm.Args[i]
		}
	}
	return nil
}

func (t *taint) run() {
	for len(t.work) > 0 {
		v := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		if f := v.Parent(); f != nil && (t.skip != nil && t.skip(f) || isTestHelper(t.c, f)) {
			continue
		}
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		for _, in := range *rs {
			t.flow(v, in)
		}
	}
}

func (t *taint) flow(v ssa.Value, in ssa.Instruction) {
	if t.deny != nil && t.deny(v, in) {
		return
	}
	switch x := in.(type) {
	case *ssa.Extract:
		if nx, ok := v.(*ssa.Next); ok && x.Index == 1 && !nx.IsString && !t.keys {
			return // the key of a map of tainted values
		}
		t.add(x, v)
	case *ssa.Store:
		if x.Val == v {
			t.into(x.Addr, v)
			if st, ok := v.Type().Underlying().(*types.Struct); ok {
				// only the tainted fields of a copied struct are tainted
				_ = st
			}
		}
	case *ssa.MapUpdate:
		if x.Key == v && !t.keys {
			// from now on what maps are ranged over for are tainted, too
			t.keys = true
			for w := range t.vals {
				if _, ok := w.(*ssa.Next); ok {
					t.work = append(t.work, w)
				}
			}
		}
		if x.Value == v || x.Key == v {
			t.into(x.Map, v)
		}
	case *ssa.Send:
		if x.X == v {
			t.into(x.Chan, v)
		}
	case *ssa.FieldAddr:
		// a field of an object whose address is tainted: fields are tracked by key,
		// except for values tainted as a whole
		if t.whole(v) {
			t.add(x, v)
		}
	case *ssa.Field:
		if t.whole(v) {
			t.add(x, v)
		}
	case *ssa.BinOp:
		t.add(x, v)
	case *ssa.Return:
		for _, ci := range t.calls[in.Parent()] {
			cv, ok := ci.(*ssa.Call)
			if !ok || t.stopped(ci, in.Parent(), -1) {
				continue
			}
			if len(x.Results) == 1 {
				t.add(cv, v)
				continue
			}
			for i, r := range x.Results {
				if r != v || cv.Referrers() == nil {
					continue
				}
				for _, e := range *cv.Referrers() {
					if ex, ok := e.(*ssa.Extract); ok && ex.Index == i {
						t.add(ex, v)
					}
				}
			}
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v {
				t.add(g.FreeVars[i], v)
			}
		}
	case ssa.CallInstruction:
		t.call(v, x)
	case *ssa.If, *ssa.Jump, *ssa.Panic, *ssa.DebugRef, *ssa.RunDefers:
	case ssa.Value:
		t.add(x, v)
	}
}

// whole: v holds tainted data as such (a slice, string, number or array), not
// an object of which only some fields are tainted.
func (t *taint) whole(v ssa.Value) bool { return true }

func (t *taint) stopped(ci ssa.CallInstruction, f *ssa.Function, arg int) bool {
	return t.stop != nil && t.stop(ci, f, arg)
}

func (t *taint) call(v ssa.Value, ci ssa.CallInstruction) {
	cm := ci.Common()
	res, _ := ci.(*ssa.Call)
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			t.add(res, v)
			if len(cm.Args) > 1 && cm.Args[1] == v {
				t.into(cm.Args[0], v)
			}
		case "copy":
			if cm.Args[1] == v {
				t.into(cm.Args[0], v)
			}
		case "len", "cap", "delete", "print", "println", "close", "clear":
		default:
			if res != nil {
				t.add(res, v)
			}
		}
		return
	}
	args := cm.Args
	if cm.IsInvoke() {
		args = append([]ssa.Value{cm.Value}, args...)
	}
	gs := t.c.p.callees(ci)
	known := len(gs) > 0
	for _, g := range gs {
		if g.Blocks == nil || !inRepo(g) && g.Synthetic == "" {
			known = false
			continue
		}
		for i, a := range args {
			if a == v && i < len(g.Params) && !t.stopped(ci, g, i) {
				t.add(g.Params[i], v)
			}
		}
	}
	if known {
		return
	}
	if cv, ok := cm.Value.(*ssa.MakeClosure); ok {
		g := cv.Fn.(*ssa.Function)
		for i, a := range args {
			if a == v && i < len(g.Params) {
				t.add(g.Params[i], v)
			}
		}
		return
	}
	var g *ssa.Function
	if len(gs) > 0 {
		g = gs[0]
	}
	used := false
	for i, a := range args {
		if a == v && !t.stopped(ci, g, i) {
			used = true
		}
	}
	if !used {
		return
	}
	// an unknown function: its results and everything it can write to
	if res != nil {
		if tup, ok := res.Type().(*types.Tuple); ok && t.result != nil {
			for i := 0; i < tup.Len(); i++ {
				for _, in := range *refs(res) {
					if ex, ok := in.(*ssa.Extract); ok && ex.Index == i && t.result(ci, g, ex.Type()) {
						t.add(ex, v)
					}
				}
			}
		} else if t.result == nil || t.result(ci, g, res.Type()) {
			t.add(res, v)
		}
	}
	for i, a := range args {
		if a != v && (t.writes == nil || t.writes(ci, g, i)) {
			switch a.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Interface, *types.Map:
				t.into(a, v)
			}
		}
	}
}

// path renders how v was reached from a source.
func (t *taint) path(v ssa.Value) string {
	var ps []string
	for n := 0; v != nil && n < 12; n++ {
		p := "?"
		if in, ok := v.(ssa.Instruction); ok {
			p = t.c.pos(in)
		} else if v.Pos().IsValid() {
			p = t.c.p.Pos(v.Pos())
		}
		if len(ps) == 0 || ps[len(ps)-1] != p {
			ps = append(ps, p)
		}
		w := t.vals[v]
		if w == v {
			break
		}
		v = w
	}
	for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
		ps[i], ps[j] = ps[j], ps[i]
	}
	return strings.Join(ps, " -> ")
}

// sorted returns the tainted values in a fixed order.
func (t *taint) sorted() []ssa.Value {
	var r []ssa.Value
	for v := range t.vals {
		r = append(r, v)
	}
	key := func(v ssa.Value) string {
		f := ""
		if v.Parent() != nil {
			f = fnName(v.Parent())
		}
		return f + "/" + v.Name()
	}
	sort.Slice(r, func(i, j int) bool { return key(r[i]) < key(r[j]) })
	return r
}
