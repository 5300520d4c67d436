package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/coniks-sys/coniks-go"

// Program is the type-checked repository in SSA form plus whole-program facts.
type Program struct {
	Root  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package
	SPkgs map[string]*ssa.Package
	SSA   *ssa.Program
	Fns   []*ssa.Function // every source function with a body (incl. closures)

	globalStores map[*ssa.Global]int // stores outside package initialisers
	initVals     map[*ssa.Global]ssa.Value
	addrMemo     map[string][]string
	modMemo      map[*ssa.Function]map[string]bool
	paramMut     map[*ssa.Function]map[int]bool
	impls        map[string][]types.Type
	constMaps    map[*ssa.Global][]constEntry
	loopsMemo    map[*ssa.Function]*loopInfo
	recMemo      map[*ssa.Function]bool
}

type constEntry struct {
	K, V   ssa.Value
	KT, VT *Term // when evaluated already
}

func rel(path string) string {
	if path == modPath {
		return "."
	}
	return strings.TrimPrefix(path, modPath+"/")
}

func LoadProgram(root string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: root, Env: os.Environ(), Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Root: root, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{},
		globalStores: map[*ssa.Global]int{}, initVals: map[*ssa.Global]ssa.Value{},
		modMemo: map[*ssa.Function]map[string]bool{}, constMaps: map[*ssa.Global][]constEntry{}, loopsMemo: map[*ssa.Function]*loopInfo{}, recMemo: map[*ssa.Function]bool{}}
	var errs []string
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
		if len(pk.IgnoredFiles) > 0 {
			for _, f := range pk.IgnoredFiles {
				if strings.HasSuffix(f, ".go") && !strings.HasSuffix(f, "_test.go") {
					errs = append(errs, "file excluded from the build, not analysed: "+f)
				}
			}
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, pk := range pkgs {
		p.Fset = pk.Fset
		p.Pkgs[rel(pk.PkgPath)] = pk
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		p.SPkgs[rel(pk.PkgPath)] = spkgs[i]
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.Fns = append(p.Fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range p.SPkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sp := p.SPkgs[n]
		var ms []string
		for m := range sp.Members {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			switch mm := sp.Members[m].(type) {
			case *ssa.Function:
				add(mm)
			case *ssa.Type:
				nt, ok := mm.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					add(prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	p.scanGlobals()
	p.computeParamMut()
	return p, nil
}

func (p *Program) scanGlobals() {
	for _, f := range p.Fns {
		isInit := f.Name() == "init" && f.Parent() == nil
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						if isInit && f.Synthetic != "" {
							p.initVals[g] = x.Val
						} else {
							p.globalStores[g]++
						}
					} else if g := rootGlobal(x.Addr); g != nil && !(isInit && f.Synthetic != "") {
						p.globalStores[g]++
					}
				case *ssa.UnOp:
					// a map kept in a global variable is a constant table
					// if it is only looked up
					g, ok := x.X.(*ssa.Global)
					if !ok || x.Op != token.MUL {
						continue
					}
					if _, ok := x.Type().Underlying().(*types.Map); !ok {
						continue
					}
					for _, r := range *x.Referrers() {
						switch r := r.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						case *ssa.Call:
							if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
								p.globalStores[g]++
							}
						default:
							p.globalStores[g]++
						}
					}
				}
			}
		}
	}
	// constant maps
	for g, v := range p.initVals {
		mm, ok := v.(*ssa.MakeMap)
		if !ok || p.globalStores[g] > 0 {
			continue
		}
		var es []constEntry
		okk := true
		for _, r := range *mm.Referrers() {
			switch x := r.(type) {
			case *ssa.MapUpdate:
				es = append(es, constEntry{K: x.Key, V: x.Value})
			case *ssa.Store:
			default:
				okk = false
			}
		}
		if okk {
			p.constMaps[g] = es
		}
	}
	p.evalInits()
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// Func finds a package-level function; pkg is relative to the module.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds method name of type tname (pointer or value receiver).
func (p *Program) Method(pkg, tname, name string) *ssa.Function {
	nt := p.Named(pkg, tname)
	if nt == nil {
		return nil
	}
	for i := 0; i < nt.NumMethods(); i++ {
		if nt.Method(i).Name() == name {
			return p.SSA.FuncValue(nt.Method(i))
		}
	}
	return nil
}

func (p *Program) Named(pkg, tname string) *types.Named {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(tname)
	if t == nil {
		return nil
	}
	nt, _ := t.Type().(*types.Named)
	return nt
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil {
		r = ps.Filename
	}
	return fmt.Sprintf("%s:%d", r, ps.Line)
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return false
}

func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return rel(f.Pkg.Pkg.Path())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return rel(o.Pkg().Path())
	}
	return ""
}

// fnName is the stable short name of a function: pkg.Func or pkg.(*T).M.
func fnName(f *ssa.Function) string {
	return shortAux(f.RelString(nil))
}

// Implementers lists the repository's types implementing an interface.
func (p *Program) Implementers(it types.Type) []types.Type {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	var names []string
	for n := range p.SPkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sc := p.SPkgs[n].Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(t, iface) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), iface) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	return out
}

// ---- mod sets

func structKey(t types.Type, i int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st := t.Underlying().(*types.Struct)
	return typeName(t) + "." + st.Field(i).Name()
}

func typeName(t types.Type) string {
	return shortAux(types.TypeString(t, nil))
}

func (p *Program) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if cc.IsInvoke() {
		var out []*ssa.Function
		for _, t := range p.Implementers(cc.Value.Type()) {
			if f := p.lookupMethod(t, cc.Method.Name(), cc.Method.Pkg()); f != nil {
				out = append(out, f)
			}
		}
		return out
	}
	return nil
}

func (p *Program) lookupMethod(t types.Type, name string, pkg *types.Package) *ssa.Function {
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// ModSet is the set of struct fields / maps / elements a function may write
// outside its own fresh objects, transitively.
func (p *Program) ModSet(f *ssa.Function) map[string]bool {
	if m, ok := p.modMemo[f]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var w func(g *ssa.Function)
	w = func(g *ssa.Function) {
		if seen[g] || g.Blocks == nil {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if isLocalArray(partOf(x.Addr)) {
						continue
					}
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						m[structKey(a.X.Type(), a.Field)] = true
					case *ssa.IndexAddr:
						m["elem:"+typeName(x.Val.Type())] = true
					default:
						if st, ok := x.Val.Type().Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								m[structKey(x.Val.Type(), i)] = true
							}
						} else {
							m["deref:"+typeName(x.Val.Type())] = true
							for _, k := range p.addrTaken()[typeName(x.Val.Type())] {
								m[k] = true
							}
						}
					}
				case *ssa.MapUpdate:
					m["map:"+typeName(x.Map.Type())] = true
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear":
							m["map:"+typeName(x.Common().Args[0].Type())] = true
						case "copy":
							if sl, ok := x.Common().Args[0].Type().Underlying().(*types.Slice); ok {
								if b, ok := x.Common().Args[0].(*ssa.Slice); !ok || !isLocalArray(b.X) {
									m["elem:"+typeName(sl.Elem())] = true
								}
							}
						}
					}
					for _, c := range p.callees(x) {
						if decoder(c) {
							m[decodes] = true
						}
						w(c)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					w(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	w(f)
	p.modMemo[f] = m
	return m
}

// decodes marks a function that fills objects by reflection.
const decodes = "decode:"

// decoder: f fills what its arguments point to by reflection.
func decoder(f *ssa.Function) bool {
	if inRepo(f) {
		return false
	}
	n := f.Name()
	switch p := strings.TrimPrefix(fnPkg(f), "vendor/"); {
	case strings.HasPrefix(p, "encoding/"), strings.Contains(p, "/toml"), strings.Contains(p, "yaml"):
		return strings.HasPrefix(n, "Unmarshal") || strings.HasPrefix(n, "Decode") || n == "PrimitiveDecode" || n == "Read"
	case p == "fmt":
		return strings.Contains(n, "Scan") || strings.Contains(n, "scan")
	}
	return false
}

// partOf: the object an address lies in.
func partOf(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
			continue
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				a = x.X
				continue
			}
		}
		return a
	}
}

// addrTaken: by type, the fields whose address is used for more than a load
// or a store on the spot.
func (p *Program) addrTaken() map[string][]string {
	if p.addrMemo != nil {
		return p.addrMemo
	}
	p.addrMemo = map[string][]string{}
	seen := map[string]bool{}
	for _, f := range p.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !escapes(fa) {
					continue
				}
				k, t := structKey(fa.X.Type(), fa.Field), typeName(fa.Type().Underlying().(*types.Pointer).Elem())
				if !seen[k] {
					seen[k] = true
					p.addrMemo[t] = append(p.addrMemo[t], k)
				}
			}
		}
	}
	return p.addrMemo
}

// escapes: the address is used for more than a load or a store on the spot.
func escapes(a ssa.Value) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != a || x.Val == a {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func isLocalArray(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// computeParamMut: which parameters a function may write through.
func (p *Program) computeParamMut() {
	p.paramMut = map[*ssa.Function]map[int]bool{}
	derived := func(f *ssa.Function) map[ssa.Value]int {
		d := map[ssa.Value]int{}
		for i, pr := range f.Params {
			d[pr] = i
		}
		for ch := true; ch; {
			ch = false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok {
						continue
					}
					if _, have := d[v]; have {
						continue
					}
					var src ssa.Value
					switch x := in.(type) {
					case *ssa.FieldAddr:
						src = x.X
					case *ssa.IndexAddr:
						src = x.X
					case *ssa.Slice:
						src = x.X
					case *ssa.ChangeType:
						src = x.X
					case *ssa.Phi:
						for _, e := range x.Edges {
							if _, h := d[e]; h {
								src = e
							}
						}
					case *ssa.UnOp:
						// loading a pointer out of a parameter object: still reachable
						if _, isP := x.Type().Underlying().(*types.Pointer); isP {
							src = x.X
						} else if _, isS := x.Type().Underlying().(*types.Slice); isS {
							src = x.X
						}
					}
					if src != nil {
						if i, h := d[src]; h {
							d[v] = i
							ch = true
						}
					}
				}
			}
		}
		return d
	}
	ds := map[*ssa.Function]map[ssa.Value]int{}
	for _, f := range p.Fns {
		ds[f] = derived(f)
		p.paramMut[f] = map[int]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Fns {
			d := ds[f]
			set := func(v ssa.Value) {
				if i, ok := d[v]; ok && !p.paramMut[f][i] {
					p.paramMut[f][i] = true
					ch = true
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						set(x.Addr)
					case ssa.CallInstruction:
						cc := x.Common()
						if bi, ok := cc.Value.(*ssa.Builtin); ok {
							if bi.Name() == "copy" {
								set(cc.Args[0])
							}
							continue
						}
						if g := cc.StaticCallee(); g != nil {
							if pm, ok := p.paramMut[g]; ok {
								for i := range pm {
									if i < len(cc.Args) {
										set(cc.Args[i])
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// ---- natural loops

type loopT struct {
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
}

type loopInfo struct{ byHeader map[*ssa.BasicBlock]*loopT }

func (p *Program) loops(f *ssa.Function) *loopInfo {
	if l, ok := p.loopsMemo[f]; ok {
		return l
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loopT{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loopT{Header: s, Body: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.Body[b] {
					l.Body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, pr := range x.Preds {
						if !l.Body[pr] {
							l.Body[pr] = true
							stack = append(stack, pr)
						}
					}
				}
			}
		}
	}
	p.loopsMemo[f] = li
	return li
}
