package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World holds the program under verification, lowered from /repo's current source.
type World struct {
	mu         sync.Mutex
	prog       *ssa.Program
	pkgs       []*ssa.Package // packages of the module under verification
	byName     map[string]*ssa.Package
	funcs      map[string]*ssa.Function // "pkg.(*T).m" / "pkg.f"
	fnKey      map[*ssa.Function]string
	tags       map[string]int // concrete type string -> tag
	tagTypes   []types.Type
	finals     map[string]bool // heap name -> written only at construction
	mutWhy     map[string]string
	recur      map[*ssa.Function]bool // member of a recursive component of the static call graph
	globInit   map[*ssa.Global]bool   // stored only by package initialisation
	impls      map[string][]types.Type
	constMaps  map[*ssa.Global]*constMap
	issuePkg   *types.Package
	boxedTypes map[string]bool
	heapSorts  map[string]string
	allFns     []*ssa.Function
	regexps    map[*ssa.Global]*regexp.Regexp
}

const modPath = "github.com/lyraproj/puppet-parser"

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func loadWorld(dir string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, byName: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, fnKey: map[*ssa.Function]string{},
		tags: map[string]int{}, finals: map[string]bool{}, mutWhy: map[string]string{}, recur: map[*ssa.Function]bool{}, globInit: map[*ssa.Global]bool{}, impls: map[string][]types.Type{}, constMaps: map[*ssa.Global]*constMap{}, regexps: map[*ssa.Global]*regexp.Regexp{}}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		w.pkgs = append(w.pkgs, p)
		w.byName[p.Pkg.Name()] = p
	}
	for _, p := range ps[0].Types.Imports() {
		_ = p
	}
	sort.Slice(w.pkgs, func(i, j int) bool { return w.pkgs[i].Pkg.Path() < w.pkgs[j].Pkg.Path() })
	w.collectFuncs()
	w.collectTags()
	w.collectDynamicTags()
	w.classify()
	w.findRecursion()
	w.extractConstMaps()
	w.findBoxed()
	return w, nil
}

func recvName(t types.Type) string {
	star := ""
	if p, ok := t.(*types.Pointer); ok {
		star = "*"
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return "(" + star + n.Obj().Name() + ")"
	}
	return "(" + star + t.String() + ")"
}

func funcKey(f *ssa.Function) string {
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Name() + "."
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Name() + "."
	}
	if r := f.Signature.Recv(); r != nil {
		return pk + recvName(r.Type()) + "." + f.Name()
	}
	return pk + f.Name()
}

func (w *World) collectFuncs() {
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg == nil || !inModule(f.Pkg.Pkg) {
			continue
		}
		if f.Synthetic != "" && f.Synthetic != "package initializer" {
			continue
		}
		k := funcKey(f)
		if f.Parent() != nil {
			continue
		}
		w.funcs[k] = f
		w.fnKey[f] = k
	}
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *World) tag(t types.Type) int {
	s := typeStr(t)
	w.mu.Lock()
	defer w.mu.Unlock()
	if i, ok := w.tags[s]; ok {
		return i
	}
	i := len(w.tags) + 1
	w.tags[s] = i
	w.tagTypes = append(w.tagTypes, t)
	return i
}

func (w *World) collectTags() {
	// basic dynamic types first so that tags are stable
	for _, k := range []types.BasicKind{types.Bool, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String} {
		w.tag(types.Typ[k])
	}
	var all []types.Type
	add := func(p *types.Package) {
		for _, n := range p.Scope().Names() {
			if tn, ok := p.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, isI := tn.Type().Underlying().(*types.Interface); isI {
					continue
				}
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				all = append(all, types.NewPointer(tn.Type()), tn.Type())
			}
		}
	}
	for _, p := range w.pkgs {
		add(p.Pkg)
		for _, im := range p.Pkg.Imports() {
			if strings.Contains(im.Path(), "lyraproj/issue") && w.issuePkg == nil {
				w.issuePkg = im
				add(im)
			}
		}
	}
	for _, t := range all {
		w.tag(t)
	}
}

// collectDynamicTags registers the types that the code puts into or takes out of interfaces, in a fixed order.
func (w *World) collectDynamicTags() {
	for _, f := range w.allModuleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					w.tag(in.X.Type())
				case *ssa.TypeAssert:
					if _, ok := in.AssertedType.Underlying().(*types.Interface); !ok {
						w.tag(in.AssertedType)
					}
				}
			}
		}
	}
}

// knownTypes lists the dynamic types seen so far.
func (w *World) knownTypes() []types.Type {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.tagTypes[:len(w.tagTypes):len(w.tagTypes)]
}

// implementers returns the concrete types (of the module and of the issue package) that implement an interface.
func (w *World) implementers(it types.Type) []types.Type {
	s := typeStr(it)
	w.mu.Lock()
	defer w.mu.Unlock()
	if r, ok := w.impls[s]; ok {
		return r
	}
	iface := it.Underlying().(*types.Interface)
	var r []types.Type
	for _, t := range w.tagTypes {
		if types.Implements(t, iface) {
			r = append(r, t)
		}
	}
	w.impls[s] = r
	return r
}

// closedWorld: every non-nil value of the interface type is one of the implementers found.
func (w *World) closedWorld(it types.Type) bool {
	n, ok := it.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if w.issuePkg != nil && n.Obj().Pkg() == w.issuePkg {
		return n.Obj().Name() == "Reported"
	}
	return inModule(n.Obj().Pkg())
}

// structOf returns the named struct type behind t (T or *T).
func structOf(t types.Type) (*types.Named, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		if s, ok := t.Underlying().(*types.Struct); ok {
			return nil, s
		}
		return nil, nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	return n, s
}

func fieldHeap(n *types.Named, f *types.Var) string {
	return n.Obj().Name() + "." + f.Name()
}

// leafFields enumerates all scalar fields of a struct including those of embedded or nested structs, as heap names.
func leafFields(n *types.Named, s *types.Struct, visit func(heap string, f *types.Var)) {
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if fn, fs := structOf(f.Type()); fs != nil && !isPtr(f.Type()) {
			if fn != nil && !isExternStruct(fn) {
				leafFields(fn, fs, visit)
				continue
			}
		}
		visit(fieldHeap(n, f), f)
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isExternStruct(n *types.Named) bool {
	return n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg())
}

// classify finds the struct fields that are only ever written while their object is under construction.
func (w *World) classify() {
	written := map[string]string{}
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg == nil || !inModule(f.Pkg.Pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					w.noteStore(f, b, in, written)
				case *ssa.FieldAddr:
					// address of a scalar field must only be loaded or stored
					ft := in.Type().Underlying().(*types.Pointer).Elem()
					if _, s := structOf(ft); s != nil && !isPtr(ft) {
						continue
					}
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr != in {
								n, s := structOf(in.X.Type())
								if n != nil {
									written[fieldHeap(n, s.Field(in.Field))] = "address escapes in " + funcKey(f)
								}
							}
						default:
							n, s := structOf(in.X.Type())
							if n != nil {
								written[fieldHeap(n, s.Field(in.Field))] = "address escapes in " + funcKey(f)
							}
						}
					}
				}
			}
		}
	}
	w.mutWhy = written
	for _, p := range w.pkgs {
		for _, nm := range p.Pkg.Scope().Names() {
			if tn, ok := p.Pkg.Scope().Lookup(nm).(*types.TypeName); ok {
				if n, s := structOf(tn.Type()); n != nil && s != nil && n.Obj() == tn {
					leafFields(n, s, func(h string, fv *types.Var) {
						if _, bad := written[h]; !bad {
							w.finals[h] = true
						}
					})
				}
			}
		}
	}
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		if fa, ok := v.(*ssa.FieldAddr); ok {
			ft := fa.X
			v = ft
			continue
		}
		return v
	}
}

// initAlloc reports whether the store initialises a freshly allocated object: same block as the allocation and
// before any use of the object other than field addressing.
func initAlloc(b *ssa.BasicBlock, st *ssa.Store) *ssa.Alloc {
	al, ok := rootOf(st.Addr).(*ssa.Alloc)
	if !ok || al.Block() != b {
		return nil
	}
	started := false
	for _, in := range b.Instrs {
		if in == ssa.Instruction(al) {
			started = true
			continue
		}
		if !started {
			continue
		}
		if in == ssa.Instruction(st) {
			return al
		}
		switch in := in.(type) {
		case *ssa.FieldAddr:
			continue
		case *ssa.Store:
			if rootOf(in.Addr) == ssa.Value(al) && rootOf(in.Val) != ssa.Value(al) {
				continue
			}
			if usesAlloc(in, al) {
				return nil
			}
		default:
			if usesAlloc(in, al) {
				return nil
			}
		}
	}
	return nil
}

func usesAlloc(in ssa.Instruction, al *ssa.Alloc) bool {
	var ops [16]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o != nil && rootOf(*o) == ssa.Value(al) {
			return true
		}
	}
	return false
}

func (w *World) noteStore(f *ssa.Function, b *ssa.BasicBlock, st *ssa.Store, written map[string]string) {
	if initAlloc(b, st) != nil {
		return
	}
	et := st.Addr.Type().Underlying().(*types.Pointer).Elem()
	if n, s := structOf(et); s != nil && !isPtr(et) {
		if n != nil && !isExternStruct(n) {
			if _, isAlloc := st.Addr.(*ssa.Alloc); !isAlloc || true {
				leafFields(n, s, func(h string, _ *types.Var) { written[h] = "struct store in " + funcKey(f) })
			}
		}
		return
	}
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
		n, s := structOf(fa.X.Type())
		if n != nil {
			written[fieldHeap(n, s.Field(fa.Field))] = "store in " + funcKey(f)
		}
	}
}

// findRecursion marks functions in non-trivial strongly connected components of the static call graph, where an
// interface call counts as a call of every implementation in the module.
func (w *World) findRecursion() {
	adj := map[*ssa.Function][]*ssa.Function{}
	var nodes []*ssa.Function
	add := func(f, g *ssa.Function) {
		if g != nil && g.Blocks != nil {
			adj[f] = append(adj[f], g)
		}
	}
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg == nil || !inModule(f.Pkg.Pkg) {
			if f.Pkg != nil || f.Synthetic == "" {
				continue
			}
		}
		nodes = append(nodes, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					add(f, mc.Fn.(*ssa.Function))
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := c.Common()
				if cm.IsInvoke() {
					if !w.closedWorld(cm.Value.Type()) {
						continue
					}
					for _, t := range w.implementers(cm.Value.Type()) {
						add(f, w.methodOf(t, cm.Method))
					}
				} else if g := cm.StaticCallee(); g != nil {
					add(f, g)
				}
			}
		}
	}
	sort.Slice(nodes, func(i, j int) bool { return nodes[i].String() < nodes[j].String() })
	// Tarjan
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n := 0
	var sc func(v *ssa.Function)
	sc = func(v *ssa.Function) {
		n++
		index[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		for _, u := range adj[v] {
			if index[u] == 0 {
				sc(u)
				if low[u] < low[v] {
					low[v] = low[u]
				}
			} else if on[u] && index[u] < low[v] {
				low[v] = index[u]
			}
		}
		if low[v] == index[v] {
			var comp []*ssa.Function
			for {
				u := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[u] = false
				comp = append(comp, u)
				if u == v {
					break
				}
			}
			rec := len(comp) > 1
			if !rec {
				for _, u := range adj[v] {
					if u == v {
						rec = true
					}
				}
			}
			if rec {
				for _, u := range comp {
					w.recur[u] = true
				}
			}
		}
	}
	for _, v := range nodes {
		if index[v] == 0 {
			sc(v)
		}
	}
}

// methodOf resolves a method on a concrete type to the function that really runs (through embedding wrappers).
func (w *World) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	if fo, ok := sel.Obj().(*types.Func); ok {
		// the declared method; with shared references for embedded structs the receiver reference is the same
		if f := w.prog.FuncValue(fo); f != nil {
			rt := f.Signature.Recv().Type()
			if _, isI := rt.Underlying().(*types.Interface); !isI {
				return f
			}
		}
	}
	return w.prog.MethodValue(sel)
}

type constMap struct {
	keys, vals []ssa.Value
	g          *ssa.Global
}

// extractConstMaps recovers package-level maps that are built by the package initialiser and never updated later.
func (w *World) extractConstMaps() {
	stores := map[*ssa.Global][]string{}
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], f.Name())
					}
				}
			}
		}
	}
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			ini := true
			for _, s := range stores[g] {
				if s != "init" {
					ini = false
				}
			}
			w.globInit[g] = ini
		}
		init := p.Func("init")
		if init == nil {
			continue
		}
		maps := map[ssa.Value]*constMap{}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				c, ok2 := st.Val.(*ssa.Call)
				if !ok || !ok2 || !w.globInit[g] || c.Call.StaticCallee() == nil || funcKey(c.Call.StaticCallee()) != "regexp.MustCompile" {
					continue
				}
				if k, ok := c.Call.Args[0].(*ssa.Const); ok {
					if re, err := regexp.Compile(constant.StringVal(k.Value)); err == nil {
						w.regexps[g] = re
					}
				}
			}
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeMap:
					maps[in] = &constMap{}
				case *ssa.MapUpdate:
					if cm := maps[in.Map]; cm != nil {
						cm.keys = append(cm.keys, in.Key)
						cm.vals = append(cm.vals, in.Value)
					}
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok {
						if cm := maps[in.Val]; cm != nil && w.globInit[g] {
							cm.g = g
							w.constMaps[g] = cm
						}
					}
				}
			}
		}
	}
	// a map that is updated anywhere outside init is not constant
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg == nil || f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							delete(w.constMaps, g)
						}
					}
				}
			}
		}
	}
}
