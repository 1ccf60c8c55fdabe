package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- effects ----

// effects of a function body including everything it may call: heaps it may write and whether it allocates.
type effects struct {
	heaps  map[string]bool
	allocs map[string]bool // struct type names, "slice:<heap>", "any"
}

func (x *Exec) effectsOf(f *ssa.Function) *effects {
	return x.eff.of(f)
}

type effTable struct {
	w       *World
	sp      *Spec
	table   map[*ssa.Function]*effects
	direct  map[*ssa.Function]*effects
	callees map[*ssa.Function][]*ssa.Function
}

func newEffTable(w *World, sp *Spec) *effTable {
	return &effTable{w: w, sp: sp, table: map[*ssa.Function]*effects{}, direct: map[*ssa.Function]*effects{}, callees: map[*ssa.Function][]*ssa.Function{}}
}

func (e *effTable) scan(f *ssa.Function) {
	if e.direct[f] != nil {
		return
	}
	d := &effects{map[string]bool{}, map[string]bool{}}
	e.direct[f] = d
	w := e.w
	addStruct := func(n *types.Named, s *types.Struct) {
		if n == nil || !inModule(n.Obj().Pkg()) {
			return
		}
		leafFields(n, s, func(h string, _ *types.Var) {
			if !w.finals[h] {
				d.heaps[h] = true
			}
		})
	}
	// the contract of an external, interface or function-typed callee contributes its modifies clause
	contract := func(fs *FuncSpec) {
		for _, m := range fs.Modifies {
			switch m.Kind {
			case "ghost", "heap":
				d.heaps[m.Name] = true
			case "buf":
				d.heaps["Buffer.content"] = true
			}
		}
	}
	if fs := e.sp.funcs[w.keyOf(f)]; fs != nil {
		contract(fs)
	}
	if f.Blocks == nil {
		return
	}
	var call func(g *ssa.Function)
	call = func(g *ssa.Function) {
		if g != nil {
			e.callees[f] = append(e.callees[f], g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if g, ok := (*o).(*ssa.Function); ok {
					call(g)
				}
			}
			switch in := in.(type) {
			case *ssa.Alloc:
				et := in.Type().Underlying().(*types.Pointer).Elem()
				if n, s := structOf(et); s != nil && !isPtr(et) {
					addStruct(n, s)
					if n != nil {
						d.allocs[n.Obj().Name()] = true
						leafFields(n, s, func(h string, _ *types.Var) { d.allocs["F:"+h] = true })
					}
					d.allocs["any"] = true
				}
				if at, ok := et.Underlying().(*types.Array); ok {
					d.heaps[elemHeap(at.Elem())] = true
					d.heaps["frz"] = true
					d.allocs["any"] = true
				}
			case *ssa.MakeSlice:
				d.heaps[elemHeap(in.Type().Underlying().(*types.Slice).Elem())] = true
				d.heaps["frz"] = true
				d.allocs["any"] = true
			case *ssa.MakeMap:
				hn, vn := mapHeapNames(in.Type().Underlying().(*types.Map))
				d.heaps[hn], d.heaps[vn] = true, true
				d.allocs["any"] = true
				d.allocs["F:"+hn] = true
				d.allocs["F:"+vn] = true
			case *ssa.MapUpdate:
				hn, vn := mapHeapNames(in.Map.Type().Underlying().(*types.Map))
				d.heaps[hn], d.heaps[vn] = true, true
			case *ssa.Slice:
				if st, ok := in.X.Type().Underlying().(*types.Slice); ok && in.Low != nil {
					d.heaps[elemHeap(st.Elem())] = true
					d.heaps["frz"] = true
					d.allocs["any"] = true
				}
			case *ssa.Convert:
				if st, ok := in.Type().Underlying().(*types.Slice); ok {
					d.heaps[elemHeap(st.Elem())] = true
					d.heaps["frz"] = true
					d.allocs["any"] = true
				}
			case *ssa.Store:
				et := in.Addr.Type().Underlying().(*types.Pointer).Elem()
				switch a := in.Addr.(type) {
				case *ssa.FieldAddr:
					if n, s := structOf(et); s != nil && !isPtr(et) {
						addStruct(n, s)
						break
					}
					n, s := structOf(a.X.Type())
					if n != nil {
						h := fieldHeap(n, s.Field(a.Field))
						if !w.finals[h] {
							d.heaps[h] = true
						}
						if (w.finals[h] || e.sp.sealed[h]) && sortOf(s.Field(a.Field).Type()) == "Slice" {
							d.heaps["frz"] = true
						}
					}
				case *ssa.IndexAddr:
					d.heaps[elemHeap(et)] = true
				case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
					if n, s := structOf(et); s != nil && !isPtr(et) {
						addStruct(n, s)
					}
				default:
					if n, s := structOf(et); s != nil && !isPtr(et) {
						addStruct(n, s)
					}
				}
			case ssa.CallInstruction:
				cm := in.Common()
				if cm.IsInvoke() {
					if fs := e.sp.ifaceSpec(cm); fs != nil {
						contract(fs)
					}
					if w.closedWorld(cm.Value.Type()) {
						for _, t := range w.implementers(cm.Value.Type()) {
							call(w.methodOf(t, cm.Method))
						}
					}
					continue
				}
				if bi, ok := cm.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						d.heaps[elemHeap(cm.Args[0].Type().Underlying().(*types.Slice).Elem())] = true
						d.heaps["frz"] = true
						d.allocs["any"] = true
					}
					continue
				}
				if g := cm.StaticCallee(); g != nil {
					call(g)
					if g.Pkg != nil && g.Pkg.Pkg.Path() == "bytes" {
						d.heaps["Buffer.content"] = true
						d.allocs["any"] = true
					}
				} else if fs := e.sp.funcTypeSpec(cm.Value.Type()); fs != nil {
					contract(fs)
				}
			}
		}
	}
}

func (w *World) keyOf(f *ssa.Function) string {
	if k, ok := w.fnKey[f]; ok {
		return k
	}
	return funcKey(f)
}

func (e *effTable) of(f *ssa.Function) *effects {
	if r := e.table[f]; r != nil {
		return r
	}
	r := &effects{map[string]bool{}, map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[g] {
			continue
		}
		seen[g] = true
		e.scan(g)
		for h := range e.direct[g].heaps {
			r.heaps[h] = true
		}
		for a := range e.direct[g].allocs {
			r.allocs[a] = true
		}
		work = append(work, e.callees[g]...)
	}
	e.table[f] = r
	return r
}

// ifaceSpec finds the contract of an interface method.
func (sp *Spec) ifaceSpec(cm *ssa.CallCommon) *FuncSpec {
	if n, ok := cm.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
		if fs := sp.funcs[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+cm.Method.Name()]; fs != nil && (fs.Iface || fs.Extern) {
			return fs
		}
	}
	if r := cm.Method.Type().(*types.Signature).Recv(); r != nil {
		if n, ok := r.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
			if fs := sp.funcs[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+cm.Method.Name()]; fs != nil && (fs.Iface || fs.Extern) {
				return fs
			}
		}
	}
	return nil
}

func (sp *Spec) funcTypeSpec(t types.Type) *FuncSpec {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return sp.funcs[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
	}
	return nil
}

// ---- calls ----

func (x *Exec) callInstr(fr *frame, cm *ssa.CallCommon, rt types.Type, pos token.Pos, reach string, st *State) (SV, string, *State) {
	if bi, ok := cm.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, bi, cm, rt, pos, reach, st)
	}
	var args []SV
	for _, a := range cm.Args {
		v := x.val(fr, a, st)
		if v.K == kTerm {
			v.T = a.Type()
		}
		args = append(args, v)
	}
	if cm.IsInvoke() {
		recv := x.val(fr, cm.Value, st)
		recv.T = cm.Value.Type()
		return x.invoke(cm, recv, args, rt, pos, reach, st)
	}
	if f := cm.StaticCallee(); f != nil {
		var binds []SV
		if v := x.val(fr, cm.Value, st); v.K == kClosure {
			binds = v.Binds
		}
		return x.static(f, args, binds, rt, pos, reach, st)
	}
	v := x.val(fr, cm.Value, st)
	switch v.K {
	case kClosure:
		return x.static(v.Fn, args, v.Binds, rt, pos, reach, st)
	case kOpaqueFn:
		if fs := x.sp.funcTypeSpec(cm.Value.Type()); fs != nil {
			sig := cm.Value.Type().Underlying().(*types.Signature)
			return x.modular(fs, nil, sig, append([]SV{v}, args...), true, rt, pos, reach, st)
		}
	}
	x.unsupported(reach, pos, "call of an unknown function value")
	return x.freshSV("ret", rt, reach, st), reach, st
}

func (x *Exec) invoke(cm *ssa.CallCommon, recv SV, args []SV, rt types.Type, pos token.Pos, reach string, st *State) (SV, string, *State) {
	if recv.K != kTerm {
		x.unsupported(reach, pos, "interface call")
		return x.freshSV("ret", rt, reach, st), reach, st
	}
	x.safety(reach, not(eq(recv.Term, "vnil")), pos, "method "+cm.Method.Name()+" called on a nil interface")
	if c := constTag(recv.Term); c > 0 {
		t := x.w.knownTypes()[c-1]
		if f := x.w.methodOf(t, cm.Method); f != nil {
			return x.static(f, append([]SV{x.recvFor(f, recv.Term, t, reach, st)}, args...), nil, rt, pos, reach, st)
		}
	}
	if fs := x.sp.ifaceSpec(cm); fs != nil {
		return x.modular(fs, nil, cm.Method.Type().(*types.Signature), append([]SV{recv}, args...), true, rt, pos, reach, st)
	}
	if !x.w.closedWorld(cm.Value.Type()) {
		x.unsupported(reach, pos, "call of "+cm.Method.Name()+" on an open interface "+typeStr(cm.Value.Type()))
		return x.freshSV("ret", rt, reach, st), reach, st
	}
	groups := map[*ssa.Function][]types.Type{}
	var order []*ssa.Function
	for _, t := range x.w.implementers(cm.Value.Type()) {
		f := x.w.methodOf(t, cm.Method)
		if f == nil {
			continue
		}
		// a value type whose pointer type also implements the interface is boxed only where the program does so
		if !isPtr(t) && !x.w.boxed(t) {
			continue
		}
		if isPtr(t) && !x.w.boxed(t) && len(x.w.implementers(cm.Value.Type())) > 1 && x.w.boxedSome(cm.Value.Type()) {
			continue
		}
		if groups[f] == nil {
			order = append(order, f)
		}
		groups[f] = append(groups[f], t)
	}
	if len(order) == 0 {
		x.oblig(reach, "false", "safety", x.sp.safetyTags(x.fnKey), pos, "no implementation of "+cm.Method.Name())
		return x.freshSV("ret", rt, reach, st), reach, st
	}
	// dynamic types never boxed anywhere in the module cannot occur
	var alts []string
	for _, f := range order {
		for _, t := range groups[f] {
			alts = append(alts, x.isTag(recv.Term, t))
		}
	}
	if len(order) == 1 {
		f := order[0]
		return x.static(f, append([]SV{x.recvFor(f, recv.Term, groups[f][0], reach, st)}, args...), nil, rt, pos, reach, st)
	}
	if len(order) > 12 {
		x.unsupported(reach, pos, fmt.Sprintf("interface call %s with %d implementations and no contract", cm.Method.Name(), len(order)))
		return x.freshSV("ret", rt, reach, st), reach, st
	}
	var exits []exitEdge
	var prior []string
	for i, f := range order {
		var is []string
		for _, t := range groups[f] {
			is = append(is, x.isTag(recv.Term, t))
		}
		c := or(is...)
		r := and(reach, c)
		if i == len(order)-1 {
			r = and(reach, not(or(prior...)))
		}
		prior = append(prior, c)
		r = x.named("disp", "Bool", r)
		v, r2, s2 := x.static(f, append([]SV{x.recvFor(f, recv.Term, groups[f][0], r, st)}, args...), nil, rt, pos, r, st.clone())
		exits = append(exits, exitEdge{r2, s2, []SV{v}})
	}
	r, s, vals, ok := x.mergeExits(exits, 1)
	if !ok {
		x.unsupported(reach, pos, "interface call results")
		return x.freshSV("ret", rt, reach, st), reach, st
	}
	return vals[0], r, s
}

// recvFor converts the boxed receiver to what the method's declared receiver expects (promoted methods share the reference).
func (x *Exec) recvFor(f *ssa.Function, v string, t types.Type, reach string, st *State) SV {
	rt := t
	if f.Signature.Recv() != nil {
		rt = f.Signature.Recv().Type()
	} else if len(f.Params) > 0 {
		rt = f.Params[0].Type()
	}
	if isPtr(rt) {
		r := term(rt, "(vr "+v+")")
		if c := constTag(v); c > 0 {
			fs := splitArgs(v[1 : len(v)-1])
			r.Term = fs[2]
		}
		return r
	}
	if isPtr(t) {
		// value method called through a pointer: load the value
		n, s := structOf(t)
		if s != nil && n != nil {
			r := SV{K: kStruct, T: rt}
			for i := 0; i < s.NumFields(); i++ {
				r.Fs = append(r.Fs, x.loadTyped(st, n, s.Field(i), "(vr "+v+")", reach))
			}
			return r
		}
	}
	return x.unbox(v, rt)
}

func hasFuncParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (x *Exec) static(f *ssa.Function, args, binds []SV, rt types.Type, pos token.Pos, reach string, st *State) (SV, string, *State) {
	key := x.w.keyOf(f)
	if f.Parent() == nil && f.Synthetic == "" || f.Blocks == nil {
		if fs := x.sp.specFor(f, key); fs != nil && !fs.Inline && !fs.Iface {
			return x.modular(fs, f, f.Signature, args, f.Signature.Recv() != nil, rt, pos, reach, st)
		}
	}
	if f.Pkg != nil && !inModule(f.Pkg.Pkg) || f.Pkg == nil && f.Blocks == nil {
		return x.extern(f, key, args, rt, pos, reach, st)
	}
	if f.Blocks == nil {
		x.unsupported(reach, pos, "function without source: "+key)
		return x.freshSV("ret", rt, reach, st), reach, st
	}
	onStack := 0
	for _, g := range x.stack {
		if g == f {
			onStack++
		}
	}
	force := false
	if fs := x.sp.specFor(f, key); fs != nil && fs.Inline {
		force = true
	}
	if x.w.recur[f] && f.Parent() == nil && f.Synthetic == "" && !hasFuncParam(f) && !force && !x.trivialRecursion(f) {
		if fs := x.defaultSpec(f, key); fs != nil {
			return x.modular(fs, f, f.Signature, args, f.Signature.Recv() != nil, rt, pos, reach, st)
		}
	}
	if onStack > 0 || len(x.stack) > 40 {
		x.unsupported(reach, pos, "recursive function without contract: "+key)
		return x.freshSV("ret", rt, reach, st), reach, st
	}
	ex := x.run(f, args, binds, reach, st, false)
	n := 0
	if tt, ok := rt.(*types.Tuple); ok {
		n = tt.Len()
	} else if rt != nil {
		n = 1
	}
	if f.Signature.Results().Len() != n {
		n = f.Signature.Results().Len()
	}
	r, s, vals, ok := x.mergeExits(ex, n)
	if !ok {
		x.unsupported(reach, pos, "results of "+key+" without common representation")
		return x.freshSV("ret", rt, reach, st), reach, st
	}
	if r == "false" {
		return x.dummy(rt), "false", st
	}
	switch n {
	case 0:
		return SV{K: kTuple}, r, s
	case 1:
		return vals[0], r, s
	}
	return SV{K: kTuple, T: rt, Fs: vals}, r, s
}

// trivialRecursion: small leaf functions that only belong to a recursive component through a spurious call edge.
func (x *Exec) trivialRecursion(f *ssa.Function) bool { return false }

func (x *Exec) dummy(t types.Type) SV {
	if t == nil {
		return SV{K: kTuple}
	}
	if tt, ok := t.(*types.Tuple); ok {
		r := SV{K: kTuple, T: t}
		for i := 0; i < tt.Len(); i++ {
			r.Fs = append(r.Fs, x.dummy(tt.At(i).Type()))
		}
		return r
	}
	return x.zero(t)
}

// defaultSpec finds the default contract that applies to a function without one of its own.
func (x *Exec) defaultSpec(f *ssa.Function, key string) *FuncSpec {
	return x.sp.defaultFor(f, key)
}

func (sp *Spec) defaultFor(f *ssa.Function, key string) *FuncSpec {
	for _, d := range sp.defs {
		// pattern: "<key pattern> [-> result type]"
		pat, res := d.Key, ""
		if k := strings.Index(d.Key, "->"); k >= 0 {
			pat, res = strings.TrimSpace(d.Key[:k]), strings.TrimSpace(d.Key[k+2:])
		}
		if !matchPat(pat, key) {
			continue
		}
		if res != "" {
			var rs []string
			for i := 0; i < f.Signature.Results().Len(); i++ {
				rs = append(rs, typeStr(f.Signature.Results().At(i).Type()))
			}
			if strings.Join(rs, ", ") != strings.Trim(res, "()") {
				continue
			}
		}
		c := *d
		c.Key = key
		if sp.funcs[key] == nil {
			return &c
		}
	}
	return nil
}

func (x *Exec) callEnv(fs *FuncSpec, f *ssa.Function, sig *types.Signature, args []SV, hasRecv bool, st *State) *Env {
	env := &Env{x: x, st: st, old: st, vars: map[string]SV{}}
	if p := x.w.byName[fs.Pkg]; p != nil {
		env.pkg = p.Pkg
	}
	if f != nil && f.Pkg != nil {
		env.pkg = f.Pkg.Pkg
	}
	names := fs.Params
	if len(names) == 0 {
		if f != nil && len(f.Params) > 0 {
			for _, p := range f.Params {
				names = append(names, p.Name())
			}
		} else {
			if hasRecv {
				names = append(names, "recv")
			}
			for i := 0; i < sig.Params().Len(); i++ {
				names = append(names, sig.Params().At(i).Name())
			}
		}
	}
	for i, n := range names {
		if i < len(args) && n != "_" && n != "" {
			env.vars[n] = args[i]
		}
	}
	if f == nil && hasRecv && len(args) > 0 {
		env.vars["recv"] = args[0]
	}
	return env
}

func (x *Exec) bindResults(env *Env, sig *types.Signature, res SV) {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
	case 1:
		env.vars["result"] = res
		if n := rs.At(0).Name(); n != "" && n != "_" {
			env.vars[n] = res
		}
	default:
		for i := 0; i < rs.Len() && i < len(res.Fs); i++ {
			env.vars[fmt.Sprintf("result%d", i)] = res.Fs[i]
			if n := rs.At(i).Name(); n != "" && n != "_" {
				env.vars[n] = res.Fs[i]
			}
		}
	}
}

// permitted evaluates a modifies clause to heap -> refs.
func (x *Exec) permitted(fs *FuncSpec, env *Env, args []SV) (map[string][]string, error) {
	out := map[string][]string{}
	for _, m := range fs.Modifies {
		switch m.Kind {
		case "heap", "ghost":
			out[m.Name] = append(out[m.Name], "*")
		case "all":
			v, err := env.eval(m.Expr)
			if err != nil {
				return nil, err
			}
			n, s := structOf(v.T)
			if s == nil {
				return nil, fmt.Errorf("modifies of a non-struct")
			}
			leafFields(n, s, func(h string, _ *types.Var) { out[h] = append(out[h], v.Term) })
		case "field":
			se, ok := m.Expr.(interface{ End() token.Pos })
			_ = se
			_ = ok
			h, ref, err := x.fieldRef(env, m)
			if err != nil {
				return nil, err
			}
			out[h] = append(out[h], ref)
		case "elems":
			v, err := env.eval(m.Expr)
			if err != nil {
				return nil, err
			}
			h := elemHeap(v.T.Underlying().(*types.Slice).Elem())
			out[h] = append(out[h], "(sbase "+v.Term+")")
		case "tail":
			v, err := env.eval(m.Expr)
			if err != nil {
				return nil, err
			}
			h := elemHeap(v.T.Underlying().(*types.Slice).Elem())
			out[h] = append(out[h], "tail \x00(sbase "+v.Term+")\x00(slen_ "+v.Term+")")
		case "buf":
			v, err := env.eval(m.Expr)
			if err != nil {
				return nil, err
			}
			out["Buffer.content"] = append(out["Buffer.content"], v.Term)
		case "map":
			v, err := env.eval(m.Expr)
			if err != nil {
				return nil, err
			}
			hn, vn := mapHeapNames(v.T.Underlying().(*types.Map))
			out[hn] = append(out[hn], v.Term)
			out[vn] = append(out[vn], v.Term)
		}
	}
	// list arguments may become part of immutable objects
	for _, a := range args {
		if a.K == kTerm && a.T != nil && sortOf(a.T) == "Slice" {
			out["frz"] = append(out["frz"], x.sbase(a.Term))
		}
	}
	return out, nil
}

func (x *Exec) modular(fs *FuncSpec, f *ssa.Function, sig *types.Signature, args []SV, hasRecv bool, rt types.Type, pos token.Pos, reach string, st *State) (SV, string, *State) {
	env := x.callEnv(fs, f, sig, args, hasRecv, st)
	env.old = st
	if fs.Trusted {
		x.usedAssumed[fs.Key] = true
	}
	if fs.Extern {
		x.usedExtern[fs.Key] = true
	}
	if x.dry == 0 {
		x.callees[fs.Key] = true
	}
	tagsOf := func(c *Clause) []string {
		if len(c.Tags) > 0 {
			return c.Tags
		}
		return x.sp.safetyTags(x.fnKey)
	}
	if f != nil && hasRecv && len(args) > 0 && isPtr(sig.Recv().Type()) && args[0].K == kTerm && !x.newRefs[args[0].Term] {
		x.safety(reach, "(< 0 "+args[0].Term+")", pos, "method "+f.Name()+" called on a nil pointer")
	}
	for i := range fs.Requires {
		c := &fs.Requires[i]
		x.feGoal = true
		t, err := env.boolExpr(c.Expr)
		x.feGoal = false
		if err != nil {
			x.unsupported(reach, pos, "requires of "+fs.Key+": "+c.Src+": "+err.Error())
			continue
		}
		x.oblig(reach, t, "requires", tagsOf(c), pos, "call of "+fs.Key+" requires "+c.Src)
	}
	perm, err := x.permitted(fs, env, args)
	if err != nil {
		x.unsupported(reach, pos, "modifies of "+fs.Key+": "+err.Error())
		perm = map[string][]string{}
	}
	ns := st.clone()
	var eff *effects
	if f != nil && f.Blocks != nil && inModule(f.Pkg.Pkg) {
		eff = x.effectsOf(f)
	} else if fs.Iface {
		eff = x.ifaceEffects(fs)
	} else {
		eff = &effects{map[string]bool{}, map[string]bool{"any": !fs.Pure}}
		for h := range perm {
			eff.heaps[h] = true
		}
	}
	heaps := map[string]bool{}
	for h := range eff.heaps {
		heaps[h] = true
	}
	for h := range perm {
		if h != "frz" {
			heaps[h] = true
		}
	}
	cbs := x.callbacks(sig, args, hasRecv)
	cbHeaps := map[string]bool{}
	for _, cb := range cbs {
		x.callbackInvs(reach, st, pos, "before the call of "+fs.Key, true)
		for h := range x.effectsOf(cb.fn.Fn).heaps {
			cbHeaps[h] = true
			delete(heaps, h)
		}
		for _, m := range cb.fs.Modifies {
			if m.Kind == "ghost" {
				cbHeaps[m.Name] = true
			}
		}
		eff.allocs["any"] = true
	}
	oldNxt := st.h["nxt"]
	if eff.allocs["any"] {
		n := x.fresh("nxt", "Int")
		x.assume("true", "(<= "+oldNxt+" "+n+")")
		ns.h["nxt"] = n
		x.record("nxt", "?")
	}
	for _, h := range sortedKeys(heaps) {
		x.callHavoc(st, ns, h, perm[h], eff, oldNxt, reach, pos, fs.Key)
	}
	for _, h := range sortedKeys(cbHeaps) {
		x.callbackHavoc(st, ns, h)
		heaps[h] = true
	}
	for _, h := range sortedKeys(heaps) {
		x.frozenFrame(st, ns, h)
	}
	for _, cb := range cbs {
		x.checkCallback(cb, st, cbHeaps, pos, reach)
	}
	if len(cbs) > 0 {
		x.callbackInvs(reach, ns, pos, "after the call of "+fs.Key, false)
	}
	if x.sorts["heap:frz"] != "" && st.h["frz"] != ns.h["frz"] && x.dry == 0 {
		x.assume("true", fmt.Sprintf("(forall ((q Int)) (! (<= (select %s q) (select %s q)) :pattern ((select %s q))))", x.heap(st, "frz", "(Array Int Int)"), ns.h["frz"], ns.h["frz"]))
	}
	if fs.Panics != nil {
		pv := x.fresh("pv", "Val")
		penv := *env
		penv.st = ns
		t, err := penv.with("v", term(tAny, pv)).boolExpr(fs.Panics.Expr)
		if err != nil {
			x.unsupported(reach, pos, "panics of "+fs.Key+": "+err.Error())
		} else {
			pr := x.fresh("panics", "Bool")
			x.assume("true", "(=> "+pr+" "+and(reach, t)+")")
			x.typing(term(tAny, pv), pr, ns)
			if x.panicEdges != nil {
				*x.panicEdges = append(*x.panicEdges, exitEdge{pr, ns.clone(), []SV{term(tAny, pv)}})
			} else {
				x.checkPanic(pr, ns, pv, pos, "panic in "+fs.Key)
			}
		}
	}
	var res SV
	if sig.Results().Len() == 0 {
		res = SV{K: kTuple}
	} else if fs.Pure && len(args) > 0 && sig.Results().Len() == 1 && sortOf(sig.Results().At(0).Type()) != "" {
		res = x.pureApp(fs.Key, args, sig.Results().At(0).Type(), reach, ns)
	} else if sig.Results().Len() == 1 {
		res = x.freshSV("r_"+lastName(fs.Key), sig.Results().At(0).Type(), reach, ns)
	} else {
		res = x.freshSV("r_"+lastName(fs.Key), sig.Results(), reach, ns)
	}
	env2 := *env
	env2.st = ns
	env2.vars = map[string]SV{}
	for k, v := range env.vars {
		env2.vars[k] = v
	}
	x.bindResults(&env2, sig, res)
	for i := range fs.Ensures {
		c := &fs.Ensures[i]
		if c.Own && !x.sharesProp(c) {
			continue
		}
		t, err := env2.boolExpr(c.Expr)
		if err != nil {
			x.unsupported(reach, pos, "ensures of "+fs.Key+": "+c.Src+": "+err.Error())
			continue
		}
		x.assume(reach, t)
	}
	for i := range fs.Defines {
		c := &fs.Defines[i]
		t, err := env2.boolExpr(c.Expr)
		if err != nil {
			x.unsupported(reach, pos, "defines of "+fs.Key+": "+c.Src+": "+err.Error())
			continue
		}
		x.assume(reach, t)
	}
	return res, reach, ns
}

func lastName(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

// pureApp: the result of a pure external function is a function of its arguments.
func (x *Exec) pureApp(key string, args []SV, t types.Type, reach string, st *State) SV {
	var ts, ss []string
	for _, a := range args {
		if a.K != kTerm {
			return x.freshSV("pure", t, reach, st)
		}
		ts = append(ts, a.Term)
		ss = append(ss, sortOf(a.T))
	}
	fn := x.declFun("ext_"+sanitize(key), ss, sortOf(t))
	r := term(t, x.named("px", sortOf(t), "("+fn+" "+strings.Join(ts, " ")+")"))
	x.typing(r, reach, st)
	return r
}

func (x *Exec) ifaceEffects(fs *FuncSpec) *effects {
	r := &effects{map[string]bool{}, map[string]bool{"any": true}}
	parts := strings.Split(fs.Key, ".")
	if len(parts) == 3 {
		if p := x.w.byName[parts[0]]; p != nil {
			if tn, ok := p.Pkg.Scope().Lookup(parts[1]).(*types.TypeName); ok {
				if it, ok := tn.Type().Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						if it.Method(i).Name() == parts[2] {
							for _, t := range x.w.implementers(tn.Type()) {
								if g := x.w.methodOf(t, it.Method(i)); g != nil {
									e := x.effectsOf(g)
									for h := range e.heaps {
										r.heaps[h] = true
									}
									for a := range e.allocs {
										r.allocs[a] = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return r
}

// callHavoc gives one heap its value after a modular call.
func (x *Exec) callHavoc(st, ns *State, h string, perm []string, eff *effects, oldNxt, reach string, pos token.Pos, callee string) {
	if x.w.finals[h] {
		return
	}
	srt := x.heapSortOf(h)
	if srt == "" {
		return
	}
	cur := x.heap(st, h, srt)
	whole := false
	for _, p := range perm {
		if p == "*" {
			whole = true
		}
	}
	if whole || !strings.HasPrefix(srt, "(Array Int ") {
		ns.h[h] = x.fresh(h, srt)
		x.record(h, "?")
		if _, ghost := x.sp.ghosts[h]; !ghost || true {
			if !x.frameAny(h) {
				x.oblig(reach, "false", "frame", []string{"frame"}, pos, "call of "+callee+" may change "+h+" arbitrarily but the contract does not allow it")
			}
		}
		return
	}
	esort := strings.TrimSuffix(strings.TrimPrefix(srt, "(Array Int "), ")")
	allocs := strings.HasPrefix(h, "E_") || h == "frz" || h == "Buffer.content" || strings.HasPrefix(h, "M_") || eff.allocs["F:"+h]
	var refs, tails []string
	seen := map[string]bool{}
	for _, p := range perm {
		if seen[p] {
			continue
		}
		seen[p] = true
		if strings.HasPrefix(p, "tail ") {
			tails = append(tails, p)
		} else {
			refs = append(refs, p)
		}
	}
	for _, r := range refs {
		if h != "frz" {
			if c := x.frameOK(h, r); c != "true" && !x.newRefs[r] {
				x.oblig(reach, c, "frame", []string{"frame"}, pos, "call of "+callee+" changes "+h+" of an object that the contract does not allow to change")
			}
		} else if !x.newRefs[r] {
			// freezing an argument list is only a restriction on later writes
		}
		x.record(h, r)
	}
	for _, t := range tails {
		f := strings.SplitN(t, "\x00", 3)
		if c := x.elemFrameOK(h, f[1], f[2]); c != "true" {
			x.oblig(reach, c, "frame", []string{"frame"}, pos, "call of "+callee+" may append in place to a list that the contract does not allow to change")
		}
		x.record(h, f[1])
	}
	if !allocs && len(tails) == 0 {
		t := cur
		for _, r := range refs {
			t = store(t, r, x.fresh("e_"+lastName(h), esort))
		}
		ns.h[h] = x.named(h, srt, t)
		return
	}
	x.record(h, "fresh")
	n := x.fresh(h, srt)
	ns.h[h] = n
	cond := []string{"(< q " + oldNxt + ")"}
	for _, r := range refs {
		if h == "frz" {
			cond = append(cond, or("(<= q 0)", not(eq("q", r)))) // an empty list has no storage to freeze
			continue
		}
		cond = append(cond, not(eq("q", r)))
	}
	for _, t := range tails {
		f := strings.SplitN(t, "\x00", 3)
		cond = append(cond, not(eq("q", f[1])))
		x.assume("true", fmt.Sprintf("(forall ((k Int)) (! (=> (< k %s) (= (select (select %s %s) k) (select (select %s %s) k))) :pattern ((select (select %s %s) k))))", f[2], n, f[1], cur, f[1], n, f[1]))
	}
	x.assume("true", fmt.Sprintf("(forall ((q Int)) (! (=> %s (= (select %s q) (select %s q))) :pattern ((select %s q))))", and(cond...), n, cur, n))
}

func (x *Exec) frameAny(h string) bool {
	for _, r := range x.frames[h] {
		if r == "*" {
			return true
		}
	}
	return false
}

// heapSortOf finds the sort of a heap by name even before its first use.
func (x *Exec) heapSortOf(h string) string {
	if s := x.sorts["heap:"+h]; s != "" {
		return s
	}
	if s, ok := x.sp.ghosts[h]; ok {
		return s
	}
	switch h {
	case "frz":
		return "(Array Int Int)"
	case "Buffer.content":
		return "(Array Int Str)"
	}
	return x.w.heapSorts[h]
}

func (x *Exec) fieldRef(env *Env, m Mod) (string, string, error) {
	return x.fieldRefExpr(env, m.Expr)
}

// ---- builtins ----

func (x *Exec) builtin(fr *frame, bi *ssa.Builtin, cm *ssa.CallCommon, rt types.Type, pos token.Pos, reach string, st *State) (SV, string, *State) {
	arg := func(i int) SV { return x.val(fr, cm.Args[i], st) }
	switch bi.Name() {
	case "len", "cap":
		a := arg(0)
		switch u := cm.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			t := "(slen " + a.Term + ")"
			x.assume(reach, "(<= 0 "+t+")")
			return term(rt, t), reach, st
		case *types.Slice:
			if bi.Name() == "cap" {
				return term(rt, "(scap "+a.Term+")"), reach, st
			}
			return term(rt, x.slen(a.Term)), reach, st
		case *types.Map:
			if g := x.constMapOf(cm.Args[0]); g != nil {
				return term(rt, fmt.Sprint(len(g.keys))), reach, st
			}
			r := x.freshSV("maplen", rt, reach, st)
			x.assume(reach, "(<= 0 "+r.Term+")")
			return r, reach, st
		case *types.Pointer:
			if at, ok := u.Elem().Underlying().(*types.Array); ok {
				return term(rt, fmt.Sprint(at.Len())), reach, st
			}
		}
		return x.freshSV("len", rt, reach, st), reach, st
	case "append":
		v, s2 := x.appendTo(arg(0), arg(1), cm.Args[0].Type(), cm.Args[1].Type(), rt, pos, reach, st)
		return v, reach, s2
	case "recover":
		if x.recoverVal == "" {
			return term(tAny, "vnil"), reach, st
		}
		return term(tAny, x.recoverVal), reach, st
	case "print", "println":
		return SV{K: kTuple}, reach, st
	case "ssa:wrapnilchk":
		return arg(0), reach, st
	case "copy":
		// copy(dst, src): unknown contents
		et := cm.Args[0].Type().Underlying().(*types.Slice).Elem()
		h, s := x.elemHeapOf(et)
		d := arg(0)
		cur := x.heap(st, h, arr2(s))
		b := x.sbase(d.Term)
		if !x.newRefs[b] {
			x.oblig(reach, x.elemFrameOK(h, b, "0"), "frame", []string{"frame"}, pos, "copy into a list that the contract does not allow to change")
			x.oblig(reach, "(= "+sel(x.heap(st, "frz", "(Array Int Int)"), b)+" 0)", "frame", []string{"C04", "frame"}, pos, "copy into a list that is part of an immutable node")
		}
		src := arg(1)
		n := x.fresh("ncopy", "Int")
		if sortOf(cm.Args[1].Type()) == "Str" {
			x.setHeap(st, h, arr2(s), store(cur, b, x.fresh("cp", "(Array Int "+s+")")), b)
			x.assume(reach, fmt.Sprintf("(= %s (ite (< %s (slen %s)) %s (slen %s)))", n, x.slen(d.Term), src.Term, x.slen(d.Term), src.Term))
			return term(rt, n), reach, st
		}
		na := x.fresh("cp", "(Array Int "+s+")")
		x.assume(reach, fmt.Sprintf("(= %s (ite (< %s %s) %s %s))", n, x.slen(d.Term), x.slen(src.Term), x.slen(d.Term), x.slen(src.Term)))
		x.assume(reach, fmt.Sprintf("(forall ((k Int)) (! (= (select %s k) (ite (and (<= 0 k) (< k %s)) (select (select %s %s) k) (select (select %s %s) k))) :pattern ((select %s k))))", na, n, cur, x.sbase(src.Term), cur, b, na))
		x.setHeap(st, h, arr2(s), store(cur, b, na), b)
		return term(rt, n), reach, st
	case "delete":
		mt := cm.Args[0].Type().Underlying().(*types.Map)
		has, _ := x.mapHeaps(st, mt)
		hn, _ := mapHeapNames(mt)
		m, k := arg(0), arg(1)
		if c := x.frameOK(hn, m.Term); c != "true" && !x.newRefs[m.Term] {
			x.oblig(reach, c, "frame", []string{"frame"}, pos, "delete from a map that the contract does not allow to change")
		}
		kt := k.Term
		if _, ok := mt.Key().Underlying().(*types.Interface); ok {
			kt = x.box(k, reach)
		}
		x.setHeap(st, hn, x.sorts["heap:"+hn], store(has, m.Term, store(sel(has, m.Term), kt, "false")), m.Term)
		return SV{K: kTuple}, reach, st
	}
	x.unsupported(reach, pos, "builtin "+bi.Name())
	if rt == nil {
		return SV{K: kTuple}, reach, st
	}
	return x.freshSV("bi", rt, reach, st), reach, st
}

func (x *Exec) constMapOf(v ssa.Value) *constMap {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return x.w.constMaps[g]
		}
	}
	return nil
}

// appendTo models append(s, t...): in place when the capacity suffices, otherwise a copy in a fresh array.
func (x *Exec) appendTo(s, t SV, stp, ttp types.Type, rt types.Type, pos token.Pos, reach string, st *State) (SV, *State) {
	et := stp.Underlying().(*types.Slice).Elem()
	h, es := x.elemHeapOf(et)
	cur := x.heap(st, h, arr2(es))
	base, l := x.sbase(s.Term), x.slen(s.Term)
	var tl string
	strSrc := false
	if sortOf(ttp) == "Str" {
		tl = "(slen " + t.Term + ")"
		strSrc = true
	} else {
		tl = x.slen(t.Term)
	}
	ref := x.newArray(st, "app", rt.Underlying().(*types.Slice).Elem())
	delete(x.newRefs, ref)
	inpl := x.named("inplace", "Bool", fmt.Sprintf("(<= (+ %s %s) (scap %s))", l, tl, s.Term))
	frz := x.heap(st, "frz", "(Array Int Int)")
	wr := and(reach, inpl, fmt.Sprintf("(< 0 %s)", tl))
	if !x.newRefs[base] {
		x.oblig(wr, fmt.Sprintf("(>= %s (select %s %s))", l, frz, base), "frame", []string{"C04", "frame"}, pos, "append writes into a list that is already part of an immutable node")
		if c := x.elemFrameOK(h, base, l); c != "true" {
			x.oblig(wr, c, "frame", []string{"frame"}, pos, "append writes into a list that the contract does not allow to change")
		}
	}
	tgt := x.named("tgt", "Int", ite(inpl, base, ref))
	nl := x.named("nl", "Int", fmt.Sprintf("(+ %s %s)", l, tl))
	nc := x.fresh("cap", "Int")
	x.assume("true", fmt.Sprintf("(and (=> %s (= %s (scap %s))) (=> (not %s) (>= %s %s)))", inpl, nc, s.Term, inpl, nc, nl))
	// new contents
	var na string
	single := tl == "1"
	oldArr := sel(cur, base)
	if single && !strSrc {
		el := sel(sel(cur, x.sbase(t.Term)), "0")
		na = store(oldArr, l, el)
	} else {
		n := x.fresh("appd", "(Array Int "+es+")")
		var src string
		if strSrc {
			src = fmt.Sprintf("(sat %s (- k %s))", t.Term, l)
		} else {
			src = sel(sel(cur, x.sbase(t.Term)), "(- k "+l+")")
		}
		x.assume("true", fmt.Sprintf("(forall ((k Int)) (! (= (select %s k) (ite (and (<= %s k) (< k %s)) %s (select %s k))) :pattern ((select %s k))))", n, l, nl, src, oldArr, n))
		na = n
	}
	x.setHeap(st, h, arr2(es), store(cur, tgt, na), base)
	x.record(h, "fresh")
	// the new array is not frozen
	x.setHeap(st, "frz", "(Array Int Int)", store(frz, ref, "0"), "fresh")
	r := x.named("app", "Slice", fmt.Sprintf("(mkslice %s %s %s)", tgt, nl, nc))
	return term(rt, r), st
}

func (w *World) boxed(t types.Type) bool { return w.boxedTypes[typeStr(t)] }

func (w *World) boxedSome(it types.Type) bool {
	for _, t := range w.implementers(it) {
		if w.boxed(t) {
			return true
		}
	}
	return false
}

// findBoxed collects the concrete types that some code of the module converts to an interface.
func (w *World) findBoxed() {
	w.boxedTypes = map[string]bool{}
	w.heapSorts = map[string]string{}
	for _, f := range w.allModuleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					w.boxedTypes[typeStr(in.X.Type())] = true
				}
				if v, ok := in.(ssa.Value); ok && v.Type() != nil {
					switch u := v.Type().Underlying().(type) {
					case *types.Slice:
						if s := sortOf(u.Elem()); s != "" {
							w.heapSorts[elemHeap(u.Elem())] = arr2(s)
						}
					case *types.Map:
						hn, vn := mapHeapNames(u)
						ks, vs := sortOf(u.Key()), sortOf(u.Elem())
						if ks == "" {
							ks = "Opq"
						}
						if vs == "" {
							vs = "Opq"
						}
						w.heapSorts[hn] = "(Array Int (Array " + ks + " Bool))"
						w.heapSorts[vn] = "(Array Int (Array " + ks + " " + vs + "))"
					case *types.Pointer:
						if at, ok := u.Elem().Underlying().(*types.Array); ok {
							if s := sortOf(at.Elem()); s != "" {
								w.heapSorts[elemHeap(at.Elem())] = arr2(s)
							}
						}
					}
				}
			}
		}
	}
	for _, p := range w.pkgs {
		for _, nm := range p.Pkg.Scope().Names() {
			if tn, ok := p.Pkg.Scope().Lookup(nm).(*types.TypeName); ok {
				if n, s := structOf(tn.Type()); n != nil && s != nil && n.Obj() == tn {
					leafFields(n, s, func(h string, fv *types.Var) {
						if so := sortOf(fv.Type()); so != "" {
							w.heapSorts[h] = "(Array Int " + so + ")"
						}
					})
				}
			}
		}
	}
}

func (w *World) allModuleFuncs() []*ssa.Function {
	if w.allFns != nil {
		return w.allFns
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		w.allFns = append(w.allFns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range w.funcs {
		add(f)
	}
	sort.Slice(w.allFns, func(i, j int) bool { return w.allFns[i].String() < w.allFns[j].String() })
	return w.allFns
}

// ---- function values passed to functions under contract ----

type callback struct {
	fn  SV
	fs  *FuncSpec
	sig *types.Signature
}

// callbacks: the closures among the arguments whose parameter type has a contract.
func (x *Exec) callbacks(sig *types.Signature, args []SV, hasRecv bool) []callback {
	var r []callback
	for i, a := range args {
		if a.K != kClosure {
			continue
		}
		k := i
		if hasRecv {
			k--
		}
		if k < 0 || k >= sig.Params().Len() {
			continue
		}
		t := sig.Params().At(k).Type()
		if fs := x.sp.funcTypeSpec(t); fs != nil {
			r = append(r, callback{a, fs, t.Underlying().(*types.Signature)})
		}
	}
	return r
}

// callbackInvs: what holds whenever the function value is called.
func (x *Exec) callbackInvs(reach string, st *State, pos token.Pos, when string, goal bool) {
	if x.fspec == nil || x.ent == nil {
		return
	}
	env := *x.ent
	env.st = st
	env.old = x.entry
	for i := range x.fspec.Callbacks {
		c := &x.fspec.Callbacks[i]
		x.feGoal = goal
		t, err := env.boolExpr(c.Expr)
		x.feGoal = false
		if err != nil {
			x.unsupported(reach, pos, "callback "+c.Src+": "+err.Error())
			continue
		}
		if goal {
			tags := c.Tags
			if len(tags) == 0 {
				tags = x.sp.safetyTags(x.fnKey)
			}
			x.oblig(reach, t, "callback", tags, pos, c.Src+" "+when)
		} else {
			x.assume(reach, t)
		}
	}
}

// callbackHavoc: a heap that the function value may change has changed in any way that this function itself may change it
// (the body of the function value is checked against the same frame).
func (x *Exec) callbackHavoc(st, ns *State, h string) {
	srt := x.heapSortOf(h)
	if srt == "" || x.w.finals[h] {
		return
	}
	cur := x.heap(st, h, srt)
	n := x.fresh(h, srt)
	ns.h[h] = n
	x.record(h, "?")
	if !strings.HasPrefix(srt, "(Array Int ") {
		return
	}
	if h == "frz" {
		return
	}
	cond := []string{"(< q " + x.entry.h["nxt"] + ")"}
	for _, r := range x.frames[h] {
		if r == "*" {
			return
		}
		if strings.HasPrefix(r, "tail ") {
			f := strings.SplitN(r, "\x00", 3)
			cond = append(cond, not(eq("q", f[1])))
			x.assume("true", fmt.Sprintf("(forall ((k Int)) (! (=> (< k %s) (= (select (select %s %s) k) (select (select %s %s) k))) :pattern ((select (select %s %s) k))))", f[2], n, f[1], cur, f[1], n, f[1]))
			continue
		}
		cond = append(cond, not(eq("q", r)))
	}
	x.assume("true", fmt.Sprintf("(forall ((q Int)) (! (=> %s (= (select %s q) (select %s q))) :pattern ((select %s q))))", and(cond...), n, cur, n))
}

// checkCallback verifies the body of a function value against the contract of its type, in any state it may be called in.
func (x *Exec) checkCallback(cb callback, st *State, heaps map[string]bool, pos token.Pos, reach string) {
	for _, b := range cb.fn.Fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if _, ok := s.Addr.(*ssa.FreeVar); ok {
					x.unsupported(reach, pos, "function value that changes a variable of its surroundings")
					return
				}
			}
		}
	}
	cs := st.clone()
	n := x.fresh("nxt", "Int")
	x.assume("true", "(<= "+st.h["nxt"]+" "+n+")")
	cs.h["nxt"] = n
	for _, h := range sortedKeys(heaps) {
		x.callbackHavoc(st, cs, h)
	}
	for _, h := range sortedKeys(heaps) {
		x.frozenFrame(st, cs, h)
	}
	if x.sorts["heap:frz"] != "" && st.h["frz"] != cs.h["frz"] && x.dry == 0 {
		x.assume("true", fmt.Sprintf("(forall ((q Int)) (! (<= (select %s q) (select %s q)) :pattern ((select %s q))))", x.heap(st, "frz", "(Array Int Int)"), cs.h["frz"], cs.h["frz"]))
	}
	on := x.fresh("called", "Bool")
	r := x.named("cb", "Bool", and(reach, on))
	x.callbackInvs(r, cs, pos, "", false)
	var args []SV
	for _, p := range cb.fn.Fn.Params {
		args = append(args, x.freshSV("cb_"+p.Name(), p.Type(), r, cs))
	}
	env := x.callEnv(cb.fs, nil, cb.sig, append([]SV{cb.fn}, args...), true, cs)
	env.old = cs
	for i := range cb.fs.Requires {
		c := &cb.fs.Requires[i]
		if t, err := env.boolExpr(c.Expr); err != nil {
			x.unsupported(r, pos, "requires of "+cb.fs.Key+": "+c.Src+": "+err.Error())
		} else {
			x.assume(r, t)
		}
	}
	perm, err := x.permitted(cb.fs, env, nil)
	if err != nil {
		x.unsupported(r, pos, "modifies of "+cb.fs.Key+": "+err.Error())
		return
	}
	saved := x.frames
	x.frames = map[string][]string{}
	for h, rs := range saved {
		x.frames[h] = append([]string{}, rs...)
	}
	for h, rs := range perm {
		x.frames[h] = append(x.frames[h], rs...)
	}
	_, r2, es := x.static(cb.fn.Fn, args, cb.fn.Binds, nil, pos, r, cs.clone())
	x.frames = saved
	if r2 == "false" {
		return
	}
	env2 := *env
	env2.st = es
	if len(cb.fs.Defines) > 0 {
		// the call is recorded in the ghost state
		es = es.clone()
		env2.st = es
		for _, m := range cb.fs.Modifies {
			if m.Kind == "ghost" {
				es.h[m.Name] = x.fresh(m.Name, x.heapSortOf(m.Name))
			}
		}
		for i := range cb.fs.Defines {
			c := &cb.fs.Defines[i]
			t, err := env2.boolExpr(c.Expr)
			if err != nil {
				x.unsupported(r2, pos, "defines of "+cb.fs.Key+": "+c.Src+": "+err.Error())
				continue
			}
			x.assume(r2, t)
		}
	}
	for i := range cb.fs.Ensures {
		c := &cb.fs.Ensures[i]
		x.feGoal = true
		t, err := env2.boolExpr(c.Expr)
		x.feGoal = false
		if err != nil {
			x.unsupported(r2, pos, "ensures of "+cb.fs.Key+": "+c.Src+": "+err.Error())
			continue
		}
		tags := c.Tags
		if len(tags) == 0 {
			tags = x.sp.safetyTags(x.fnKey)
		}
		x.oblig(r2, t, "callback", tags, pos, "the function value passed here ensures "+c.Src)
	}
	x.callbackInvs(r2, es, pos, "after the function value was called", true)
}

// sharesProp: does the contract of the function under verification have clauses of a property that the clause belongs to?
func (x *Exec) sharesProp(c *Clause) bool {
	if x.fspec == nil {
		return false
	}
	for _, t := range c.Tags {
		if x.sp.mentions(x.fspec, t) {
			return true
		}
	}
	return false
}
