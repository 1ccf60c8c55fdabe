package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) elemHeapOf(t types.Type) (string, string) {
	s := sortOf(t)
	return elemHeap(t), s
}

func arr2(s string) string { return "(Array Int (Array Int " + s + "))" }

func (x *Exec) loadElem(st *State, et types.Type, base, idx string) SV {
	h, s := x.elemHeapOf(et)
	if s == "" {
		return x.freshSV("elem", et, "true", st)
	}
	return term(et, sel(sel(x.heap(st, h, arr2(s)), base), idx))
}

func (x *Exec) storeElem(st *State, et types.Type, base, idx, v, reach string, pos token.Pos, check bool) {
	h, s := x.elemHeapOf(et)
	cur := x.heap(st, h, arr2(s))
	if check {
		frz := x.heap(st, "frz", "(Array Int Int)")
		if !(x.newRefs[base]) {
			x.oblig(reach, fmt.Sprintf("(>= %s (select %s %s))", idx, frz, base), "frame", []string{"C04", "frame"}, pos, "write to an element of a list that is already part of an immutable node")
			if c := x.elemFrameOK(h, base, idx); c != "true" {
				x.oblig(reach, c, "frame", []string{"frame"}, pos, "write to "+h+" outside what the contract allows to change")
			}
		}
	}
	x.setHeap(st, h, arr2(s), store(cur, base, store(sel(cur, base), idx, v)), base)
}

// elemFrameOK: may element idx of the backing array base be written by the function under verification?
func (x *Exec) elemFrameOK(h, base, idx string) string {
	// a list without storage (base 0) is never written in place
	alts := []string{"(>= " + base + " " + x.entry.h["nxt"] + ")", "(<= " + base + " 0)"}
	for _, r := range x.frames[h] {
		if r == "*" {
			return "true"
		}
		if strings.HasPrefix(r, "tail ") {
			f := strings.SplitN(r, "\x00", 3)
			alts = append(alts, and(eq(f[1], base), "(>= "+idx+" "+f[2]+")"))
			continue
		}
		alts = append(alts, eq(r, base))
	}
	return or(alts...)
}

func (x *Exec) mapHeaps(st *State, m *types.Map) (string, string) {
	ks, vs := sortOf(m.Key()), sortOf(m.Elem())
	if ks == "" {
		ks = "Opq"
	}
	if vs == "" {
		vs = "Opq"
	}
	n := "M_" + sanitize(typeStr(m.Key())) + "_" + sanitize(typeStr(m.Elem()))
	return x.heap(st, n+".has", "(Array Int (Array "+ks+" Bool))"), x.heap(st, n+".val", "(Array Int (Array "+ks+" "+vs+"))")
}

func mapHeapNames(m *types.Map) (string, string) {
	n := "M_" + sanitize(typeStr(m.Key())) + "_" + sanitize(typeStr(m.Elem()))
	return n + ".has", n + ".val"
}

// loadGlobal reads a package-level variable.
func (x *Exec) loadGlobal(g *ssa.Global, st *State) SV {
	if v, ok := x.globals[g.String()]; ok {
		return v
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	name := "G_" + sanitize(g.Pkg.Pkg.Name()+"_"+g.Name())
	s := sortOf(t)
	var v SV
	if s == "" {
		v = x.zero(t)
		if v.K != kStruct {
			v = SV{K: kOpaqueFn, T: t, Term: "0"}
		}
	} else {
		if !x.decls[name] {
			x.decls[name] = true
			x.items = append(x.items, Item{Raw: "(declare-const " + name + " " + s + ")"})
			if s == "Int" {
				switch t.Underlying().(type) {
				case *types.Pointer, *types.Map:
					x.items = append(x.items, Item{Raw: fmt.Sprintf("(assert (and (< 0 %s) (< %s %s)))", name, name, x.entry.h["nxt"])})
				}
			}
		}
		v = term(t, name)
	}
	if !x.w.globInit[g] {
		x.mutGlobals[g.String()] = true
	}
	x.globals[g.String()] = v
	return v
}

func (x *Exec) instr(fr *frame, b *ssa.BasicBlock, in ssa.Instruction, reach string, st *State) (string, *State) {
	st.reach = reach
	set := func(v ssa.Value, s SV) {
		if s.K == kTerm && s.T == nil {
			s.T = v.Type()
		}
		fr.vals[v] = s
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		switch u := et.Underlying().(type) {
		case *types.Struct:
			n, _ := et.(*types.Named)
			ref := x.newRef(st, "new_"+shortType(et))
			if n != nil && inModule(n.Obj().Pkg()) {
				x.building[ref] = true
				stored := fr.stored[in]
				leafFields(n, u, func(h string, f *types.Var) {
					if stored[h] {
						return
					}
					s := sortOf(f.Type())
					if s == "" {
						return
					}
					z := x.zero(f.Type())
					if x.w.finals[h] {
						fn := x.declFun("F_"+sanitize(h), []string{"Int"}, s)
						x.assume(reach, eq("("+fn+" "+ref+")", z.Term))
					} else {
						x.setHeap(st, h, "(Array Int "+s+")", store(x.heap(st, h, "(Array Int "+s+")"), ref, z.Term), ref)
					}
				})
			}
			set(in, term(in.Type(), ref))
		case *types.Array:
			ref := x.newArray(st, "arr", u.Elem())
			h, s := x.elemHeapOf(u.Elem())
			if s == "" {
				x.unsupported(reach, in.Pos(), "array of structs")
				return reach, st
			}
			z := x.zero(u.Elem())
			cur := x.heap(st, h, arr2(s))
			x.setHeap(st, h, arr2(s), store(cur, ref, x.constArray(s, z.Term)), ref)
			set(in, term(in.Type(), ref))
		default:
			x.cellN++
			st.cells[x.cellN] = x.zero(et)
			x.recordCell(x.cellN)
			set(in, SV{K: kAddr, T: in.Type(), A: &Addr{Kind: "cell", Cell: x.cellN, T: et}})
		}
	case *ssa.Store:
		x.store(fr, b, in, reach, st)
	case *ssa.UnOp:
		return x.unop(fr, in, reach, st, set)
	case *ssa.BinOp:
		set(in, x.binop(in, x.val(fr, in.X, st), x.val(fr, in.Y, st), reach, st))
	case *ssa.FieldAddr:
		n, s := structOf(in.X.Type())
		base := x.val(fr, in.X, st)
		f := s.Field(in.Field)
		if base.K != kTerm {
			x.unsupported(reach, in.Pos(), "field address")
			set(in, x.freshSV("undef", in.Type(), reach, st))
			return reach, st
		}
		if !x.newRefs[base.Term] {
			x.safety(reach, "(< 0 "+base.Term+")", in.Pos(), "nil pointer dereference of a "+typeStr(in.X.Type()))
		}
		if _, fs := structOf(f.Type()); fs != nil && !isPtr(f.Type()) {
			set(in, term(in.Type(), base.Term))
			if n != nil && f.Embedded() {
				x.assumeInv(n, base.Term, reach, st)
			}
			return reach, st
		}
		set(in, SV{K: kAddr, T: in.Type(), A: &Addr{Kind: "field", Ref: base.Term, Own: n, Heap: fieldHeap(n, f), T: f.Type(), FV: f}})
		if n != nil {
			x.assumeInv(n, base.Term, reach, st)
		}
	case *ssa.Field:
		v := x.val(fr, in.X, st)
		if v.K == kStruct && in.Field < len(v.Fs) {
			set(in, v.Fs[in.Field])
		} else {
			set(in, x.freshSV("field", in.Type(), reach, st))
		}
	case *ssa.IndexAddr:
		base := x.val(fr, in.X, st)
		idx := x.val(fr, in.Index, st).Term
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			x.safety(reach, fmt.Sprintf("(and (<= 0 %s) (< %s (slen_ %s)))", idx, idx, base.Term), in.Pos(), "index out of range")
			set(in, SV{K: kAddr, T: in.Type(), A: &Addr{Kind: "elem", Ref: x.sbase(base.Term), Idx: idx, T: u.Elem()}})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.safety(reach, fmt.Sprintf("(and (<= 0 %s) (< %s %d))", idx, idx, at.Len()), in.Pos(), "index out of range")
			set(in, SV{K: kAddr, T: in.Type(), A: &Addr{Kind: "elem", Ref: base.Term, Idx: idx, T: at.Elem()}})
		}
	case *ssa.Index:
		v := x.val(fr, in.X, st)
		idx := x.val(fr, in.Index, st).Term
		if sortOf(in.X.Type()) == "Str" {
			x.safety(reach, fmt.Sprintf("(and (<= 0 %s) (< %s (slen %s)))", idx, idx, v.Term), in.Pos(), "index out of range")
			set(in, term(in.Type(), "(sat "+v.Term+" "+idx+")"))
			x.assume(reach, fmt.Sprintf("(and (<= 0 (sat %s %s)) (<= (sat %s %s) 255))", v.Term, idx, v.Term, idx))
			return reach, st
		}
		x.unsupported(reach, in.Pos(), "array index")
		set(in, x.freshSV("idx", in.Type(), reach, st))
	case *ssa.Lookup:
		x.lookup(fr, in, reach, st, set)
	case *ssa.MakeSlice:
		l := x.val(fr, in.Len, st).Term
		c := x.val(fr, in.Cap, st).Term
		x.safety(reach, fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", l, l, c), in.Pos(), "make with a bad length or capacity")
		et := in.Type().Underlying().(*types.Slice).Elem()
		ref := x.newArray(st, "mk", et)
		h, s := x.elemHeapOf(et)
		if s != "" {
			z := x.zero(et)
			x.setHeap(st, h, arr2(s), store(x.heap(st, h, arr2(s)), ref, x.constArray(s, z.Term)), ref)
		}
		x.zeroFrz(st, ref)
		set(in, term(in.Type(), fmt.Sprintf("(mkslice %s %s %s)", ref, l, c)))
	case *ssa.Slice:
		set(in, x.slice(fr, in, reach, st))
	case *ssa.MakeInterface:
		v := x.val(fr, in.X, st)
		if v.T == nil || v.K == kTerm {
			v.T = in.X.Type()
		}
		if v.K == kTerm && boxCtor(v.T) == "vref" && isPtr(v.T) && !x.newRefs[v.Term] {
			x.safety(reach, "(< 0 "+v.Term+")", in.Pos(), "nil pointer stored in an interface")
		}
		if v.K == kClosure {
			fr.vals[in] = SV{K: kTerm, T: in.Type(), Term: fmt.Sprintf("(vopq %d %d)", x.w.tag(v.T), 7)}
			return reach, st
		}
		set(in, term(in.Type(), x.box(v, reach)))
	case *ssa.ChangeInterface:
		v := x.val(fr, in.X, st)
		v.T = in.Type()
		set(in, v)
	case *ssa.ChangeType:
		v := x.val(fr, in.X, st)
		v.T = in.Type()
		set(in, v)
	case *ssa.Convert:
		set(in, x.convert(in, x.val(fr, in.X, st), reach, st))
	case *ssa.TypeAssert:
		x.typeAssert(fr, in, reach, st, set)
	case *ssa.Extract:
		v := x.val(fr, in.Tuple, st)
		if v.K == kTuple && in.Index < len(v.Fs) {
			r := v.Fs[in.Index]
			if r.T == nil || r.K == kTerm {
				r.T = in.Type()
			}
			set(in, r)
		} else {
			set(in, x.freshSV("x", in.Type(), reach, st))
		}
	case *ssa.MakeClosure:
		c := SV{K: kClosure, T: in.Type(), Fn: in.Fn.(*ssa.Function)}
		for _, bd := range in.Bindings {
			c.Binds = append(c.Binds, x.val(fr, bd, st))
		}
		set(in, c)
	case *ssa.MakeMap:
		ref := x.newRef(st, "map")
		mt := in.Type().Underlying().(*types.Map)
		has, _ := x.mapHeaps(st, mt)
		hn, _ := mapHeapNames(mt)
		ks := sortOf(mt.Key())
		if ks == "" {
			ks = "Opq"
		}
		x.setHeap(st, hn, x.sorts["heap:"+hn], store(has, ref, "((as const (Array "+ks+" Bool)) false)"), ref)
		set(in, term(in.Type(), ref))
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		m := x.val(fr, in.Map, st)
		k := x.val(fr, in.Key, st)
		v := x.val(fr, in.Value, st)
		kt := k.Term
		if _, ok := mt.Key().Underlying().(*types.Interface); ok {
			kt = x.box(k, reach)
			x.safety(reach, "(hashable "+kt+")", in.Pos(), "map key of an unhashable type")
		}
		if !x.newRefs[m.Term] {
			x.safety(reach, "(< 0 "+m.Term+")", in.Pos(), "assignment to an entry of a nil map")
		}
		vt := v.Term
		if _, ok := mt.Elem().Underlying().(*types.Interface); ok {
			vt = x.box(v, reach)
		}
		has, val := x.mapHeaps(st, mt)
		hn, vn := mapHeapNames(mt)
		if !x.newRefs[m.Term] {
			if c := x.frameOK(hn, m.Term); c != "true" {
				x.oblig(reach, c, "frame", []string{"frame"}, in.Pos(), "update of a map that the contract does not allow to change")
			}
		}
		if v.K == kTerm && sortOf(mt.Key()) != "" {
			x.setHeap(st, hn, x.sorts["heap:"+hn], store(has, m.Term, store(sel(has, m.Term), kt, "true")), m.Term)
			if sortOf(mt.Elem()) != "" {
				x.setHeap(st, vn, x.sorts["heap:"+vn], store(val, m.Term, store(sel(val, m.Term), kt, vt)), m.Term)
			}
		}
	case *ssa.Range:
		v := x.val(fr, in.X, st)
		x.cellN++
		st.cells[x.cellN] = term(tInt, "0")
		x.recordCell(x.cellN)
		fr.vals[in] = SV{K: kIter, T: in.X.Type(), Term: v.Term, A: &Addr{Cell: x.cellN}}
		x.iters[x.cellN] = v
	case *ssa.Next:
		it := x.val(fr, in.Iter, st)
		tt := in.Type().(*types.Tuple)
		if it.K != kIter {
			x.unsupported(reach, in.Pos(), "iterator")
			set(in, x.freshSV("next", tt, reach, st))
			return reach, st
		}
		if in.IsString {
			p := st.cells[it.A.Cell].Term
			ok := fmt.Sprintf("(< %s (slen %s))", p, it.Term)
			r := fmt.Sprintf("(rdecat %s %s)", it.Term, p)
			x.runeFacts(it.Term, p, reach)
			set(in, SV{K: kTuple, T: tt, Fs: []SV{term(tBool, ok), term(tInt, p), term(types.Typ[types.Int32], r)}})
			st.cells[it.A.Cell] = term(tInt, x.named("it", "Int", ite(ok, fmt.Sprintf("(+ %s (rszat %s %s))", p, it.Term, p), p)))
			x.recordCell(it.A.Cell)
			return reach, st
		}
		mt := it.T.Underlying().(*types.Map)
		ok := x.fresh("ok", "Bool")
		k := x.freshSV("k", mt.Key(), reach, st)
		v := x.freshSV("mv", mt.Elem(), reach, st)
		if k.K == kTerm {
			has, val := x.mapHeaps(st, mt)
			x.assume(and(reach, ok), sel(sel(has, it.Term), k.Term))
			if v.K == kTerm {
				x.assume(and(reach, ok), eq(v.Term, sel(sel(val, it.Term), k.Term)))
			}
		}
		set(in, SV{K: kTuple, T: tt, Fs: []SV{term(tBool, ok), k, v}})
	case *ssa.Call:
		v, r2, s2 := x.callInstr(fr, in.Common(), in.Type(), in.Pos(), reach, st)
		set(in, v)
		return r2, s2
	default:
		x.unsupported(reach, in.Pos(), fmt.Sprintf("%T", in))
		if v, ok := in.(ssa.Value); ok {
			set(v, x.freshSV("unsup", v.Type(), reach, st))
		}
	}
	return reach, st
}

func shortType(t types.Type) string {
	s := typeStr(t)
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (x *Exec) zeroFrz(st *State, ref string) {
	frz := x.heap(st, "frz", "(Array Int Int)")
	x.setHeap(st, "frz", "(Array Int Int)", store(frz, ref, "0"), ref)
}

// sbase simplifies the base of a constructed slice.
func (x *Exec) sbase(s string) string {
	if strings.HasPrefix(s, "(mkslice ") {
		f := splitArgs(s[9 : len(s)-1])
		if len(f) == 3 {
			return f[0]
		}
	}
	return "(sbase " + s + ")"
}

func (x *Exec) slen(s string) string {
	if strings.HasPrefix(s, "(mkslice ") {
		f := splitArgs(s[9 : len(s)-1])
		if len(f) == 3 {
			return f[1]
		}
	}
	return "(slen_ " + s + ")"
}

func splitArgs(s string) []string {
	var r []string
	d, last := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				if i > last {
					r = append(r, s[last:i])
				}
				last = i + 1
			}
		}
	}
	if last < len(s) {
		r = append(r, s[last:])
	}
	return r
}

func (x *Exec) runeFacts(s, i, reach string) {
	x.assume(reach, fmt.Sprintf("(=> (and (<= 0 %s) (< %s (slen %s))) (runeok %s %s))", i, i, s, s, i))
}

func (x *Exec) store(fr *frame, b *ssa.BasicBlock, in *ssa.Store, reach string, st *State) {
	a := x.val(fr, in.Addr, st)
	v := x.val(fr, in.Val, st)
	init := initAlloc(b, in) != nil
	if v.K == kTerm {
		v.T = in.Val.Type()
	}
	if a.K == kTerm {
		et := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		n, s := structOf(et)
		if s != nil && n != nil && v.K == kStruct && inModule(n.Obj().Pkg()) {
			for i := 0; i < s.NumFields(); i++ {
				x.storeField(st, n, s.Field(i), a.Term, v.Fs[i], reach, in.Pos(), init)
			}
			if !init {
				x.checkInv(n, a.Term, reach, st, in.Pos(), "assignment to")
			}
			return
		}
		if s != nil && v.K == kStruct {
			return
		}
		x.unsupported(reach, in.Pos(), "store through a pointer to "+typeStr(et))
		return
	}
	if a.K != kAddr {
		x.unsupported(reach, in.Pos(), "store")
		return
	}
	switch a.A.Kind {
	case "cell":
		st.cells[a.A.Cell] = v
		x.recordCell(a.A.Cell)
	case "field":
		x.storeField(st, a.A.Own, a.A.FV, a.A.Ref, v, reach, in.Pos(), init)
		if !init {
			x.pendInv(fr, b, in, a.A, reach, st)
		}
	case "elem":
		vt := v.Term
		if v.K != kTerm {
			x.unsupported(reach, in.Pos(), "store of a function value in a list")
			return
		}
		x.storeElem(st, a.A.T, a.A.Ref, a.A.Idx, vt, reach, in.Pos(), true)
	case "global":
		x.oblig(reach, "false", "frame", []string{"C04", "frame"}, in.Pos(), "write to package-level variable "+a.A.G.Name())
	}
}

// pendInv checks the object invariant after a mutation: at the last store to the same object in the block.
func (x *Exec) pendInv(fr *frame, b *ssa.BasicBlock, in *ssa.Store, a *Addr, reach string, st *State) {
	if !x.hasInv(a.Own) || x.building[a.Ref] {
		return
	}
	after := false
	for _, o := range b.Instrs {
		if o == ssa.Instruction(in) {
			after = true
			continue
		}
		if !after {
			continue
		}
		if s2, ok := o.(*ssa.Store); ok {
			if fa, ok := s2.Addr.(*ssa.FieldAddr); ok {
				if fa0, ok := in.Addr.(*ssa.FieldAddr); ok && fa.X == fa0.X {
					return
				}
			}
		}
	}
	x.checkInv(a.Own, a.Ref, reach, st, in.Pos(), "change of")
}

func (x *Exec) unop(fr *frame, in *ssa.UnOp, reach string, st *State, set func(ssa.Value, SV)) (string, *State) {
	v := x.val(fr, in.X, st)
	switch in.Op {
	case token.MUL:
		if v.K == kTerm {
			et := in.X.Type().Underlying().(*types.Pointer).Elem()
			n, s := structOf(et)
			if s != nil {
				if !x.newRefs[v.Term] {
					x.safety(reach, "(< 0 "+v.Term+")", in.Pos(), "nil pointer dereference")
				}
				r := SV{K: kStruct, T: et}
				for i := 0; i < s.NumFields(); i++ {
					if n != nil && inModule(n.Obj().Pkg()) {
						r.Fs = append(r.Fs, x.loadTyped(st, n, s.Field(i), v.Term, reach))
					} else {
						r.Fs = append(r.Fs, x.freshSV("ext", s.Field(i).Type(), reach, st))
					}
				}
				set(in, r)
				return reach, st
			}
			x.unsupported(reach, in.Pos(), "load through a pointer")
			set(in, x.freshSV("ld", in.Type(), reach, st))
			return reach, st
		}
		if v.K != kAddr {
			x.unsupported(reach, in.Pos(), "load")
			set(in, x.freshSV("ld", in.Type(), reach, st))
			return reach, st
		}
		switch v.A.Kind {
		case "cell":
			r := st.cells[v.A.Cell]
			if r.K == kTerm {
				r.T = in.Type()
			}
			fr.vals[in] = r
		case "field":
			r := x.loadTyped(st, v.A.Own, v.A.FV, v.A.Ref, reach)
			if _, ok := v.A.T.Underlying().(*types.Signature); ok {
				fr.vals[in] = SV{K: kOpaqueFn, T: v.A.T, Term: r.Term}
				return reach, st
			}
			if r.K == kTerm {
				r.Term = x.nameHeapRead(r)
			}
			set(in, r)
		case "elem":
			r := x.loadElem(st, v.A.T, v.A.Ref, v.A.Idx)
			if r.K == kTerm {
				r.Term = x.named("el", sortOf(v.A.T), r.Term)
				x.typing(r, reach, st)
				h, srt := x.elemHeapOf(v.A.T)
				switch v.A.T.Underlying().(type) {
				case *types.Interface, *types.Slice, *types.Pointer:
					if x.dry == 0 && srt != "" && !x.newRefs[v.A.Ref] {
						// an element of a list that is as it was at the start is as old as that
						n0 := x.entry.h["nxt"]
						same := "true"
						if !x.unchanged(st, h) && x.entry.h[h] != "" {
							same = eq(sel(st.h[h], v.A.Ref), sel(x.entry.h[h], v.A.Ref))
						}
						x.typing(r, and(reach, "(< "+v.A.Ref+" "+n0+")", same), x.entry)
					}
				}
			}
			set(in, r)
		case "global":
			set(in, x.loadGlobal(v.A.G, st))
		}
	case token.NOT:
		set(in, term(in.Type(), not(v.Term)))
	case token.SUB:
		if sortOf(in.Type()) == "Flt" {
			x.declFun("fneg", []string{"Flt"}, "Flt")
			set(in, term(in.Type(), "(fneg "+v.Term+")"))
		} else {
			set(in, term(in.Type(), "(- "+v.Term+")"))
		}
	default:
		set(in, x.freshSV("unop", in.Type(), reach, st))
	}
	return reach, st
}

func (x *Exec) nameHeapRead(v SV) string {
	if strings.HasPrefix(v.Term, "(select ") {
		return x.named("ld", sortOf(v.T), v.Term)
	}
	return v.Term
}

func (x *Exec) equalSV(a, b SV) (string, error) {
	if a.K == kClosure || b.K == kClosure {
		if a.K == kClosure && b.K == kClosure {
			return "", fmt.Errorf("comparison of functions")
		}
		return "false", nil
	}
	if a.K == kStruct && b.K == kStruct {
		var fs []string
		for i := range a.Fs {
			f, err := x.equalSV(a.Fs[i], b.Fs[i])
			if err != nil {
				return "", err
			}
			fs = append(fs, f)
		}
		return and(fs...), nil
	}
	isNil := func(s SV) bool {
		if s.T == nil {
			return false
		}
		bt, ok := s.T.Underlying().(*types.Basic)
		return ok && bt.Kind() == types.UntypedNil
	}
	isIf := func(s SV) bool {
		if s.T == nil {
			return false
		}
		_, ok := s.T.Underlying().(*types.Interface)
		return ok
	}
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) && a.T != nil {
		switch a.T.Underlying().(type) {
		case *types.Slice:
			return eq("(sbase "+a.Term+")", "0"), nil
		case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
			return eq(a.Term, "0"), nil
		}
		return eq(a.Term, "vnil"), nil
	}
	if isIf(a) != isIf(b) && a.T != nil && b.T != nil {
		if isIf(a) {
			return eq(a.Term, x.box(b, "true")), nil
		}
		return eq(b.Term, x.box(a, "true")), nil
	}
	if a.T != nil {
		if _, ok := a.T.Underlying().(*types.Slice); ok {
			if b.Term == "(mkslice 0 0 0)" {
				return and(eq("(sbase "+a.Term+")", "0"), eq("(slen_ "+a.Term+")", "0")), nil
			}
			if a.Term == "(mkslice 0 0 0)" {
				return and(eq("(sbase "+b.Term+")", "0"), eq("(slen_ "+b.Term+")", "0")), nil
			}
		}
	}
	return eq(a.Term, b.Term), nil
}

func (x *Exec) binop(in *ssa.BinOp, a, b SV, reach string, st *State) SV {
	t := in.Type()
	if a.K == kTerm {
		a.T = in.X.Type()
	}
	if b.K == kTerm {
		b.T = in.Y.Type()
	}
	switch in.Op {
	case token.EQL, token.NEQ:
		f, err := x.equalSV(a, b)
		if err != nil {
			x.unsupported(reach, in.Pos(), err.Error())
			return x.freshSV("cmp", t, reach, st)
		}
		if in.Op == token.NEQ {
			f = not(f)
		}
		return term(t, f)
	}
	s := sortOf(in.X.Type())
	if a.K != kTerm || b.K != kTerm {
		return x.freshSV("bin", t, reach, st)
	}
	switch s {
	case "Int":
		switch in.Op {
		case token.ADD, token.SUB, token.MUL:
			r := fmt.Sprintf("(%s %s %s)", in.Op, a.Term, b.Term)
			if bt, ok := t.Underlying().(*types.Basic); ok {
				switch bt.Kind() {
				case types.Uint8:
					r = "(mod " + r + " 256)"
				}
			}
			return term(t, r)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return term(t, fmt.Sprintf("(%s %s %s)", in.Op, a.Term, b.Term))
		case token.QUO, token.REM:
			x.safety(reach, "(not (= "+b.Term+" 0))", in.Pos(), "division by zero")
			op := "div"
			if in.Op == token.REM {
				op = "mod"
			}
			if _, ok := in.Y.(*ssa.Const); ok {
				// truncated division agrees with div for a non-negative dividend
				f := x.freshSV("quo", t, reach, st)
				x.assume(reach, implies("(<= 0 "+a.Term+")", eq(f.Term, fmt.Sprintf("(%s %s %s)", op, a.Term, b.Term))))
				return f
			}
			return x.freshSV("quo", t, reach, st)
		}
		return x.freshSV("bits", t, reach, st)
	case "Str":
		switch in.Op {
		case token.ADD:
			return term(t, fmt.Sprintf("(sconcat %s %s)", a.Term, b.Term))
		case token.LSS:
			return term(t, fmt.Sprintf("(slt %s %s)", a.Term, b.Term))
		case token.GTR:
			return term(t, fmt.Sprintf("(slt %s %s)", b.Term, a.Term))
		case token.LEQ:
			return term(t, fmt.Sprintf("(not (slt %s %s))", b.Term, a.Term))
		case token.GEQ:
			return term(t, fmt.Sprintf("(not (slt %s %s))", a.Term, b.Term))
		}
	case "Flt":
		if sortOf(t) == "Bool" {
			n := map[token.Token]string{token.LSS: "flt_lt", token.LEQ: "flt_le", token.GTR: "flt_gt", token.GEQ: "flt_ge"}[in.Op]
			x.declFun(n, []string{"Flt", "Flt"}, "Bool")
			return term(t, fmt.Sprintf("(%s %s %s)", n, a.Term, b.Term))
		}
	}
	return x.freshSV("bin", t, reach, st)
}

func (x *Exec) convert(in *ssa.Convert, v SV, reach string, st *State) SV {
	from, to := sortOf(in.X.Type()), sortOf(in.Type())
	t := in.Type()
	switch {
	case from == "Int" && to == "Int":
		bt, ok := t.Underlying().(*types.Basic)
		if !ok {
			break
		}
		switch bt.Kind() {
		case types.Uint8:
			if k, ok := in.X.(*ssa.Const); ok {
				return term(t, x.constant(constant.ToInt(k.Value), t).Term)
			}
			return term(t, "(mod "+v.Term+" 256)")
		case types.Int32:
			if f, ok := in.X.Type().Underlying().(*types.Basic); ok && (f.Kind() == types.Uint8) {
				return term(t, v.Term)
			}
			r := x.freshSV("conv", t, reach, st)
			x.assume(reach, fmt.Sprintf("(=> (and (<= (- 2147483648) %s) (<= %s 2147483647)) (= %s %s))", v.Term, v.Term, r.Term, v.Term))
			return r
		case types.Int, types.Int64:
			return term(t, v.Term)
		}
		r := x.freshSV("conv", t, reach, st)
		x.assume(reach, fmt.Sprintf("(=> (and (<= 0 %s) (<= %s 127)) (= %s %s))", v.Term, v.Term, r.Term, v.Term))
		return r
	case to == "Str" && from == "Int":
		return term(t, "(runestr "+v.Term+")")
	case to == "Str" && from == "Str":
		return term(t, v.Term)
	case to == "Slice" && from == "Str":
		ref := x.newArray(st, "bytes", t.Underlying().(*types.Slice).Elem())
		x.zeroFrz(st, ref)
		et := t.Underlying().(*types.Slice).Elem()
		h, s := x.elemHeapOf(et)
		x.setHeap(st, h, arr2(s), store(x.heap(st, h, arr2(s)), ref, x.fresh("bytes", "(Array Int "+s+")")), ref)
		l := "(slen " + v.Term + ")"
		if s == "Int" && typeStr(et) != "uint8" && typeStr(et) != "byte" {
			l = x.fresh("nrunes", "Int")
			x.assume(reach, fmt.Sprintf("(and (<= 0 %s) (<= %s (slen %s)))", l, l, v.Term))
		} else {
			b := x.loadElem(st, et, ref, "k")
			x.assume(reach, fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= %s (sat %s k))) :pattern (%s)))", l, b.Term, v.Term, b.Term))
		}
		return term(t, fmt.Sprintf("(mkslice %s %s %s)", ref, l, l))
	case to == "Str" && from == "Slice":
		r := x.freshSV("str", t, reach, st)
		et := in.X.Type().Underlying().(*types.Slice).Elem()
		if typeStr(et) == "uint8" || typeStr(et) == "byte" {
			x.assume(reach, fmt.Sprintf("(= (slen %s) (slen_ %s))", r.Term, v.Term))
		}
		return r
	}
	return x.freshSV("conv", t, reach, st)
}

func (x *Exec) typeAssert(fr *frame, in *ssa.TypeAssert, reach string, st *State, set func(ssa.Value, SV)) {
	v := x.val(fr, in.X, st)
	var cond string
	_, toIf := in.AssertedType.Underlying().(*types.Interface)
	if toIf {
		if it := in.AssertedType.Underlying().(*types.Interface); it.Empty() {
			cond = not(eq(v.Term, "vnil"))
		} else {
			cond = x.implPred(in.AssertedType, v.Term)
		}
	} else {
		cond = x.isTag(v.Term, in.AssertedType)
	}
	if c := constTag(v.Term); c >= 0 && !toIf {
		if c == x.w.tag(in.AssertedType) {
			cond = "true"
		} else {
			cond = "false"
		}
	} else {
		cond = x.named("is", "Bool", cond)
	}
	res := x.unbox(v.Term, in.AssertedType)
	if toIf {
		res = term(in.AssertedType, v.Term)
	}
	if !in.CommaOk {
		x.safety(reach, cond, in.Pos(), "type assertion to "+typeStr(in.AssertedType))
		set(in, res)
		x.typing(res, and(reach, cond), st)
		return
	}
	z := x.zero(in.AssertedType)
	r, ok := iteSV(cond, res, z)
	if !ok {
		r = x.freshSV("ta", in.AssertedType, reach, st)
	}
	if res.K == kTerm {
		x.typing(res, and(reach, cond), st)
	}
	fr.vals[in] = SV{K: kTuple, T: in.Type(), Fs: []SV{x.nameSV("ta", r), term(tBool, cond)}}
}

// constTag gives the dynamic type number of a syntactically boxed value, or -1.
func constTag(v string) int {
	if !strings.HasPrefix(v, "(v") {
		return -1
	}
	f := splitArgs(v[1 : len(v)-1])
	if len(f) == 3 {
		switch f[0] {
		case "vref", "vstr", "vint", "vbool", "vflt", "vslc", "vopq":
			var n int
			if _, err := fmt.Sscan(f[1], &n); err == nil {
				return n
			}
		}
	}
	return -1
}

func (x *Exec) constMapFn(g *ssa.Global, cm *constMap) (string, string) {
	mt := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
	name := "cm_" + sanitize(g.Name())
	if !x.decls[name] {
		x.decls[name] = true
		ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
		val := x.zero(mt.Elem()).Term
		var has []string
		for i := range cm.keys {
			k, ok1 := x.staticConst(cm.keys[i])
			v, ok2 := x.staticConst(cm.vals[i])
			if !ok1 {
				x.unsupported("true", g.Pos(), "table "+g.Name()+" has a computed key")
				continue
			}
			if !ok2 {
				n := x.fresh("cmv", vs)
				v = term(mt.Elem(), n)
			}
			val = ite(eq("k", k.Term), v.Term, val)
			has = append(has, eq("k", k.Term))
		}
		x.items = append(x.items, Item{Raw: fmt.Sprintf("(define-fun %s ((k %s)) %s %s)", name, ks, vs, val)})
		x.items = append(x.items, Item{Raw: fmt.Sprintf("(define-fun %s_has ((k %s)) Bool %s)", name, ks, or(has...))})
	}
	return name, name + "_has"
}

// staticConst evaluates an initialiser value: a constant or an entry of another constant table.
func (x *Exec) staticConst(v ssa.Value) (SV, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constSV(v), true
	case *ssa.Lookup:
		if u, ok := v.X.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				if cm := x.w.constMaps[g]; cm != nil {
					k, ok := v.Index.(*ssa.Const)
					if !ok {
						return SV{}, false
					}
					for i := range cm.keys {
						if c, ok := cm.keys[i].(*ssa.Const); ok && constant.Compare(c.Value, token.EQL, k.Value) {
							return x.staticConst(cm.vals[i])
						}
					}
				}
			}
		}
	case *ssa.ChangeType:
		return x.staticConst(v.X)
	case *ssa.Convert:
		return x.staticConst(v.X)
	}
	return SV{}, false
}

func (x *Exec) lookup(fr *frame, in *ssa.Lookup, reach string, st *State, set func(ssa.Value, SV)) {
	v := x.val(fr, in.X, st)
	i := x.val(fr, in.Index, st)
	if sortOf(in.X.Type()) == "Str" {
		x.safety(reach, fmt.Sprintf("(and (<= 0 %s) (< %s (slen %s)))", i.Term, i.Term, v.Term), in.Pos(), "index out of range")
		x.assume(reach, fmt.Sprintf("(and (<= 0 (sat %s %s)) (<= (sat %s %s) 255))", v.Term, i.Term, v.Term, i.Term))
		set(in, term(in.Type(), "(sat "+v.Term+" "+i.Term+")"))
		return
	}
	mt := in.X.Type().Underlying().(*types.Map)
	kt := i.Term
	if _, ok := mt.Key().Underlying().(*types.Interface); ok {
		i.T = in.Index.Type()
		kt = x.box(i, reach)
		x.safety(reach, "(hashable "+kt+")", in.Pos(), "map key of an unhashable type")
	}
	var val, has string
	var vt types.Type = mt.Elem()
	if u, ok := in.X.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			if cm := x.w.constMaps[g]; cm != nil {
				f, h := x.constMapFn(g, cm)
				val, has = "("+f+" "+kt+")", "("+h+" "+kt+")"
			}
		}
	}
	var r SV
	if val == "" {
		if sortOf(mt.Elem()) == "" || sortOf(mt.Key()) == "" {
			r = x.freshSV("lk", mt.Elem(), reach, st)
			has = x.fresh("has", "Bool")
		} else {
			hh, vv := x.mapHeaps(st, mt)
			has = sel(sel(hh, v.Term), kt)
			z := x.zero(mt.Elem())
			r = term(vt, x.named("lk", sortOf(vt), ite(has, sel(sel(vv, v.Term), kt), z.Term)))
			x.typing(r, reach, st)
			// a nil map has no entries
			x.assume(reach, implies(eq(v.Term, "0"), not(has)))
			x.readMaps[typeStr(mt)] = true
		}
	} else {
		r = term(vt, x.named("lk", sortOf(vt), val))
	}
	if in.CommaOk {
		fr.vals[in] = SV{K: kTuple, T: in.Type(), Fs: []SV{r, term(tBool, has)}}
		return
	}
	set(in, r)
}

func (x *Exec) slice(fr *frame, in *ssa.Slice, reach string, st *State) SV {
	v := x.val(fr, in.X, st)
	lo := "0"
	if in.Low != nil {
		lo = x.val(fr, in.Low, st).Term
	}
	if sortOf(in.X.Type()) == "Str" {
		hi := "(slen " + v.Term + ")"
		if in.High != nil {
			hi = x.val(fr, in.High, st).Term
		}
		x.safety(reach, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (slen %s)))", lo, lo, hi, hi, v.Term), in.Pos(), "string slice bounds out of range")
		r := term(in.Type(), x.named("sub", "Str", fmt.Sprintf("(ssub %s %s %s)", v.Term, lo, hi)))
		x.assume(reach, fmt.Sprintf("(= (slen %s) (- %s %s))", r.Term, hi, lo))
		return r
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := fmt.Sprint(at.Len())
		hi := n
		if in.High != nil {
			hi = x.val(fr, in.High, st).Term
		}
		if lo != "0" {
			x.unsupported(reach, in.Pos(), "slice of an array with a lower bound")
		}
		x.zeroFrz(st, v.Term)
		return term(in.Type(), fmt.Sprintf("(mkslice %s %s %s)", v.Term, hi, n))
	case *types.Slice:
		hi := "(slen_ " + v.Term + ")"
		if in.High != nil {
			hi = x.val(fr, in.High, st).Term
		}
		x.safety(reach, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (scap %s)))", lo, lo, hi, hi, v.Term), in.Pos(), "slice bounds out of range")
		if lo == "0" {
			return term(in.Type(), x.named("sl", "Slice", fmt.Sprintf("(mkslice (sbase %s) %s (scap %s))", v.Term, hi, v.Term)))
		}
		// a window into a list: represented by a fresh list with the same elements that may not be written
		h, s := x.elemHeapOf(u.Elem())
		ref := x.newArray(st, "window", u.Elem())
		delete(x.newRefs, ref)
		x.roRefs[ref] = true
		na := x.fresh("win", "(Array Int "+s+")")
		cur := x.heap(st, h, arr2(s))
		x.assume(reach, fmt.Sprintf("(forall ((k Int)) (! (=> (<= 0 k) (= (select %s k) (select (select %s (sbase %s)) (+ %s k)))) :pattern ((select %s k))))", na, cur, v.Term, lo, na))
		x.setHeap(st, h, arr2(s), store(cur, ref, na), "fresh")
		frz := x.heap(st, "frz", "(Array Int Int)")
		x.setHeap(st, "frz", "(Array Int Int)", store(frz, ref, "1000000000000"), "fresh")
		if x.dry == 0 {
			fe := x.frozenFn(h, arr2(s))
			x.assume(reach, fmt.Sprintf("(forall ((k Int)) (! (=> (<= 0 k) (= (select %s k) (%s %s k))) :pattern ((%s %s k)) :pattern ((select %s k))))", na, fe, ref, fe, ref, na))
		}
		l := x.named("wl", "Int", "(- "+hi+" "+lo+")")
		return term(in.Type(), fmt.Sprintf("(mkslice %s %s %s)", ref, l, l))
	}
	return x.freshSV("slice", in.Type(), reach, st)
}

// constArray: the array that holds z everywhere. cvc5 accepts constant arrays of values only.
func (x *Exec) constArray(s, z string) string {
	if !strings.HasPrefix(z, "lit!") {
		return "((as const (Array Int " + s + ")) " + z + ")"
	}
	n := "zarr_" + sanitize(z)
	if !x.decls[n] {
		x.decls[n] = true
		x.items = append(x.items, Item{Raw: "(declare-const " + n + " (Array Int " + s + "))"},
			Item{Raw: "(assert (forall ((i Int)) (! (= (select " + n + " i) " + z + ") :pattern ((select " + n + " i)))))"})
	}
	return n
}
