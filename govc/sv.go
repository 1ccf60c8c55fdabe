package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kind int

const (
	kTerm kind = iota
	kStruct
	kTuple
	kClosure
	kAddr
	kOpaqueFn
	kIter
)

// SV is a symbolic value.
type SV struct {
	K     kind
	T     types.Type
	Term  string
	Fs    []SV // struct fields (declaration order) or tuple components
	Fn    *ssa.Function
	Binds []SV
	A     *Addr
}

// Addr is a symbolic address that is not a plain object reference.
type Addr struct {
	Kind string // "field", "elem", "cell", "global"
	Heap string // heap for field/elem
	Ref  string
	Idx  string
	Cell int
	G    *ssa.Global
	Own  *types.Named // struct declaring the field
	T    types.Type   // pointee type
	FV   *types.Var
}

func term(t types.Type, s string) SV { return SV{K: kTerm, T: t, Term: s} }

// sortOf gives the SMT sort of a Go type ("" if it has no scalar sort).
func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return "Val"
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		}
		return "Opq"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Interface:
		return "Val"
	case *types.Slice:
		return "Slice"
	}
	return ""
}

func elemHeap(t types.Type) string { // element heap for slices/arrays of t
	return "E_" + sanitize(typeStr(t))
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("P")
		case c == '.':
			b.WriteString("_")
		case c == '{' || c == '}':
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

func and(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "true" || x == "" {
			continue
		}
		if x == "false" {
			return "false"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "true"
	case 1:
		return ys[0]
	}
	return "(and " + strings.Join(ys, " ") + ")"
}

func or(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "false" {
			continue
		}
		if x == "true" {
			return "true"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "false"
	case 1:
		return ys[0]
	}
	return "(or " + strings.Join(ys, " ") + ")"
}

func not(x string) string {
	switch x {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(x, "(not ") && balanced(x[5:len(x)-1]) {
		return x[5 : len(x)-1]
	}
	return "(not " + x + ")"
}

func balanced(s string) bool {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d < 0 {
				return false
			}
		case ' ':
			if d == 0 {
				return false
			}
		}
	}
	return d == 0
}

func implies(a, b string) string {
	if a == "true" {
		return b
	}
	if b == "true" || a == "false" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func ite(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}

func sel(a, i string) string      { return "(select " + a + " " + i + ")" }
func store(a, i, v string) string { return "(store " + a + " " + i + " " + v + ")" }
func num(i int64) string {
	if i < 0 {
		return fmt.Sprintf("(- %d)", -i)
	}
	return fmt.Sprint(i)
}

// State is the symbolic memory: heaps and ghost variables by name, local cells by number.
type State struct {
	h     map[string]string
	cells map[int]SV
	reach string // when control gets to this state
}

func (s *State) clone() *State {
	n := &State{h: make(map[string]string, len(s.h)), cells: make(map[int]SV, len(s.cells)), reach: s.reach}
	for k, v := range s.h {
		n.h[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func svEq(a, b SV) bool {
	if a.K != b.K || a.Term != b.Term || a.Fn != b.Fn || len(a.Fs) != len(b.Fs) {
		return false
	}
	for i := range a.Fs {
		if !svEq(a.Fs[i], b.Fs[i]) {
			return false
		}
	}
	if a.K == kAddr {
		return a.A != nil && b.A != nil && a.A.Kind == b.A.Kind && a.A.Heap == b.A.Heap && a.A.Ref == b.A.Ref && a.A.Idx == b.A.Idx && a.A.Cell == b.A.Cell && a.A.G == b.A.G
	}
	return true
}

// iteSV merges two symbolic values; ok is false when they have no common representation.
func iteSV(c string, a, b SV) (SV, bool) {
	if svEq(a, b) {
		return a, true
	}
	if a.K != b.K {
		return SV{}, false
	}
	switch a.K {
	case kTerm:
		return SV{K: kTerm, T: a.T, Term: ite(c, a.Term, b.Term)}, true
	case kStruct, kTuple:
		if len(a.Fs) != len(b.Fs) {
			return SV{}, false
		}
		r := SV{K: a.K, T: a.T, Fs: make([]SV, len(a.Fs))}
		for i := range a.Fs {
			var ok bool
			if r.Fs[i], ok = iteSV(c, a.Fs[i], b.Fs[i]); !ok {
				return SV{}, false
			}
		}
		return r, true
	}
	return SV{}, false
}
