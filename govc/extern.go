package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// pureExterns are external functions without effects on the program's memory that do not panic; their result is an
// uninterpreted function of their arguments (or arbitrary when an argument is not a scalar).
var pureExterns = map[string]bool{
	"fmt.Sprintf": true, "regexp.(*Regexp).FindStringSubmatch": true, "regexp.(*Regexp).MatchString": true, "regexp.(*Regexp).String": true,
	"strconv.FormatFloat": true, "strconv.FormatInt": true, "strconv.Itoa": true, "strconv.Quote": true, "strings.HasSuffix": true, "strings.HasPrefix": true,
	"strings.IndexByte": true, "strings.Index": true, "strings.Contains": true, "strings.ToLower": true, "strings.ToUpper": true,
	"strings.TrimPrefix": true, "strings.TrimSuffix": true, "strings.TrimSpace": true, "strings.Replace": true, "strings.Join": true, "strings.Split": true, "strings.Repeat": false,
	"unicode.IsLetter": true, "unicode.IsDigit": true, "unicode.IsSpace": true, "unicode.IsUpper": true, "unicode.IsLower": true,
	"issue.(Severity).String": true, "utf8.RuneCountInString": true, "utf8.RuneLen": true, "strings.Count": true, "strings.ContainsRune": true, "strings.IndexRune": true, "strings.LastIndex": true,
	"strings.EqualFold": true, "utf8.ValidString": true, "utf8.ValidRune": true, "strings.ContainsAny": true, "strings.IndexAny": true, "strings.Title": true, "strings.Trim": true, "strings.TrimLeft": true, "strings.TrimRight": true, "strings.Fields": true,
	"errors.New": true, "fmt.Errorf": true, "strings.LastIndexByte": true, "math.IsInf": true, "math.IsNaN": true, "math.Inf": true,
	"strconv.ParseInt": true, "strconv.ParseFloat": true, "strconv.ParseUint": true, "strconv.Atoi": true,
}

func (x *Exec) bufWrite(st *State, ref, val, reach string, pos token.Pos) {
	h := "Buffer.content"
	cur := x.heap(st, h, "(Array Int Str)")
	if !x.newRefs[ref] {
		if c := x.frameOK(h, ref); c != "true" {
			x.oblig(reach, c, "frame", []string{"frame"}, pos, "write to a buffer that the contract does not allow to change")
		}
	}
	x.setHeap(st, h, "(Array Int Str)", store(cur, ref, val), ref)
}

// extern models a call of a function outside the module that has no contract in the specification files.
func (x *Exec) extern(f *ssa.Function, key string, args []SV, rt types.Type, pos token.Pos, reach string, st *State) (SV, string, *State) {
	if x.dry == 0 {
		x.usedExtern[key] = true
	}
	tup := func(vs ...SV) SV {
		t := f.Signature.Results()
		for i := range vs {
			vs[i].T = t.At(i).Type()
		}
		return SV{K: kTuple, T: t, Fs: vs}
	}
	buf := func() string {
		r := args[0].Term
		if !x.newRefs[r] {
			x.safety(reach, "(< 0 "+r+")", pos, "nil buffer")
		}
		return r
	}
	content := func(r string) string { return sel(x.heap(st, "Buffer.content", "(Array Int Str)"), r) }
	if f.Signature.Recv() != nil && len(args) > 0 && args[0].K == kTerm && len(key) > 15 && key[:15] == "bytes.(*Buffer)" {
		r := buf()
		switch key[16:] {
		case "Len":
			v := x.named("blen", "Int", "(slen "+content(r)+")")
			return term(rt, v), reach, st
		case "String":
			return term(rt, x.named("bstr", "Str", content(r))), reach, st
		case "Reset":
			x.bufWrite(st, r, x.strLit(""), reach, pos)
			return SV{K: kTuple}, reach, st
		case "Truncate":
			n := args[1].Term
			x.safety(reach, fmt.Sprintf("(and (<= 0 %s) (<= %s (slen %s)))", n, n, content(r)), pos, "Truncate out of range")
			x.bufWrite(st, r, x.named("buf", "Str", fmt.Sprintf("(ssub %s 0 %s)", content(r), n)), reach, pos)
			return SV{K: kTuple}, reach, st
		case "WriteByte":
			x.bufWrite(st, r, x.named("buf", "Str", fmt.Sprintf("(sconcat %s (bytestr %s))", content(r), args[1].Term)), reach, pos)
			return term(rt, "vnil"), reach, st
		case "WriteRune":
			x.bufWrite(st, r, x.named("buf", "Str", fmt.Sprintf("(sconcat %s (runestr %s))", content(r), args[1].Term)), reach, pos)
			return tup(term(nil, x.fresh("n", "Int")), term(nil, "vnil")), reach, st
		case "WriteString":
			x.bufWrite(st, r, x.named("buf", "Str", fmt.Sprintf("(sconcat %s %s)", content(r), args[1].Term)), reach, pos)
			return tup(term(nil, "(slen "+args[1].Term+")"), term(nil, "vnil")), reach, st
		}
	}
	switch key {
	case "bytes.NewBufferString":
		r := x.newRef(st, "buf")
		h := "Buffer.content"
		cur := x.heap(st, h, "(Array Int Str)")
		x.setHeap(st, h, "(Array Int Str)", store(cur, r, args[0].Term), r)
		return term(rt, r), reach, st
	case "utf8.DecodeRuneInString":
		s := args[0].Term
		x.runeFacts(s, "0", reach)
		ne := fmt.Sprintf("(< 0 (slen %s))", s)
		return tup(term(nil, x.named("rn", "Int", ite(ne, "(rdecat "+s+" 0)", "65533"))), term(nil, x.named("rz", "Int", ite(ne, "(rszat "+s+" 0)", "0")))), reach, st
	case "regexp.(*Regexp).MatchString":
		return term(rt, x.rematch(args[0].Term, args[1].Term)), reach, st
	case "fmt.Println", "fmt.Fprintln", "fmt.Fprintf", "fmt.Printf":
		return x.freshSV("ext", rt, reach, st), reach, st
	}
	if pureExterns[key] {
		res := f.Signature.Results()
		scalar := true
		for _, a := range args {
			if a.K != kTerm || sortOf(a.T) == "" || sortOf(a.T) == "Slice" {
				scalar = false
			}
		}
		mk := func(name string, t types.Type) SV {
			if !scalar || sortOf(t) == "" || sortOf(t) == "Slice" {
				return x.freshSV("ext", t, reach, st)
			}
			return x.pureApp(name, args, t, reach, st)
		}
		if res.Len() == 1 {
			return mk(key, res.At(0).Type()), reach, st
		}
		r := SV{K: kTuple, T: res}
		for i := 0; i < res.Len(); i++ {
			r.Fs = append(r.Fs, mk(fmt.Sprintf("%s.%d", key, i), res.At(i).Type()))
		}
		return r, reach, st
	}
	x.unsupported(reach, pos, "call of external function "+key+" without contract")
	if rt == nil {
		return SV{K: kTuple}, reach, st
	}
	return x.freshSV("ext", rt, reach, st), reach, st
}
