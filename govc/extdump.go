package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// dumpExterns lists every function outside the module that the module calls.
func dumpExterns(w *World) {
	m := map[string]map[string]bool{}
	for _, f := range w.allModuleFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := c.Common()
				k := ""
				if cm.IsInvoke() {
					if !w.closedWorld(cm.Value.Type()) {
						k = "invoke " + typeStr(cm.Value.Type()) + "." + cm.Method.Name()
					}
				} else if g := cm.StaticCallee(); g != nil {
					if g.Pkg != nil && !inModule(g.Pkg.Pkg) || g.Pkg == nil {
						k = funcKey(g)
					}
				} else if _, ok := cm.Value.(*ssa.Builtin); !ok {
					k = "value " + typeStr(cm.Value.Type())
				}
				if k != "" {
					if m[k] == nil {
						m[k] = map[string]bool{}
					}
					m[k][w.keyOf(f)] = true
				}
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fs := sortedKeys(m[k])
		if len(fs) > 3 {
			fs = append(fs[:3], "...")
		}
		fmt.Println(k, fs)
	}
}
