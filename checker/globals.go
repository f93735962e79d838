package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// globalRoots: the package variables a value is read from or points into, followed syntactically.
func globalRoots(v ssa.Value, seen map[ssa.Value]bool, out map[*ssa.Global]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Global:
		out[v] = true
	case *ssa.UnOp:
		globalRoots(v.X, seen, out)
	case *ssa.FieldAddr:
		globalRoots(v.X, seen, out)
	case *ssa.Field:
		globalRoots(v.X, seen, out)
	case *ssa.IndexAddr:
		globalRoots(v.X, seen, out)
	case *ssa.Index:
		globalRoots(v.X, seen, out)
	case *ssa.Lookup:
		globalRoots(v.X, seen, out)
	case *ssa.Slice:
		globalRoots(v.X, seen, out)
	case *ssa.Extract:
		globalRoots(v.Tuple, seen, out)
	case *ssa.ChangeType:
		globalRoots(v.X, seen, out)
	case *ssa.MakeInterface:
		globalRoots(v.X, seen, out)
	case *ssa.TypeAssert:
		globalRoots(v.X, seen, out)
	case *ssa.Phi:
		for _, e := range v.Edges {
			globalRoots(e, seen, out)
		}
	}
}

// writtenGlobals: package variables written (directly or through what they hold) outside package
// initialisation. Their initial contents are not relied on by any check.
func (w *World) writtenGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for _, f := range w.Funcs {
		if f.Synthetic != "" && f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		root := func(v ssa.Value) { globalRoots(v, map[ssa.Value]bool{}, out) }
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					root(in.Addr)
				case *ssa.MapUpdate:
					root(in.Map)
				case ssa.CallInstruction:
					cc := in.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							root(cc.Args[0])
						}
						continue
					}
					if g := cc.StaticCallee(); g != nil {
						if mut, known := extMut(fnName(g)); known {
							for i, a := range cc.Args {
								if mut == "*" || strings.Contains(mut, string(rune('0'+i))) {
									root(a)
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}
