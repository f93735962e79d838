package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ModSets is an interprocedural, field-based side-effect analysis: for every function the set of
// struct fields, map types, slice element types and stream objects it may write, outside of the
// objects it allocates itself.
type ModSets struct {
	w    *World
	sets map[*ssa.Function]map[string]bool // "<root>|<key>", root is a parameter index or *
	flat map[*ssa.Function]map[string]bool
	addr map[string][]*ssa.Function // address-taken functions by signature
}

func buildMods(w *World) *ModSets {
	m := &ModSets{w: w, sets: map[*ssa.Function]map[string]bool{}, addr: map[string][]*ssa.Function{}}
	type edge struct {
		to   *ssa.Function
		args []ssa.Value
	}
	calls := map[*ssa.Function][]edge{}
	m.flat = map[*ssa.Function]map[string]bool{}
	all := append([]*ssa.Function(nil), w.Funcs...)
	known := map[*ssa.Function]bool{}
	for _, f := range all {
		known[f] = true
	}
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok {
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == fn {
							continue
						}
						m.addr[sigKey(fn.Signature)] = append(m.addr[sigKey(fn.Signature)], fn)
					}
				}
			}
		}
	}
	for _, f := range all {
		s := map[string]bool{}
		m.sets[f] = s
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if k := modKey(in.Addr); k != "" {
						s[rootKey(f, in.Addr)+k] = true
					}
					// storing a whole struct through a pointer writes its fields
					if st, ok := in.Val.Type().Underlying().(*types.Struct); ok && !localRoot(in.Addr) {
						for i := 0; i < st.NumFields(); i++ {
							s[rootKey(f, in.Addr)+"f:"+fieldSym(in.Val.Type(), i)] = true
						}
					}
				case *ssa.MapUpdate:
					if !localRoot(in.Map) {
						s[rootKey(f, in.Map)+"m:"+typeName(in.Map.Type())] = true
					}
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete":
							if !localRoot(c.Args[0]) {
								s[rootKey(f, c.Args[0])+"m:"+typeName(c.Args[0].Type())] = true
							}
						case "copy":
							if !localRoot(c.Args[0]) {
								if e := elemName(c.Args[0].Type()); e != "" {
									s[rootKey(f, c.Args[0])+"e:"+e] = true
								}
							}
						}
						continue
					}
					for _, t := range m.targets(c) {
						if known[t] {
							a := c.Args
							if c.IsInvoke() {
								a = append([]ssa.Value{c.Value}, a...)
							}
							if c.StaticCallee() == nil && !c.IsInvoke() {
								a = nil
							}
							calls[f] = append(calls[f], edge{t, a})
						}
					}
					// streams
					if n := calleeName(c); n != "" {
						if strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "(*bytes.Reader).") || strings.HasPrefix(n, "encoding/binary.Read") || strings.HasPrefix(n, "encoding/binary.Write") {
							if len(c.Args) > 0 && !localRoot(unIface(c.Args[0])) {
								s[rootKey(f, unIface(c.Args[0]))+"buf"] = true
							}
						}
						if strings.Contains(n, "io.ReadSeeker") || strings.HasPrefix(n, "io.Copy") || strings.HasPrefix(n, "io.Read") {
							s["*|file"] = true
						}
						if n == "reflect.ValueOf" && len(c.Args) == 1 {
							// decoders fill what the interface they are given points to
							if p, ok := c.Args[0].(*ssa.Parameter); ok {
								s[rootKey(f, p)+"reflect"] = true
							}
						}
						if n == "encoding/binary.Read" && len(c.Args) > 2 {
							if k := modKey(unIface(c.Args[2])); k != "" {
								s[rootKey(f, unIface(c.Args[2]))+k] = true
							}
						}
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for f, l := range calls {
			s := m.sets[f]
			for _, g := range l {
				for k := range m.sets[g.to] {
					i := strings.IndexByte(k, '|')
					nk := k
					if n, err := strconv.Atoi(k[:i]); err == nil {
						nk = "*" + k[i:]
						if n < len(g.args) {
							a := unIface(g.args[n])
							if localRoot(a) {
								continue
							}
							nk = rootKey(f, a) + k[i+1:]
						}
					}
					if !s[nk] {
						s[nk] = true
						ch = true
					}
				}
			}
		}
	}
	for f, s := range m.sets {
		fl := map[string]bool{}
		for k := range s {
			fl[k[strings.IndexByte(k, '|')+1:]] = true
		}
		m.flat[f] = fl
	}
	return m
}

// rootKey names the parameter through which the location is reached without a load, or *.
func rootKey(f *ssa.Function, a ssa.Value) string {
	for i := 0; i < 50; i++ {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			a = v.X
			continue
		case *ssa.IndexAddr:
			a = v.X
			continue
		case *ssa.Slice:
			a = v.X
			continue
		case *ssa.ChangeType:
			a = v.X
			continue
		case *ssa.Parameter:
			for i, p := range f.Params {
				if p == v {
					return strconv.Itoa(i) + "|"
				}
			}
		}
		break
	}
	return "*|"
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), func(p *types.Package) string { return p.Path() })
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke " + typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			return fnName(o)
		}
		return fnName(f)
	}
	return ""
}

func unIface(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

// targets: the repository functions a call may reach.
func (m *ModSets) targets(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		var out []*ssa.Function
		it := c.Value.Type().Underlying().(*types.Interface)
		for _, sp := range m.w.RepoPkg {
			for _, mem := range sp.Members {
				t, ok := mem.(*ssa.Type)
				if !ok {
					continue
				}
				if _, isI := t.Type().Underlying().(*types.Interface); isI {
					continue
				}
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if types.Implements(ty, it) {
						if f := m.w.Prog.LookupMethod(ty, c.Method.Pkg(), c.Method.Name()); f != nil {
							out = append(out, m.unwrap(f)...)
						}
						break
					}
				}
			}
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		return m.unwrap(f)
	}
	return m.addr[sigKey(c.Signature())]
}

// unwrap resolves synthetic wrappers to what they call.
func (m *ModSets) unwrap(f *ssa.Function) []*ssa.Function {
	if f.Synthetic == "" || len(f.Blocks) == 0 {
		return []*ssa.Function{f}
	}
	out := []*ssa.Function{f}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g != f {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func (m *ModSets) of(f *ssa.Function) map[string]bool { return m.flat[f] }

func (m *ModSets) ofInvoke(c *ssa.CallCommon) map[string]bool {
	r := map[string]bool{}
	for _, f := range m.targets(c) {
		for k := range m.flat[f] {
			r[k] = true
		}
	}
	return r
}

// modKey describes the location a store writes, "" for a local variable of the function.
func modKey(a ssa.Value) string {
	if localRoot(a) {
		return ""
	}
	switch v := a.(type) {
	case *ssa.FieldAddr:
		return "f:" + fieldSym(deref(v.X.Type()), v.Field)
	case *ssa.IndexAddr:
		if e := elemName(deref(v.X.Type())); e != "" {
			return "e:" + e
		}
	case *ssa.Global:
		return "g:" + v.RelString(nil)
	}
	return "p:" + typeName(a.Type())
}

// localRoot: the address lies inside an object this function allocated.
func localRoot(a ssa.Value) bool {
	for i := 0; i < 50; i++ {
		switch v := a.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.FieldAddr:
			a = v.X
		case *ssa.IndexAddr:
			a = v.X
		case *ssa.Slice:
			a = v.X
		case *ssa.ChangeType:
			a = v.X
		case *ssa.Call:
			n := calleeName(&v.Call)
			return n == "bytes.NewBuffer" || n == "bytes.NewReader"
		case *ssa.Phi:
			for _, e := range v.Edges {
				if c, ok := e.(*ssa.Const); ok && c.IsNil() {
					continue
				}
				if _, ok := e.(*ssa.Phi); ok {
					return false
				}
				if !localRoot(e) {
					return false
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

func (x *Exec) mods() *ModSets {
	if x.w.mods == nil {
		x.w.mods = buildMods(x.w)
	}
	return x.w.mods
}
