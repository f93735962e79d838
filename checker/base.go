package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runInits abstractly executes the package initialisers, giving the initial contents of the
// package-level variables (tables of object identifiers, hash functions, ...).
func (x *Exec) runInits() {
	x.base = map[*Term]*Term{}
	x.initObj = map[*Term]bool{}
	x.unstable = map[*Term]bool{}
	x.inInit = true
	old := x.scope
	for _, sp := range x.w.RepoPkg {
		f := sp.Func("init")
		if f == nil {
			continue
		}
		st := newState()
		guard := mk("glob", sp.Pkg.Path()+".init$guard")
		st.mem[guard] = tFalse
		fr := &Frame{fn: f, info: x.info(f), ctx: "init " + sp.Pkg.Path()}
		rets := x.runFrame(fr, nil, nil, st)
		if len(rets) != 1 {
			x.notes[fmt.Sprintf("initialiser of %s has %d outcomes", sp.Pkg.Path(), len(rets))]++
		}
		for _, r := range rets {
			for m, v := range r.st.mem {
				if o := rootOf(m); o.Op == "obj" {
					x.initObj[o] = true
				}
				if len(rets) > 1 {
					if o, ok := x.base[m]; ok && o != v {
						x.base[m] = mk("at", "", m)
						continue
					}
				}
				x.base[m] = v
			}
		}
	}
	x.scope = old
	x.inInit = false
	for g := range x.w.writtenGlobals() {
		if g.Pkg == nil {
			continue
		}
		n := mk("glob", g.Pkg.Pkg.Path()+"."+g.Name())
		for m := range x.base {
			if m == n || rootOf(m) == n {
				delete(x.base, m)
			}
		}
		x.unstable[n] = true
	}
}

// newAnalysis prepares an executor with the package state initialised and the boundaries declared.
func newAnalysis(w *World) *Exec {
	x := newExec(w)
	for _, p := range []string{modPath + "/fullsailor", modPath + "/internal"} {
		x.noInline[p] = true
	}
	x.errFields[modPath+"/apilevel.none"] = false
	for _, sp := range w.RepoPkg {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			s, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if sl, ok := f.Type().Underlying().(*types.Slice); ok && isErrType(sl.Elem()) {
					x.errFields[fieldSym(t.Type(), i)] = true
				}
			}
		}
	}
	for _, f := range w.Funcs {
		x.fns[fnName(f)] = f
	}
	x.runInits()
	x.log = nil
	x.steps = 0
	return x
}

func (x *Exec) opaqueFns(names ...string) {
	for _, n := range names {
		f := x.w.lookup(n)
		if f == nil {
			fatalf("anchor %s not found", n)
		}
		x.bound[fnName(f)] = &Boundary{}
	}
}

// lookup finds "signingblock.(*schemeV2).verifySigner", "apkverifier.VerifyReader" and so on.
func (w *World) lookup(n string) *ssa.Function {
	dot := strings.Index(n, ".")
	pk, rest := n[:dot], n[dot+1:]
	var path string
	for _, sp := range w.RepoPkg {
		p := sp.Pkg.Path()
		if p == modPath && pk == "apkverifier" || strings.HasSuffix(p, "/"+pk) {
			path = p
		}
	}
	if path == "" {
		return nil
	}
	if strings.HasPrefix(rest, "(") {
		i := strings.Index(rest, ")")
		return w.method(path, strings.TrimPrefix(rest[1:i], "*"), rest[i+2:])
	}
	return w.fn(path, rest)
}

func params(f *ssa.Function) []*Term {
	var l []*Term
	for _, p := range f.Params {
		l = append(l, mk("param", p.Name()).withType(p.Type()))
	}
	return l
}

func (x *Exec) dump(rets []Res) {
	for i, r := range rets {
		fmt.Printf("--- return %d: ", i)
		for _, v := range r.vals {
			fmt.Printf("%v ; ", v)
		}
		fmt.Println()
		dumpState(r.st)
	}
	var ks []string
	for k := range x.loops {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l := x.loops[k]
		fmt.Printf("=== loop %s (%s)\n", k, x.w.posOf(l.Fn, l.Info.Header.Instrs[0].Pos()))
		for _, c := range l.Cells {
			nm := ""
			if c.Val != nil {
				nm = c.Val.Name()
			} else {
				nm = c.Addr.String()
			}
			fmt.Printf("   cell %s: init %v phi %v\n", nm, c.Init, c.Phi)
		}
		fmt.Println("   header:")
		dumpState(l.Header)
		for j, b := range l.Backs {
			fmt.Printf("   back %d:\n", j)
			for _, c := range l.Cells {
				fmt.Printf("      step %v -> %v\n", c.Phi, l.Steps[j][c.Phi])
			}
			dumpState(b.st)
		}
	}
	for n, c := range x.notes {
		fmt.Println("note:", n, c)
	}
}

func dumpState(st *State) {
	for _, f := range st.sortedFacts() {
		fmt.Println("      fact", f)
	}
	for _, t := range st.sortedDom() {
		fmt.Println("      dom ", t, domString(st.dom[t]))
	}
	for _, m := range st.sortedMem() {
		fmt.Println("      mem ", m, "=", st.mem[m])
	}
}

func domString(d *Dom) string {
	s := ""
	if d.neg {
		s = "not"
	}
	s += "{"
	for i, c := range d.set {
		if i > 0 {
			s += ","
		}
		s += c.String()
	}
	s += "}"
	if d.lo != nil {
		s += " >=" + d.lo.String()
	}
	if d.hi != nil {
		s += " <=" + d.hi.String()
	}
	return s
}
