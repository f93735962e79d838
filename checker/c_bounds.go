package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// parsing: the functions that are reached by verification and extraction, without the DER decoder and the certificate parser.
func (c *Check) contracts() *contracts {
	p := c.pta()
	k := &contracts{c: c, w: c.w, lens: []int64{1, 4, 8, 16, 20, 22, 24, 32}, impl: map[string][]*ssa.Function{}, callr: map[*ssa.Function]map[*ssa.Function]bool{}, calle: map[*ssa.Function]map[*ssa.Function]bool{}}
	inS := map[*ssa.Function]bool{}
	var fs []*ssa.Function
	for _, n := range p.order {
		f := n.fn
		pp := pkgPath(f)
		if f.Parent() != nil {
			g := f
			for g.Parent() != nil {
				g = g.Parent()
			}
			pp = pkgPath(g)
		}
		if inS[f] || len(f.Blocks) == 0 || !strings.HasPrefix(pp, modPath) || strings.Contains(pp, "/internal/") || f.Synthetic != "" {
			continue
		}
		inS[f] = true
		fs = append(fs, f)
	}
	for n, m := range p.calls {
		for g := range m {
			if k.callr[g] == nil {
				k.callr[g] = map[*ssa.Function]bool{}
			}
			k.callr[g][n.fn] = true
		}
	}
	ent := map[*ssa.Function]bool{}
	for _, f := range c.w.entryFuncs() {
		ent[f] = true
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	k.setup(fs, func(f *ssa.Function) bool { return ent[f] })
	return k
}

func boundsJudge(x *Exec, e *Event) (bool, string) {
	ok := true
	switch e.Kind {
	case "index":
		ok = e.St.deep1(mkLe(mkInt(0), e.Args[0])) && e.St.deep1(lt(e.Args[0], e.Args[1]))
	case "slice":
		ok = e.St.deep1(mkLe(mkInt(0), e.Args[0])) && e.St.deep1(mkLe(e.Args[0], e.Args[1])) && e.St.deep1(mkLe(e.Args[1], e.Args[2]))
	case "makeslice":
		ok = e.St.deep1(mkLe(mkInt(0), e.Args[0])) && e.St.deep1(mkLe(e.Args[0], e.Args[1]))
	}
	s := e.Kind + ":"
	for _, a := range e.Args {
		s += " " + short(a)
	}
	return ok, s
}

func boundsExperiment(w *World, only string) {
	c := newCheck("C21", w)
	k := c.contracts()
	k.kinds = map[string]bool{"index": true, "slice": true, "makeslice": true}
	k.judge = boundsJudge
	k.solve()
	n, b := 0, 0
	for _, f := range k.fns {
		n += len(k.seen[f])
		var out []string
		for in, why := range k.bad[f] {
			b++
			out = append(out, w.Prog.Fset.Position(in.Pos()).String()+" "+why)
		}
		sort.Strings(out)
		for _, o := range out {
			fmt.Println("  ", fnName(f), o)
		}
		if only != "" && strings.Contains(fnName(f), only) {
			fmt.Println(fnName(f), k.describe(f))
		}
	}
	fmt.Println(len(k.fns), k.runs, n, b)
	os.Exit(0)
}
