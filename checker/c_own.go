package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks = append(checks, checkDef{"C23", checkC23, 25}) }

// closable: values of the type have a method Close() error.
func closable(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); ok && isErrType(t) {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj()
		if s, ok := m.Type().(*types.Signature); ok && m.Name() == "Close" && s.Params().Len() == 0 && s.Results().Len() == 1 && isErrType(s.Results().At(0).Type()) {
			return true
		}
	}
	return false
}

// holdsRes: a value of the type may hand a resource, or a way to release it, to somebody else.
func holdsRes(t types.Type, d int) bool {
	if d > 4 {
		return false
	}
	if closable(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return true
	case *types.Pointer:
		return holdsRes(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRes(u.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// resOp: what a call does with a resource.
type resOp int

const (
	opNone    resOp = iota
	opOpen          // a result is a fresh resource
	opReopen        // the receiver becomes open
	opRelease       // the receiver is closed
)

// resourceOp classifies a call to a function outside the repository.
func (w *World) resourceOp(in ssa.CallInstruction) resOp {
	c := in.Common()
	if c.IsInvoke() {
		if c.Method.Name() == "Close" && c.Signature().Params().Len() == 0 {
			return opRelease
		}
		return opNone
	}
	f := c.StaticCallee()
	if f == nil || w.isRepoFunc(f) {
		return opNone
	}
	if f.Synthetic != "" && f.Object() == nil {
		return opNone
	}
	s := f.Signature
	if r := s.Recv(); r != nil && closable(r.Type()) {
		switch {
		case f.Name() == "Close" && s.Params().Len() == 0:
			return opRelease
		case f.Name() == "Open" && s.Results().Len() == 1 && isErrType(s.Results().At(0).Type()):
			return opReopen
		}
	}
	if p := f.Pkg; p != nil && p.Pkg.Path() == "io" {
		return opNone // wrappers such as NopCloser hold nothing
	}
	for i := 0; i < s.Results().Len(); i++ {
		if closable(s.Results().At(i).Type()) {
			return opOpen
		}
	}
	return opNone
}

// owner: how the functions of the repository deal with resources.
type owner struct {
	opens, closes bool
	sites         []ssa.CallInstruction
	calls         []*ssa.Function // repository functions that are called or made into values
}

func exportedFn(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !token.IsExported(f.Name()) {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := deref(r.Type())
		if n, ok := t.(*types.Named); ok {
			return token.IsExported(n.Obj().Name())
		}
	}
	return true
}

func (c *Check) owners() (own map[*ssa.Function]*owner, helper map[*ssa.Function]bool) {
	own, helper = map[*ssa.Function]*owner{}, map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, f := range c.w.Funcs {
		if len(f.Blocks) == 0 {
			continue
		}
		fns = append(fns, f)
		o := &owner{}
		own[f] = o
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					switch c.w.resourceOp(ci) {
					case opOpen, opReopen:
						o.opens = true
						o.sites = append(o.sites, ci)
					case opRelease:
						o.closes = true
						o.sites = append(o.sites, ci)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && c.w.isRepoFunc(g) {
						o.calls = append(o.calls, g)
					}
				}
			}
		}
	}
	resResult := func(f *ssa.Function) bool {
		r := f.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			if holdsRes(r.At(i).Type(), 0) {
				return true
			}
		}
		return false
	}
	// callees first, so that a function knows what the helpers it calls do
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		o := own[f]
		if seen[f] || o == nil {
			return
		}
		seen[f] = true
		for _, g := range o.calls {
			visit(g)
			if p := own[g]; p != nil && helper[g] {
				o.opens, o.closes = o.opens || p.opens, o.closes || p.closes
			}
		}
		helper[f] = (o.opens || o.closes) && !exportedFn(f) && (f.Parent() != nil || resResult(f) || !o.opens || !o.closes)
	}
	for _, f := range fns {
		visit(f)
	}
	return
}

func ownKey(st *State) string {
	var l []string
	for f := range st.facts {
		if f.Op == "own" && !st.holds(nonNilT(f.Args[1])) {
			l = append(l, strconv.Itoa(f.Args[0].ID))
		}
	}
	sort.Strings(l)
	return "own" + strings.Join(l, ",")
}

func dropOwn(st *State, r *Term) {
	for f := range st.facts {
		if (f.Op == "own" || f.Op == "shut") && f.Args[0] == r {
			delete(st.facts, f)
		}
	}
}

func checkC23(c *Check) {
	own, helper := c.owners()
	libs := map[string]resOp{}
	fns := map[string]*ssa.Function{}
	var roots []*ssa.Function
	reach := map[*ssa.Function]bool{}
	for _, x := range c.pta().order {
		reach[x.fn] = true
	}
	for _, f := range c.w.Funcs {
		o := own[f]
		if o == nil {
			continue
		}
		for _, s := range o.sites {
			if g := s.Common().StaticCallee(); g != nil {
				libs[fnName(g)], fns[fnName(g)] = c.w.resourceOp(s), g
			}
		}
		if (o.opens || o.closes) && !helper[f] && reach[f] {
			roots = append(roots, f)
		}
	}
	covered := map[*ssa.Function]bool{}
	for _, f := range roots {
		c.ownership(f, helper, libs, fns, covered)
	}
	for _, f := range c.w.Funcs {
		o := own[f]
		if o == nil || !reach[f] {
			continue
		}
		for _, s := range o.sites {
			c.req(covered[f], "every place that opens or closes something was followed", c.site(f, s, calledName(s)), "no function that owns the resource reaches it")
		}
	}
}

func calledName(in ssa.CallInstruction) string {
	if g := in.Common().StaticCallee(); g != nil {
		return shortFn(g)
	}
	if in.Common().IsInvoke() {
		return "invoke " + in.Common().Method.Name()
	}
	return "call"
}

// ownership follows what one function opens and closes on all its paths.
func (c *Check) ownership(f *ssa.Function, helper map[*ssa.Function]bool, libs map[string]resOp, fns map[string]*ssa.Function, covered map[*ssa.Function]bool) {
	x := newAnalysis(c.w)
	for _, g := range c.w.Funcs {
		if g != f && !helper[g] {
			x.bound[fnName(g)] = &Boundary{}
		}
	}
	where := c.w.pos(f) + " " + shortFn(f)
	notOwned := func(st *State, r *Term) bool {
		for k := range st.facts {
			if k.Op == "own" && k.Args[0] == r {
				return false
			}
		}
		return true
	}
	for n, op := range libs {
		sig := fns[n].Signature
		switch op {
		case opOpen:
			x.bound[n] = &Boundary{Effect: func(x *Exec, fr *Frame, st *State, call *Term, args []*Term) {
				e := tNil
				for i := 0; i < sig.Results().Len(); i++ {
					if isErrType(sig.Results().At(i).Type()) {
						e = res(call, i)
					}
				}
				for i := 0; i < sig.Results().Len(); i++ {
					if closable(sig.Results().At(i).Type()) {
						r := res(call, i)
						dropOwn(st, r)
						st.facts[mk("own", "", r, e)] = true
					}
				}
			}}
		case opReopen:
			x.bound[n] = &Boundary{Effect: func(x *Exec, fr *Frame, st *State, call *Term, args []*Term) {
				dropOwn(st, args[0])
				st.facts[mk("own", "", args[0], res(call, 0))] = true
			}}
		case opRelease:
			x.bound[n] = &Boundary{Effect: func(x *Exec, fr *Frame, st *State, call *Term, args []*Term) {
				dropOwn(st, args[0])
				st.facts[mk("shut", "", args[0])] = true
			}}
		}
	}
	x.classKey = ownKey
	x.wantEvent["call"] = true
	x.onCall = func(fr *Frame, in ssa.CallInstruction, name string, args []*Term, st *State) {
		switch libs[name] {
		case opRelease:
			g := in.Common().StaticCallee()
			if !reopens(g.Signature.Recv().Type()) {
				c.req(!notOwned(st, args[0]), "only what verification opened itself is closed", c.site(fr.fn, in.(ssa.Instruction), shortFn(g)), "closes %s", short(args[0]))
			}
			return
		case opReopen:
			return
		}
		for i, a := range args {
			for a.Op == "iface" {
				a = a.Args[0]
			}
			c.req(!st.facts[mk("shut", "", a)], "nothing is used after it was closed", c.site(fr.fn, in.(ssa.Instruction), calledName(in)), "argument %d is %s", i, short(a))
		}
	}
	st := newState()
	rets := x.Run(f, params(f), st)
	for g := range x.used {
		covered[g] = true
		c.used[g] = true
	}
	covered[f], c.used[f] = true, true
	c.paths += len(rets)
	c.loops += len(x.loops)
	c.steps += x.steps
	leak := func(st *State) *Term {
		for _, k := range st.sortedFacts() {
			if k.Op == "own" && !st.holds(nonNilT(k.Args[1])) {
				return k.Args[0]
			}
		}
		return nil
	}
	for _, r := range rets {
		if r.st.bot {
			continue
		}
		l := leak(r.st)
		c.req(l == nil, "everything that was opened is closed on every return", where, "a path returns with %s open", short1(l))
	}
	for _, l := range x.loops {
		for _, b := range l.Backs {
			if b.st.bot {
				continue
			}
			for _, k := range b.st.sortedFacts() {
				if k.Op == "own" && !l.Header.facts[k] && !b.st.holds(nonNilT(k.Args[1])) && !deferred(b, k.Args[0]) {
					c.req(false, "everything that was opened is closed on every return", where, "an iteration of the loop at %s leaves %s open", c.w.posOf(l.Fn, l.Info.Header.Instrs[0].Pos()), short(k.Args[0]))
				}
			}
		}
	}
	for _, e := range x.log {
		if e.Kind == "call" && strings.HasPrefix(e.Name, "invoke ") && strings.HasSuffix(e.Name, ".Close") {
			ok := false
			for _, a := range e.Args[1:2] {
				ok = ok || !notOwned(e.St, a)
			}
			c.req(ok, "only what verification opened itself is closed", c.site(e.Fn, e.Instr, e.Name), "closes %s", short(e.Args[1]))
		}
	}
}

// deferred: releasing r is already scheduled.
func deferred(p *PS, r *Term) bool {
	for i, d := range p.def {
		if g := d.Call.StaticCallee(); g != nil && g.Name() == "Close" && len(p.dar[i]) > 1 && p.dar[i][1] == r {
			return true
		}
	}
	return false
}

// reopens: the type has a method that opens the value again, so that closing it more often than
// necessary is harmless.
func reopens(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj()
		if s, ok := m.Type().(*types.Signature); ok && m.Name() == "Open" && s.Params().Len() == 0 && s.Results().Len() == 1 && isErrType(s.Results().At(0).Type()) {
			return true
		}
	}
	return false
}
