package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts: every function is analysed by itself; what it may assume about its parameters (and about
// the results of the functions it calls) is inferred as the greatest set of candidate facts that all
// callers establish (that all returns establish), assuming the same set everywhere else.

// atom is an integer or a length that can be named from outside a function.
type atom struct {
	src  int // parameter, or result when res is set
	res  bool
	post bool // a field as it is after the call
	path []int
	len  bool
	nn   bool // the pointer itself
	buf  bool // what is left in a bytes.Buffer
}

// cand is a candidate fact about atoms.
type cand struct {
	op   string // "ge" (a >= k), "le" (a+k <= b), "eq", "nn"
	a, b int
	k    int64
	ok   bool // only when the function reports success
	dead bool
}

type fnContract struct {
	fn       *ssa.Function
	atoms    []atom
	pre      []*cand
	patoms   []atom
	post     []*cand
	active   bool
	wantPost bool
	entry    bool
}

type contracts struct {
	c     *Check
	w     *World
	fns   []*ssa.Function
	by    map[string]*fnContract
	inS   map[*ssa.Function]*fnContract
	callr map[*ssa.Function]map[*ssa.Function]bool // callers
	calle map[*ssa.Function]map[*ssa.Function]bool
	impl  map[string][]*ssa.Function // interface methods
	dirty map[*ssa.Function]bool
	bad   map[*ssa.Function]map[ssa.Instruction]string
	seen  map[*ssa.Function]map[ssa.Instruction]bool
	kinds map[string]bool
	judge func(x *Exec, e *Event) (bool, string)
	runs  int
	lens  []int64
	skip  func(f *ssa.Function) bool
}

func intType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func seqType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func structUnder(t types.Type) *types.Struct {
	if s, ok := deref(t).Underlying().(*types.Struct); ok {
		return s
	}
	return nil
}

// own: the type is declared in the repository, so that its fields are known to be what its code makes them.
func (k *contracts) own(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (k *contracts) atomsOf(t types.Type, a atom, d int, out *[]atom) {
	switch {
	case intType(t):
		*out = append(*out, a)
		return
	case seqType(t):
		a.len = true
		*out = append(*out, a)
		return
	}
	if types.TypeString(t, nil) == "*bytes.Buffer" {
		return
	}
	s := structUnder(t)
	if s == nil || d == 0 || !k.own(t) {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if _, ptr := ft.Underlying().(*types.Pointer); ptr && d < 2 {
			continue
		}
		b := a
		b.path = append(append([]int{}, a.path...), i)
		k.atomsOf(ft, b, d-1, out)
	}
}

func (k *contracts) value(x *Exec, st *State, a atom, v *Term, t types.Type) *Term {
	for _, i := range a.path {
		s := structUnder(t)
		ft := s.Field(i).Type()
		if _, ptr := t.Underlying().(*types.Pointer); ptr {
			v = x.load(st, x.mkField(v, deref(t), i), ft)
		} else {
			v = x.field(v, t, i)
		}
		t = ft
	}
	if a.len {
		return x.lenOf(st, v, t)
	}
	return v
}

func (q *cand) fact(vals []*Term) *Term {
	a := vals[q.a]
	if a == nil || q.op != "ge" && vals[q.b] == nil {
		return tTrue
	}
	switch q.op {
	case "ge":
		return mkLe(mkInt(q.k), a)
	case "le":
		return mkLe(mkAdd(a, mkInt(q.k)), vals[q.b])
	}
	return mkEq(a, vals[q.b])
}

func (k *contracts) cands(as []atom, posts bool) []*cand {
	var out []*cand
	for i, a := range as {
		rel := !posts || a.res || a.post
		if a.len {
			if rel {
				for _, n := range k.lens {
					out = append(out, &cand{op: "ge", a: i, k: n})
				}
			}
		} else if rel {
			out = append(out, &cand{op: "ge", a: i, k: 0})
		}
		for j, b := range as {
			if i == j || posts && !(a.res || a.post || b.res || b.post) {
				continue
			}
			if len(a.path) > 0 && len(b.path) > 0 && (a.src != b.src || a.res != b.res || len(a.path) != len(b.path)) {
				continue
			}
			switch {
			case !a.len && b.len:
				out = append(out, &cand{op: "le", a: i, b: j}, &cand{op: "le", a: i, b: j, k: 1})
			case !a.len && !b.len:
				out = append(out, &cand{op: "le", a: i, b: j})
			case a.len && b.len:
				if i < j {
					out = append(out, &cand{op: "eq", a: i, b: j})
				}
				out = append(out, &cand{op: "le", a: i, b: j})
			case a.len && !b.len:
				out = append(out, &cand{op: "le", a: i, b: j})
			}
		}
	}
	return out
}

func (k *contracts) setup(fs []*ssa.Function, entry func(f *ssa.Function) bool) {
	k.by, k.inS = map[string]*fnContract{}, map[*ssa.Function]*fnContract{}
	k.dirty = map[*ssa.Function]bool{}
	k.bad, k.seen = map[*ssa.Function]map[ssa.Instruction]string{}, map[*ssa.Function]map[ssa.Instruction]bool{}
	for _, f := range fs {
		k.fns = append(k.fns, f)
		fc := &fnContract{fn: f, entry: entry(f)}
		if f.Parent() == nil {
			for i, p := range f.Params {
				k.atomsOf(p.Type(), atom{src: i}, 2, &fc.atoms)
			}
			if !fc.entry {
				fc.pre = k.cands(fc.atoms, false)
			}
			for i := 0; i < f.Signature.Results().Len(); i++ {
				k.atomsOf(f.Signature.Results().At(i).Type(), atom{src: i, res: true}, 1, &fc.patoms)
			}
			for i, p := range f.Params {
				k.atomsOf(p.Type(), atom{src: i}, 0, &fc.patoms)
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					k.atomsOf(p.Type(), atom{src: i, post: true}, 1, &fc.patoms)
				}
			}
			fc.post = k.cands(fc.patoms, true)
			if okResult(f) >= 0 {
				for _, q := range k.cands(fc.patoms, true) {
					q.ok = true
					fc.post = append(fc.post, q)
				}
			}
		}
		k.by[fnName(f)] = fc
		k.inS[f] = fc
		k.dirty[f] = true
	}
}

// okResult: the result that tells success from failure, or -1.
func okResult(f *ssa.Function) int {
	r := f.Signature.Results()
	if n := r.Len(); n > 0 {
		t := r.At(n - 1).Type()
		if isErrType(t) {
			return n - 1
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return n - 1
		}
	}
	return -1
}

func success(v *Term, t types.Type) *Term {
	if isErrType(t) {
		return mkEq(v, tNil)
	}
	return v
}

func (k *contracts) vals(x *Exec, st *State, fc *fnContract, as []atom, args, res []*Term, before []*Term) []*Term {
	sig := sigTypes(fc.fn.Signature)
	out := make([]*Term, len(as))
	for i, a := range as {
		switch {
		case a.res:
			out[i] = k.value(x, st, a, res[a.src], fc.fn.Signature.Results().At(a.src).Type())
		case a.post || before == nil:
			if a.src < len(args) {
				out[i] = k.value(x, st, a, args[a.src], sig[a.src])
			}
		default:
			out[i] = before[i]
		}
	}
	return out
}

// drop removes a candidate that does not hold.
func (k *contracts) drop(q *cand, fc *fnContract, post bool) {
	q.dead = true
	if post {
		for g := range k.callr[fc.fn] {
			if k.inS[g] != nil && k.inS[g].active {
				k.dirty[g] = true
			}
		}
	} else {
		k.dirty[fc.fn] = true
	}
}

// run analyses one function under the current assumptions.
func (k *contracts) run(f *ssa.Function) {
	fc := k.inS[f]
	k.runs++
	x := newAnalysis(k.w)
	for p := range x.noInline {
		delete(x.noInline, p)
	}
	x.idxCands = true
	for n, g := range k.by {
		if g.fn.Parent() == nil {
			x.bound[n] = &Boundary{}
		}
	}
	for _, s := range []string{"internal/asn1andr", "internal/x509andr"} {
		x.noInline[modPath+"/"+s] = true
	}
	for kd := range k.kinds {
		x.wantEvent[kd] = true
	}
	type failure struct {
		q    *cand
		fc   *fnContract
		post bool
	}
	var fails map[failure]bool
	check := func(g *fnContract, st *State, args []*Term) {
		if !g.active || len(g.pre) == 0 {
			return
		}
		vs := k.vals(x, st, g, g.atoms, args, nil, nil)
		for _, q := range g.pre {
			if !q.dead && !fails[failure{q, g, false}] && !st.deep1(q.fact(vs)) {
				fails[failure{q, g, false}] = true
			}
		}
	}
	x.onCall = func(fr *Frame, in ssa.CallInstruction, name string, args []*Term, st *State) {
		if g := k.by[name]; g != nil {
			x.note(func(st *State) { check(g, st, args) }, fr, in, st)
		}
	}
	x.onInvoke = func(fr *Frame, in ssa.CallInstruction, args []*Term, st *State) {
		for _, m := range k.impls(in.Common()) {
			if g := k.inS[m]; g != nil {
				a := append([]*Term{unwrap(args[0])}, args[1:]...)
				x.note(func(st *State) { check(g, st, a) }, fr, in, st)
			}
		}
	}
	x.onBound = func(g *ssa.Function, args []*Term, st *State) func(st *State, res []*Term) []*State {
		gc := k.inS[g]
		if gc == nil || !fc.active || len(gc.post) == 0 {
			return nil
		}
		if !gc.wantPost {
			gc.wantPost = true
			k.dirty[g] = true
		}
		before := k.vals(x, st, gc, k.preOnly(gc.patoms), args, nil, nil)
		return func(st *State, res []*Term) []*State {
			vs := k.vals(x, st, gc, gc.patoms, args, res, before)
			var cond []*Term
			for _, q := range gc.post {
				if q.dead {
					continue
				}
				if t := q.fact(vs); t != tTrue {
					if q.ok {
						cond = append(cond, t)
					} else {
						st.assume(t)
					}
				}
			}
			if len(cond) == 0 {
				return []*State{st}
			}
			r := okResult(g)
			good := success(res[r], g.Signature.Results().At(r).Type())
			bad := st.clone()
			bad.assume(mkNot(good))
			st.assume(good)
			for _, t := range cond {
				st.assume(t)
			}
			return []*State{st, bad}
		}
	}
	st := newState()
	ps := params(f)
	before := k.vals(x, st, fc, k.preOnly(fc.patoms), ps, nil, nil)
	if fc.active {
		vs := k.vals(x, st, fc, fc.atoms, ps, nil, nil)
		for _, q := range fc.pre {
			if !q.dead {
				st.assume(q.fact(vs))
			}
		}
	}
	free := make([]*Term, len(f.FreeVars))
	for i, v := range f.FreeVars {
		free[i] = mk("param", "free:"+v.Name()).withType(v.Type())
	}
	fails = map[failure]bool{}
	fr := &Frame{fn: f, info: x.info(f), ctx: shortName(f)}
	rets := x.runFrame(fr, ps, free, st)
	for _, e := range x.log {
		if e.Kind == "note" {
			e.note(e.St)
		}
	}
	if fc.wantPost {
		r := okResult(f)
		for _, rt := range rets {
			vs := k.vals(x, rt.st, fc, fc.patoms, ps, rt.vals, before)
			for _, q := range fc.post {
				if q.dead || fails[failure{q, fc, true}] {
					continue
				}
				s := rt.st
				if q.ok {
					s = s.clone()
					s.assume(success(rt.vals[r], f.Signature.Results().At(r).Type()))
					if s.bot {
						continue
					}
				}
				if !s.deep1(q.fact(vs)) {
					fails[failure{q, fc, true}] = true
				}
			}
		}
	}
	bad := map[ssa.Instruction]string{}
	seen := map[ssa.Instruction]bool{}
	for _, e := range x.log {
		if !k.kinds[e.Kind] || e.Fn != f {
			continue
		}
		seen[e.Instr] = true
		if ok, why := k.judge(x, e); !ok {
			bad[e.Instr] = why
		}
	}
	k.bad[f], k.seen[f] = bad, seen
	if !fc.active && (len(bad) > 0 || len(fails) > 0) {
		fc.active = true
		for g := range k.callr[f] {
			k.dirty[g] = true // its callers owe it what it assumes
		}
		k.dirty[f] = true
		return
	}
	for fl := range fails {
		k.drop(fl.q, fl.fc, fl.post)
	}
}

// preOnly: the same atoms, none of which needs results.
func (k *contracts) preOnly(as []atom) []atom {
	out := make([]atom, len(as))
	for i, a := range as {
		if a.res || a.post {
			a = atom{src: 1 << 20}
		}
		out[i] = a
	}
	return out
}

func (k *contracts) impls(c *ssa.CallCommon) []*ssa.Function {
	key := typeName(c.Value.Type()) + "." + c.Method.Name()
	if l, ok := k.impl[key]; ok {
		return l
	}
	var l []*ssa.Function
	it, _ := c.Value.Type().Underlying().(*types.Interface)
	for _, f := range k.fns {
		r := f.Signature.Recv()
		if r != nil && f.Name() == c.Method.Name() && it != nil && types.Implements(r.Type(), it) {
			l = append(l, f)
		}
	}
	k.impl[key] = l
	return l
}

func (k *contracts) solve() {
	for n := 0; len(k.dirty) > 0; n++ {
		if k.runs > 20*len(k.fns) {
			fatalf("the contracts do not converge")
		}
		var l []*ssa.Function
		for f := range k.dirty {
			l = append(l, f)
		}
		sort.Slice(l, func(i, j int) bool { return fnName(l[i]) < fnName(l[j]) })
		k.dirty = map[*ssa.Function]bool{}
		for _, f := range l {
			k.run(f)
		}
		if os.Getenv("CTR") != "" {
			fmt.Println("round", n, len(l))
		}
	}
}

func (k *contracts) describe(f *ssa.Function) string {
	fc := k.inS[f]
	name := func(a atom) string {
		s := "p" + strconv.Itoa(a.src)
		if a.res {
			s = "r" + strconv.Itoa(a.src)
		}
		for _, i := range a.path {
			s += "." + strconv.Itoa(i)
		}
		if a.post {
			s += "'"
		}
		if a.len {
			s = "len(" + s + ")"
		}
		return s
	}
	show := func(qs []*cand, as []atom) string {
		var l []string
		for _, q := range qs {
			if q.dead {
				continue
			}
			s := name(as[q.a])
			switch q.op {
			case "ge":
				s += ">=" + strconv.FormatInt(q.k, 10)
			case "le":
				s += "+" + strconv.FormatInt(q.k, 10) + "<=" + name(as[q.b])
			case "eq":
				s += "==" + name(as[q.b])
			}
			if q.ok {
				s = "ok:" + s
			}
			l = append(l, s)
		}
		return strings.Join(l, " ")
	}
	return fmt.Sprint(fc.active, fc.wantPost, " pre ", show(fc.pre, fc.atoms), " post ", show(fc.post, fc.patoms))
}
