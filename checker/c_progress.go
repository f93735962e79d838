package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// invariant: the value does not change while the loop runs.
func (l *LoopInfo) invariant(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil || !l.Blocks[in.Block()] {
		return true
	}
	// the length of a slice or string value that does not change
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return l.invariant(c.Call.Args[0])
		}
		// the number of fields of a type
		if n := callName(c.Common()); n == "NumField" || n == "NumMethod" || n == "NumIn" {
			return l.invariant(receiver(c.Common()))
		}
		if g := c.Common().StaticCallee(); g != nil && fnName(g) == "(reflect.Value).Type" {
			return l.invariant(c.Common().Args[0])
		}
	}
	return false
}

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if g := c.StaticCallee(); g != nil && g.Signature.Recv() != nil {
		return g.Name()
	}
	return ""
}

func receiver(c *ssa.CallCommon) ssa.Value {
	if c.IsInvoke() {
		return c.Value
	}
	return c.Args[0]
}

// latches are the blocks from which the loop goes on.
func (l *LoopInfo) latches() []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, p := range l.Header.Preds {
		if l.Blocks[p] {
			out = append(out, p)
		}
	}
	return out
}

// counted: a counter moves by a constant in every round and a bound that does not change ends the loop, or the loop is a range.
func (l *LoopInfo) counted() string {
	for b := range l.Blocks {
		if !l.every(b) {
			continue
		}
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && l.invariant(n.Iter) {
				if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if e, ok := i.Cond.(*ssa.Extract); ok && e.Tuple == n && e.Index == 0 && !l.Blocks[b.Succs[1]] {
						return "range"
					}
				}
			}
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := cmp.Op
		stay := l.Blocks[b.Succs[0]]
		if stay == l.Blocks[b.Succs[1]] {
			continue
		}
		if !stay {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		x, y := cmp.X, cmp.Y
		if l.invariant(x) {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !l.invariant(y) {
			continue
		}
		up := op == token.LSS || op == token.LEQ
		down := op == token.GTR || op == token.GEQ
		if !up && !down {
			continue
		}
		phi := l.phiOf(x)
		if phi == nil {
			continue
		}
		ok = true
		for k, p := range l.Header.Preds {
			if l.Blocks[p] {
				s, known := l.stepOf(phi.Edges[k], phi, 0)
				ok = ok && known && (up && s == 1 || down && s == -1)
			}
		}
		if ok {
			return "counter"
		}
	}
	return ""
}

// every: each round of the loop passes the block.
func (l *LoopInfo) every(b *ssa.BasicBlock) bool {
	for _, p := range l.latches() {
		if !b.Dominates(p) {
			return false
		}
	}
	return true
}

func (l *LoopInfo) phiOf(v ssa.Value) *ssa.Phi {
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() == l.Header {
			return v
		}
	case *ssa.BinOp:
		if v.Op == token.ADD || v.Op == token.SUB {
			if _, ok := v.Y.(*ssa.Const); ok {
				return l.phiOf(v.X)
			}
		}
	case *ssa.Convert:
		return l.phiOf(v.X)
	}
	return nil
}

// stepOf: the direction in which the value lies from phi: 1 above it, -1 below it.
func (l *LoopInfo) stepOf(v ssa.Value, phi *ssa.Phi, d int) (int, bool) {
	if d > 8 {
		return 0, false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if v == phi {
			return 0, true
		}
		if !l.Blocks[v.Block()] {
			return 0, false
		}
		r, first := 0, true
		for _, e := range v.Edges {
			s, ok := l.stepOf(e, phi, d+1)
			if !ok || !first && s != r {
				return 0, false
			}
			r, first = s, false
		}
		return r, !first
	case *ssa.BinOp:
		k, ok := v.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0, false
		}
		b, bt := v.Type().Underlying().(*types.Basic)
		if !bt || b.Info()&types.IsInteger == 0 {
			return 0, false
		}
		n := k.Int64()
		if v.Op == token.SUB {
			n = -n
		} else if v.Op != token.ADD {
			return 0, false
		}
		s, ok := l.stepOf(v.X, phi, d+1)
		switch {
		case !ok || n == 0:
			return s, ok
		case n > 0 && s >= 0:
			return 1, true
		case n < 0 && s <= 0:
			return -1, true
		}
	}
	return 0, false
}

// progress holds what was found out about the loops.
type progress struct {
	c         *Check
	recur     map[*ssa.Function]bool // calls to these are not followed
	ran       map[string]*An
	err       string
	entry     map[*ssa.Function]bool
	fns       []*ssa.Function
	byMeasure int
	grows     map[*ssa.Function][][2]int // result, parameter
	calls     map[*ssa.Function]map[*ssa.Function]bool
	sizes     map[*ssa.Function]int
	spent     int // steps taken for the loop
}

// Steps of the analysis: of one run, for one loop, and for all.
const (
	runSteps  = 250000
	loopSteps = 300000
	allSteps  = 1500000
)

// size counts the instructions of a function and of all it calls.
func (q *progress) size(f *ssa.Function) int {
	if n, ok := q.sizes[f]; ok {
		return n
	}
	n := 0
	for g := range q.callees(f) {
		for _, b := range g.Blocks {
			n += len(b.Instrs)
		}
	}
	q.sizes[f] = n
	return n
}

// callees: f and all it calls.
func (q *progress) callees(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for g := range q.calls[f] {
			add(g)
		}
	}
	add(f)
	return seen
}

// run analyses f by itself. Calls of functions that are larger than the budget are not followed, unless they are kept.
func (q *progress) run(f *ssa.Function, budget int, keep []*ssa.Function) (a *An) {
	kept := map[*ssa.Function]bool{f: true}
	for _, g := range keep {
		kept[g] = true
	}
	x := newAnalysis(q.c.w)
	if strings.Contains(pkgPath(f), "/fullsailor") {
		delete(x.noInline, modPath+"/fullsailor")
	}
	called := q.callees(f)
	key := fnName(f)
	for _, g := range q.fns {
		if q.recur[g] || !kept[g] && q.size(g) > budget {
			x.bound[fnName(g)] = &Boundary{}
		} else if called[g] {
			key += " " + fnName(g)
		}
	}
	if a, ok := q.ran[key]; ok {
		return a
	}
	q.ran[key] = nil
	if q.spent > loopSteps || q.c.steps > allSteps {
		q.err = "the budget is used up"
		return nil
	}
	a = &An{c: q.c, x: x, f: f, ps: params(f), name: shortFn(f)}
	x.wantEvent["call"] = true
	x.onBound = q.onBound
	x.maxSteps, x.soft = runSteps, true
	defer func() {
		q.spent += x.steps
		q.c.steps += x.steps
		if e := recover(); e != nil {
			q.err = fmt.Sprint(e)
			a = nil
		}
	}()
	a.rets = x.Run(f, a.ps, newState())
	q.ran[key] = a
	q.c.loops += len(x.loops)
	for g := range x.used {
		q.c.used[g] = true
	}
	return a
}

// decide: each time the loop of g runs in the analysis of f, a measure decreases.
func (q *progress) decide(f, g *ssa.Function, l *LoopInfo, keep []*ssa.Function) (n int, why string) {
	for _, budget := range []int{80, 250, 600} {
		a := q.run(f, budget, keep)
		if a == nil {
			if why == "" {
				why = "the function is beyond the analysis: " + q.err
			}
			return
		}
		n, why = 0, ""
		for _, r := range a.sortedLoops() {
			if r.Info.Header != l.Header {
				continue
			}
			n++
			if w := a.decreases(r); w != "" {
				why = w
			}
		}
		if n == 0 && f != g && !a.x.used[g] {
			why = "the function is not called in the analysis"
		}
		if why == "" {
			return
		}
	}
	return
}

// bounded: the loop of f ends, whoever calls f.
func (q *progress) bounded(f, g *ssa.Function, l *LoopInfo, path []*ssa.Function) string {
	_, why := q.decide(f, g, l, path)
	if why == "" || len(path) == 3 {
		return why
	}
	var up []*ssa.Function
	for _, h := range q.fns {
		if h != f && q.calls[h][f] {
			up = append(up, outermost(h))
		}
	}
	if len(up) == 0 || len(up) > 6 || q.entry[f] {
		return why
	}
	for _, h := range up {
		if w := q.bounded(h, g, l, append(append([]*ssa.Function{}, path...), f)); w != "" {
			return why + " (called from " + shortFn(h) + ": " + w + ")"
		}
	}
	return ""
}

// decreases: the rounds of the loop cannot go on forever.
func (a *An) decreases(r *LoopRec) string {
	bs := a.backs(r, nil)
	left := map[int]bool{}
	// what every round that is followed by another starts with, the next one starts with as well
	for _, k := range r.Cells {
		if k.Phi.Typ == nil {
			continue
		}
		if b, ok := k.Phi.Typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		for _, v := range []*Term{k.Phi, mkNot(k.Phi)} {
			all := true
			for i := range bs {
				all = all && bs[i].st.holds(v)
			}
			if !all {
				continue
			}
			for i := range bs {
				st := bs[i].st.clone()
				st.assume(subst(v, map[*Term]*Term{k.Phi: bs[i].step(k.Phi)}))
				bs[i].st = st
			}
		}
	}
	for i := range bs {
		if !bs[i].st.bot && !external(r, bs[i].st) {
			left[i] = true
		}
	}
	for len(left) > 0 {
		done := false
		for _, k := range r.Cells {
			for _, m := range []int{0, 1, 2} {
				mono := true
				var strict []int
				for i := range left {
					s, non := measure(r, k, m, bs[i])
					mono = mono && non
					if s {
						strict = append(strict, i)
					}
				}
				if mono && len(strict) > 0 {
					for _, i := range strict {
						delete(left, i)
					}
					done = true
				}
			}
		}
		if !done {
			for i := range left {
				w := ""
				for _, k := range r.Cells {
					w += " " + short(k.Phi) + " -> " + short(bs[i].step(k.Phi)) + ";"
				}
				return "a round can leave the loop where it was:" + w
			}
		}
	}
	return ""
}

// measure: in this round the measure gets strictly smaller (does not grow).
func measure(r *LoopRec, k *LoopCell, m int, b back) (strict, non bool) {
	now, next := k.Phi, b.step(k.Phi)
	if seqTerm(k) {
		now, next = mkLen(now), mkLen(next)
	} else if !number(k) {
		return false, false
	}
	switch m {
	case 1: // up to a bound
		if now == next {
			return false, true
		}
		if b.st.holds(mkLe(mkAdd(now, mkInt(1)), next)) {
			if compared(r, b.st, now, 1) {
				return true, true
			}
			for _, t := range fixedTerms(r, b.st) {
				if b.st.holds(mkLe(next, t)) || b.st.holds(mkLe(now, t)) {
					return true, true
				}
			}
		}
		return false, b.st.holds(mkLe(now, next))
	case 2: // down to a bound
		if now == next {
			return false, true
		}
		if scaled(b.st, now, next) {
			return true, true
		}
		if b.st.holds(mkLe(mkAdd(next, mkInt(1)), now)) {
			if compared(r, b.st, now, -1) {
				return true, true
			}
			for _, t := range append([]*Term{mkInt(0)}, fixedTerms(r, b.st)...) {
				if b.st.holds(mkLe(t, next)) || b.st.holds(mkLe(t, now)) {
					return true, true
				}
			}
		}
		return false, b.st.holds(mkLe(next, now))
	}
	return false, false
}

// number: the cell holds an integer.
func number(k *LoopCell) bool {
	return k.Addr != nil && k.Addr.Op == "rpos" || k.Phi.Typ != nil && intType(k.Phi.Typ)
}

func smallInt(t *Term) (int64, bool) {
	n, ok := t.intVal()
	if !ok || !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

// scaled: next is now shifted or divided, or the size of the digests of the pages of now bytes, and now is not yet zero.
func scaled(st *State, now, next *Term) bool {
	if (next.Op == "shr" || next.Op == "quo") && next.Args[0] == now && st.holds(mkLe(mkInt(1), now)) {
		n, ok := smallInt(next.Args[1])
		return ok && (next.Op == "shr" && n >= 1 || next.Op == "quo" && n >= 2)
	}
	var d int64
	var q *Term
	if next.Op == "mul" && len(next.Args) == 2 {
		for i := 0; i < 2; i++ {
			if n, ok := smallInt(next.Args[i]); ok {
				d, q = n, next.Args[1-i]
			}
		}
	} else if l := linOf(next); len(l.Vars) == 1 && l.K.Sign() == 0 {
		for v, n := range l.Vars {
			if n.IsInt64() {
				d, q = n.Int64(), v
			}
		}
	}
	if q == nil || q.Op != "quo" || d < 1 {
		return false
	}
	k, ok := smallInt(q.Args[1])
	if !ok || 2*d > k || k > 1<<20 || q.Args[0] != mkAdd(now, mkInt(k-1)) {
		return false
	}
	// d*ceil(now/k) < now follows from now*(k-d) > d*(k-1), which holds when now > 2k
	return st.holds(mkLe(mkInt(2*d+1), next))
}

func seqTerm(k *LoopCell) bool {
	if k.Addr != nil {
		switch k.Addr.Op {
		case "bufc":
			return true
		case "rpos":
			return false
		}
	}
	return k.Phi.Typ != nil && seqType(k.Phi.Typ)
}

// fixedTerms are the numbers in the facts of the state that do not change while the loop runs.
// compared: a fact of the round bounds t (from above for sign 1, from below for -1) by something that stays what it is.
func compared(r *LoopRec, st *State, t *Term, sign int) bool {
	for f := range st.facts {
		if f.Op != "le" {
			continue
		}
		d := linOf(f.Args[0])
		d.addTerm(f.Args[1], big.NewInt(-1))
		n := d.Vars[t]
		if n == nil || n.Sign() != sign {
			continue
		}
		good := true
		for v := range d.Vars {
			good = good && (v == t || fixedIn(r, v))
		}
		if good {
			return true
		}
	}
	return false
}

// fixedIn: no round of the loop changes the term.
func fixedIn(r *LoopRec, t *Term) bool {
	if t.deps[r.ID] {
		return false
	}
	phis := map[*Term]bool{}
	for _, k := range r.Cells {
		phis[k.Phi] = true
	}
	fixed := true
	t.walk(func(u *Term) bool {
		fixed = fixed && !phis[u]
		return fixed
	})
	return fixed
}

func fixedTerms(r *LoopRec, st *State) []*Term {
	seen := map[*Term]bool{}
	out := []*Term{mkInt(0)}
	var add func(t *Term)
	add = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if fixedIn(r, t) && (t.Op == "len" || t.Typ != nil && intType(t.Typ) || t.Op == "int") {
			out = append(out, t)
		}
		for _, u := range t.Args {
			add(u)
		}
	}
	for f := range st.facts {
		if f.Op != "did" {
			add(f)
		}
	}
	for _, k := range r.Cells {
		if k.Addr != nil && k.Addr.Op == "rpos" {
			if d := r.Header.mem[mk("rdata", "", k.Addr.Args[0])]; d != nil {
				out = append(out, mkLen(d))
			}
		}
	}
	return out
}

// external: the round is one of an iteration that a library ends.
func external(r *LoopRec, st *State) bool {
	for f := range st.facts {
		if f.Op == "did" && strings.HasSuffix(f.Sym, ".Next") && callOf(f).deps[r.ID] && st.holds(res0(callOf(f))) {
			return true
		}
	}
	return false
}

// fmtVerbs are the operands of a formatting call and whether their own methods format them.
func fmtOperands(c *ssa.CallCommon) (ops []ssa.Value, known bool) {
	g := c.StaticCallee()
	if g == nil || pkgPath(g) != "fmt" || len(c.Args) == 0 {
		return nil, true
	}
	sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		k, isNil := c.Args[len(c.Args)-1].(*ssa.Const)
		return nil, isNil && k.Value == nil
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at := map[int64]ssa.Value{}
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, u := range *ia.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == ia {
				at[k.Int64()] = s.Val
			}
		}
	}
	// the verbs
	var verbs []byte
	plain := true
	for _, x := range c.Args[:len(c.Args)-1] {
		k, ok := x.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			continue
		}
		plain = false
		f := constant.StringVal(k.Value)
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
			}
			if i < len(f) && f[i] != '%' {
				if f[i] == '*' || f[i] == '[' {
					plain = true
				}
				verbs = append(verbs, f[i])
			}
		}
	}
	for i, v := range at {
		if plain || int(i) >= len(verbs) || strings.IndexByte("sqvxXw", verbs[i]) >= 0 {
			ops = append(ops, v)
		}
	}
	return ops, true
}

// formats: a formatting call of f may call the method g.
func formats(f, g *ssa.Function) bool {
	recv := g.Signature.Recv()
	if recv == nil {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			h := ci.Common().StaticCallee()
			if h == nil || !strings.HasPrefix(pkgPath(h), "fmt") {
				continue
			}
			ops, known := fmtOperands(ci.Common())
			if !known {
				return true
			}
			for _, v := range ops {
				m, ok := v.(*ssa.MakeInterface)
				if !ok {
					if k, isC := v.(*ssa.Const); !isC || k.Value != nil {
						return true
					}
					continue
				}
				t := m.X.Type()
				if types.Identical(t, recv.Type()) || types.Identical(t, types.NewPointer(recv.Type())) || composite(t) {
					return true
				}
			}
		}
	}
	return false
}

// composite: the elements of the value are formatted, too.
func composite(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Slice:
		return composite(u.Elem()) || namedMethods(u.Elem())
	case *types.Array:
		return composite(u.Elem()) || namedMethods(u.Elem())
	}
	return !namedMethods(t)
}

func namedMethods(t types.Type) bool {
	return types.NewMethodSet(t).Len() > 0
}

// graph collects the functions that are judged and who calls whom.
func (q *progress) graph() {
	p := q.c.pta()
	q.calls, q.sizes = map[*ssa.Function]map[*ssa.Function]bool{}, map[*ssa.Function]int{}
	known := map[*ssa.Function]bool{}
	for n, m := range p.calls {
		for g := range m {
			q.edge(n.fn, g)
		}
	}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if !seen[f] && len(f.Blocks) > 0 && strings.HasPrefix(pkgPath(outermost(f)), modPath) && (f.Synthetic == "" || f.Origin() != nil) {
			seen[f] = true
			q.fns = append(q.fns, f)
		}
	}
	for _, n := range p.order {
		known[n.fn] = true
		add(n.fn)
	}
	for _, f := range q.c.w.Funcs {
		if pp := pkgPath(outermost(f)); !strings.Contains(pp, "/internal/") && !strings.Contains(pp, "/pkcs7") {
			add(f)
		}
	}
	sort.Slice(q.fns, func(i, j int) bool { return fnName(q.fns[i]) < fnName(q.fns[j]) })
	impl := map[string][]*ssa.Function{}
	for _, f := range q.fns {
		if f.Signature.Recv() != nil {
			impl[f.Name()] = append(impl[f.Name()], f)
		}
	}
	for _, f := range q.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					q.edge(f, mc.Fn.(*ssa.Function))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil {
					q.edge(f, g)
				} else if ci.Common().IsInvoke() && !known[f] {
					for _, g := range impl[ci.Common().Method.Name()] {
						if it, ok := ci.Common().Value.Type().Underlying().(*types.Interface); ok && types.Implements(g.Signature.Recv().Type(), it) {
							q.edge(f, g)
						}
					}
				}
			}
		}
	}
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func (q *progress) edge(f, g *ssa.Function) {
	if q.calls[f] == nil {
		q.calls[f] = map[*ssa.Function]bool{}
	}
	if !q.calls[f][g] && fmtMethod(g) && !direct(f, g) && !formats(f, g) {
		return
	}
	q.calls[f][g] = true
}

func fmtMethod(f *ssa.Function) bool {
	switch f.Name() {
	case "String", "Error", "Format", "GoString":
		return f.Signature.Recv() != nil
	}
	return false
}

// direct: f itself calls g, by name or through an interface.
func direct(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if ci.Common().StaticCallee() == g || ci.Common().IsInvoke() && ci.Common().Method.Name() == g.Name() {
					return true
				}
			}
		}
	}
	return false
}

// cycles are the sets of functions that call each other.
func (q *progress) cycles() [][]*ssa.Function {
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range sortedFns(q.calls[f]) {
			if idx[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], idx[g])
			}
		}
		if low[f] == idx[f] {
			var comp []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				comp = append(comp, g)
				if g == f {
					break
				}
			}
			if len(comp) > 1 || q.calls[f][f] {
				out = append(out, comp)
			}
		}
	}
	for _, f := range q.fns {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return out
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var l []*ssa.Function
	for f := range m {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return fnName(l[i]) < fnName(l[j]) })
	return l
}

func (q *progress) onBound(g *ssa.Function, args []*Term, st *State) func(st *State, res []*Term) []*State {
	if name := fnName(g); strings.HasSuffix(name, "internal/asn1andr.Unmarshal") || strings.HasSuffix(name, "internal/asn1andr.UnmarshalWithParams") {
		// a decoded element is not empty
		data := args[0]
		return func(st *State, res []*Term) []*State {
			if len(res) != 2 {
				return []*State{st}
			}
			bad := st.clone()
			bad.assume(nonNilT(res[1]))
			st.assume(mkEq(res[1], tNil))
			st.assume(mkLe(mkAdd(mkLen(res[0]), mkInt(1)), mkLen(data)))
			return []*State{st, bad}
		}
	}
	inc := q.grows[g]
	if len(inc) == 0 {
		return nil
	}
	r := okResult(g)
	return func(st *State, res []*Term) []*State {
		if r < 0 || r >= len(res) {
			return []*State{st}
		}
		good := success(res[r], g.Signature.Results().At(r).Type())
		bad := st.clone()
		bad.assume(mkNot(good))
		st.assume(good)
		for _, p := range inc {
			st.assume(grown(p, args, res))
		}
		return []*State{st, bad}
	}
}

func init() { checks = append(checks, checkDef{"C22", checkC22, 60}) }

func checkC22(c *Check) {
	q := &progress{c: c, recur: map[*ssa.Function]bool{}, ran: map[string]*An{}, entry: map[*ssa.Function]bool{}, grows: map[*ssa.Function][][2]int{}}
	q.graph()
	for _, f := range c.w.entryFuncs() {
		q.entry[f] = true
	}
	for _, comp := range q.cycles() {
		q.recursion(comp)
	}
	x := newAnalysis(c.w)
	for _, f := range q.fns {
		info := x.info(f)
		c.used[f] = true
		for _, b := range info.rpo {
			l := info.loops[b]
			if l == nil {
				continue
			}
			why := ""
			if k := l.counted(); k == "" {
				q.spent = 0
				why = q.bounded(outermost(f), f, l, nil)
				if why == "" {
					q.byMeasure++
				}
			}
			c.req(why == "", "every round of a loop makes progress", c.loopPos(f, l), "%s", why)
		}
	}
}

func (c *Check) loopPos(f *ssa.Function, l *LoopInfo) string {
	for _, in := range l.Header.Instrs {
		if in.Pos().IsValid() {
			return c.w.posOf(f, in.Pos()) + " loop in " + shortFn(f)
		}
	}
	return c.w.pos(f) + " loop in " + shortFn(f)
}

// recursion: the functions of the set do not call each other without end.
func (q *progress) recursion(comp []*ssa.Function) {
	in := map[*ssa.Function]bool{}
	for _, f := range comp {
		in[f] = true
	}
	// those that are called from elsewhere first
	outer := map[*ssa.Function]bool{}
	for g, m := range q.calls {
		for _, f := range comp {
			outer[f] = outer[f] || m[f] && !in[g]
		}
	}
	sort.Slice(comp, func(i, j int) bool {
		if outer[comp[i]] != outer[comp[j]] {
			return outer[comp[i]]
		}
		return fnName(comp[i]) < fnName(comp[j])
	})
	var names []string
	for _, f := range comp {
		names = append(names, shortFn(f))
	}
	wh := q.c.w.pos(comp[0]) + " recursion of " + strings.Join(names, ", ")
	why := q.structural(comp, in)
	if why != "" {
		for _, f := range comp {
			if !q.breaks(f, in) {
				continue
			}
			q.recur[f] = true
			if w := q.depth(f, in); w == "" {
				why = ""
				q.growth(f)
				break
			} else {
				why = w
			}
			delete(q.recur, f)
		}
		if why != "" {
			for _, f := range comp {
				q.recur[f] = true
			}
		}
	} else {
		for _, f := range comp {
			q.recur[f] = true
		}
	}
	q.c.req(why == "", "recursion is bounded", wh, "%s", why)
}

// breaks: without f the functions do not call each other in a cycle.
func (q *progress) breaks(f *ssa.Function, in map[*ssa.Function]bool) bool {
	state := map[*ssa.Function]int{f: 2}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if state[g] != 0 {
			return state[g] == 2
		}
		state[g] = 1
		for h := range q.calls[g] {
			if in[h] && !visit(h) {
				return false
			}
		}
		state[g] = 2
		return true
	}
	for g := range in {
		if !visit(g) {
			return false
		}
	}
	return true
}

// depth: a counter is handed down with every call and the calls stop at a constant.
func (q *progress) depth(f *ssa.Function, in map[*ssa.Function]bool) string {
	var keep []*ssa.Function
	for _, g := range sortedFns(in) {
		keep = append(keep, g)
	}
	a := q.run(f, 80, keep)
	if a == nil {
		return "the function is beyond the analysis: " + q.err
	}
	why := "no parameter counts the depth"
	for j, p := range f.Params {
		if !intType(p.Type()) {
			continue
		}
		n, up, down := 0, true, true
		for _, e := range a.x.log {
			if e.Kind != "call" || e.Name != shortFn(f) || len(e.Args) <= j+1 {
				continue
			}
			n++
			now, next := a.ps[j], e.Args[j+1]
			u, d := false, false
			for _, k := range constsOf(e.St) {
				u = u || e.St.holds(mkLe(mkAdd(now, mkInt(1)), next)) && e.St.holds(mkLe(now, k))
				d = d || e.St.holds(mkLe(mkAdd(next, mkInt(1)), now)) && e.St.holds(mkLe(k, now))
			}
			up, down = up && u, down && d
		}
		if n == 0 || !up && !down {
			continue
		}
		if w := q.startsAt(f, j, in); w != "" {
			why = w
			continue
		}
		return ""
	}
	return why
}

// startsAt: the calls from outside pass a constant.
func (q *progress) startsAt(f *ssa.Function, j int, in map[*ssa.Function]bool) string {
	for _, g := range q.fns {
		if in[g] || !q.calls[g][f] {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() != f {
					continue
				}
				if _, ok := ci.Common().Args[j].(*ssa.Const); !ok {
					return "the depth that " + shortFn(g) + " starts with is not a constant"
				}
			}
		}
	}
	return ""
}

func constsOf(st *State) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for f := range st.facts {
		f.walk(func(t *Term) bool {
			if t.Op == "int" && !seen[t] {
				seen[t] = true
				out = append(out, t)
			}
			return true
		})
	}
	for t := range st.dom {
		if lo, hi := st.bounds(t); hi != nil && hi.IsInt64() && hi.Int64() < 1<<24 {
			out = append(out, mkInt(hi.Int64()))
			if lo != nil && lo.IsInt64() {
				out = append(out, mkInt(lo.Int64()))
			}
		}
	}
	return out
}

// grown: the result (the length of a parameter) is larger than a parameter.
func grown(p [2]int, args, res []*Term) *Term {
	if p[0] < 0 {
		return mkLe(mkAdd(args[p[1]], mkInt(1)), mkLen(args[-1-p[0]]))
	}
	return mkLe(mkAdd(args[p[1]], mkInt(1)), res[p[0]])
}

// growth: the results of f that are always larger than a parameter, when it succeeds.
func (q *progress) growth(f *ssa.Function) {
	r := okResult(f)
	if r < 0 {
		return
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		for j, p := range f.Params {
			if intType(res.At(i).Type()) && intType(p.Type()) {
				q.grows[f] = append(q.grows[f], [2]int{i, j})
			}
		}
	}
	for i, r := range f.Params {
		for j, p := range f.Params {
			if seqType(r.Type()) && intType(p.Type()) {
				q.grows[f] = append(q.grows[f], [2]int{-1 - i, j})
			}
		}
	}
	for len(q.grows[f]) > 0 {
		q.ran = map[string]*An{}
		a := q.run(f, 250, nil)
		if a == nil {
			q.grows[f] = nil
			return
		}
		var left [][2]int
		for _, p := range q.grows[f] {
			good := true
			for _, rt := range a.rets {
				s := rt.st.clone()
				s.assume(success(rt.vals[r], res.At(r).Type()))
				good = good && (s.bot || s.holds(grown(p, a.ps, rt.vals)))
			}
			if good {
				left = append(left, p)
			}
		}
		if len(left) == len(q.grows[f]) {
			break
		}
		q.grows[f] = left
	}
	q.ran = map[string]*An{}
}

// structural: every call goes to a part of what the caller was given, and the parts were there before the whole.
func (q *progress) structural(comp []*ssa.Function, in map[*ssa.Function]bool) string {
	weak := map[*ssa.Function]map[*ssa.Function]bool{}
	fields := map[string]bool{}
	for _, f := range comp {
		direct := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				var to []*ssa.Function
				var args []ssa.Value
				if g := cc.StaticCallee(); g != nil {
					if in[g] {
						to = append(to, g)
					}
					args = cc.Args
				} else if cc.IsInvoke() {
					for g := range q.calls[f] {
						if in[g] && g.Name() == cc.Method.Name() && g.Signature.Recv() != nil {
							to = append(to, g)
						}
					}
					args = append([]ssa.Value{cc.Value}, cc.Args...)
				}
				if len(to) == 0 {
					continue
				}
				ok, strict := false, false
				for _, v := range args {
					fs := map[string]bool{}
					if o, s := component(v, map[ssa.Value]bool{}, fs); o {
						if s && !strict {
							for k := range fs {
								fields[k] = true
							}
						}
						ok, strict = true, strict || s
					}
				}
				if !ok {
					return "the call at " + q.c.w.posOf(f, ci.Pos()) + " has no bound"
				}
				for _, g := range to {
					direct[g] = true
					if !strict {
						if weak[f] == nil {
							weak[f] = map[*ssa.Function]bool{}
						}
						weak[f][g] = true
					}
				}
			}
		}
		for g := range q.calls[f] {
			if in[g] && !direct[g] {
				return "the call of " + shortFn(g) + " by " + shortFn(f) + " has no bound"
			}
		}
	}
	// no cycle of calls that hand on the whole
	state := map[*ssa.Function]int{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if state[f] != 0 {
			return state[f] == 2
		}
		state[f] = 1
		for g := range weak[f] {
			if !visit(g) {
				return false
			}
		}
		state[f] = 2
		return true
	}
	for _, f := range comp {
		if !visit(f) {
			return "the calls hand on the same value"
		}
	}
	// parts are set only when the whole is made
	for _, f := range q.c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !fields[fieldKey(fa.X.Type(), fa.Field)] {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); !fresh {
					return "the parts can be changed at " + q.c.w.posOf(f, st.Pos())
				}
			}
		}
	}
	return ""
}

func fieldKey(t types.Type, i int) string {
	return fmt.Sprint(types.TypeString(deref(t), nil), i)
}

// component: the value is a parameter of its function or (strict) a part of one.
func component(v ssa.Value, seen map[ssa.Value]bool, fields map[string]bool) (ok, strict bool) {
	if seen[v] {
		return true, true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Parameter:
		return true, false
	case *ssa.Alloc:
		ok, strict = false, true
		for _, r := range *v.Referrers() {
			if s, isS := r.(*ssa.Store); isS && s.Addr == v {
				o, st := component(s.Val, seen, fields)
				if !o {
					return false, false
				}
				ok, strict = true, strict && st
			}
		}
		return ok, ok && strict
	case *ssa.UnOp:
		return component(v.X, seen, fields)
	case *ssa.FieldAddr:
		fields[fieldKey(v.X.Type(), v.Field)] = true
		ok, _ = component(v.X, seen, fields)
		return ok, ok
	case *ssa.Field:
		fields[fieldKey(v.X.Type(), v.Field)] = true
		ok, _ = component(v.X, seen, fields)
		return ok, ok
	case *ssa.IndexAddr:
		return component(v.X, seen, fields)
	case *ssa.Index:
		return component(v.X, seen, fields)
	case *ssa.Lookup:
		return component(v.X, seen, fields)
	case *ssa.Slice:
		return component(v.X, seen, fields)
	case *ssa.TypeAssert:
		return component(v.X, seen, fields)
	case *ssa.ChangeInterface:
		return component(v.X, seen, fields)
	case *ssa.MakeInterface:
		return component(v.X, seen, fields)
	case *ssa.ChangeType:
		return component(v.X, seen, fields)
	case *ssa.Extract:
		return component(v.Tuple, seen, fields)
	case *ssa.Next:
		return component(v.Iter, seen, fields)
	case *ssa.Range:
		return component(v.X, seen, fields)
	case *ssa.Phi:
		strict = true
		for _, e := range v.Edges {
			o, s := component(e, seen, fields)
			if !o {
				return false, false
			}
			strict = strict && s
		}
		return true, strict
	}
	return false, false
}
