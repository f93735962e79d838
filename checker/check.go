package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- obligations ----

// Obl is one decided proof obligation: a rule applied to one construct.
type Obl struct {
	Rule, Where, Detail string
	OK                  bool
}

// Check decides one property.
type Check struct {
	id    string
	w     *World
	obls  []*Obl
	seen  map[string]*Obl
	ans   map[string]*An
	used  map[*ssa.Function]bool
	sites int
	loops int
	paths int
	steps int
	notes []string
	tier  string
}

// An is the abstract interpretation of one anchor function.
type An struct {
	c    *Check
	x    *Exec
	f    *ssa.Function
	ps   []*Term
	rets []Res
	name string
}

func (c *Check) pos(f *ssa.Function) string { return c.w.pos(f) }

// req records an obligation. Obligations with the same rule and construct are merged.
func (c *Check) req(ok bool, rule, where, format string, args ...interface{}) bool {
	k := rule + "\x00" + where
	o := c.seen[k]
	if o == nil {
		o = &Obl{Rule: rule, Where: where, OK: true}
		c.seen[k] = o
		c.obls = append(c.obls, o)
	}
	if !ok && o.OK {
		o.OK = false
		o.Detail = fmt.Sprintf(format, args...)
	}
	return ok
}

// abort ends the check with a violation that says why it could not be decided.
type abort struct{ msg string }

func fatalf(f string, a ...interface{}) { panic(abort{fmt.Sprintf(f, a...)}) }

// anClean interprets a function keeping only the paths on which no error is added to the result
// parameter (index p). Error lists only ever grow, which errorDiscipline decides separately.
func (c *Check) anClean(name string, p int, bounds ...string) *An {
	key := name + "|clean|" + strings.Join(bounds, "|")
	if a, ok := c.ans[key]; ok {
		return a
	}
	a := c.anOpt(name, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.watch = fieldOf(ps[p], errField)
		x.watch0 = at(x.watch)
	}, bounds...)
	c.ans[key] = a
	return a
}

// an interprets a function with the named functions as opaque boundaries.
func (c *Check) an(name string, bounds ...string) *An { return c.anOpt(name, nil, bounds...) }

func (c *Check) anOpt(name string, setup func(x *Exec, f *ssa.Function, ps []*Term, st *State), bounds ...string) *An {
	key := name + "|" + strings.Join(bounds, "|")
	if setup == nil {
		if a, ok := c.ans[key]; ok {
			return a
		}
	}
	f := c.w.lookup(name)
	if f == nil {
		fatalf("anchor %s not found in the source", name)
	}
	x := newAnalysis(c.w)
	x.opaqueFns(bounds...)
	st := newState()
	a := &An{c: c, x: x, f: f, ps: params(f), name: name}
	x.wantEvent["call"] = true
	if setup != nil {
		setup(x, f, a.ps, st)
	}
	a.rets = x.Run(f, a.ps, st)
	if setup == nil {
		c.ans[key] = a
	}
	for g := range x.used {
		c.used[g] = true
	}
	c.used[f] = true
	for _, e := range x.log {
		if e.Kind == "call" {
			c.sites++
		}
	}
	c.loops += len(x.loops)
	c.paths += len(a.rets)
	c.steps += x.steps
	if os.Getenv("DUMP") == name {
		x.dump(a.rets)
	}
	return a
}

func (a *An) where() string { return a.c.w.pos(a.f) + " " + a.name }

// ---- state queries ----

func res(call *Term, i int) *Term { return mk("res", fmt.Sprint(i), call) }

// okErr: the call's error result i is known to be nil in st.
func okErr(st *State, call *Term, i int) bool { return st.holds(mkEq(res(call, i), tNil)) }

// dids returns the did-facts for a callee (short name) on this path.
func dids(st *State, name string) []*Term {
	var l []*Term
	for _, f := range st.sortedFacts() {
		if f.Op == "did" && f.Sym == name {
			l = append(l, f)
		}
	}
	return l
}

func fieldOf(p *Term, name string) *Term { return mk("fa", name, p) }

func LP(t *Term) *Term     { return mk("LP", "", t) }
func dropLP(t *Term) *Term { return mk("dropLP", "", t) }
func drop(t *Term, n int64) *Term {
	return mkDrop(t, mkInt(n))
}
func take(t *Term, n int64) *Term { return mkTake(t, mkInt(n)) }
func content(t *Term) *Term       { return mk("content", "", t) }
func bufref(t *Term) *Term        { return mk("bufref", "", t) }
func le32i(t *Term) *Term         { return mkLE(4, "int32", take(t, 4)) }
func le32u(t *Term) *Term         { return mkLE(4, "uint32", take(t, 4)) }
func refOf(t *Term) *Term         { return mk("ref", "", t) }
func deref1(addr *Term) *Term     { return mk("at", "", addr) }
func nonNilT(t *Term) *Term       { return mkNot(mkEq(t, tNil)) }
func lt(a, b *Term) *Term         { return mkLe(mkAdd(a, mkInt(1)), b) }
func isDid(t *Term) bool          { return t.Op == "did" }
func arg(did *Term, i int) *Term  { return did.Args[i+1] }
func callOf(did *Term) *Term      { return did.Args[0] }
func short(t *Term) string        { s := t.String(); return clip(s, 300) }
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

const (
	errField   = "signingblock.VerificationResult.Errors"
	certsField = "signingblock.VerificationResult.Certs"
)

// cell reads a memory cell of the state with its entry value as default.
func (a *An) cell(st *State, addr *Term) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	return a.x.defaultCell(st, addr)
}

func (x *Exec) defaultCell(st *State, addr *Term) *Term {
	if v, ok := x.get(st, addr); ok {
		return v
	}
	return x.cellDefault(st, addr)
}

// errsAt: the error list of result p at st and on entry.
func (a *An) errsAt(st *State, p *Term) (now, entry *Term) {
	ad := fieldOf(p, errField)
	entry = mk("at", "", ad)
	if v, ok := st.mem[ad]; ok {
		return v, entry
	}
	return a.x.defaultCell(st, ad), entry
}

// noNewErrors gives st under the assumption that no error was added to result p since entry;
// nil when that is impossible.
func (a *An) noNewErrors(st *State, p *Term) *State {
	now, entry := a.errsAt(st, p)
	s := st.clone()
	s.assume(mkLe(mkLen(now), mkLen(entry)))
	if s.bot {
		return nil
	}
	return s
}

// succErr returns the return states in which error result i is nil.
func (a *An) succErr(i int) []Res {
	var l []Res
	for _, r := range a.rets {
		if r.st.bot {
			continue
		}
		s := r.st.clone()
		s.assume(mkEq(r.vals[i], tNil))
		if !s.bot {
			l = append(l, Res{s, r.vals})
		}
	}
	return l
}

// succBool returns the return states in which bool result i equals v.
func (a *An) succBool(i int, v bool) []Res {
	var l []Res
	for _, r := range a.rets {
		if r.st.bot {
			continue
		}
		s := r.st.clone()
		f := r.vals[i]
		if !v {
			f = mkNot(f)
		}
		s.assume(f)
		if !s.bot {
			l = append(l, Res{s, r.vals})
		}
	}
	return l
}

// succRes returns the return states that added no error to result p.
func (a *An) succRes(p *Term) []Res {
	var l []Res
	for _, r := range a.rets {
		if r.st.bot {
			continue
		}
		if s := a.noNewErrors(r.st, p); s != nil {
			l = append(l, Res{s, r.vals})
		}
	}
	return l
}

// doneLoops returns the loops completed on the path of st.
func (a *An) doneLoops(st *State) []*LoopRec {
	var l []*LoopRec
	for _, r := range a.sortedLoops() {
		if st.facts[r.Term] {
			l = append(l, r)
		}
	}
	return l
}

func (a *An) sortedLoops() []*LoopRec {
	var ks []string
	for k := range a.x.loops {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var l []*LoopRec
	for _, k := range ks {
		l = append(l, a.x.loops[k])
	}
	return l
}

func (a *An) loopWhere(l *LoopRec) string {
	for _, in := range l.Info.Header.Instrs {
		if in.Pos().IsValid() {
			return a.c.w.posOf(l.Fn, in.Pos()) + " loop in " + shortFn(l.Fn)
		}
	}
	return a.c.w.pos(l.Fn) + " loop in " + shortFn(l.Fn)
}

// bufLoop finds the completed loop of st that consumes the bytes init through a buffer.
func (a *An) bufLoop(st *State, init *Term) (*LoopRec, *LoopCell) {
	for _, l := range a.doneLoops(st) {
		for _, c := range l.Cells {
			if c.Addr != nil && c.Init == init && (c.Addr.Op == "bufc") {
				return l, c
			}
		}
	}
	return nil, nil
}

func (l *LoopRec) cellFor(addr *Term) *LoopCell {
	for _, c := range l.Cells {
		if c.Addr == addr {
			return c
		}
	}
	return nil
}

func (l *LoopRec) cellPhi(phi *Term) *LoopCell {
	for _, c := range l.Cells {
		if c.Phi == phi {
			return c
		}
	}
	return nil
}

// back is one way round a loop.
type back struct {
	st   *State
	step func(*Term) *Term
	i    int
}

// backs lists the ways round a loop that add no error to result p (p may be nil).
func (a *An) backs(l *LoopRec, p *Term) []back {
	var out []back
	for i, b := range l.Backs {
		s := b.st.clone()
		if p != nil {
			ad := fieldOf(p, errField)
			if c := l.cellFor(ad); c != nil {
				s.assume(mkLe(mkLen(a.step(l, i, c)), mkLen(c.Phi)))
			} else if v, ok := b.st.mem[ad]; ok {
				if h, ok := l.Header.mem[ad]; ok && h != v {
					s.assume(mkLe(mkLen(v), mkLen(h)))
				}
			}
		}
		if s.bot {
			continue
		}
		i := i
		out = append(out, back{s, func(phi *Term) *Term {
			if v, ok := l.Steps[i][phi]; ok {
				return v
			}
			return phi
		}, i})
	}
	return out
}

func (a *An) step(l *LoopRec, i int, c *LoopCell) *Term {
	if v, ok := l.Steps[i][c.Phi]; ok {
		return v
	}
	return c.Phi
}

// same: the two terms are equal, syntactically or by the state's knowledge.
func same(st *State, a, b *Term) bool {
	return a == b || st.holds(mkEq(a, b))
}

var assumptions = []string{
	"the standard library and apkparser behave as their documentation says (modelled in checker/models.go)",
	"distinct pointer parameters of one call do not alias; slices handed to a callee are not changed concurrently",
	"lengths of in-memory data stay below 2^50",
	"the SSA form built by golang.org/x/tools represents the source that the build compiles (linux/amd64, no cgo)",
}

// ---- running ----

type checkDef struct {
	id    string
	run   func(c *Check)
	floor int // minimum number of obligations
}

var checks []checkDef

func newCheck(id string, w *World) *Check {
	return &Check{id: id, w: w, seen: map[string]*Obl{}, ans: map[string]*An{}, used: map[*ssa.Function]bool{}}
}

// runCheck decides one property and returns the violated obligations.
func runCheck(d checkDef, w *World, tier string) (c *Check) {
	c = newCheck(d.id, w)
	c.tier = tier
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if a, ok := r.(abort); ok {
				msg = a.msg
			} else if os.Getenv("DEBUG") != "" {
				panic(r)
			}
			c.req(false, "the property can be decided", d.id, "%s", msg)
		}
	}()
	d.run(c)
	if len(c.obls) < d.floor {
		c.req(false, "enough rule instances were found", d.id, "%d obligations, at least %d expected", len(c.obls), d.floor)
	}
	return c
}

func (c *Check) violations() []*Obl {
	var l []*Obl
	for _, o := range c.obls {
		if !o.OK {
			l = append(l, o)
		}
	}
	return l
}

func (c *Check) evidence(dir, tier string, seed int, start time.Time) {
	var rules = map[string]int{}
	discharged := 0
	for _, o := range c.obls {
		rules[o.Rule]++
		if o.OK {
			discharged++
		}
	}
	var rl []string
	for r, n := range rules {
		rl = append(rl, fmt.Sprintf("%s (%d)", r, n))
	}
	sort.Strings(rl)
	var fns []string
	for f := range c.used {
		fns = append(fns, shortFn(f))
	}
	sort.Strings(fns)
	var obls []string
	for _, o := range c.obls {
		s := "ok   "
		if !o.OK {
			s = "FAIL "
		}
		obls = append(obls, s+o.Rule+" @ "+o.Where)
	}
	cov := map[string]interface{}{
		"explanation": fmt.Sprintf("Static analysis of the type-checked SSA form of /repo's current source (no execution). %d functions, %d call sites, %d loops and %d abstract exit paths were analysed (%d abstract steps); %d obligations of %d rules, %d discharged.",
			len(fns), c.sites, c.loops, c.paths, c.steps, len(c.obls), len(rules), discharged),
		"functions_analysed": fns, "rules_applied": rl, "obligation_list": obls,
		"functions": len(fns), "call_sites": c.sites, "loops": c.loops, "exit_paths": c.paths, "abstract_steps": c.steps,
		"obligations": len(c.obls), "discharged": discharged,
	}
	ev := map[string]interface{}{"property": c.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"violations": len(c.obls) - discharged, "assumptions": assumptions, "wall_s": time.Since(start).Seconds()}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.id+".json"), b, 0o644)
}

// specialise replaces terms in everything the state knows; nil when that is contradictory.
func specialise(st *State, m map[*Term]*Term) *State {
	n := newState()
	for k, v := range st.mem {
		n.mem[subst(k, m)] = subst(v, m)
	}
	for _, f := range st.sortedFacts() {
		n.assume(subst(f, m))
		if n.bot {
			return nil
		}
	}
	for _, t := range st.sortedDom() {
		d := st.dom[t]
		t2 := subst(t, m)
		if t2.isConst() {
			if !d.admits(t2) {
				return nil
			}
			continue
		}
		n.setDom(t2, d)
		if n.bot {
			return nil
		}
	}
	return n
}

func at(addr *Term) *Term     { return mk("at", "", addr) }
func ia(v, i *Term) *Term     { return mk("ia", "", v, i) }
func elemAt(v, i *Term) *Term { return at(ia(v, i)) }
func listOf(l ...*Term) *Term { return mk("list", "", l...) }
func app(a, b *Term) *Term    { return mk("app", "", a, b) }
func look(m, k *Term) *Term   { return mk("look", "", m, k) }
func has(m, k *Term) *Term    { return mk("has", "", m, k) }

func isBoolTerm(t *Term) bool {
	return t.Typ != nil && basicKind(t.Typ) == "bool"
}

// stickyBacks: like backs, but additionally uses that a flag of the loop which has value v after
// the loop and can never go back to v once it left it must have had value v all the time.
func (a *An) stickyBacks(l *LoopRec, exit *State, p *Term) []back {
	bs, _ := a.sticky(l, exit, p)
	return bs
}

// sticky also returns exit extended by what the flags' initial values must have been.
func (a *An) sticky(l *LoopRec, exit *State, p *Term) ([]back, *State) {
	bs := a.backs(l, p)
	exit = exit.clone()
	for _, c := range l.Cells {
		var keep, lose *Term
		switch {
		case exit.holds(c.Phi) && (c.Val != nil || isBoolTerm(c.Phi)):
			keep, lose = tTrue, tFalse
		case exit.holds(mkNot(c.Phi)) && (c.Val != nil || isBoolTerm(c.Phi)):
			keep, lose = tFalse, tTrue
		case exit.holds(mkEq(c.Phi, tNil)):
			keep = tNil
		default:
			continue
		}
		mono := true
		for _, b := range bs {
			s := b.st.clone()
			if lose != nil {
				s.assume(mkEq(c.Phi, lose))
				if !s.bot && !s.holds(mkEq(b.step(c.Phi), lose)) {
					mono = false
				}
			} else {
				s.assume(mkNot(mkEq(c.Phi, tNil)))
				if !s.bot && !s.holds(mkNot(mkEq(b.step(c.Phi), tNil))) {
					mono = false
				}
			}
		}
		if !mono {
			continue
		}
		exit.assume(mkEq(c.Init, keep))
		var out []back
		for _, b := range bs {
			b.st.assume(mkEq(c.Phi, keep))
			b.st.assume(mkEq(b.step(c.Phi), keep))
			if !b.st.bot {
				out = append(out, b)
			}
		}
		bs = out
	}
	// a list that only grows and is empty after the loop never got an element
	for _, c := range l.Cells {
		n := mkLen(c.Phi)
		if n.Op != "len" || !exit.holds(mkLe(n, mkInt(0))) {
			continue
		}
		mono := true
		for _, b := range bs {
			mono = mono && b.st.holds(mkLe(n, mkLen(b.step(c.Phi))))
		}
		if !mono {
			continue
		}
		exit.assume(mkLe(mkLen(c.Init), mkInt(0)))
		var out []back
		for _, b := range bs {
			b.st.assume(mkLe(mkLen(b.step(c.Phi)), mkInt(0)))
			if !b.st.bot {
				out = append(out, b)
			}
		}
		bs = out
	}
	return bs, exit
}

// listEqualLoop: on the path of st the lists x and y are known to be equal element by element,
// by a completed loop or a library comparison.
func (a *An) listsEqual(st *State, x, y *Term) bool {
	if same(st, x, y) {
		return true
	}
	for _, f := range st.sortedFacts() {
		if f.Op == "call" && (f.Sym == "slices.Equal" || f.Sym == "reflect.DeepEqual") && len(f.Args) == 2 {
			if f.Args[0] == x && f.Args[1] == y || f.Args[0] == y && f.Args[1] == x {
				return true
			}
		}
	}
	for _, l := range a.doneLoops(st) {
		bs, ex := a.sticky(l, st, nil)
		if !ex.holds(mkEq(mkLen(x), mkLen(y))) {
			continue
		}
		for _, c := range l.Cells {
			if c.Init != mkInt(0) && c.Init != mkInt(-1) {
				continue
			}
			idx := c.Phi
			off := mkInt(0)
			if c.Init == mkInt(-1) { // range loops start at -1
				idx = mkAdd(c.Phi, mkInt(1))
				off = mkInt(1)
			}
			if !st.holds(mkLe(mkLen(x), mkAdd(c.Phi, off))) && !st.holds(mkLe(mkLen(y), mkAdd(c.Phi, off))) {
				continue
			}
			good := true
			for _, b := range bs {
				if b.step(c.Phi) != mkAdd(c.Phi, mkInt(1)) || !b.st.holds(mkEq(elemAt(x, idx), elemAt(y, idx))) {
					good = false
				}
			}
			if good {
				return true
			}
		}
	}
	return false
}
