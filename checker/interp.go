package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- per-function control-flow information ----

type LoopInfo struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
}

type FnInfo struct {
	fn     *ssa.Function
	rpo    []*ssa.BasicBlock
	rank   map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]*LoopInfo // by header
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

func analyseFn(f *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: f, rank: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*LoopInfo{}, liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	if f.Recover != nil && !seen[f.Recover] {
		dfs(f.Recover)
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rank[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := fi.loops[h]
				if l == nil {
					l = &LoopInfo{Header: h, Blocks: map[*ssa.BasicBlock]bool{h: true}}
					fi.loops[h] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.Blocks[x] {
						return
					}
					l.Blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			} else if fi.rank[h] <= fi.rank[b] {
				fatalf("irreducible control flow in %s", f)
			}
		}
	}
	// liveness
	liveOut := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s] {
					out[v] = true
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(out, p)
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if tracked(p.Edges[pi]) {
						out[p.Edges[pi]] = true
					}
				}
			}
			live := map[ssa.Value]bool{}
			for v := range out {
				live[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(fi.liveIn[b]) || fi.liveIn[b] == nil {
				ch = true
				fi.liveIn[b] = live
			}
			liveOut[b] = out
		}
	}
	return fi
}

func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

// ---- executions ----

// PS is one abstract execution state inside a frame.
type fieldType struct {
	st types.Type
	i  int
}

type PS struct {
	st  *State
	env map[ssa.Value]*Term
	def []*ssa.Defer
	dar [][]*Term // evaluated arguments of the deferred calls
}

func (p *PS) clone() *PS {
	n := &PS{st: p.st.clone(), env: make(map[ssa.Value]*Term, len(p.env)+4), def: append([]*ssa.Defer(nil), p.def...), dar: append([][]*Term(nil), p.dar...)}
	for k, v := range p.env {
		n.env[k] = v
	}
	return n
}

type Res struct {
	st   *State
	vals []*Term
}

type Edge struct {
	to *ssa.BasicBlock
	ps *PS
}

type Frame struct {
	fn     *ssa.Function
	info   *FnInfo
	ctx    string
	parent *Frame
	depth  int
	rets   []Res
	roots  []*Term
}

// Event is something noteworthy that happened on some abstract path.
type Event struct {
	Kind  string
	Name  string
	Fn    *ssa.Function
	Instr ssa.Instruction
	Ctx   string
	Args  []*Term
	Raw   []*Term // for calls: the arguments as passed
	St    *State
	note  func(st *State)
}

// note records something to be looked at when the analysis is complete.
func (x *Exec) note(f func(st *State), fr *Frame, in ssa.CallInstruction, st *State) {
	x.log = append(x.log, &Event{Kind: "note", Fn: fr.fn, Instr: in.(ssa.Instruction), St: st.clone(), note: f})
}

// LoopRec describes the fixpoint of one loop instance.
type LoopRec struct {
	Key    string
	Term   *Term // done(key) fact
	ID     int
	Fn     *ssa.Function
	Info   *LoopInfo
	Cells  []*LoopCell
	Backs  []*PS
	Entry  *State
	Header *State
	Steps  []map[*Term]*Term // per back state: phi -> step value
}

type LoopCell struct {
	Val  ssa.Value // header phi, or
	Addr *Term     // memory cell
	Init *Term
	Phi  *Term
}

type Boundary struct {
	Pure bool // result is a function of the argument contents, no effects
	// Effect, when set, replaces the default havoc.
	Effect func(x *Exec, fr *Frame, st *State, call *Term, args []*Term)
}

type Exec struct {
	w         *World
	infos     map[*ssa.Function]*FnInfo
	base      map[*Term]*Term // memory produced by package initialisation
	initObj   map[*Term]bool  // objects made by package initialisation
	unstable  map[*Term]bool  // package variables written outside package initialisation
	bound     map[string]*Boundary
	inlined   map[*ssa.Function]int
	log       []*Event
	wantEvent map[string]bool
	loops     map[string]*LoopRec
	loopIDs   map[string]int
	loopSeq   map[string]int // loop runs so far in the current pass
	loopStack []int
	loopKeys  []string
	scope     string
	counters  map[string]int
	steps     int
	maxSteps  int
	soft      bool // exceeding the budget is not fatal
	maxStates int
	hasKey    func(m, k *Term) bool // keys known (by another rule) to be in a map
	keepCells []*Term               // failing states that differ in these cells or in what was called stay apart
	keepErrs  bool                  // do not join the paths on which an error is returned
	maxEntry  int                   // states entering a loop
	objCtx    map[*Term]string
	objType   map[*Term]types.Type
	fns       map[string]*ssa.Function
	used      map[*ssa.Function]bool
	errFields map[string]bool
	trace     bool
	types     map[string]types.Type
	ftypes    map[string]fieldType // the structure type and index of a field symbol
	baseIdx   map[*Term][]*Term    // the elements of arrays written by the initialisers
	noInline  map[string]bool
	notes     map[string]int
	inInit    bool
	watch     *Term // error list whose growth ends the interest in a path
	watch0    *Term // its value on entry
	onCall    func(fr *Frame, in ssa.CallInstruction, name string, args []*Term, st *State)
	onInvoke  func(fr *Frame, in ssa.CallInstruction, args []*Term, st *State)
	// onBound is called before an opaque call of a repository function takes effect; what it returns refines the states afterwards.
	onBound   func(f *ssa.Function, args []*Term, st *State) func(st *State, res []*Term) []*State
	idxCands  bool                   // loop invariants that compare counters with lengths
	markShort bool                   // paths on which a read fails are marked
	classKey  func(st *State) string // states that differ in it are never joined
	onBranch  func(fr *Frame, b *ssa.BasicBlock, c *Term, st *State, r int)
}

func newExec(w *World) *Exec {
	return &Exec{w: w, infos: map[*ssa.Function]*FnInfo{}, bound: map[string]*Boundary{}, loops: map[string]*LoopRec{},
		loopIDs: map[string]int{}, loopSeq: map[string]int{}, counters: map[string]int{}, maxSteps: 12000000, maxStates: 200, maxEntry: 40, objCtx: map[*Term]string{},
		types: map[string]types.Type{}, ftypes: map[string]fieldType{}, inlined: map[*ssa.Function]int{}, wantEvent: map[string]bool{}, noInline: map[string]bool{}, notes: map[string]int{},
		objType: map[*Term]types.Type{}, fns: map[string]*ssa.Function{}, used: map[*ssa.Function]bool{}, errFields: map[string]bool{}}
}

func (x *Exec) info(f *ssa.Function) *FnInfo {
	if i, ok := x.infos[f]; ok {
		return i
	}
	i := analyseFn(f)
	x.infos[f] = i
	return i
}

func (x *Exec) event(kind, name string, fr *Frame, in ssa.Instruction, st *State, args ...*Term) {
	if !x.wantEvent[kind] && !x.wantEvent["*"] {
		return
	}
	e := &Event{Kind: kind, Name: name, Instr: in, Args: args, St: st.clone()}
	if fr != nil {
		e.Fn = fr.fn
		e.Ctx = fr.ctx + x.scope
	}
	x.log = append(x.log, e)
}

// ---- types ----

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == modPath {
			return "apkverifier"
		}
		return strings.TrimPrefix(p.Path(), modPath+"/")
	})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isByteSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isByte(u.Elem())
	case *types.Array:
		return isByte(u.Elem())
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// atomicStruct: struct types treated as one opaque value.
func atomicStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "time", "bytes", "math/big", "strings", "sync", "reflect", "bufio", "sync/atomic":
			return true
		}
	}
	return false
}

func fieldSym(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	return typeName(st) + "." + s.Field(i).Name()
}

var tEmpty = mkStr("")

func (x *Exec) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return tEmpty
		}
		return tNil
	case *types.Struct:
		if atomicStruct(t) {
			return mk("zero", typeName(t))
		}
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, x.zero(u.Field(i).Type()))
		}
		return mk("struct", typeName(t), a...).withType(t)
	case *types.Array:
		if isByte(u.Elem()) {
			return mk("zeros", "", mkInt(u.Len()))
		}
		if u.Len() <= 64 {
			var a []*Term
			for i := int64(0); i < u.Len(); i++ {
				a = append(a, x.zero(u.Elem()))
			}
			return mk("list", "", a...)
		}
		return mk("zeroarr", typeName(t))
	}
	return tNil
}

// ---- memory ----

func rootOf(a *Term) *Term {
	for {
		switch a.Op {
		case "fa", "ia", "bufc", "rdata", "rpos", "halg", "hdata", "fpos":
			a = a.Args[0]
			continue
		}
		return a
	}
}

func (x *Exec) get(st *State, a *Term) (*Term, bool) {
	if v, ok := st.mem[a]; ok {
		return v, true
	}
	if v, ok := x.base[a]; ok {
		if _, hv := st.mem[mk("ver", "", rootOf(a))]; !hv {
			return v, true
		}
	}
	return nil, false
}

// part is the value of a field of an element (a field of a field, ...) that was written as a whole,
// or the unknown value of one that may have been written under another index.
func (x *Exec) part(st *State, a *Term, t types.Type) (*Term, bool) {
	if a.Op != "fa" {
		return nil, false
	}
	ft, known := x.ftypes[a.Sym]
	p := a.Args[0]
	var v *Term
	switch p.Op {
	case "fa":
		if w, ok := x.get(st, p); ok {
			v = w
		} else if w, ok := x.part(st, p, nil); ok {
			v = w
		}
	case "ia":
		base, idx := p.Args[0], p.Args[1]
		if w, ok := x.get(st, p); ok {
			v = w
		} else if base.Op == "obj" || base.Op == "fa" || base.Op == "glob" {
			if w, ok := x.get(st, base); ok {
				var et types.Type
				if known {
					et = ft.st
				}
				v = x.elem(w, idx, et)
			} else if x.otherIndex(st, base, idx) {
				v = mk("at", "", p)
			}
		}
	}
	if v == nil {
		return nil, false
	}
	if known {
		return x.field(v, ft.st, ft.i), true
	}
	return mk("field", a.Sym, v).withType(t), true
}

// otherIndex: some cell under the array (itself not written as a whole) was written at an index that
// may be this one.
func (x *Exec) otherIndex(st *State, base, idx *Term) bool {
	_, c := idx.intVal()
	may := func(m *Term) bool {
		for m.Op == "fa" {
			m = m.Args[0]
		}
		if m.Op != "ia" || m.Args[0] != base || m.Args[1] == idx {
			return false
		}
		_, mc := m.Args[1].intVal()
		return !c || !mc
	}
	for m := range st.mem {
		if (m.Op == "ia" || m.Op == "fa") && may(m) {
			return true
		}
	}
	if x.baseIdx == nil && !x.inInit {
		x.baseIdx = map[*Term][]*Term{}
		for m := range x.base {
			q := m
			for q.Op == "fa" {
				q = q.Args[0]
			}
			if q.Op == "ia" {
				x.baseIdx[q.Args[0]] = append(x.baseIdx[q.Args[0]], m)
			}
		}
	}
	if _, hv := st.mem[mk("ver", "", rootOf(base))]; !hv {
		for _, m := range x.baseIdx[base] {
			if may(m) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) mkField(p *Term, st types.Type, i int) *Term {
	s := st.Underlying().(*types.Struct)
	if sym := fieldSym(st, i); x.ftypes[sym].st == nil {
		x.ftypes[sym] = fieldType{st, i}
	}
	return mk("fa", fieldSym(st, i), p).withType(s.Field(i).Type())
}

// defaultLoad is the value of a scalar cell that was never written on this path.
func (x *Exec) defaultLoad(st *State, a *Term, t types.Type) *Term {
	r := rootOf(a)
	tok := st.mem[mk("ver", "", r)]
	if tok == nil && a.Op == "fa" && r.Op != "obj" {
		tok = st.mem[mk("fver", a.Sym)]
	}
	if tok != nil {
		return mk("at", "", a, tok).withType(t)
	}
	if r.Op == "obj" {
		return x.zero(t)
	}
	if r.Op == "glob" && x.base != nil && !x.inInit {
		// initialised to its zero value and never written by the initialisers
		if g, ok := x.types["glob:"+r.Sym]; ok && g != nil && a == r {
			if strings.HasPrefix(r.Sym, modPath) && !x.unstable[r] {
				return x.zero(t)
			}
		}
	}
	return mk("at", "", a).withType(t)
}

func (x *Exec) load(st *State, a *Term, t types.Type) *Term {
	if a.Op == "ia" {
		base, idx := a.Args[0], a.Args[1]
		if v, ok := x.get(st, a); ok {
			return v
		}
		if base.Op == "obj" || base.Op == "fa" || base.Op == "glob" {
			if v, ok := x.get(st, base); ok {
				return x.elem(v, idx, t)
			}
			if base.Op == "obj" {
				if isByte(t) {
					return mk("byteat", "", x.load(st, base, nil0(base, t)), idx)
				}
				// some other element may have been written at an unknown index
				if x.otherIndex(st, base, idx) {
					return mk("at", "", a).withType(t)
				}
			}
			if s, ok := t.Underlying().(*types.Struct); ok && !atomicStruct(t) && s.NumFields() > 0 {
				// its fields may have been written one by one
				return x.fieldwise(st, a, t)
			}
			return x.defaultLoad(st, a, t)
		}
		return x.elem(base, idx, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if atomicStruct(t) {
			if v, ok := x.get(st, a); ok {
				return v
			}
			if v, ok := x.part(st, a, t); ok {
				return v
			}
			return x.defaultLoad(st, a, t)
		}
		if v, ok := x.get(st, a); ok {
			return v
		}
		if v, ok := x.part(st, a, t); ok {
			return v
		}
		return x.fieldwise(st, a, t)
	case *types.Array:
		if v, ok := x.get(st, a); ok {
			return v
		}
		if v, ok := x.part(st, a, t); ok {
			return v
		}
		if isByte(u.Elem()) {
			return x.defaultLoad(st, a, t)
		}
		if u.Len() <= 64 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = x.load(st, mk("ia", "", a, mkInt(int64(i))), u.Elem())
			}
			return mk("list", "", args...)
		}
		return x.defaultLoad(st, a, t)
	}
	if v, ok := x.get(st, a); ok {
		return v
	}
	if v, ok := x.part(st, a, t); ok {
		return v
	}
	return x.defaultLoad(st, a, t)
}

func (x *Exec) fieldwise(st *State, a *Term, t types.Type) *Term {
	u := t.Underlying().(*types.Struct)
	args := make([]*Term, u.NumFields())
	plain := u.NumFields() > 0
	for i := range args {
		f := x.mkField(a, t, i)
		args[i] = x.load(st, f, u.Field(i).Type())
		if !(args[i].Op == "at" && args[i].Args[0] == f && len(args[i].Args) == 1) {
			plain = false
		}
	}
	if plain {
		return mk("at", "", a).withType(t)
	}
	return mk("struct", typeName(t), args...).withType(t)
}

func nil0(base *Term, elem types.Type) types.Type {
	return types.NewArray(elem, 0)
}

func (x *Exec) store(st *State, a, v *Term, t types.Type) {
	if a.Op == "ia" {
		base, idx := a.Args[0], a.Args[1]
		if isByte(t) && (base.Op == "obj" || base.Op == "fa") {
			c, ok := x.get(st, base)
			if !ok {
				c = x.defaultLoad(st, base, types.NewArray(t, 0))
			}
			st.mem[base] = mkPut(c, idx, mk("byte1", "", v))
			return
		}
		if base.Op == "obj" || base.Op == "fa" || base.Op == "glob" {
			if c, ok := x.get(st, base); ok {
				if i, isC := idx.int64(); isC && c.Op == "list" && i >= 0 && i < int64(len(c.Args)) {
					args := append([]*Term(nil), c.Args...)
					args[i] = v
					st.mem[base] = mk("list", "", args...)
					return
				}
				st.mem[base] = mk("updidx", "", c, idx, v)
				return
			}
		}
		x.weaken(st, base, idx, a)
		// what was written of the element field by field is replaced
		for m := range st.mem {
			if m.Op == "fa" && under(m, a) {
				delete(st.mem, m)
			}
		}
		st.mem[a] = v
		return
	}
	if a.Op == "fa" {
		// a part of an element that is known as a whole
		p := a.Args[0]
		for p.Op == "fa" {
			p = p.Args[0]
		}
		if p.Op == "ia" {
			base, idx := p.Args[0], p.Args[1]
			_, whole := x.get(st, p)
			if base.Op == "obj" || base.Op == "fa" || base.Op == "glob" {
				if _, ok := x.get(st, base); ok {
					whole = true
				}
			}
			if whole {
				if v, et, ok := x.replaced(st, a, v); ok {
					x.store(st, p, v, et)
					return
				}
				x.notes["a field of an element replaced inside "+typeName(t)]++
				x.store(st, p, mk("replaced", a.Sym, x.load(st, p, nil0(base, t)), v), types.Typ[types.UnsafePointer])
				return
			}
			x.weaken(st, base, idx, a)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if atomicStruct(t) {
			st.mem[a] = v
			return
		}
		delete(st.mem, a)
		for i := 0; i < u.NumFields(); i++ {
			x.store(st, x.mkField(a, t, i), x.field(v, t, i), u.Field(i).Type())
		}
		return
	case *types.Array:
		for m := range st.mem {
			if m.Op == "ia" && m.Args[0] == a {
				delete(st.mem, m)
			}
		}
	}
	if r := rootOf(a); a.Op == "fa" && r.Op != "obj" {
		// the same field of another object that may be the same one
		for m := range st.mem {
			if m.Op == "fa" && m.Sym == a.Sym && m != a && x.mayAlias(m.Args[0], a.Args[0]) {
				st.mem[m] = mk("joinalias", "", st.mem[m], v)
			}
		}
	} else if a.Op == "fa" {
		for m := range st.mem {
			if m.Op == "fa" && m.Sym == a.Sym && m != a && m.Args[0].Op != "obj" && x.mayAlias(m.Args[0], a.Args[0]) {
				st.mem[m] = mk("joinalias", "", st.mem[m], v)
			}
		}
	}
	st.mem[a] = v
}

// under: the cell a is the cell p or a part of it.
func under(a, p *Term) bool {
	for {
		if a == p {
			return true
		}
		if a.Op != "fa" && a.Op != "ia" {
			return false
		}
		a = a.Args[0]
	}
}

// weaken: an element of the array at an index that is not constant is written: the others may have
// been.
func (x *Exec) weaken(st *State, base, idx, a *Term) {
	if _, c := idx.intVal(); c {
		return
	}
	for m := range st.mem {
		q := m
		for q.Op == "fa" {
			q = q.Args[0]
		}
		if q.Op == "ia" && q.Args[0] == base && q.Args[1] != idx {
			delete(st.mem, m)
			st.mem[mk("ver", "", base)] = mk("weak", "", a)
		}
	}
}

// replaced: the whole element that a field written to is a part of, with that field replaced.
func (x *Exec) replaced(st *State, a, v *Term) (*Term, types.Type, bool) {
	if a.Op == "ia" {
		return v, nil, true
	}
	ft, ok := x.ftypes[a.Sym]
	if !ok {
		return nil, nil, false
	}
	p := a.Args[0]
	old := x.load(st, p, ft.st)
	u := ft.st.Underlying().(*types.Struct)
	args := make([]*Term, u.NumFields())
	for i := range args {
		args[i] = x.field(old, ft.st, i)
	}
	args[ft.i] = v
	n := mk("struct", typeName(ft.st), args...).withType(ft.st)
	if p.Op == "ia" {
		return n, ft.st, true
	}
	return x.replaced(st, p, n)
}

func (x *Exec) mayAlias(p, q *Term) bool {
	if p == q {
		return true
	}
	kind := func(t *Term) int {
		switch t.Op {
		case "obj", "glob":
			return 0
		case "param":
			return 1
		case "fa":
			return 3
		}
		return 2
	}
	a, b := kind(p), kind(q)
	if a == 3 || b == 3 {
		return p.Op == q.Op && p.Sym == q.Sym && x.mayAlias(p.Args[0], q.Args[0])
	}
	if a == 0 && b == 0 || a <= 1 && b <= 1 {
		return false
	}
	return true
}

func (x *Exec) field(v *Term, t types.Type, i int) *Term {
	s := t.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	switch v.Op {
	case "struct":
		if i < len(v.Args) {
			return v.Args[i]
		}
	case "at":
		f := x.mkField(v.Args[0], t, i)
		if len(v.Args) == 1 {
			return mk("at", "", f).withType(ft)
		}
		return mk("at", "", f, v.Args[1]).withType(ft)
	case "zero":
		return x.zero(ft)
	}
	return mk("field", fieldSym(t, i), v).withType(ft)
}

// elem is element i of a sequence value.
func (x *Exec) elem(v, i *Term, t types.Type) *Term {
	if k, ok := i.int64(); ok {
		switch v.Op {
		case "list":
			if k >= 0 && k < int64(len(v.Args)) {
				return v.Args[k]
			}
		case "s":
			if k >= 0 && k < int64(len(v.Sym)) {
				return mkInt(int64(v.Sym[k]))
			}
		case "app":
			if n, ok := mkLen(v.Args[0]).int64(); ok {
				if k < n {
					return x.elem(v.Args[0], i, t)
				}
				return x.elem(v.Args[1], mkInt(k-n), t)
			}
		case "updidx":
			if j, ok := v.Args[1].int64(); ok {
				if j == k {
					return v.Args[2]
				}
				return x.elem(v.Args[0], i, t)
			}
		}
	}
	if v.Op == "updidx" && v.Args[1] == i {
		return v.Args[2]
	}
	if v.Op == "app" && v.Args[1].Op == "list" && len(v.Args[1].Args) == 1 && mkLen(v.Args[0]) == i {
		return v.Args[1].Args[0]
	}
	if t != nil && isByte(t) {
		return mk("byteat", "", v, i)
	}
	return mk("at", "", mk("ia", "", v, i)).withType(t)
}

func mkPut(c, off, data *Term) *Term {
	if k, ok := off.int64(); ok && k == 0 && mkLen(c) == mkLen(data) {
		return data
	}
	t := mk("put", "", c, off, data)
	if u := allPut(t); u != nil {
		return u
	}
	return t
}

// allPut: the pieces of a small buffer of fixed size, all of which has been written piece by piece.
func allPut(t *Term) *Term {
	n, ok := mkLen(t).int64()
	if !ok || n > 64 {
		return nil
	}
	at := map[int64]*Term{}
	for u := t; u.Op == "put"; u = u.Args[0] {
		o, ok1 := u.Args[1].int64()
		k, ok2 := mkLen(u.Args[2]).int64()
		if !ok1 || !ok2 || k == 0 {
			return nil
		}
		for p, d := range at {
			e, _ := mkLen(d).int64()
			if o < p+e && p < o+k {
				return nil
			}
		}
		at[o] = u.Args[2]
	}
	var l []*Term
	for o := int64(0); o < n; {
		d := at[o]
		if d == nil {
			return nil
		}
		l = append(l, d)
		k, _ := mkLen(d).int64()
		o += k
	}
	return mkCat(l...)
}

// content is the value of a slice, string or array term.
func (x *Exec) content(st *State, v *Term, bytes bool) *Term {
	if v == tNil {
		if bytes {
			return tEmpty
		}
		return v
	}
	if v.Op == "sl" {
		obj, lo, hi := v.Args[0], v.Args[1], v.Args[2]
		if bytes {
			c, ok := x.get(st, obj)
			if !ok {
				c = x.defaultLoad(st, obj, types.NewSlice(types.Typ[types.Uint8]))
			}
			return subseq(c, lo, hi)
		}
		if c, ok := x.get(st, obj); ok {
			return subseq(c, lo, hi)
		}
		l, ok1 := lo.int64()
		h, ok2 := hi.int64()
		if ok1 && ok2 && h-l <= 64 {
			var a []*Term
			for i := l; i < h; i++ {
				var et types.Type
				if v.Typ != nil {
					if s, ok := v.Typ.Underlying().(*types.Slice); ok {
						et = s.Elem()
					}
				}
				if et == nil {
					if e, ok := st.mem[mk("ia", "", obj, mkInt(i))]; ok {
						a = append(a, e)
						continue
					}
					a = append(a, mk("at", "", mk("ia", "", obj, mkInt(i))))
					continue
				}
				a = append(a, x.load(st, mk("ia", "", obj, mkInt(i)), et))
			}
			return mk("list", "", a...)
		}
		// an allocated list with unknown length and no recorded contents
		has := false
		for m := range st.mem {
			if m.Op == "ia" && m.Args[0] == obj {
				has = true
			}
		}
		if !has && st.mem[mk("ver", "", obj)] == nil {
			if lo.Sym == "0" {
				return mk("zeros", "", hi)
			}
		}
		return v
	}
	return v
}

// subseq is c[lo:hi].
func subseq(c, lo, hi *Term) *Term {
	if lo.Op == "c" && lo.Sym == "0" && hi == mkLen(c) {
		return c
	}
	if c.Op == "list" {
		l, ok1 := lo.int64()
		h, ok2 := hi.int64()
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(c.Args)) {
			return mk("list", "", c.Args[l:h]...)
		}
	}
	d := mkDrop(c, lo)
	return mkTake(d, mkSub(hi, lo))
}

// argVal is the value of a call argument including what it refers to.
func (x *Exec) argVal(st *State, v *Term, t types.Type) *Term { return x.argValD(st, v, t, 3) }

func (x *Exec) argValD(st *State, v *Term, t types.Type, d int) *Term {
	if d == 0 {
		return v
	}
	if v.Op == "iface" {
		if ct, ok := x.types[v.Sym]; ok {
			return mk("iface", v.Sym, x.argValD(st, v.Args[0], ct, d))
		}
		return v
	}
	if t == nil {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		c := x.content(st, v, isByte(u.Elem()))
		if c.Op == "list" && !isByte(u.Elem()) {
			a := make([]*Term, len(c.Args))
			for i, e := range c.Args {
				a[i] = x.argValD(st, e, u.Elem(), d-1)
			}
			return mk("list", "", a...)
		}
		return c
	case *types.Pointer:
		switch typeName(u.Elem()) {
		case "bytes.Buffer":
			return mk("bufref", "", x.bufContent(st, v))
		case "bytes.Reader":
			return mk("bufref", "", x.readerRest(st, v))
		}
		if v.Op == "obj" {
			c := x.load(st, v, u.Elem())
			if c.Op == "struct" {
				s, ok := u.Elem().Underlying().(*types.Struct)
				if ok {
					a := make([]*Term, len(c.Args))
					for i := range c.Args {
						a[i] = x.argValD(st, c.Args[i], s.Field(i).Type(), d-1)
					}
					c = mk("struct", c.Sym, a...)
				}
			}
			return mk("ref", "", c)
		}
	case *types.Map:
		if v.Op == "obj" {
			return mk("ref", "", x.mapContent(st, v))
		}
	}
	return v
}

func (x *Exec) bufContent(st *State, p *Term) *Term {
	c := mk("bufc", "", p)
	if v, ok := st.mem[c]; ok {
		return v
	}
	r := rootOf(p)
	if tok := st.mem[mk("ver", "", r)]; tok != nil {
		return mk("content", "", p, tok)
	}
	if r.Op == "obj" {
		return tEmpty
	}
	return mk("content", "", p)
}

func (x *Exec) readerRest(st *State, p *Term) *Term {
	d, pos := x.readerData(st, p)
	return mkDrop(d, pos)
}

func (x *Exec) readerData(st *State, p *Term) (*Term, *Term) {
	d, ok := st.mem[mk("rdata", "", p)]
	if !ok {
		d = mk("rdata0", "", p)
	}
	pos, ok := st.mem[mk("rpos", "", p)]
	if !ok {
		pos = mk("rpos0", "", p).withType(types.Typ[types.Int])
	}
	return d, pos
}

func (x *Exec) mapContent(st *State, m *Term) *Term {
	if v, ok := x.get(st, m); ok {
		return v
	}
	if tok := st.mem[mk("ver", "", rootOf(m))]; tok != nil {
		return mk("content", "", m, tok)
	}
	return mk("content", "", m)
}

// mapLookup returns value and presence of key k.
func (x *Exec) mapLookup(st *State, c, k *Term, vt types.Type) (v, has *Term) {
	for {
		switch c.Op {
		case "mapnew":
			return x.zero(vt), tFalse
		case "c": // nil map
			if c == tNil {
				return x.zero(vt), tFalse
			}
		case "upd", "del":
			r := st.eval(mkEq(c.Args[1], k))
			if c.Args[1] == k {
				r = 1
			}
			if r == 1 {
				if c.Op == "del" {
					return x.zero(vt), tFalse
				}
				return c.Args[2], tTrue
			}
			if r == -1 {
				c = c.Args[0]
				continue
			}
		}
		break
	}
	if x.hasKey != nil && x.hasKey(c, k) {
		v := mk("look", "", c, k).withType(vt)
		st.assume(nonNilT(v))
		return v, tTrue
	}
	return mk("look", "", c, k).withType(vt), mk("has", "", c, k)
}

// ---- garbage and merging ----

func (x *Exec) objsIn(t *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "obj" {
		*out = append(*out, t)
	}
	for _, a := range t.Args {
		x.objsIn(a, seen, out)
	}
}

// gc removes cells of objects created under ctx that are unreachable.
func (x *Exec) gc(st *State, ctx string, roots []*Term) {
	cand := false
	for m := range st.mem {
		r := rootOf(m)
		if m.Op == "ver" {
			r = rootOf(m.Args[0])
		}
		if r.Op == "obj" && strings.HasPrefix(x.objCtx[r], ctx) {
			cand = true
			break
		}
	}
	if !cand {
		return
	}
	seen := map[*Term]bool{}
	var work []*Term
	for _, r := range roots {
		x.objsIn(r, seen, &work)
	}
	byRoot := map[*Term][]*Term{}
	for m, v := range st.mem {
		r := rootOf(m)
		if m.Op == "ver" {
			continue
		}
		if r.Op == "obj" && strings.HasPrefix(x.objCtx[r], ctx) {
			byRoot[r] = append(byRoot[r], m)
			continue
		}
		x.objsIn(v, seen, &work)
	}
	live := map[*Term]bool{}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if live[o] {
			continue
		}
		live[o] = true
		for _, m := range byRoot[o] {
			x.objsIn(st.mem[m], seen, &work)
			for _, a := range m.Args {
				x.objsIn(a, seen, &work)
			}
		}
	}
	for r, ms := range byRoot {
		if !live[r] {
			for _, m := range ms {
				delete(st.mem, m)
			}
			delete(st.mem, mk("ver", "", r))
		}
	}
}

func sameMem(a, b map[*Term]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func sameEnv(a, b map[ssa.Value]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// errClass tells which error lists have definitely grown.
func (x *Exec) errClass(st *State) string {
	var l []string
	for m, v := range st.mem {
		if v.Op == "app" && v.Args[1].Op == "list" && len(v.Args[1].Args) > 0 && v.Args[1].Args[0].Op == "err" {
			l = append(l, strconv.Itoa(m.ID))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func shape(t *Term) string {
	if t == nil {
		return "-"
	}
	if t.isConst() {
		return t.Sym
	}
	if t.Op == "err" || t.Op == "iface" {
		return t.Op
	}
	if t.Op == "tuple" {
		s := "("
		for _, a := range t.Args {
			s += shape(a) + ","
		}
		return s + ")"
	}
	return "?"
}

// pruned: only paths that add no error to the watched list are of interest, and this one did.
func (x *Exec) pruned(st *State) bool {
	if x.watch == nil {
		return false
	}
	v, ok := st.mem[x.watch]
	return ok && st.holds(lt(mkLen(x.watch0), mkLen(v)))
}

// merge reduces a list of states waiting at the same point.
func (x *Exec) merge(fr *Frame, where string, l []*PS) []*PS {
	var live []*PS
	for _, p := range l {
		if !p.st.bot && !x.pruned(p.st) {
			live = append(live, p)
		}
	}
	if len(live) < 2 {
		return live
	}
	// exact merges
	type grp struct{ ps []*PS }
	var groups []*grp
	sameDef := func(a, b *PS) bool {
		if len(a.def) != len(b.def) {
			return false
		}
		for i := range a.def {
			if a.def[i] != b.def[i] {
				return false
			}
			for j := range a.dar[i] {
				if a.dar[i][j] != b.dar[i][j] {
					return false
				}
			}
		}
		return true
	}
outer:
	for _, p := range live {
		for _, g := range groups {
			q := g.ps[0]
			if sameDef(p, q) && sameEnv(p.env, q.env) && sameMem(p.st.mem, q.st.mem) {
				g.ps = append(g.ps, p)
				continue outer
			}
		}
		groups = append(groups, &grp{[]*PS{p}})
	}
	var out []*PS
	for _, g := range groups {
		for ch := true; ch && len(g.ps) > 1; {
			ch = false
		search:
			for i := 0; i < len(g.ps); i++ {
				for j := i + 1; j < len(g.ps); j++ {
					if n := exactMerge(g.ps[i].st, g.ps[j].st); n != nil {
						g.ps[i] = &PS{st: n, env: g.ps[i].env, def: g.ps[i].def, dar: g.ps[i].dar}
						g.ps = append(g.ps[:j], g.ps[j+1:]...)
						ch = true
						break search
					}
				}
			}
		}
		out = append(out, g.ps...)
	}
	if len(out) < 2 {
		return out
	}
	// states in which an error has been recorded or is being returned: one per class
	classes := map[string][]*PS{}
	var order []string
	var rest []*PS
	for _, p := range out {
		ec := x.errClass(p.st)
		key := ""
		for v, t := range p.env {
			if t.Op == "err" && isErrType(v.Type()) {
				key += ";" + v.Name() + sentinel(t)
			} else if t.Op == "tuple" && tupleErr(t) {
				key += ";" + v.Name()
				for _, a := range t.Args {
					key += sentinel(a)
				}
			}
		}
		if ec == "" && key == "" || x.keepErrs {
			rest = append(rest, p)
			continue
		}
		if x.keepCells != nil {
			for _, f := range p.st.sortedFacts() {
				if f.Op == "did" || f.Op == "done" {
					ec += "," + strconv.Itoa(f.ID)
				}
			}
		}
		for _, ad := range x.keepCells {
			if v, ok := p.st.mem[ad]; ok {
				ec += "@" + strconv.Itoa(v.ID)
			}
		}
		ks := strings.Split(key, ";")
		sort.Strings(ks)
		if x.classKey != nil {
			ec += "/" + x.classKey(p.st)
		}
		k := ec + "/" + strings.Join(ks, ";") + "/" + boolShape(p) + defKey(p)
		if _, ok := classes[k]; !ok {
			order = append(order, k)
		}
		classes[k] = append(classes[k], p)
	}
	for _, k := range order {
		rest = append(rest, x.lossy(fr, where+"!"+k, classes[k]))
	}
	out = rest
	if len(out) > x.maxStates {
		x.notes["state limit at "+fr.fn.String()]++
		out = x.reduce(fr, where, out, x.maxStates/2)
	}
	return out
}

// sentinel: the name of the error variable whose value t is.
func sentinel(t *Term) string {
	if t.Op == "err" && strings.HasPrefix(t.Sym, "init:") {
		return "=" + t.Sym
	}
	return ""
}

func tupleErr(t *Term) bool {
	for _, a := range t.Args {
		if a.Op == "err" {
			return true
		}
	}
	return false
}

func boolShape(p *PS) string {
	var l []string
	for v, t := range p.env {
		if t == tTrue || t == tFalse {
			l = append(l, v.Name()+t.Sym)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func envShape(p *PS) string {
	var l []string
	for v, t := range p.env {
		l = append(l, v.Name()+shape(t))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func defKey(p *PS) string {
	s := ""
	for i, d := range p.def {
		s += fmt.Sprintf("|%p", d)
		for _, a := range p.dar[i] {
			s += strconv.Itoa(a.ID) + ","
		}
	}
	return s
}

// lossy merges states into one that covers all of them.
func (x *Exec) lossy(fr *Frame, where string, l []*PS) *PS {
	if len(l) == 1 {
		return l[0]
	}
	sts := make([]*State, len(l))
	for i, p := range l {
		sts[i] = p.st
	}
	n := lossyFacts(sts)
	out := &PS{st: n, env: map[ssa.Value]*Term{}, def: l[0].def, dar: l[0].dar}
	var joinVal func(cell string, vals []*Term, t types.Type) *Term
	joinVal = func(cell string, vals []*Term, t types.Type) *Term {
		if tup, is := t.(*types.Tuple); is && tup.Len() > 0 {
			ok := true
			for _, v := range vals {
				ok = ok && v.Op == "tuple" && len(v.Args) == tup.Len()
			}
			if ok {
				parts := make([]*Term, tup.Len())
				for i := range parts {
					sub := make([]*Term, len(vals))
					for k, v := range vals {
						sub[k] = v.Args[i]
					}
					parts[i] = joinVal(cell+"."+strconv.Itoa(i), sub, tup.At(i).Type())
				}
				return mk("tuple", "", parts...)
			}
		}
		same := true
		for _, v := range vals[1:] {
			if v != vals[0] {
				same = false
			}
		}
		if same {
			return vals[0]
		}
		var u []*Term
		for _, v := range vals {
			if v.Op == "join" && len(v.Args) > 0 {
				u = append(u, v.Args...)
			} else {
				u = append(u, v)
			}
		}
		u = sortTerms(u)
		tot := 0
		for _, v := range u {
			tot += v.size
		}
		var j *Term
		if len(u) > 6 || tot > 400 {
			j = mkDep(x.loopStack, "join", cell)
		} else {
			j = mkDep(x.loopStack, "join", cell, u...)
		}
		j.withType(t)
		// domain of the join symbol
		var d *Dom
		for i, v := range vals {
			dv := sts[i].termDom(v)
			if i == 0 {
				d = dv
			} else {
				d, _ = domJoin(d, dv)
			}
			if d == nil {
				break
			}
		}
		if d != nil {
			n.setDom(j, d)
		}
		if t == nil {
			return j
		}
		if _, is := t.Underlying().(*types.Slice); is {
			// a list that has something in it on every one of the paths
			some := true
			for i, v := range vals {
				k := mkLen(v)
				some = some && (sts[i].holds(mkLe(mkInt(1), k)) || sts[i].holds(mkNot(mkEq(k, mkInt(0)))))
			}
			if some {
				n.assume(mkLe(mkInt(1), mkLen(j)))
			}
		}
		return j
	}
	vals := make([]*Term, len(l))
	var keys []ssa.Value
	for v := range l[0].env {
		keys = append(keys, v)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Name() < keys[j].Name() })
	for _, v := range keys {
		ok := true
		for i, p := range l {
			t, has := p.env[v]
			if !has {
				ok = false
				break
			}
			vals[i] = t
		}
		if ok {
			out.env[v] = joinVal(fr.ctx+where+":"+v.Name(), vals, v.Type())
		}
	}
	cells := map[*Term]bool{}
	for _, p := range l {
		for m := range p.st.mem {
			cells[m] = true
		}
	}
	var cl []*Term
	for m := range cells {
		cl = append(cl, m)
	}
	cl = sortTerms(cl)
	for _, m := range cl {
		if m.Op == "ver" || m.Op == "fver" {
			same := true
			for _, p := range l {
				if p.st.mem[m] != l[0].st.mem[m] {
					same = false
				}
			}
			if same {
				n.mem[m] = l[0].st.mem[m]
			} else {
				n.mem[m] = mkDep(x.loopStack, "join", "ver"+fr.ctx+where+strconv.Itoa(m.ID))
			}
			continue
		}
		ok := true
		for i, p := range l {
			v, has := p.st.mem[m]
			if !has {
				r := rootOf(m)
				if r.Op == "obj" && x.deadIn(p, r) {
					ok = false
					break
				}
				v = x.cellDefault(p.st, m)
			}
			vals[i] = v
		}
		if ok {
			n.mem[m] = joinVal(fr.ctx+where+"@"+strconv.Itoa(m.ID), vals, m.Typ)
		} else {
			// object that exists only on some of the paths: keep only if values agree
			var v *Term
			agree := true
			for _, p := range l {
				if t, has := p.st.mem[m]; has {
					if v == nil {
						v = t
					} else if v != t {
						agree = false
					}
				}
			}
			if agree {
				n.mem[m] = v
			} else {
				n.mem[m] = mkDep(x.loopStack, "join", fr.ctx+where+"@"+strconv.Itoa(m.ID))
			}
		}
	}
	return out
}

// deadIn: the object was never created on this path.
func (x *Exec) deadIn(p *PS, r *Term) bool {
	for m := range p.st.mem {
		if rootOf(m) == r {
			return false
		}
	}
	return true
}

// cellDefault is the value of a memory cell that has no explicit entry.
func (x *Exec) cellDefault(st *State, m *Term) *Term {
	switch m.Op {
	case "bufc":
		return x.bufContent(st, m.Args[0])
	case "rdata":
		d, _ := x.readerData(st, m.Args[0])
		return d
	case "rpos":
		_, p := x.readerData(st, m.Args[0])
		return p
	case "hdata":
		return x.hashData(st, m.Args[0])
	case "halg":
		return x.hashAlg(st, m.Args[0])
	case "fpos":
		return x.filePos(st, m.Args[0])
	}
	if m.Typ == nil {
		if v, ok := x.base[m]; ok {
			return v
		}
		return mk("at", "", m)
	}
	if _, isMap := m.Typ.Underlying().(*types.Map); isMap && m.Op != "fa" && m.Op != "ia" {
		return x.mapContent(st, m)
	}
	return x.load(st, m, m.Typ)
}

// termDom is the set of values a term can have in this state, nil if unrestricted.
func (s *State) termDom(t *Term) *Dom {
	if t.isConst() {
		return &Dom{set: []*Term{t}}
	}
	if d := s.dom[t]; d != nil {
		return d
	}
	if nonNil(t) {
		return &Dom{neg: true, set: []*Term{tNil}}
	}
	if t.Op == "lin" {
		l := linOf(t)
		lo, hi := new(big.Int).Set(l.K), new(big.Int).Set(l.K)
		okl, okh := true, true
		for v, c := range l.Vars {
			a, b := s.bounds(v)
			if c.Sign() < 0 {
				a, b = b, a
			}
			if a == nil {
				okl = false
			} else {
				lo.Add(lo, new(big.Int).Mul(c, a))
			}
			if b == nil {
				okh = false
			} else {
				hi.Add(hi, new(big.Int).Mul(c, b))
			}
		}
		if !okl && !okh {
			return nil
		}
		d := &Dom{neg: true}
		if okl {
			d.lo = lo
		}
		if okh {
			d.hi = hi
		}
		return d
	}
	if lo, hi := s.bounds(t); lo != nil || hi != nil {
		return &Dom{neg: true, lo: lo, hi: hi}
	}
	return nil
}

// ---- running functions ----

// Run analyses f with the given argument terms, starting in st.
func (x *Exec) Run(f *ssa.Function, args []*Term, st *State) []Res {
	fr := &Frame{fn: f, info: x.info(f), ctx: shortName(f)}
	return x.runFrame(fr, args, nil, st)
}

func shortName(f *ssa.Function) string {
	return shortFn(f)
}

func (x *Exec) runFrame(fr *Frame, args []*Term, free []*Term, st *State) []Res {
	f := fr.fn
	ps := &PS{st: st, env: map[ssa.Value]*Term{}}
	for i, p := range f.Params {
		if i < len(args) {
			ps.env[p] = args[i].withType(p.Type())
		}
	}
	for i, v := range f.FreeVars {
		if i < len(free) {
			ps.env[v] = free[i]
		}
	}
	x.region(fr, nil, f.Blocks[0], []*PS{ps})
	if x.watch != nil {
		var keep []Res
		for _, r := range fr.rets {
			if !x.pruned(r.st) {
				keep = append(keep, r)
			}
		}
		fr.rets = keep
	}
	return fr.rets
}

// deliver moves a state along the edge b->s, evaluating phis.
func (x *Exec) deliver(fr *Frame, b, s *ssa.BasicBlock, ps *PS) *PS {
	pi := predIndex(s, b)
	vals := map[ssa.Value]*Term{}
	for _, in := range s.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = x.val(fr, ps, p.Edges[pi])
	}
	live := fr.info.liveIn[s]
	env := make(map[ssa.Value]*Term, len(live)+len(vals))
	for v := range live {
		if t, ok := ps.env[v]; ok {
			env[v] = t
		}
	}
	for v, t := range vals {
		env[v] = t
	}
	return &PS{st: ps.st, env: env, def: ps.def, dar: ps.dar}
}

// region runs the blocks of loop l (or the whole function) from start; it returns the edges that
// leave the loop and the states that come back to its header.
func (x *Exec) region(fr *Frame, l *LoopInfo, start *ssa.BasicBlock, init []*PS) (exits []*Edge, backs []*PS) {
	if l != nil {
		// a new pass over the loop: the runs of its inner loops are counted anew
		p := fr.ctx + x.scope
		for k := range x.loopSeq {
			if strings.HasPrefix(k, p) && strings.IndexByte(":~/", k[len(p)]) >= 0 {
				delete(x.loopSeq, k)
			}
		}
	}
	pending := map[*ssa.BasicBlock][]*PS{start: init}
	first := true
	send := func(e *Edge) {
		switch {
		case e.ps.st.bot || x.pruned(e.ps.st):
		case l != nil && e.to == l.Header:
			backs = append(backs, e.ps)
		case l != nil && !l.Blocks[e.to]:
			exits = append(exits, e)
		default:
			pending[e.to] = append(pending[e.to], e.ps)
		}
	}
	for _, b := range fr.info.rpo {
		if l != nil && !l.Blocks[b] {
			continue
		}
		ps := pending[b]
		if len(ps) == 0 {
			continue
		}
		delete(pending, b)
		ps = x.merge(fr, "b"+strconv.Itoa(b.Index), ps)
		if inner := fr.info.loops[b]; inner != nil && !(first && l == inner) {
			for _, e := range x.runLoop(fr, inner, ps) {
				send(e)
			}
			first = false
			continue
		}
		first = false
		for _, p := range ps {
			for _, e := range x.block(fr, b, p, 0) {
				send(e)
			}
		}
	}
	return
}

func (x *Exec) loopID(key string) int {
	if id, ok := x.loopIDs[key]; ok {
		return id
	}
	id := len(x.loopIDs) + 1
	x.loopIDs[key] = id
	return id
}

func (x *Exec) runLoop(fr *Frame, l *LoopInfo, entry []*PS) []*Edge {
	entry = x.splitFlags(l, entry)
	if len(entry) > x.maxEntry {
		entry = x.reduce(fr, "loop"+strconv.Itoa(l.Header.Index), entry, x.maxEntry/2)
		x.notes["loop entry merge in "+fr.fn.String()]++
	}
	var out []*Edge
	// the same call may be followed in several states: every one has loops of its own
	seq := fr.ctx + x.scope + "/loop" + strconv.Itoa(l.Header.Index)
	base := x.loopSeq[seq]
	x.loopSeq[seq] += len(entry)
	for i, e0 := range entry {
		i += base
		if ex, ok := x.peel(fr, l, e0); ok {
			out = append(out, ex...)
			continue
		}
		key := fmt.Sprintf("%s%s/loop%d", fr.ctx, x.scope, l.Header.Index)
		if i > 0 {
			key += "." + strconv.Itoa(i)
		}
		out = append(out, x.fix(fr, l, e0, key)...)
	}
	return out
}

// splitFlags tells apart what a flag that controls the loop starts with.
func (x *Exec) splitFlags(l *LoopInfo, entry []*PS) []*PS {
	for _, in := range l.Header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		ctl := false
		for _, r := range *p.Referrers() {
			i, ok := r.(*ssa.If)
			ctl = ctl || ok && l.Blocks[i.Block()]
			if u, ok := r.(*ssa.UnOp); ok {
				for _, r := range *u.Referrers() {
					i, ok := r.(*ssa.If)
					ctl = ctl || ok && l.Blocks[i.Block()]
				}
			}
		}
		if !ctl {
			continue
		}
		var out []*PS
		for _, e := range entry {
			v := e.env[p]
			if v == nil || v.isConst() || len(entry) > 4 {
				out = append(out, e)
				continue
			}
			for _, b := range []*Term{tTrue, tFalse} {
				s := e.clone()
				if b == tTrue {
					s.st.assume(v)
				} else {
					s.st.assume(mkNot(v))
				}
				if !s.st.bot {
					s.env[p] = b
					out = append(out, s)
				}
			}
		}
		entry = out
	}
	return entry
}

// peel executes loops whose trip count is a small constant exactly.
func (x *Exec) peel(fr *Frame, l *LoopInfo, e0 *PS) ([]*Edge, bool) {
	iff, ok := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	in0, in1 := l.Blocks[iff.Block().Succs[0]], l.Blocks[iff.Block().Succs[1]]
	if in0 && in1 {
		return nil, false
	}
	mark, nret := len(x.log), len(fr.rets)
	saved := x.scope
	defer func() { x.scope = saved }()
	cur := []*PS{e0.clone()}
	var out []*Edge
	for i := 0; i < 20; i++ {
		x.scope = fmt.Sprintf("%s~%d.%d", saved, l.Header.Index, i)
		split := false
		old := x.onBranch
		x.onBranch = func(f2 *Frame, b *ssa.BasicBlock, c *Term, st *State, r int) {
			if old != nil {
				old(f2, b, c, st, r)
			}
			if f2 == fr && b == l.Header && r == 0 {
				split = true
			}
		}
		// quick test of the header alone
		if !x.headerDecided(fr, l, cur) {
			x.onBranch = old
			x.log = x.log[:mark]
			fr.rets = fr.rets[:nret]
			return nil, false
		}
		ex, back := x.region(fr, l, l.Header, cur)
		x.onBranch = old
		if split {
			x.log = x.log[:mark]
			fr.rets = fr.rets[:nret]
			return nil, false
		}
		out = append(out, ex...)
		if len(back) == 0 {
			return out, true
		}
		cur = x.merge(fr, "peel"+strconv.Itoa(l.Header.Index), back)
		if len(cur) == 0 {
			return out, true
		}
		if len(cur) > 12 {
			break
		}
	}
	x.log = x.log[:mark]
	fr.rets = fr.rets[:nret]
	return nil, false
}

// headerDecided runs the header's own instructions and tests whether its branch is determined.
func (x *Exec) headerDecided(fr *Frame, l *LoopInfo, cur []*PS) bool {
	for _, in := range l.Header.Instrs {
		switch in.(type) {
		case *ssa.Call, *ssa.Defer, *ssa.Next:
			// cheap headers only
			if c, ok := in.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				return false
			}
			return false
		}
	}
	mark := len(x.log)
	defer func() { x.log = x.log[:mark] }()
	ok := true
	old := x.onBranch
	x.onBranch = func(f2 *Frame, b *ssa.BasicBlock, c *Term, st *State, r int) {
		if f2 == fr && b == l.Header && r == 0 {
			ok = false
		}
	}
	for _, p := range cur {
		x.block(fr, l.Header, p.clone(), 0)
	}
	x.onBranch = old
	return ok
}

func (x *Exec) fix(fr *Frame, l *LoopInfo, e0 *PS, key string) []*Edge {
	id := x.loopID(key)
	saved := x.scope
	x.loopStack = append(x.loopStack, id)
	x.loopKeys = append(x.loopKeys, key)
	x.scope = fmt.Sprintf("%s~L%d", saved, l.Header.Index)
	if i := strings.LastIndexByte(key, '.'); i > strings.LastIndexByte(key, '/') && i >= 0 {
		x.scope += key[i:]
	}
	defer func() {
		x.loopStack = x.loopStack[:len(x.loopStack)-1]
		x.loopKeys = x.loopKeys[:len(x.loopKeys)-1]
		x.scope = saved
	}()
	mark, nret := len(x.log), len(fr.rets)
	var cells []*LoopCell
	byVal := map[ssa.Value]*LoopCell{}
	byAddr := map[*Term]*LoopCell{}
	doms := map[*LoopCell]*Dom{}
	grow := map[*LoopCell]int{}
	dropped := map[*Term]bool{} // refuted candidate facts
	addCell := func(v ssa.Value, addr, init *Term) *LoopCell {
		c := &LoopCell{Val: v, Addr: addr, Init: init}
		name := ""
		var t types.Type
		if v != nil {
			name = v.Name()
			if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
				name += "(" + p.Comment + ")"
			}
			t = v.Type()
		} else {
			name = "@" + strconv.Itoa(addr.ID)
			t = addr.Typ
		}
		c.Phi = mkDep(x.loopStack, "phi", fmt.Sprintf("%s:%s", key, name)).withType(t)
		if init != nil && init.Typ != nil {
			c.Phi.withType(init.Typ)
		}
		cells = append(cells, c)
		if v != nil {
			byVal[v] = c
		} else {
			byAddr[addr] = c
		}
		doms[c] = e0.st.termDom(init)
		return c
	}
	isInt := func(c *LoopCell) bool {
		if c.Val != nil {
			b, ok := c.Val.Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		}
		if c.Addr.Op == "rpos" || c.Addr.Op == "fpos" {
			return true
		}
		if c.Addr.Typ != nil {
			b, ok := c.Addr.Typ.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		}
		return false
	}
	isSeq := func(c *LoopCell) bool {
		if c.Val != nil {
			_, ok := c.Val.Type().Underlying().(*types.Slice)
			return ok
		}
		if c.Addr.Op == "bufc" {
			return true
		}
		if c.Addr.Typ != nil {
			_, ok := c.Addr.Typ.Underlying().(*types.Slice)
			return ok
		}
		return false
	}
	candidates := func() []*Term {
		var out []*Term
		add := func(f *Term) {
			if f != tTrue && f != tFalse && !dropped[f] {
				out = append(out, f)
			}
		}
		m := map[*Term]*Term{}
		var ints []*LoopCell
		for _, c := range cells {
			if isInt(c) {
				ints = append(ints, c)
				add(mkLe(c.Init, c.Phi))
				add(mkLe(c.Phi, c.Init))
			} else if isSeq(c) {
				add(mkLe(mkLen(c.Init), mkLen(c.Phi)))
				add(mkLe(mkLen(c.Phi), mkLen(c.Init)))
			}
			if !c.Init.isConst() {
				m[c.Init] = c.Phi
			}
		}
		for i, c := range ints {
			for _, d := range ints[i+1:] {
				if len(ints) > 5 {
					break
				}
				add(mkEq(mkSub(c.Phi, d.Phi), mkSub(c.Init, d.Init)))
				add(mkEq(mkAdd(c.Phi, d.Phi), mkAdd(c.Init, d.Init)))
				add(mkLe(c.Phi, d.Phi))
				add(mkLe(d.Phi, c.Phi))
			}
			for _, s := range cells {
				if isSeq(s) && len(cells) < 8 {
					add(mkEq(mkAdd(c.Phi, mkLen(s.Phi)), mkAdd(c.Init, mkLen(s.Init))))
					add(mkEq(mkSub(c.Phi, mkLen(s.Phi)), mkSub(c.Init, mkLen(s.Init))))
				}
			}
		}
		if len(m) > 0 {
			n := 0
			for _, f := range e0.st.sortedFacts() {
				for t := range m {
					if f.contains(t) {
						add(subst(f, m))
						n++
						break
					}
				}
				if n > 40 {
					break
				}
			}
			for _, t := range e0.st.sortedDom() {
				if m[t] != nil {
					continue // handled by doms
				}
				for u := range m {
					if t.contains(u) {
						nt := subst(t, m)
						for _, f := range domFacts(nt, e0.st.dom[t]) {
							add(f)
						}
						break
					}
				}
			}
		}
		if x.idxCands {
			seen := map[*Term]bool{}
			var lens []*Term
			look := func(t *Term) {
				t.walk(func(u *Term) bool {
					if u.Op == "len" && !seen[u] && !u.deps[id] {
						seen[u] = true
						lens = append(lens, u)
					}
					return true
				})
			}
			for _, f := range e0.st.sortedFacts() {
				if f.Op == "le" || f.Op == "eq" {
					look(f)
				}
			}
			for _, t := range e0.st.sortedDom() {
				look(t)
			}
			for _, p := range fr.fn.Params {
				if v := e0.env[p]; v != nil && seqType(p.Type()) {
					look(x.lenOf(e0.st, v, p.Type()))
				}
			}
			for _, c := range ints {
				for _, n := range lens {
					if len(seen) <= 24 {
						add(mkLe(c.Phi, n))
					}
				}
			}
		}
		return out
	}
	// header phis that change are discovered on the first pass
	for iter := 0; ; iter++ {
		if iter > 60 {
			fatalf("loop analysis does not converge in %s", fr.fn)
		}
		x.log = x.log[:mark]
		fr.rets = fr.rets[:nret]
		h := e0.clone()
		for _, c := range cells {
			if c.Val != nil {
				h.env[c.Val] = c.Phi
			} else {
				h.st.mem[c.Addr] = c.Phi
			}
		}
		for _, c := range cells {
			if d := doms[c]; d != nil {
				h.st.setDom(c.Phi, d)
			}
		}
		cands := candidates()
		// a candidate must hold on entry
		initMap := map[*Term]*Term{}
		for _, c := range cells {
			initMap[c.Phi] = c.Init
		}
		var good []*Term
		for _, f := range cands {
			if e0.st.holds(subst(f, initMap)) {
				good = append(good, f)
			} else {
				dropped[f] = true
			}
		}
		for _, f := range good {
			h.st.assume(f)
		}
		if h.st.bot {
			fatalf("inconsistent loop invariant in %s", fr.fn)
		}
		hst := h.st.clone()
		exits, backs := x.region(fr, l, l.Header, []*PS{h})
		var live []*PS
		for _, b := range backs {
			if !b.st.bot {
				live = append(live, b)
			}
		}
		backs = live
		changed := false
		// changed cells
		for _, in := range l.Header.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if byVal[p] != nil {
				continue
			}
			for _, b := range backs {
				if b.env[p] != e0.env[p] {
					addCell(p, nil, e0.env[p])
					changed = true
					break
				}
			}
		}
		memc := map[*Term]bool{}
		for _, b := range backs {
			for _, m := range b.st.sortedMem() {
				if r := rootOf(m); m.Op != "ver" && m.deps[id] && !r.deps[id] {
					b.st.mem[mk("ver", "", r)] = mk("weak", "", m)
				}
			}
		}
		for _, b := range backs {
			for m, v := range b.st.mem {
				if m.deps[id] {
					continue
				}
				if byAddr[m] != nil || memc[m] {
					continue
				}
				if e0.st.mem[m] != v {
					memc[m] = true
				}
			}
			for m := range e0.st.mem {
				if _, ok := b.st.mem[m]; !ok && byAddr[m] == nil {
					memc[m] = true
				}
			}
		}
		var ml []*Term
		for m := range memc {
			ml = append(ml, m)
		}
		for _, m := range sortTerms(ml) {
			init, ok := e0.st.mem[m]
			if !ok {
				if m.Op == "ver" || m.Op == "fver" {
					init = tNil
				} else {
					init = x.cellDefault(e0.st, m)
				}
			}
			addCell(nil, m, init)
			changed = true
		}
		if changed {
			continue
		}
		// domains
		for _, c := range cells {
			d := doms[c]
			if d == nil {
				continue
			}
			nd := d
			for _, b := range backs {
				nd, _ = domJoin(nd, b.st.termDom(x.stepOf(b, c)))
				if nd == nil {
					break
				}
			}
			if !nd.equal(d) {
				changed = true
				grow[c]++
				if nd != nil && grow[c] > 3 {
					w := &Dom{neg: true}
					if !nd.neg {
						if hh := hull(nd.set); hh != nil {
							nd = hh
						} else if grow[c] < 20 {
							doms[c] = nd
							continue
						} else {
							doms[c] = nil
							continue
						}
					}
					dh := d
					if !d.neg {
						dh = hull(d.set)
						if dh == nil {
							doms[c] = nil
							continue
						}
					}
					if nd.lo != nil && dh.lo != nil && nd.lo.Cmp(dh.lo) >= 0 {
						w.lo = nd.lo
					}
					if nd.hi != nil && dh.hi != nil && nd.hi.Cmp(dh.hi) <= 0 {
						w.hi = nd.hi
					}
					for _, e := range nd.set {
						if dh.has(e) {
							w.set = append(w.set, e)
						}
					}
					if w.lo == nil && w.hi == nil && len(w.set) == 0 {
						w = nil
					}
					nd = w
				}
				doms[c] = nd
			}
		}
		// candidate facts
		for _, f := range good {
			for _, b := range backs {
				m := map[*Term]*Term{}
				for _, c := range cells {
					m[c.Phi] = x.stepOf(b, c)
				}
				if !b.st.holds(subst(f, m)) {
					dropped[f] = true
					changed = true
					break
				}
			}
		}
		if changed {
			continue
		}
		rec := &LoopRec{Key: key, ID: id, Fn: fr.fn, Info: l, Cells: cells, Backs: backs, Entry: e0.st, Header: hst, Term: mk("done", key)}
		for _, b := range backs {
			m := map[*Term]*Term{}
			for _, c := range cells {
				m[c.Phi] = x.stepOf(b, c)
			}
			rec.Steps = append(rec.Steps, m)
		}
		x.loops[key] = rec
		for _, e := range exits {
			e.ps.st.facts[rec.Term] = true
		}
		return exits
	}
}

func domFacts(t *Term, d *Dom) []*Term {
	if d == nil {
		return nil
	}
	if !d.neg {
		return []*Term{mkIn(t, d.set)}
	}
	var out []*Term
	for _, c := range d.set {
		out = append(out, mkNot(mkEq(t, c)))
	}
	if d.lo != nil {
		out = append(out, mkLe(mkBig(d.lo), t))
	}
	if d.hi != nil {
		out = append(out, mkLe(t, mkBig(d.hi)))
	}
	return out
}

func (x *Exec) stepOf(b *PS, c *LoopCell) *Term {
	if c.Val != nil {
		if t := b.env[c.Val]; t != nil {
			return t
		}
		return mk("undef", "")
	}
	if v, ok := b.st.mem[c.Addr]; ok {
		return v
	}
	if c.Addr.Op == "ver" || c.Addr.Op == "fver" {
		return tNil
	}
	return x.cellDefault(b.st, c.Addr)
}

// val evaluates an operand.
func (x *Exec) val(fr *Frame, ps *PS, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constTerm(c)
	case *ssa.Global:
		n := c.RelString(nil)
		x.types["glob:"+n] = deref(c.Type())
		return mk("glob", n).withType(deref(c.Type()))
	case *ssa.Function:
		return mk("fn", x.regFn(c))
	case *ssa.Builtin:
		return mk("fn", "builtin."+c.Name())
	}
	if t, ok := ps.env[v]; ok {
		return t
	}
	return mk("undef", fr.ctx+":"+v.Name()).withType(v.Type())
}

func (x *Exec) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		v, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return mkBig(v)
	}
	return mk("c", "k:"+c.Value.ExactString())
}

var _ = token.ADD

// reduce merges the states that differ least until at most n are left (more, where states must
// not be merged).
func (x *Exec) reduce(fr *Frame, where string, l []*PS, n int) []*PS {
	keys := make([]string, len(l))
	for i, p := range l {
		keys[i] = defKey(p) + x.errClass(p.st)
		if x.classKey != nil {
			keys[i] += "/" + x.classKey(p.st)
		}
	}
	type pair struct{ d, i, j int }
	var ps []pair
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if keys[i] == keys[j] {
				ps = append(ps, pair{distance(l[i], l[j]), i, j})
			}
		}
	}
	sort.Slice(ps, func(a, b int) bool {
		if ps[a].d != ps[b].d {
			return ps[a].d < ps[b].d
		}
		if ps[a].i != ps[b].i {
			return ps[a].i < ps[b].i
		}
		return ps[a].j < ps[b].j
	})
	root := make([]int, len(l))
	for i := range root {
		root[i] = i
	}
	find := func(i int) int {
		for root[i] != i {
			i = root[i]
		}
		return i
	}
	left := len(l)
	for _, p := range ps {
		if left <= n {
			break
		}
		a, b := find(p.i), find(p.j)
		if a == b {
			continue
		}
		if b < a {
			a, b = b, a
		}
		root[b] = a
		left--
	}
	by := map[int][]*PS{}
	for i, p := range l {
		by[find(i)] = append(by[find(i)], p)
	}
	var out []*PS
	k := 0
	for i := range l {
		if g := by[i]; g != nil {
			out = append(out, x.lossy(fr, where+"#"+strconv.Itoa(k), g))
			k++
		}
	}
	return out
}

// distance counts what two states disagree on.
func distance(a, b *PS) int {
	n := 0
	for f := range a.st.facts {
		if !b.st.facts[f] {
			n++
		}
	}
	for f := range b.st.facts {
		if !a.st.facts[f] {
			n++
		}
	}
	for t, d := range a.st.dom {
		if e := b.st.dom[t]; e != d {
			n++
		}
	}
	for t := range b.st.dom {
		if a.st.dom[t] == nil {
			n++
		}
	}
	for m, v := range a.st.mem {
		if b.st.mem[m] != v {
			n += 2
		}
	}
	for v, t := range a.env {
		if b.env[v] != t {
			n += 2
		}
	}
	return n
}
