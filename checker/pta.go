package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whole-program analysis: reachable functions and a subset-based points-to analysis over them
// (flow- and context-insensitive, field-sensitive), which tells apart what package initialisation
// allocates from what runs later.

type pobj struct {
	id    int
	kind  string // alloc, glob, ext, caller, fn
	init  bool   // made by package initialisation (or a package variable)
	typ   types.Type
	fn    *ssa.Function
	free  []*pnode // bindings of a closure
	desc  string
	deep  bool // stands for everything reachable from it as well
	where string
}

type ploc struct {
	obj  *pobj
	path string
	typ  types.Type // of what is stored there; nil: unknown
}

type pnode struct {
	set  map[*ploc]bool
	list []*ploc
}

type pwrite struct {
	fn   *ssa.Function
	in   ssa.Instruction
	loc  *ploc
	kind string
	init bool
}

type pctx struct {
	fn   *ssa.Function
	init bool
}

type pkey struct {
	v    interface{}
	init bool
	i    int
}

type PTA struct {
	w       *World
	nodes   map[pkey]*pnode
	mem     map[*ploc]*pnode
	locs    map[*pobj]map[string]*ploc
	objs    map[pkey]*pobj
	reach   map[pctx]bool
	order   []pctx
	ifaceT  map[types.Type]bool // concrete types converted to interfaces
	ifaceL  []types.Type
	writes  map[string]pwrite
	calls   map[pctx]map[*ssa.Function]bool // call graph
	ext     map[string]map[ssa.CallInstruction]bool
	changed bool
	notes   map[string]int
	// opaque packages: calls into them follow a model
	opaque func(f *ssa.Function) bool
}

func newPTA(w *World) *PTA {
	return &PTA{w: w, nodes: map[pkey]*pnode{}, mem: map[*ploc]*pnode{}, locs: map[*pobj]map[string]*ploc{}, objs: map[pkey]*pobj{}, reach: map[pctx]bool{},
		ifaceT: map[types.Type]bool{}, writes: map[string]pwrite{}, calls: map[pctx]map[*ssa.Function]bool{}, ext: map[string]map[ssa.CallInstruction]bool{}, notes: map[string]int{}}
}

func hasPtr(t types.Type) bool { return hasPtrD(t, 0) }

func hasPtrD(t types.Type, d int) bool {
	if d > 20 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtrD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtrD(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtrD(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func (p *PTA) node(k pkey) *pnode {
	n := p.nodes[k]
	if n == nil {
		n = &pnode{set: map[*ploc]bool{}}
		p.nodes[k] = n
	}
	return n
}

func (p *PTA) loc(o *pobj, path string, t types.Type) *ploc {
	if o.deep {
		// everything of one type inside is one location
		path = "*"
		if t != nil {
			path = "*" + types.TypeString(t, nil)
		}
	}
	m := p.locs[o]
	if m == nil {
		m = map[string]*ploc{}
		p.locs[o] = m
	}
	l := m[path]
	if l == nil {
		l = &ploc{o, path, t}
		m[path] = l
	}
	return l
}

func (p *PTA) cell(l *ploc) *pnode {
	n := p.mem[l]
	if n == nil {
		n = &pnode{set: map[*ploc]bool{}}
		p.mem[l] = n
		p.changed = true
	}
	return n
}

func (p *PTA) add(n *pnode, l *ploc) {
	if !n.set[l] {
		n.set[l] = true
		n.list = append(n.list, l)
		p.changed = true
	}
}

func sameShape(a, b types.Type) bool {
	return types.Identical(a, b) || types.Identical(a.Underlying(), b.Underlying())
}

// fits: a value of type t can point to the location.
func fits(l *ploc, t types.Type) bool { return fitsD(l, t, 0) }

func fitsD(l *ploc, t types.Type, d int) bool {
	if l.typ == nil || t == nil || d > 20 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		return sameShape(l.typ, u.Elem())
	case *types.Slice:
		e := elemType(l.typ)
		return e != nil && sameShape(e, u.Elem())
	case *types.Map:
		m, ok := l.typ.Underlying().(*types.Map)
		return ok && l.obj.kind != "boxed" && sameShape(m, u)
	case *types.Signature:
		return l.obj.kind == "fn" || l.obj.kind == "ext"
	case *types.Interface:
		return u.NumMethods() == 0 || l.obj.kind == "boxed" || types.Implements(types.NewPointer(l.typ), u) || types.Implements(l.typ, u) || carries(l.typ, u)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) && fitsD(l, u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return fitsD(l, u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtr(u.At(i).Type()) && fitsD(l, u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// carries: a named type over the location's type may be what implements the interface.
func carries(t types.Type, u *types.Interface) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Array:
		return true // e.g. sort.Interface on a named slice
	}
	return false
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (p *PTA) flow(to *pnode, from *pnode, t types.Type) {
	for i := 0; i < len(from.list); i++ {
		if l := from.list[i]; fits(l, t) {
			p.add(to, l)
		}
	}
}

// field is the location inside l.
func (p *PTA) sub(l *ploc, step string, t types.Type) *ploc {
	if l.obj.deep {
		return p.loc(l.obj, "", t)
	}
	if len(l.path) > 200 {
		p.notes["deep path "+l.obj.desc]++
		return l
	}
	return p.loc(l.obj, l.path+step, t)
}

// contents: what the location holds, for a value of type t.
func (p *PTA) contents(l *ploc, t types.Type, to *pnode) {
	if l.obj.deep {
		p.inner(l.obj, l.typ, t, to, 0)
		for _, m := range p.deepCells(l.obj) {
			p.flow(to, m, t)
		}
		return
	}
	whole := false
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			whole = true
		}
	}
	for path, m := range p.locs[l.obj] {
		if path == l.path || strings.HasPrefix(l.path, path) || whole && strings.HasPrefix(path, l.path) {
			if n := p.mem[m]; n != nil {
				p.flow(to, n, t)
			}
		}
	}
}

func (p *PTA) deepCells(o *pobj) []*pnode {
	var out []*pnode
	for _, m := range p.locs[o] {
		if n := p.mem[m]; n != nil {
			out = append(out, n)
		}
	}
	return out
}

// inner: the locations of a deep object that a value of type t read from it can point to.
func (p *PTA) inner(o *pobj, in, t types.Type, to *pnode, d int) {
	if t == nil || d > 6 {
		p.add(to, p.loc(o, "", nil))
		return
	}
	if in != nil && !within1(in, t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			p.add(to, p.loc(o, "", nil))
		}
	case *types.Pointer:
		p.add(to, p.loc(o, "", u.Elem()))
	case *types.Slice, *types.Map:
		p.add(to, p.loc(o, "", t))
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ft := u.Field(i).Type(); hasPtr(ft) {
				p.inner(o, nil, ft, to, d+1)
			}
		}
	case *types.Array:
		p.inner(o, nil, u.Elem(), to, d+1)
	default:
		p.add(to, p.loc(o, "", nil))
	}
}

var within1Memo = map[[2]types.Type]bool{}

// within1: something of type t may be reachable from something of type in.
func within1(in, t types.Type) bool {
	k := [2]types.Type{in, t}
	if v, ok := within1Memo[k]; ok {
		return v
	}
	seen := map[types.Type]bool{}
	var visit func(x types.Type) bool
	visit = func(x types.Type) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if sameShape(x, t) {
			return true
		}
		switch u := x.Underlying().(type) {
		case *types.Pointer:
			return visit(u.Elem())
		case *types.Slice:
			return visit(u.Elem())
		case *types.Array:
			return visit(u.Elem())
		case *types.Map:
			return visit(u.Key()) || visit(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if visit(u.Field(i).Type()) {
					return true
				}
			}
			return false
		case *types.Basic:
			return u.Kind() == types.UnsafePointer
		}
		return true // interfaces, functions, channels
	}
	r := visit(in)
	within1Memo[k] = r
	return r
}

// pointee: the location a value of type t points to inside a deep object.
func (p *PTA) pointee(o *pobj, t types.Type, to *pnode) { p.inner(o, nil, t, to, 0) }

func (p *PTA) store(l *ploc, from *pnode, t types.Type) { p.flow(p.cell(l), from, t) }

func (p *PTA) obj(k pkey, kind string, init bool, t types.Type, desc string) *pobj {
	o := p.objs[k]
	if o == nil {
		o = &pobj{id: len(p.objs), kind: kind, init: init, typ: t, desc: desc}
		p.objs[k] = o
		p.changed = true
	}
	return o
}

func (p *PTA) enter(f *ssa.Function, init bool) {
	c := pctx{f, init}
	if !p.reach[c] {
		p.reach[c] = true
		p.order = append(p.order, c)
		p.changed = true
	}
}

func (p *PTA) global(g *ssa.Global) *ploc {
	o := p.obj(pkey{v: g}, "glob", true, g.Type().(*types.Pointer).Elem(), "package variable "+g.Name())
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		o.deep = true
		o.desc = "package variable " + g.RelString(nil)
	}
	return p.loc(o, "", o.typ)
}

// val: the node of an SSA value.
func (p *PTA) val(c pctx, v ssa.Value) *pnode {
	switch v := v.(type) {
	case *ssa.Global:
		n := p.node(pkey{v: v})
		if len(n.list) == 0 {
			p.add(n, p.global(v))
		}
		return n
	case *ssa.Function:
		n := p.node(pkey{v: v, init: c.init})
		if len(n.list) == 0 {
			o := p.obj(pkey{v: v, init: c.init, i: -1}, "fn", c.init, nil, v.String())
			o.fn = v
			p.add(n, p.loc(o, "", nil))
		}
		return n
	}
	return p.node(pkey{v: v, init: c.init})
}

// Run iterates to the fixpoint.
func (p *PTA) Run() {
	for round := 0; ; round++ {
		p.changed = false
		for i := 0; i < len(p.order); i++ {
			p.function(p.order[i])
		}
		if !p.changed {
			return
		}
		if round > 400 {
			fatalf("points-to analysis does not converge")
		}
	}
}

func (p *PTA) function(c pctx) {
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			p.instr(c, in)
		}
	}
}

func (p *PTA) write(c pctx, in ssa.Instruction, n *pnode, kind string) {
	for _, l := range n.list {
		k := fmt.Sprintf("%p|%d|%s|%s|%v", in, l.obj.id, l.path, kind, c.init)
		if _, ok := p.writes[k]; !ok {
			p.writes[k] = pwrite{c.fn, in, l, kind, c.init}
		}
	}
}

func (p *PTA) instr(c pctx, in ssa.Instruction) {
	w := p.w
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := p.obj(pkey{v: in, init: c.init}, "alloc", c.init, t, "allocated at "+w.posOf(c.fn, in.Pos()))
		p.add(p.val(c, in), p.loc(o, "", t))
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		o := p.obj(pkey{v: v, init: c.init}, "alloc", c.init, v.Type(), "made at "+w.posOf(c.fn, in.Pos()))
		p.add(p.val(c, v), p.loc(o, "", v.Type()))
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		o := p.obj(pkey{v: in, init: c.init}, "fn", c.init, nil, f.String())
		o.fn = f
		p.add(p.val(c, in), p.loc(o, "", nil))
		fill := len(o.free) == 0
		for i, b := range in.Bindings {
			fv := p.val(c, f.FreeVars[i])
			p.flow(fv, p.val(c, b), nil)
			if fill {
				o.free = append(o.free, fv)
			}
		}
	case *ssa.MakeInterface:
		if !p.ifaceT[in.X.Type()] {
			p.ifaceT[in.X.Type()] = true
			p.ifaceL = append(p.ifaceL, in.X.Type())
			p.changed = true
		}
		p.flow(p.val(c, in), p.val(c, in.X), nil)
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := st.Field(in.Field)
		n := p.val(c, in)
		x := p.val(c, in.X)
		for i := 0; i < len(x.list); i++ {
			p.add(n, p.sub(x.list[i], "."+f.Name(), f.Type()))
		}
	case *ssa.IndexAddr:
		n := p.val(c, in)
		x := p.val(c, in.X)
		for i := 0; i < len(x.list); i++ {
			p.add(n, p.sub(x.list[i], "[]", in.Type().(*types.Pointer).Elem()))
		}
	case *ssa.Field:
		p.flow(p.val(c, in), p.val(c, in.X), in.Type())
	case *ssa.Index:
		p.flow(p.val(c, in), p.val(c, in.X), in.Type())
	case *ssa.Slice:
		p.flow(p.val(c, in), p.val(c, in.X), in.Type())
	case *ssa.SliceToArrayPointer:
		p.flow(p.val(c, in), p.val(c, in.X), nil)
	case *ssa.UnOp:
		if in.Op.String() == "*" {
			if !hasPtr(in.Type()) {
				return
			}
			x := p.val(c, in.X)
			n := p.val(c, in)
			for i := 0; i < len(x.list); i++ {
				p.contents(x.list[i], in.Type(), n)
			}
		} else if in.Op.String() == "<-" {
			p.notes["channel receive in "+shortFn(c.fn)]++
		}
	case *ssa.Store:
		x := p.val(c, in.Addr)
		p.write(c, in, x, "store")
		if hasPtr(in.Val.Type()) {
			v := p.val(c, in.Val)
			for i := 0; i < len(x.list); i++ {
				p.store(x.list[i], v, in.Val.Type())
			}
		}
	case *ssa.MapUpdate:
		m := p.val(c, in.Map)
		p.write(c, in, m, "map update")
		for i := 0; i < len(m.list); i++ {
			l := m.list[i]
			mt := in.Map.Type().Underlying().(*types.Map)
			p.store(p.sub(l, "{k}", mt.Key()), p.val(c, in.Key), mt.Key())
			p.store(p.sub(l, "{v}", mt.Elem()), p.val(c, in.Value), mt.Elem())
		}
	case *ssa.Lookup:
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		m := p.val(c, in.X)
		n := p.val(c, in)
		if in.CommaOk {
			n = p.node(pkey{v: in, init: c.init, i: 1})
		}
		for i := 0; i < len(m.list); i++ {
			p.contents(p.sub(m.list[i], "{v}", mt.Elem()), mt.Elem(), n)
		}
	case *ssa.Range:
		p.flow(p.val(c, in), p.val(c, in.X), nil)
	case *ssa.Next:
		if in.IsString {
			return
		}
		r := in.Iter.(*ssa.Range)
		mt := r.X.Type().Underlying().(*types.Map)
		m := p.val(c, in.Iter)
		for i := 0; i < len(m.list); i++ {
			p.contents(p.sub(m.list[i], "{k}", mt.Key()), mt.Key(), p.node(pkey{v: in, init: c.init, i: 2}))
			p.contents(p.sub(m.list[i], "{v}", mt.Elem()), mt.Elem(), p.node(pkey{v: in, init: c.init, i: 3}))
		}
	case *ssa.Extract:
		p.flow(p.val(c, in), p.node(pkey{v: in.Tuple, init: c.init, i: in.Index + 1}), in.Type())
	case *ssa.Phi:
		for _, e := range in.Edges {
			p.flow(p.val(c, in), p.val(c, e), in.Type())
		}
	case *ssa.ChangeType:
		p.flow(p.val(c, in), p.val(c, in.X), in.Type())
	case *ssa.ChangeInterface:
		p.flow(p.val(c, in), p.val(c, in.X), in.Type())
	case *ssa.Convert:
		if !hasPtr(in.Type()) {
			return
		}
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			o := p.obj(pkey{v: in, init: c.init}, "alloc", c.init, in.Type(), "converted at "+w.posOf(c.fn, in.Pos()))
			p.add(p.val(c, in), p.loc(o, "", in.Type()))
			return
		}
		p.flow(p.val(c, in), p.val(c, in.X), nil)
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			p.notes["unsafe pointer in "+shortFn(c.fn)]++
		}
	case *ssa.MultiConvert:
		p.flow(p.val(c, in), p.val(c, in.X), nil)
	case *ssa.TypeAssert:
		n := p.val(c, in)
		if in.CommaOk {
			n = p.node(pkey{v: in, init: c.init, i: 1})
		}
		p.flow(n, p.val(c, in.X), in.AssertedType)
	case *ssa.Return:
		for i, r := range in.Results {
			if hasPtr(r.Type()) {
				p.flow(p.node(pkey{v: c.fn, init: c.init, i: 100 + i}), p.val(c, r), r.Type())
			}
		}
	case *ssa.Send, *ssa.Select:
		p.notes["channel operation in "+shortFn(c.fn)]++
	case ssa.CallInstruction:
		p.call(c, in)
	}
}

// result is the node of result i of a call.
func (p *PTA) result(c pctx, in ssa.CallInstruction, i int) *pnode {
	v, ok := in.(*ssa.Call)
	if !ok {
		return p.node(pkey{v: in, init: c.init, i: 1000 + i})
	}
	if in.Common().Signature().Results().Len() > 1 {
		return p.node(pkey{v: ssa.Value(v), init: c.init, i: i + 1})
	}
	return p.val(c, v)
}

func (p *PTA) call(c pctx, in ssa.CallInstruction) {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		p.builtin(c, in, b.Name())
		return
	}
	args := make([]*pnode, 0, len(cc.Args)+1)
	if cc.IsInvoke() {
		args = append(args, p.val(c, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, p.val(c, a))
	}
	if cc.IsInvoke() {
		it := cc.Value.Type().Underlying().(*types.Interface)
		for i := 0; i < len(p.ifaceL); i++ {
			t := p.ifaceL[i]
			if !types.Implements(t, it) {
				continue
			}
			f := p.w.Prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if f == nil {
				continue
			}
			if p.inside(f) {
				p.bind(c, in, f, args)
			}
		}
		if m := cc.Method.Pkg(); m != nil && strings.HasPrefix(m.Path(), modPath) {
			return
		}
		p.external(c, in, "invoke "+typeName(cc.Value.Type())+"."+cc.Method.Name(), args)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if p.inside(f) {
			p.bind(c, in, f, args)
			return
		}
		name := fnName(f)
		if o := f.Origin(); o != nil {
			name = fnName(o)
		}
		p.external(c, in, name, args)
		return
	}
	fv := p.val(c, cc.Value)
	for i := 0; i < len(fv.list); i++ {
		l := fv.list[i]
		if l.obj.fn != nil {
			if p.inside(l.obj.fn) {
				p.bind(c, in, l.obj.fn, args)
			} else {
				p.external(c, in, fnName(l.obj.fn), args)
			}
			continue
		}
		p.external(c, in, "function value "+l.obj.desc, args)
	}
}

// inside: the function's own code is analysed.
func (p *PTA) inside(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || p.opaque != nil && p.opaque(f) {
		return false
	}
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil { // wrappers
		return f.Object() == nil || f.Object().Pkg() == nil || strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}

func (p *PTA) bind(c pctx, in ssa.CallInstruction, f *ssa.Function, args []*pnode) {
	p.enter(f, c.init)
	m := p.calls[c]
	if m == nil {
		m = map[*ssa.Function]bool{}
		p.calls[c] = m
	}
	m[f] = true
	d := pctx{f, c.init}
	for i, q := range f.Params {
		if i < len(args) && hasPtr(q.Type()) {
			p.flow(p.val(d, q), args[i], q.Type())
		}
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if hasPtr(res.At(i).Type()) {
			p.flow(p.result(c, in, i), p.node(pkey{v: f, init: c.init, i: 100 + i}), res.At(i).Type())
		}
	}
}

func (p *PTA) builtin(c pctx, in ssa.CallInstruction, name string) {
	a := in.Common().Args
	switch name {
	case "append":
		v := in.(ssa.Value)
		o := p.obj(pkey{v: v, init: c.init}, "alloc", c.init, v.Type(), "grown at "+p.w.posOf(c.fn, in.Pos()))
		n := p.val(c, v)
		p.add(n, p.loc(o, "", v.Type()))
		x := p.val(c, a[0])
		p.flow(n, x, v.Type())
		if sl, ok := a[0].(*ssa.Slice); !ok || !isZero(sl.Max) || sl.Low != nil && !isZero(sl.Low) {
			p.write(c, in, x, "append")
		}
		et := elemType(v.Type())
		if hasPtr(et) {
			// the elements move to the grown array
			for i := 0; i < len(x.list); i++ {
				p.contents(p.sub(x.list[i], "[]", et), et, p.cell(p.sub(p.loc(o, "", v.Type()), "[]", et)))
			}
			y := p.val(c, a[1])
			for i := 0; i < len(n.list); i++ {
				to := p.cell(p.sub(n.list[i], "[]", et))
				for j := 0; j < len(y.list); j++ {
					p.contents(p.sub(y.list[j], "[]", et), et, to)
				}
			}
		}
	case "copy":
		x := p.val(c, a[0])
		p.write(c, in, x, "copy")
		et := elemType(a[0].Type())
		if hasPtr(et) {
			y := p.val(c, a[1])
			for i := 0; i < len(x.list); i++ {
				for j := 0; j < len(y.list); j++ {
					p.contents(p.sub(y.list[j], "[]", et), et, p.cell(p.sub(x.list[i], "[]", et)))
				}
			}
		}
	case "delete", "clear":
		p.write(c, in, p.val(c, a[0]), name)
	case "min", "max", "len", "cap", "print", "println", "panic", "close", "complex", "real", "imag":
		if name == "print" || name == "println" {
			p.noteExt("builtin "+name, in)
		}
	case "recover":
		if v, ok := in.(ssa.Value); ok {
			o := p.obj(pkey{v: v, init: c.init}, "ext", c.init, nil, "recovered")
			o.deep = true
			p.add(p.val(c, v), p.loc(o, "", nil))
		}
	case "ssa:wrapnilchk":
		p.flow(p.val(c, in.(ssa.Value)), p.val(c, a[0]), nil)
	default:
		p.notes["builtin "+name]++
	}
}

func isZero(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.String() == "0"
}

func (p *PTA) noteExt(name string, in ssa.CallInstruction) {
	m := p.ext[name]
	if m == nil {
		m = map[ssa.CallInstruction]bool{}
		p.ext[name] = m
	}
	m[in] = true
}

// reached: the locations reachable from the node.
func (p *PTA) reached(n *pnode, seen map[*ploc]bool, out *[]*ploc) {
	for _, l := range n.list {
		p.reachLoc(l, seen, out)
	}
}

func (p *PTA) reachLoc(l *ploc, seen map[*ploc]bool, out *[]*ploc) {
	if seen[l] {
		return
	}
	seen[l] = true
	*out = append(*out, l)
	for path, m := range p.locs[l.obj] {
		if strings.HasPrefix(path, l.path) || strings.HasPrefix(l.path, path) {
			if n := p.mem[m]; n != nil {
				p.reached(n, seen, out)
			}
		}
	}
	for _, f := range l.obj.free {
		p.reached(f, seen, out)
	}
}

// extMut says which arguments a library function writes to: the indexes, or all, or none.
// Values are "" (none), "*" (all) or a list of digits.
func extMut(name string) (string, bool) {
	if m, ok := extMuts[name]; ok {
		return m, true
	}
	for _, q := range extPrefix {
		if strings.HasPrefix(name, q[0]) {
			return q[1], true
		}
	}
	return "*", false
}

var extMuts = map[string]string{
	"io.ReadFull": "01", "io.ReadAtLeast": "01", "io.ReadAll": "0", "io/ioutil.ReadAll": "0", "io.Copy": "01", "io.CopyN": "01",
	"encoding/binary.Read": "02", "encoding/binary.Write": "0", "sort.Sort": "0", "sort.Stable": "0", "sort.Slice": "0", "sort.SliceStable": "0",
	"sort.Strings": "0", "sort.Ints": "0", "crypto/rand.Read": "0", "io.NewSectionReader": "", "io.MultiReader": "", "io.LimitReader": "", "io.TeeReader": "",
	"fmt.Fprintf": "0", "fmt.Fprint": "0", "fmt.Fprintln": "0", "io.WriteString": "0", "fmt.Sscanf": "*", "fmt.Sscan": "*", "fmt.Sscanln": "*", "fmt.Fscan": "*", "fmt.Fscanf": "*",
	"sort.Reverse": "", "sort.Search": "", "sort.SearchInts": "", "sort.SearchStrings": "", "sort.IsSorted": "", "sort.SliceIsSorted": "",
	"slices.Sort": "0", "slices.SortFunc": "0", "slices.SortStableFunc": "0", "slices.Reverse": "0",
	"sync/atomic.AddUint32": "0", "sync/atomic.CompareAndSwapUint32": "0", "sync/atomic.StoreUint32": "0",
	"encoding/hex.Encode": "0", "encoding/hex.Decode": "0", "encoding/asn1.Unmarshal": "1", "encoding/asn1.UnmarshalWithParams": "1", "encoding/json.Unmarshal": "1",
	"(*sync.Once).Do": "0", "(*sync.Mutex).Lock": "0", "(*sync.Mutex).Unlock": "0", "encoding/binary.PutUvarint": "0",
	"(*math/big.Int).Cmp": "", "(*math/big.Int).Sign": "", "(*math/big.Int).BitLen": "", "(*math/big.Int).String": "", "(*math/big.Int).Bytes": "", "(*math/big.Int).Text": "", "(*math/big.Int).Int64": "", "(*math/big.Int).Uint64": "",
	"(*math/big.Int).IsInt64": "", "(*math/big.Int).CmpAbs": "", "(*math/big.Int).ProbablyPrime": "", "(*math/big.Int).Bit": "", "(*math/big.Int).Format": "", "(*math/big.Int).FillBytes": "1", "(*math/big.Int).IsUint64": "",
	"crypto/rsa.VerifyPKCS1v15": "", "crypto/rsa.VerifyPSS": "", "crypto/ecdsa.Verify": "", "crypto/dsa.Verify": "", "crypto/ecdsa.VerifyASN1": "", "crypto/ed25519.Verify": "",
	"(*crypto/x509.Certificate).CheckSignature": "", "(*crypto/x509.Certificate).Equal": "", "(*crypto/x509.CertPool).AddCert": "0",
	"invoke error.Error": "", "invoke fmt.Stringer.String": "", "(*bytes.Buffer).Len": "", "(*bytes.Buffer).Bytes": "", "(*bytes.Buffer).String": "", "(*bytes.Reader).Len": "", "(*bytes.Reader).Size": "",
	"invoke crypto/elliptic.Curve.Params": "", "invoke crypto.PublicKey.Equal": "",
	"(*strings.Builder).String": "", "(*strings.Builder).Len": "",
	"(*bytes.Reader).ReadAt": "1", "(*bytes.Reader).Read": "01", "(*bytes.Buffer).Read": "01", "(*bytes.Buffer).WriteTo": "01", "(*bytes.Reader).WriteTo": "01", "(*bytes.Buffer).ReadFrom": "01",
	"(*io.SectionReader).Read": "01", "(*io.SectionReader).ReadAt": "1", "(*io.LimitedReader).Read": "01", "(*os.File).Read": "01", "(*os.File).ReadAt": "1",
	"invoke io.Reader.Read": "01", "invoke io.ReadSeeker.Read": "01", "invoke io.ReaderAt.ReadAt": "1", "invoke io.ReadCloser.Read": "01",
	"(*github.com/avast/apkparser.ZipReaderFile).Read": "01",
	"unicode/utf8.EncodeRune":                          "0", "invoke cipher.Block.Encrypt": "1", "invoke hash.Hash.Sum": "1",
	"copy": "0",
}

// extPrefix: receiver-only mutators are listed with "0", pure packages with "".
var extPrefix = [][2]string{
	{"encoding/binary.Size", ""}, {"(encoding/binary.littleEndian).Put", "1"}, {"(encoding/binary.bigEndian).Put", "1"}, {"(encoding/binary.littleEndian).", ""}, {"(encoding/binary.bigEndian).", ""},
	{"invoke encoding/binary.ByteOrder.Put", "1"}, {"invoke encoding/binary.ByteOrder.", ""}, {"(encoding/binary.", ""},
	{"strings.", ""}, {"(*strings.", "0"}, {"bytes.", ""}, {"(*bytes.", "0"}, {"strconv.Append", "0"}, {"strconv.", ""}, {"unicode", ""}, {"(unicode", ""}, {"errors.", ""}, {"fmt.Sprint", ""}, {"fmt.Errorf", ""}, {"fmt.Print", ""},
	{"math.", ""}, {"math/bits.", ""}, {"math/big.NewInt", ""}, {"(*math/big.Int).", "0"}, {"time.", ""}, {"(time.", ""}, {"path.", ""}, {"path/filepath.", ""}, {"encoding/hex.", ""}, {"(*encoding/base64.Encoding).Decode", "1"},
	{"(*encoding/base64.Encoding).", ""}, {"encoding/base64.", ""}, {"encoding/asn1.", ""}, {"(encoding/asn1.", ""}, {"crypto/md5.", ""}, {"crypto/sha", ""}, {"(crypto.", ""}, {"(*crypto", "0"}, {"crypto/elliptic.", ""},
	{"(crypto/x509", ""}, {"(*crypto/x509", ""}, {"crypto/x509", ""}, {"(crypto/", ""}, {"invoke hash.Hash", "0"}, {"invoke hash.", "0"}, {"hash/", ""}, {"encoding/pem.", ""}, {"os.", ""}, {"(*os.File).", "0"}, {"io.", ""},
	{"invoke io.", "0"}, {"(net.", ""}, {"net.", ""}, {"net/url.", ""}, {"(*net/url.URL).", ""}, {"reflect.", ""}, {"sort.", ""}, {"slices.", ""}, {"maps.", ""}, {"cmp.", ""}, {"iter.", ""}, {"(*github.com/avast/apkparser.ZipReaderFile).", "0"}, {"(*github.com/avast/apkparser.ZipReader).", "0"},
	{"github.com/avast/apkparser.", ""}, {"sync/atomic.Load", ""}, {"invoke reflect.Type.", ""}, {"runtime.", ""}, {"crypto/rsa.", ""}, {"crypto/ecdsa.", ""}, {"crypto/dsa.", ""}, {"invoke crypto/", ""}, {"crypto/cipher.", ""}, {"crypto/hmac.", ""}, {"crypto/aes.", ""}, {"crypto/des.", ""}, {"crypto/rand.", ""},
}

// external models a call out of the analysed code.
func (p *PTA) external(c pctx, in ssa.CallInstruction, name string, args []*pnode) {
	p.noteExt(name, in)
	sig := in.Common().Signature()
	if p.special(c, in, name, args) {
		return
	}
	mut, known := extMut(name)
	if !known {
		p.notes["no model for "+name]++
	}
	// what is reachable from the arguments may end up in whatever the call fills or returns
	var all []*ploc
	seen := map[*ploc]bool{}
	for i, a := range args {
		_ = i
		p.reached(a, seen, &all)
	}
	from := &pnode{set: map[*ploc]bool{}, list: all}
	if strings.HasPrefix(name, "(*math/big.Int).") && sig.Results().Len() == 1 {
		// computes into the receiver and returns it
		if mut == "0" {
			p.write(c, in, args[0], name+"#0")
			p.flow(p.result(c, in, 0), args[0], sig.Results().At(0).Type())
		}
		if mut == "0" || !hasPtr(sig.Results().At(0).Type()) {
			return
		}
	}
	for i, a := range args {
		if mut == "*" || strings.Contains(mut, fmt.Sprint(i)) {
			p.write(c, in, a, fmt.Sprintf("%s#%d", name, i))
			for j := 0; j < len(a.list) && !noAlias(name); j++ {
				l := a.list[j]
				if l.typ != nil && !hasPtr(l.typ) {
					continue
				}
				if e := elemTypeOrNil(l.typ); e != nil && !hasPtr(e) {
					continue
				}
				p.flow(p.cell(l), from, l.typ)
			}
		}
	}
	// callbacks
	for i := 0; i < len(all); i++ {
		if f := all[i].obj.fn; f != nil && p.inside(f) {
			var as []*pnode
			for range f.Params {
				as = append(as, from)
			}
			p.enter(f, c.init)
			d := pctx{f, c.init}
			for i, q := range f.Params {
				if hasPtr(q.Type()) {
					p.flow(p.val(d, q), as[i], q.Type())
				}
			}
			m := p.calls[c]
			if m == nil {
				m = map[*ssa.Function]bool{}
				p.calls[c] = m
			}
			m[f] = true
		}
	}
	// methods the library may call on what it is given
	for _, a := range args {
		p.callbacks(c, in, a, from)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if !hasPtr(t) {
			continue
		}
		o := p.obj(pkey{v: in, init: c.init, i: 2000 + i}, "ext", c.init, nil, "result of "+name+" at "+p.w.posOf(c.fn, in.Pos()))
		o.deep = true
		n := p.result(c, in, i)
		p.pointee(o, t, n)
		if noAlias(name) {
			continue
		}
		p.flow(p.cell(p.loc(o, "", nil)), from, nil)
		p.flow(n, from, t)
	}
}

func elemTypeOrNil(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return elemType(t)
}

// noAlias: results of these functions share nothing with their arguments.
func noAlias(name string) bool {
	for _, q := range []string{"fmt.", "strings.", "strconv.", "encoding/hex.", "crypto/sha", "crypto/md5.", "io/ioutil.ReadAll", "io.ReadAll", "invoke error.", "(*math/big.Int).Bytes", "(crypto.Hash).New", "invoke hash.Hash.Write",
		"bytes.ToLower", "bytes.Repeat", "bytes.Join", "bytes.Clone", "encoding/asn1.Marshal", "time.", "(time.", "math/big.", "(crypto/x509/pkix.Name).String", "errors.New", "path/filepath.", "io.Copy", "io.ReadFull", "encoding/binary.Read",
		"(*bytes.Buffer).Read", "(*bytes.Reader).Read", "(*bytes.Reader).Seek", "(*bytes.Buffer).Write", "invoke io.ReadSeeker.", "invoke io.Seeker", "invoke io.Reader.", "os.Open", "crypto/x509.Parse", "crypto/rsa.Verify"} {
		if strings.HasPrefix(name, q) {
			return true
		}
	}
	return false
}

// callbacks: methods of our types that a library function may call.
func (p *PTA) callbacks(c pctx, in ssa.CallInstruction, a, from *pnode) {
	// any interface value handed to the library may have its exported methods called
	cc := in.Common()
	vals := cc.Args
	for _, v := range vals {
		t := v.Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem() // variadic ...interface{}
		}
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		dyn := p.ifaceL
		if mi, ok := v.(*ssa.MakeInterface); ok {
			dyn = []types.Type{mi.X.Type()}
		}
		for i := 0; i < len(dyn); i++ {
			ct := dyn[i]
			if !types.Implements(ct, it) {
				continue
			}
			ms := p.w.Prog.MethodSets.MethodSet(ct)
			for j := 0; j < ms.Len(); j++ {
				sel := ms.At(j)
				nm := sel.Obj().Name()
				if !sel.Obj().Exported() {
					continue // not reachable by name from another package
				}
				if it.NumMethods() == 0 && nm != "String" && nm != "Error" && nm != "Format" && nm != "GoString" && nm != "Unwrap" && nm != "Is" && nm != "As" {
					continue
				}
				f := p.w.Prog.MethodValue(sel)
				if f == nil || !p.inside(f) {
					continue
				}
				p.enter(f, c.init)
				m := p.calls[c]
				if m == nil {
					m = map[*ssa.Function]bool{}
					p.calls[c] = m
				}
				m[f] = true
				d := pctx{f, c.init}
				for i, q := range f.Params {
					if !hasPtr(q.Type()) {
						continue
					}
					if i > 0 {
						p.flow(p.val(d, q), from, q.Type())
						continue
					}
					for k := 0; k < len(from.list); k++ {
						// the receiver is an object of our own type
						if l := from.list[k]; l.typ != nil && fits(l, q.Type()) {
							p.add(p.val(d, q), l)
						}
					}
				}
			}
		}
	}
}

// special models.
func (p *PTA) special(c pctx, in ssa.CallInstruction, name string, args []*pnode) bool {
	switch {
	case strings.HasSuffix(name, "internal/asn1andr.Unmarshal") || strings.HasSuffix(name, "internal/asn1andr.UnmarshalWithParams"):
		// fills what the second argument points to, with fresh data and parts of the first
		p.write(c, in, args[1], name)
		o := p.obj(pkey{v: in, init: c.init, i: 3000}, "ext", c.init, nil, "decoded at "+p.w.posOf(c.fn, in.Pos()))
		o.deep = true
		l := p.loc(o, "", nil)
		p.flow(p.cell(l), args[0], nil)
		for i := 0; i < len(args[1].list); i++ {
			n := p.cell(args[1].list[i])
			p.add(n, l)
			p.flow(n, args[0], nil)
		}
		p.flow(p.result(c, in, 0), args[0], nil)
		p.add(p.result(c, in, 1), l)
		return true
	case strings.HasSuffix(name, "internal/asn1andr.Marshal") || strings.HasSuffix(name, "internal/asn1andr.MarshalWithParams"):
		o := p.obj(pkey{v: in, init: c.init, i: 3000}, "ext", c.init, nil, "encoded at "+p.w.posOf(c.fn, in.Pos()))
		o.deep = true
		p.pointee(o, in.Common().Signature().Results().At(0).Type(), p.result(c, in, 0))
		p.add(p.result(c, in, 1), p.loc(o, "", nil))
		return true
	}
	if strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(reflect.Value).") {
		return p.reflected(c, in, name, args)
	}
	return strings.HasSuffix(name, ".init")
}

// reflected: a reflect.Value stands for a place; navigating in it stays inside the same object.
func (p *PTA) reflected(c pctx, in ssa.CallInstruction, name string, args []*pnode) bool {
	switch m := name[strings.LastIndex(name, ".")+1:]; m {
	case "ValueOf", "Elem", "Field", "FieldByName", "Index", "Indirect", "Convert", "Addr", "Slice":
		p.flow(p.result(c, in, 0), args[0], nil)
		return true
	case "Set", "SetInt", "SetString", "SetBytes", "SetLen", "SetBool", "SetMapIndex", "Copy", "Append", "AppendSlice", "SetUint", "SetFloat", "Swap", "Clear", "Call", "SetZero", "Grow", "SetCap", "SetPointer":
		p.write(c, in, args[0], name)
		for _, a := range args[1:] {
			var all []*ploc
			p.reached(a, map[*ploc]bool{}, &all)
			from := &pnode{list: all}
			for i := 0; i < len(args[0].list); i++ {
				p.flow(p.cell(args[0].list[i]), from, nil)
			}
		}
		return true
	case "Interface", "Bytes", "MapIndex", "MapKeys", "MapRange", "Pointer", "UnsafePointer":
		var all []*ploc
		p.reached(args[0], map[*ploc]bool{}, &all)
		p.flow(p.result(c, in, 0), &pnode{list: all}, nil)
		return true
	}
	return true
}

// entryPoint adds a function whose arguments come from the caller.
func (p *PTA) entryPoint(f *ssa.Function, own func(q *ssa.Parameter) bool) {
	p.enter(f, false)
	d := pctx{f, false}
	for _, q := range f.Params {
		if !hasPtr(q.Type()) {
			continue
		}
		kind := "caller"
		if own != nil && !own(q) {
			kind = "ext"
		}
		o := p.obj(pkey{v: q, i: 4000}, kind, false, nil, "argument "+q.Name()+" of "+shortFn(f))
		o.deep = true
		p.pointee(o, q.Type(), p.val(d, q))
	}
}

func (p *PTA) sortedWrites() []pwrite {
	var out []pwrite
	for _, x := range p.writes {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.in.Pos() != b.in.Pos() {
			return a.in.Pos() < b.in.Pos()
		}
		if a.loc.obj.id != b.loc.obj.id {
			return a.loc.obj.id < b.loc.obj.id
		}
		return a.loc.path+a.kind < b.loc.path+b.kind
	})
	return out
}
