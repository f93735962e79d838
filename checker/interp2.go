package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// block executes the instructions of b from index i on; it returns the outgoing edges.
func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, ps *PS, i int) []*Edge {
	for ; i < len(b.Instrs); i++ {
		if ps.st.bot {
			return nil
		}
		x.steps++
		if x.steps > x.maxSteps {
			if x.soft {
				panic("analysis budget exceeded in " + fr.fn.String())
			}
			fatalf("analysis budget exceeded in %s", fr.fn)
		}
		if x.trace {
			fmt.Printf("  [%s b%d] %v\n", fr.fn.Name(), b.Index, b.Instrs[i])
		}
		st := ps.st
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi:
			if _, ok := ps.env[in]; !ok {
				ps.env[in] = mk("undef", fr.ctx+":"+in.Name())
			}
		case *ssa.Alloc:
			o := x.newObj(fr, in, in.Name(), deref(in.Type()))
			x.clearObj(st, o)
			ps.env[in] = o
			if isByteArr(deref(in.Type())) {
				st.mem[o] = x.zero(deref(in.Type()))
			}
			if typeName(deref(in.Type())) == "bytes.Buffer" {
				st.mem[mk("bufc", "", o)] = tNil
			}
		case *ssa.BinOp:
			ps.env[in] = x.binop(st, in.Op, x.val(fr, ps, in.X), x.val(fr, ps, in.Y), in.X.Type(), in.Type())
			x.arithEvent(fr, in, ps)
		case *ssa.UnOp:
			v := x.val(fr, ps, in.X)
			switch in.Op {
			case token.MUL:
				x.event("deref", "", fr, in, st, v)
				ps.env[in] = x.load(st, v, in.Type())
			case token.NOT:
				ps.env[in] = mkNot(v)
			case token.SUB:
				ps.env[in] = x.arith(st, mkMulC(v, big.NewInt(-1)), in.Type())
			default:
				ps.env[in] = mk("un"+in.Op.String(), typeName(in.Type()), v).withType(in.Type())
			}
		case *ssa.ChangeType:
			ps.env[in] = x.val(fr, ps, in.X)
		case *ssa.ChangeInterface:
			ps.env[in] = x.val(fr, ps, in.X)
		case *ssa.Convert:
			ps.env[in] = x.convert(st, x.val(fr, ps, in.X), in.X.Type(), in.Type())
		case *ssa.MultiConvert:
			ps.env[in] = mk("conv", typeName(in.Type()), x.val(fr, ps, in.X))
		case *ssa.SliceToArrayPointer:
			ps.env[in] = mk("arrptr", "", x.val(fr, ps, in.X)).withType(in.Type())
		case *ssa.MakeInterface:
			v := x.val(fr, ps, in.X)
			tn := typeName(in.X.Type())
			x.types[tn] = in.X.Type()
			ps.env[in] = mk("iface", tn, v)
		case *ssa.MakeClosure:
			f := in.Fn.(*ssa.Function)
			var bs []*Term
			for _, v := range in.Bindings {
				bs = append(bs, x.val(fr, ps, v))
			}
			ps.env[in] = mk("clo", x.regFn(f), bs...)
		case *ssa.MakeMap:
			o := x.newObj(fr, in, in.Name(), in.Type())
			x.clearObj(st, o)
			st.mem[o] = mk("mapnew", "")
			ps.env[in] = o
		case *ssa.MakeSlice:
			n := x.val(fr, ps, in.Len)
			x.event("makeslice", "", fr, in, st, n, x.val(fr, ps, in.Cap))
			et := in.Type().Underlying().(*types.Slice).Elem()
			if k, ok := n.int64(); ok && k == 0 && !isByte(et) {
				ps.env[in] = mk("list", "").withType(in.Type())
				break
			}
			o := x.newObj(fr, in, in.Name(), in.Type())
			x.clearObj(st, o)
			if isByte(et) {
				st.mem[o] = mk("zeros", "", n)
			}
			ps.env[in] = mk("sl", "", o, mkInt(0), n).withType(in.Type())
		case *ssa.MakeChan:
			ps.env[in] = x.newObj(fr, in, in.Name(), in.Type())
		case *ssa.Extract:
			ps.env[in] = x.extract(x.val(fr, ps, in.Tuple), in.Index, in.Type())
		case *ssa.Field:
			ps.env[in] = x.field(x.val(fr, ps, in.X), in.X.Type(), in.Field)
		case *ssa.FieldAddr:
			p := x.val(fr, ps, in.X)
			x.event("deref", "field", fr, in, st, p)
			ps.env[in] = x.mkField(p, deref(in.X.Type()), in.Field)
		case *ssa.Index:
			v, k := x.val(fr, ps, in.X), x.val(fr, ps, in.Index)
			x.event("index", "", fr, in, st, k, x.lenOf(st, v, in.X.Type()))
			ps.env[in] = x.elem(x.content(st, v, isByteSeq(in.X.Type())), k, in.Type())
		case *ssa.IndexAddr:
			v, k := x.val(fr, ps, in.X), x.val(fr, ps, in.Index)
			x.event("index", "", fr, in, st, k, x.lenOf(st, v, in.X.Type()))
			ps.env[in] = x.indexAddr(st, v, k)
		case *ssa.Slice:
			ps.env[in] = x.slice(fr, ps, in)
		case *ssa.Lookup:
			v, k := x.val(fr, ps, in.X), x.val(fr, ps, in.Index)
			if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
				cont, key := x.mapContent(st, v), x.keyVal(st, k, mt.Key())
				val, has := x.mapLookup(st, cont, key, mt.Elem())
				if l := x.tableLookup(ps, in, cont, key, mt.Elem(), has); l != nil {
					var edges []*Edge
					for _, p := range x.mergeCall(fr, in, l) {
						edges = append(edges, x.block(fr, b, p, i+1)...)
					}
					return edges
				}
				if in.CommaOk {
					ps.env[in] = mk("tuple", "", val, has)
				} else {
					// absent keys give the zero value
					if has != tTrue && val.Op == "look" {
						if st.eval(has) == -1 {
							val = x.zero(mt.Elem())
						}
					}
					ps.env[in] = val
				}
			} else {
				x.event("index", "", fr, in, st, k, mkLen(x.content(st, v, true)))
				ps.env[in] = x.elem(x.content(st, v, true), k, in.Type())
			}
		case *ssa.Range:
			v := x.val(fr, ps, in.X)
			if _, ok := in.X.Type().Underlying().(*types.Map); ok {
				ps.env[in] = mkDep(x.loopStack, "iter", fr.ctx+x.scope+":"+in.Name(), v, x.mapContent(st, v))
			} else {
				ps.env[in] = mkDep(x.loopStack, "iter", fr.ctx+x.scope+":"+in.Name(), v, x.content(st, v, true))
			}
		case *ssa.Next:
			ps.env[in] = x.next(fr, ps, in)
		case *ssa.TypeAssert:
			ps.env[in] = x.typeAssert(fr, ps, in)
			if ps.st.bot {
				return nil
			}
		case *ssa.Store:
			a, v := x.val(fr, ps, in.Addr), x.val(fr, ps, in.Val)
			x.event("store", "", fr, in, st, a, v)
			x.store(st, a, v, in.Val.Type())
		case *ssa.MapUpdate:
			m, k, v := x.val(fr, ps, in.Map), x.val(fr, ps, in.Key), x.val(fr, ps, in.Value)
			k = x.keyVal(st, k, in.Key.Type())
			x.event("mapupdate", "", fr, in, st, m, k, v)
			x.mapSet(st, m, k, v, in.Map.Type())
		case *ssa.Send:
			x.notes["channel send"]++
		case *ssa.Go:
			x.notes["go statement in "+fr.fn.String()]++
		case *ssa.Select:
			x.notes["select"]++
			ps.env[in] = mk("undef", fr.ctx+":"+in.Name())
		case *ssa.DebugRef:
		case *ssa.Jump:
			return []*Edge{{b.Succs[0], x.deliver(fr, b, b.Succs[0], ps)}}
		case *ssa.If:
			return x.branch(fr, b, ps, x.val(fr, ps, in.Cond))
		case *ssa.Return:
			vals := make([]*Term, len(in.Results))
			for k, r := range in.Results {
				vals[k] = x.val(fr, ps, r)
				if isErrType(r.Type()) {
					vals[k] = x.normErr(st, vals[k])
				}
			}
			x.event("return", "", fr, in, st, vals...)
			fr.rets = append(fr.rets, Res{st: st, vals: vals})
			return nil
		case *ssa.Panic:
			x.event("panic", "", fr, in, st, x.val(fr, ps, in.X))
			return nil
		case *ssa.Defer:
			ps.def = append(append([]*ssa.Defer(nil), ps.def...), in)
			ps.dar = append(append([][]*Term(nil), ps.dar...), x.callArgs(fr, ps, &in.Call))
		case *ssa.RunDefers:
			outs := []*PS{ps}
			for len(outs) > 0 && len(outs[0].def) > 0 {
				var next []*PS
				for _, p := range outs {
					d := p.def[len(p.def)-1]
					a := p.dar[len(p.dar)-1]
					p.def, p.dar = p.def[:len(p.def)-1:len(p.def)-1], p.dar[:len(p.dar)-1:len(p.dar)-1]
					for _, o := range x.call(fr, p, d, a) {
						next = append(next, o.ps)
					}
				}
				outs = x.merge(fr, "defer", next)
			}
			var edges []*Edge
			for _, p := range outs {
				edges = append(edges, x.block(fr, b, p, i+1)...)
			}
			return edges
		case *ssa.Call:
			outs := x.call(fr, ps, in, x.callArgs(fr, ps, &in.Call))
			if len(outs) == 1 {
				ps = outs[0].ps
				ps.env[in] = outs[0].val
				continue
			}
			var l []*PS
			for _, o := range outs {
				if o.ps.st.bot {
					continue
				}
				o.ps.env[in] = o.val
				l = append(l, o.ps)
			}
			var edges []*Edge
			for _, p := range x.mergeCall(fr, in, l) {
				edges = append(edges, x.block(fr, b, p, i+1)...)
			}
			return edges
		default:
			fatalf("unsupported instruction %T in %s", in, fr.fn)
		}
	}
	return nil
}

func (x *Exec) mergeCall(fr *Frame, in ssa.Instruction, l []*PS) []*PS {
	if len(l) < 3 {
		return l
	}
	v := in.(ssa.Value)
	return x.merge(fr, "call"+v.Name(), l)
}

// normErr turns an unknown error that is known not to be nil into an anonymous one.
func (x *Exec) normErr(st *State, v *Term) *Term {
	if v.Op == "err" || v.isConst() || v.Op == "iface" || v.Op == "obj" || extError(v) {
		return v
	}
	if st.eval(mkEq(v, tNil)) == -1 {
		return mk("err", "of", v)
	}
	return v
}

func (x *Exec) branch(fr *Frame, b *ssa.BasicBlock, ps *PS, c *Term) []*Edge {
	r := ps.st.eval(c)
	if x.onBranch != nil {
		x.onBranch(fr, b, c, ps.st, r)
	}
	var out []*Edge
	switch r {
	case 1:
		return []*Edge{{b.Succs[0], x.deliver(fr, b, b.Succs[0], ps)}}
	case -1:
		return []*Edge{{b.Succs[1], x.deliver(fr, b, b.Succs[1], ps)}}
	}
	for i, f := range []*Term{c, mkNot(c)} {
		p := ps
		if i == 0 {
			p = ps.clone()
		}
		p.st.assume(f)
		if p.st.bot {
			continue
		}
		out = append(out, &Edge{b.Succs[i], x.deliver(fr, b, b.Succs[i], p)})
	}
	return out
}

func isByteArr(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	return ok && isByte(a.Elem())
}

func (x *Exec) newObj(fr *Frame, in ssa.Instruction, name string, t types.Type) *Term {
	o := mkDep(x.loopStack, "obj", fr.ctx+x.scope+":"+name)
	x.objCtx[o] = fr.ctx
	x.objType[o] = t
	o.withType(t)
	return o
}

// clearObj forgets everything about a previous object created by the same instruction.
// freshBytes is a new byte slice with the given content.
func (x *Exec) freshBytes(fr *Frame, st *State, in ssa.Instruction, name string, data *Term, t types.Type) *Term {
	o := x.newObj(fr, in, name, t)
	x.clearObj(st, o)
	st.mem[o] = data
	return mk("sl", "", o, mkInt(0), mkLen(data)).withType(t)
}

func (x *Exec) clearObj(st *State, o *Term) {
	for m := range st.mem {
		if rootOf(m) == o || m.Op == "ver" && m.Args[0] == o {
			delete(st.mem, m)
		}
	}
}

func (x *Exec) regFn(f *ssa.Function) string {
	n := f.RelString(nil)
	x.fns[n] = f
	return n
}

func (x *Exec) extract(v *Term, i int, t types.Type) *Term {
	if v.Op == "tuple" {
		return v.Args[i]
	}
	return mk("res", strconv.Itoa(i), v).withType(t)
}

func (x *Exec) lenOf(st *State, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return mkInt(a.Len())
		}
	case *types.Array:
		return mkInt(u.Len())
	case *types.Map:
		return x.mapLen(st, v)
	}
	if v.Op == "sl" {
		return mkSub(v.Args[2], v.Args[1])
	}
	return mkLen(v)
}

func (x *Exec) mapLen(st *State, m *Term) *Term {
	c := x.mapContent(st, m)
	n := int64(0)
	for c.Op == "upd" {
		if x.mapHas(st, c.Args[0], c.Args[1]) != -1 {
			break
		}
		n++
		c = c.Args[0]
	}
	if c.Op == "mapnew" || c == tNil {
		return mkInt(n)
	}
	return mkAdd(mk("len", "", c), mkInt(n))
}

func (x *Exec) mapHas(st *State, c, k *Term) int {
	_, h := x.mapLookup(st, c, k, types.Typ[types.Int])
	return st.eval(h)
}

func (x *Exec) keyVal(st *State, k *Term, t types.Type) *Term {
	if isByteSeq(t) {
		return x.content(st, k, true)
	}
	return k
}

// tableLookup: a lookup in a table with constant keys is a switch over them.
func (x *Exec) tableLookup(ps *PS, in *ssa.Lookup, cont, key *Term, et types.Type, has *Term) []*PS {
	if has == tTrue || has == tFalse || key.isConst() {
		return nil
	}
	keys, ok := constKeys(cont)
	if !ok || len(keys) == 0 || len(keys) > 24 {
		return nil
	}
	by := map[*Term][]*Term{}
	var vals []*Term
	for _, k := range keys {
		v, h := x.mapLookup(ps.st, cont, k, et)
		if h != tTrue {
			return nil
		}
		if by[v] == nil {
			vals = append(vals, v)
		}
		by[v] = append(by[v], k)
	}
	if len(vals) > 12 {
		return nil
	}
	var out []*PS
	add := func(v, h *Term, d *Dom) {
		p := ps.clone()
		if h == tTrue {
			p.st.assume(has)
		} else {
			p.st.assume(mkNot(has))
		}
		p.st.setDom(key, d)
		if p.st.bot {
			return
		}
		if in.CommaOk {
			v = mk("tuple", "", v, h)
		}
		p.env[in] = v
		out = append(out, p)
	}
	for _, v := range vals {
		add(v, tTrue, &Dom{set: by[v]})
	}
	add(x.zero(et), tFalse, &Dom{neg: true, set: keys})
	if len(out) == 0 {
		p := ps.clone()
		p.st.bot = true
		p.env[in] = mk("undef", "")
		out = append(out, p)
	}
	return out
}

func (x *Exec) mapSet(st *State, m, k, v *Term, t types.Type) {
	m.withType(t)
	c := x.mapContent(st, m)
	// the same key again replaces the entry; entries with other keys commute
	st.mem[m] = mapUpd(st, c, k, v)
}

func mapUpd(st *State, c, k, v *Term) *Term {
	if c.Op == "upd" {
		if c.Args[1] == k {
			return mk("upd", "", c.Args[0], k, v)
		}
	}
	return mk("upd", "", c, k, v)
}

func (x *Exec) indexAddr(st *State, v, k *Term) *Term {
	if v.Op == "sl" {
		return mk("ia", "", v.Args[0], mkAdd(v.Args[1], k))
	}
	return mk("ia", "", v, k)
}

func (x *Exec) slice(fr *Frame, ps *PS, in *ssa.Slice) *Term {
	st := ps.st
	v := x.val(fr, ps, in.X)
	lo := mkInt(0)
	if in.Low != nil {
		lo = x.val(fr, ps, in.Low)
	}
	l := x.lenOf(st, v, in.X.Type())
	hi := l
	if in.High != nil {
		hi = x.val(fr, ps, in.High)
	}
	x.event("slice", "", fr, in, st, lo, hi, l)
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		_ = pt
		return mk("sl", "", v, lo, hi).withType(in.Type())
	}
	if v.Op == "sl" {
		return mk("sl", "", v.Args[0], mkAdd(v.Args[1], lo), mkAdd(v.Args[1], hi)).withType(in.Type())
	}
	if v == tNil {
		return v
	}
	return subseq(x.content(st, v, isByteSeq(in.X.Type())), lo, hi).withType(in.Type())
}

func (x *Exec) next(fr *Frame, ps *PS, in *ssa.Next) *Term {
	it := x.val(fr, ps, in.Iter)
	tt := in.Type().(*types.Tuple)
	site := fr.ctx + x.scope + ":" + in.Name()
	more := mkDep(x.loopStack, "more", site, it)
	key := mkDep(x.loopStack, "mapkey", site, it).withType(tt.At(1).Type())
	if in.IsString {
		v := mkDep(x.loopStack, "runeat", site, it).withType(tt.At(2).Type())
		return mk("tuple", "", more, key, v)
	}
	if it.Op != "iter" {
		v := mkDep(x.loopStack, "mapval", site, it).withType(tt.At(2).Type())
		return mk("tuple", "", more, key, v)
	}
	c := it.Args[1]
	if c.Op == "mapnew" || c == tNil {
		return mk("tuple", "", tFalse, key, x.zero(tt.At(2).Type()))
	}
	var vt types.Type = tt.At(2).Type()
	if r, ok := in.Iter.(*ssa.Range); ok {
		if m, ok := r.X.Type().Underlying().(*types.Map); ok {
			vt = m.Elem()
			key.withType(m.Key())
		}
	}
	val, has := x.mapLookup(ps.st, c, key, vt)
	if has != tTrue && has != tFalse {
		ps.st.facts[mk("imp", "", more, has)] = true
	}
	return mk("tuple", "", more, key, val)
}

func (x *Exec) typeAssert(fr *Frame, ps *PS, in *ssa.TypeAssert) *Term {
	v := x.val(fr, ps, in.X)
	tn := typeName(in.AssertedType)
	x.types[tn] = in.AssertedType
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	res := func(ok, val *Term) *Term {
		if in.CommaOk {
			return mk("tuple", "", val, ok)
		}
		x.event("assert", tn, fr, in, ps.st, v, ok)
		ps.st.assume(ok)
		return val
	}
	if v == tNil {
		return res(tFalse, x.zero(in.AssertedType))
	}
	if v.Op == "iface" {
		if toIface {
			ct := x.types[v.Sym]
			if types.Implements(ct, in.AssertedType.Underlying().(*types.Interface)) {
				return res(tTrue, v)
			}
			return res(tFalse, tNil)
		}
		if v.Sym == tn {
			return res(tTrue, v.Args[0])
		}
		return res(tFalse, x.zero(in.AssertedType))
	}
	if v.Op == "err" && v.Sym == "new" {
		if toIface && tn == "error" {
			return res(tTrue, v)
		}
		return res(tFalse, x.zero(in.AssertedType))
	}
	if toIface {
		ok := mk("implements", tn, v)
		return res(ok, v)
	}
	ok := mkEq(mk("dyntype", "", v), mkStr(tn))
	return res(ok, mk("assert", tn, v).withType(in.AssertedType))
}

// ---- arithmetic ----

func wide(t *Term) bool {
	w := false
	t.walk(func(s *Term) bool {
		if strings.HasPrefix(s.Op, "le64") || strings.HasPrefix(s.Op, "be64") || s.Op == "conv" {
			w = true
		}
		return !w && (s == t || s.Op == "lin" || s.Op == "mul" || s.Op == "shl")
	})
	if t.Op == "lin" {
		for _, a := range t.Args {
			if strings.HasPrefix(a.Op, "le64") || strings.HasPrefix(a.Op, "be64") || a.Op == "conv" {
				w = true
			}
		}
	}
	return w
}

// arith wraps the mathematical value v into type t.
func (x *Exec) arith(st *State, v *Term, t types.Type) *Term {
	k := basicKind(t)
	if _, ok := v.intVal(); !ok && v.Op != "lin" {
		v.withType(t)
	}
	switch k {
	case "int", "int64", "rune", "untyped int", "untyped rune":
		if !wide(v) {
			return v
		}
		lo, hi := st.linBounds(v)
		if lo != nil && hi != nil && lo.Cmp(minI64) >= 0 && hi.Cmp(maxI64) <= 0 {
			return v
		}
		if st.provable(mkLe(mkBig(minI64), v), 2) && st.provable(mkLe(v, mkBig(maxI64)), 2) {
			return v
		}
		return mk("conv", k, v)
	case "int8", "int16", "int32", "uint8", "byte", "uint16", "uint32", "uint64", "uint", "uintptr":
		return x.fit(st, v, k)
	}
	return v
}

var minI64, maxI64 = big.NewInt(-1 << 63), big.NewInt(1<<63 - 1)

func (s *State) linBounds(v *Term) (lo, hi *big.Int) {
	d := s.termDom(v)
	if d == nil {
		return nil, nil
	}
	if !d.neg {
		d = hull(d.set)
		if d == nil {
			return nil, nil
		}
	}
	return d.lo, d.hi
}

func kindRange(k string) (lo, hi *big.Int) {
	return typeBounds(mk("conv", k, mk("c", "kind")))
}

// fit: v if it provably lies in the range of kind k, otherwise its conversion.
func (x *Exec) fit(st *State, v *Term, k string) *Term {
	lo, hi := kindRange(k)
	if lo == nil {
		return v
	}
	if c, ok := v.intVal(); ok {
		if c.Cmp(lo) >= 0 && c.Cmp(hi) <= 0 {
			return v
		}
		n := new(big.Int).Sub(hi, lo)
		n.Add(n, bigOne)
		r := new(big.Int).Sub(c, lo)
		r.Mod(r, n).Add(r, lo)
		return mkBig(r)
	}
	l, h := st.linBounds(v)
	okl := l != nil && l.Cmp(lo) >= 0 || st.provable(mkLe(mkBig(lo), v), 3)
	okh := h != nil && h.Cmp(hi) <= 0 || st.provable(mkLe(v, mkBig(hi)), 3)
	if !okh && (k == "uint64" || k == "uint") && !wide(v) {
		okh = true
	}
	if okl && okh {
		return v
	}
	// reinterpretation of an encoded integer of the same width
	n := map[string]string{"uint8": "8", "int8": "8", "uint16": "16", "int16": "16", "uint32": "32", "int32": "32", "uint64": "64", "int64": "64", "int": "64", "uint": "64"}[k]
	if v.Op == "le"+n || v.Op == "be"+n {
		return mk(v.Op, k, v.Args[0])
	}
	if v.Op == "conv" {
		// conv:k(conv:j(v)) == conv:k(v) when j is at least as wide
		lj, hj := kindRange(v.Sym)
		if lj != nil && new(big.Int).Sub(hj, lj).Cmp(new(big.Int).Sub(hi, lo)) >= 0 {
			return x.fit(st, v.Args[0], k)
		}
	}
	return mk("conv", k, v)
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			k := tb.Name()
			if k == "byte" {
				k = "uint8"
			}
			if k == "rune" {
				k = "int32"
			}
			fl, fh := typeBoundsKind(fb)
			tl, th := kindRange(k)
			if fl != nil && tl != nil && fl.Cmp(tl) >= 0 && fh.Cmp(th) <= 0 {
				return v
			}
			return x.fit(st, v, k)
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return v
		}
		if tb.Info()&types.IsString != 0 {
			return mk("str", "rune", v)
		}
		return mk("conv", tb.Name(), v).withType(to)
	}
	if isByteSeq(from) && isByteSeq(to) {
		return x.content(st, v, true)
	}
	return mk("convt", typeName(to), x.content(st, v, isByteSeq(from))).withType(to)
}

func typeBoundsKind(b *types.Basic) (lo, hi *big.Int) { return kindRange(b.Name()) }

func (x *Exec) binop(st *State, op token.Token, a, b *Term, t, rt types.Type) *Term {
	bt, _ := t.Underlying().(*types.Basic)
	isInt := bt != nil && bt.Info()&types.IsInteger != 0
	isStr := bt != nil && bt.Info()&types.IsString != 0
	switch op {
	case token.EQL, token.NEQ:
		if isByteArr(t) || isStr {
			a, b = x.content(st, a, true), x.content(st, b, true)
		}
		e := x.eqTerm(a, b, t)
		if op == token.NEQ {
			return mkNot(e)
		}
		return e
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		if isInt {
			if op == token.LSS {
				return mkLe(mkAdd(a, mkInt(1)), b)
			}
			return mkLe(a, b)
		}
		if op == token.LSS {
			return mk("slt", "", a, b)
		}
		return mkNot(mk("slt", "", b, a))
	}
	if isStr && op == token.ADD {
		return mkCat(a, b)
	}
	if !isInt {
		return mk("bin"+op.String(), typeName(rt), a, b).withType(rt)
	}
	av, aok := a.intVal()
	bv, bok := b.intVal()
	switch op {
	case token.ADD:
		return x.arith(st, mkAdd(a, b), rt)
	case token.SUB:
		return x.arith(st, mkSub(a, b), rt)
	case token.MUL:
		if bok {
			return x.arith(st, mkMulC(a, bv), rt)
		}
		if aok {
			return x.arith(st, mkMulC(b, av), rt)
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return mk("mul", "", a, b).withType(rt)
	case token.SHL:
		if bok && bv.IsInt64() && bv.Int64() < 64 {
			return x.arith(st, mkMulC(a, new(big.Int).Lsh(bigOne, uint(bv.Int64()))), rt)
		}
		return mk("shl", typeName(rt), a, b).withType(rt)
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHR, token.QUO, token.REM:
		if aok && bok {
			z := new(big.Int)
			switch op {
			case token.AND:
				z.And(av, bv)
			case token.OR:
				z.Or(av, bv)
			case token.XOR:
				z.Xor(av, bv)
			case token.AND_NOT:
				z.AndNot(av, bv)
			case token.SHR:
				z.Rsh(av, uint(bv.Uint64()))
			case token.QUO:
				if bv.Sign() == 0 {
					return mk("undef", "div0")
				}
				z.Quo(av, bv)
			case token.REM:
				if bv.Sign() == 0 {
					return mk("undef", "div0")
				}
				z.Rem(av, bv)
			}
			return mkBig(z)
		}
		if op == token.OR || op == token.XOR {
			for _, o := range [][2]*Term{{a, b}, {b, a}} {
				if disjointBits(st, o[0], o[1]) {
					return mkAdd(a, b)
				}
			}
		}
		if op == token.AND || op == token.OR || op == token.XOR {
			if aok || !bok && a.ID > b.ID {
				a, b = b, a
				bv, bok = av, aok
			}
			if bok && bv.Sign() == 0 {
				if op == token.AND {
					return mkInt(0)
				}
				return a
			}
		}
		if op == token.QUO && bok && bv.IsInt64() && bv.Int64() == 1 {
			return a
		}
		return mk(map[token.Token]string{token.AND: "and", token.OR: "or_", token.XOR: "xor", token.AND_NOT: "andnot", token.SHR: "shr", token.QUO: "quo", token.REM: "rem"}[op], "", a, b).withType(rt)
	}
	fatalf("unsupported operator %v", op)
	return nil
}

// disjointBits: hi is a multiple of a power of two that lo stays below.
func disjointBits(st *State, hi, lo *Term) bool {
	if hi.Op != "lin" || lo.isConst() {
		return false
	}
	l := linOf(hi)
	z := uint(62)
	if l.K.Sign() != 0 {
		z = min(z, l.K.TrailingZeroBits())
	}
	for _, c := range l.Vars {
		z = min(z, c.TrailingZeroBits())
	}
	return z > 0 && st.holds(mkLe(mkInt(0), lo)) && st.holds(mkLe(lo, mkInt(1<<z-1)))
}

// eqTerm compares two values of type t.
func (x *Exec) eqTerm(a, b *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Slice); ok {
		// only comparisons with nil are possible
		if b == tNil && a.Op == "sl" || a == tNil && b.Op == "sl" {
			return tFalse
		}
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.Sym != b.Sym {
			return tFalse
		}
		return mkEq(a.Args[0], b.Args[0])
	}
	if a.Op == "iface" && b.Op != "iface" || b.Op == "iface" && a.Op != "iface" {
		v, w := a, b
		if b.Op == "iface" {
			v, w = b, a
		}
		if w.Op == "c" {
			return tFalse // an interface holding a value is not nil
		}
		if w.Op == "err" {
			return tFalse
		}
		if v.Args[0].isConst() {
			return mkEq(a, b)
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok && (a.Op == "struct" || b.Op == "struct") {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, x.eqTerm(x.field(a, t, i), x.field(b, t, i), s.Field(i).Type()))
		}
		return mkAnd(fs...)
	}
	return mkEq(a, b)
}

func mkAnd(fs ...*Term) *Term {
	var l []*Term
	for _, f := range fs {
		if f == tFalse {
			return tFalse
		}
		if f != tTrue {
			l = append(l, f)
		}
	}
	l = sortTerms(l)
	switch len(l) {
	case 0:
		return tTrue
	case 1:
		return l[0]
	}
	return mk("and", "b", l...)
}

func mkOr(fs ...*Term) *Term {
	var l []*Term
	for _, f := range fs {
		if f == tTrue {
			return tTrue
		}
		if f != tFalse {
			l = append(l, f)
		}
	}
	l = sortTerms(l)
	switch len(l) {
	case 0:
		return tFalse
	case 1:
		return l[0]
	}
	return mk("or", "b", l...)
}

// mkCat concatenates byte strings.
func mkCat(parts ...*Term) *Term {
	var l []*Term
	for _, p := range parts {
		if p.Op == "cat" {
			l = append(l, p.Args...)
		} else if p == tEmpty || p == tNil {
			continue
		} else {
			l = append(l, p)
		}
	}
	var m []*Term
	for _, p := range l {
		if n := len(m); n > 0 && m[n-1].Op == "s" && p.Op == "s" {
			m[n-1] = mkStr(m[n-1].Sym + p.Sym)
			continue
		}
		m = append(m, p)
	}
	switch len(m) {
	case 0:
		return tEmpty
	case 1:
		return m[0]
	}
	return mk("cat", "", m...)
}

func (x *Exec) arithEvent(fr *Frame, in *ssa.BinOp, ps *PS) {
	switch in.Op {
	case token.QUO, token.REM:
		x.event("div", "", fr, in, ps.st, x.val(fr, ps, in.Y))
	case token.SHL, token.SHR:
		x.event("shift", "", fr, in, ps.st, x.val(fr, ps, in.Y))
	}
}

// ---- calls ----

type outcome struct {
	ps  *PS
	val *Term
}

func (x *Exec) callArgs(fr *Frame, ps *PS, c *ssa.CallCommon) []*Term {
	var a []*Term
	a = append(a, x.val(fr, ps, c.Value)) // receiver or function value first
	for _, v := range c.Args {
		a = append(a, x.val(fr, ps, v))
	}
	return a
}

func one(ps *PS, v *Term) []outcome { return []outcome{{ps, v}} }

func (x *Exec) site(fr *Frame, in ssa.CallInstruction) string {
	n := ""
	if v, ok := in.(ssa.Value); ok && v.Name() != "" {
		n = v.Name()
	} else {
		for i, k := range in.Block().Instrs {
			if k == in.(ssa.Instruction) {
				n = fmt.Sprintf("b%d.%d", in.Block().Index, i)
			}
		}
	}
	return fr.ctx + x.scope + ":" + n
}

// call dispatches one call; args[0] is the function value or the receiver of an interface call.
func (x *Exec) call(fr *Frame, ps *PS, in ssa.CallInstruction, args []*Term) []outcome {
	c := in.Common()
	st := ps.st
	if c.IsInvoke() {
		recv := args[0]
		x.event("deref", "invoke", fr, in.(ssa.Instruction), st, recv)
		if recv.Op == "iface" {
			ct := x.types[recv.Sym]
			if f := x.w.Prog.LookupMethod(ct, c.Method.Pkg(), c.Method.Name()); f != nil {
				return x.callFn(fr, ps, in, f, append([]*Term{recv.Args[0]}, args[1:]...), nil)
			}
		}
		if x.onInvoke != nil {
			x.onInvoke(fr, in, args, st)
		}
		name := "invoke " + typeName(c.Value.Type()) + "." + c.Method.Name()
		return x.named(fr, ps, in, name, args, c.Signature())
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return one(ps, x.builtin(fr, ps, in, f.Name(), args[1:], c))
	case *ssa.Function:
		return x.callFn(fr, ps, in, f, args[1:], nil)
	}
	fv := args[0]
	if fv.Op == "clo" || fv.Op == "fn" {
		if f := x.fns[fv.Sym]; f != nil {
			return x.callFn(fr, ps, in, f, args[1:], fv.Args)
		}
	}
	return x.named(fr, ps, in, "dyn", args, c.Signature())
}

func fnName(f *ssa.Function) string { return f.RelString(nil) }

// callFn performs a call of a known function. With markShort, the paths on which a read of buffered
// data fails are marked.
func (x *Exec) callFn(fr *Frame, ps *PS, in ssa.CallInstruction, f *ssa.Function, args, free []*Term) []outcome {
	outs := x.callFn1(fr, ps, in, f, args, free)
	if x.markShort {
		inl := x.w.isRepoFunc(f) && takesBuffer(f.Signature)
		for _, o := range outs {
			for _, v := range append([]*Term{o.val}, o.val.Args...) {
				if v.Op == "err" && (v.Sym == "io" || inl) && (v == o.val || o.val.Op == "tuple") {
					o.ps.st.mem[shortCell] = tTrue
				}
			}
		}
	}
	return outs
}

var shortCell = mk("rfail", "")

func takesBuffer(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		switch types.TypeString(s.Params().At(i).Type(), nil) {
		case "*bytes.Buffer", "*bytes.Reader":
			return true
		}
	}
	return false
}

func (x *Exec) callFn1(fr *Frame, ps *PS, in ssa.CallInstruction, f *ssa.Function, args, free []*Term) []outcome {
	name := fnName(f)
	if o := f.Origin(); o != nil {
		name = fnName(o)
	}
	if x.onCall != nil {
		x.onCall(fr, in, name, args, ps.st)
	}
	if f.Synthetic != "" && len(f.Blocks) > 0 && strings.HasPrefix(f.Synthetic, "wrapper") || strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "promot") || strings.HasPrefix(f.Synthetic, "thunk") {
		if len(f.Blocks) > 0 {
			return x.inline(fr, ps, in, f, args, free)
		}
	}
	if b, ok := x.bound[name]; ok {
		return x.boundary(fr, ps, in, f, name, args, b)
	}
	if x.w.isRepoFunc(f) && len(f.Blocks) > 0 {
		if f.Name() == "init" && f.Synthetic != "" {
			return one(ps, tNil)
		}
		if x.shouldInline(fr, f) {
			return x.inline(fr, ps, in, f, args, free)
		}
		return x.boundary(fr, ps, in, f, name, args, &Boundary{})
	}
	switch name {
	case "slices.Equal", "slices.EqualFunc", "slices.Contains", "slices.ContainsFunc", "slices.Index", "slices.IndexFunc", "slices.Max", "slices.MaxFunc", "slices.Min", "slices.MinFunc", "slices.Reverse":
		// as if it were written out
		if len(f.Blocks) > 0 && x.inlined[f] == 0 && fr.depth <= 25 {
			return x.inline(fr, ps, in, f, args, free)
		}
	}
	return x.named(fr, ps, in, name, args, f.Signature)
}

func (x *Exec) shouldInline(fr *Frame, f *ssa.Function) bool {
	if x.inlined[f] > 0 || fr.depth > 25 {
		return false
	}
	p := pkgPath(f)
	for pre := range x.noInline {
		if strings.HasPrefix(p, pre) || fnName(f) == pre {
			return false
		}
	}
	// functions that only produce text
	if r := f.Signature.Results(); r.Len() == 1 && f.Parent() == nil {
		if b, ok := r.At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && len(x.mods().of(f)) == 0 && (f.Name() == "String" || f.Name() == "Error") {
			return false
		}
	}
	return true
}

func (x *Exec) inline(fr *Frame, ps *PS, in ssa.CallInstruction, f *ssa.Function, args, free []*Term) []outcome {
	x.inlined[f]++
	x.used[f] = true
	sub := &Frame{fn: f, info: x.info(f), ctx: x.site(fr, in) + ">" + f.Name(), parent: fr, depth: fr.depth + 1}
	savedScope := x.scope
	x.scope = ""
	for _, v := range ps.env {
		sub.roots = append(sub.roots, v)
	}
	sub.roots = append(sub.roots, fr.roots...)
	rets := x.runFrame(sub, args, free, ps.st)
	x.scope = savedScope
	x.inlined[f]--
	var roots []*Term
	for _, v := range ps.env {
		roots = append(roots, v)
	}
	for i := range ps.dar {
		roots = append(roots, ps.dar[i]...)
	}
	roots = append(roots, fr.roots...)
	var outs []outcome
	for _, r := range rets {
		if r.st.bot {
			continue
		}
		var v *Term
		switch f.Signature.Results().Len() {
		case 0:
			v = tNil
		case 1:
			v = r.vals[0]
		default:
			v = mk("tuple", "", r.vals...)
		}
		x.gc(r.st, sub.ctx, append(roots[:len(roots):len(roots)], r.vals...))
		env := make(map[ssa.Value]*Term, len(ps.env)+1)
		for k, t := range ps.env {
			env[k] = t
		}
		outs = append(outs, outcome{&PS{st: r.st, env: env, def: ps.def, dar: ps.dar}, v})
	}
	return outs
}

func sigTypes(sig *types.Signature) []types.Type {
	var l []types.Type
	if sig.Recv() != nil {
		l = append(l, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		l = append(l, sig.Params().At(i).Type())
	}
	return l
}

func (x *Exec) resultTerm(call *Term, sig *types.Signature) *Term {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return tNil
	case 1:
		return mk("res", "0", call).withType(r.At(0).Type())
	}
	var l []*Term
	for i := 0; i < r.Len(); i++ {
		l = append(l, mk("res", strconv.Itoa(i), call).withType(r.At(i).Type()))
	}
	return mk("tuple", "", l...)
}

// boundary treats a repository function as opaque: its results are unknown, it may change what its
// mod set says.
func (x *Exec) boundary(fr *Frame, ps *PS, in ssa.CallInstruction, f *ssa.Function, name string, args []*Term, b *Boundary) []outcome {
	st := ps.st
	vals := make([]*Term, len(args))
	ts := sigTypes(f.Signature)
	for i, a := range args {
		var t types.Type
		if i < len(ts) {
			t = ts[i]
		}
		vals[i] = x.argVal(st, a, t)
	}
	short := shortFn(f)
	var call *Term
	if b.Pure {
		call = mk("call", short, vals...)
	} else {
		call = mkDep(x.loopStack, "call", short+"@"+x.site(fr, in), vals...)
	}
	x.event("call", short, fr, in.(ssa.Instruction), st, append([]*Term{call}, vals...)...)
	x.rawArgs(args)
	st.facts[mk("did", short, append([]*Term{call}, vals...)...)] = true
	var after func(st *State, res []*Term) []*State
	if x.onBound != nil {
		after = x.onBound(f, args, st)
	}
	if b.Effect != nil {
		b.Effect(x, fr, st, call, args)
	} else if !b.Pure {
		x.havocMods(st, x.mods().of(f), call, args)
	}
	v := x.resultTerm(call, f.Signature)
	if after == nil {
		return one(ps, v)
	}
	res := []*Term{v}
	if v.Op == "tuple" {
		res = v.Args
	}
	var outs []outcome
	for i, s := range after(st, res) {
		p := ps
		if i > 0 {
			p = ps.clone()
			p.st = s
		}
		if !s.bot {
			outs = append(outs, outcome{p, v})
		}
	}
	return outs
}

// shortFn is the package-qualified name without the module path.
func shortFn(f *ssa.Function) string {
	n := fnName(f)
	n = strings.ReplaceAll(n, modPath+"/", "")
	return strings.ReplaceAll(n, modPath+".", "apkverifier.")
}

// reach returns the objects reachable from the terms.
func (x *Exec) reach(st *State, roots []*Term) map[*Term]bool {
	seen := map[*Term]bool{}
	var work []*Term
	for _, r := range roots {
		x.objsIn(r, seen, &work)
	}
	by := map[*Term][]*Term{}
	for m := range st.mem {
		r := rootOf(m)
		if r.Op == "obj" {
			by[r] = append(by[r], m)
		} else {
			x.objsIn(st.mem[m], seen, &work) // anything stored in shared memory may be reached
		}
	}
	live := map[*Term]bool{}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if live[o] {
			continue
		}
		live[o] = true
		for _, m := range by[o] {
			x.objsIn(st.mem[m], seen, &work)
		}
	}
	return live
}

func (x *Exec) havocMods(st *State, mods map[string]bool, call *Term, args []*Term) {
	if len(mods) == 0 {
		return
	}
	live := x.reach(st, args)
	for o := range live {
		if x.initObj[o] { // tables of the package variables, which C24 shows never to change
			delete(live, o)
		}
	}
	terms := map[*Term]bool{}
	addTerms := func(t *Term) {
		t.walk(func(u *Term) bool {
			if terms[u] {
				return false
			}
			terms[u] = true
			return true
		})
	}
	for _, a := range args {
		addTerms(a)
	}
	for _, m := range st.sortedMem() {
		if r := rootOf(m); live[r] || terms[r] {
			addTerms(st.mem[m])
		}
	}
	var keys []string
	for k := range mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		switch {
		case strings.HasPrefix(k, "f:"):
			fld := k[2:]
			if x.errFields[fld] {
				for _, m := range st.sortedMem() {
					if m.Op == "fa" && m.Sym == fld && (rootOf(m).Op != "obj" || live[rootOf(m)]) {
						st.mem[m] = mk("errs", "", st.mem[m], call)
					}
				}
				for _, a := range x.errCells(st, terms, fld) {
					if _, ok := st.mem[a]; !ok {
						st.mem[a] = mk("errs", "", x.load(st, a, a.Typ), call)
					}
				}
				st.mem[mk("fver", fld)] = call
				continue
			}
			st.mem[mk("fver", fld)] = call
			for _, m := range st.sortedMem() {
				if m.Op == "fa" && m.Sym == fld {
					if r := rootOf(m); r.Op == "obj" && !live[r] {
						continue
					}
					st.mem[m] = mk("at", "", m, call).withType(m.Typ)
				}
			}
			for o := range live {
				t := x.objType[o]
				if t == nil {
					continue
				}
				if s, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if fieldSym(t, i) == fld {
							a := x.mkField(o, t, i)
							st.mem[a] = mk("at", "", a, call).withType(s.Field(i).Type())
						}
					}
				}
			}
		case strings.HasPrefix(k, "m:"):
			for _, m := range st.sortedMem() {
				if m.Typ == nil {
					continue
				}
				if _, ok := m.Typ.Underlying().(*types.Map); ok && typeName(m.Typ) == k[2:] && m.Op != "fa" && m.Op != "ia" {
					if m.Op == "obj" && !live[m] {
						continue
					}
					st.mem[m] = mk("content", "", m, call)
				}
			}
		case strings.HasPrefix(k, "e:"):
			// elements of slices
			for _, m := range st.sortedMem() {
				r := rootOf(m)
				if (m.Op == "ia" || m.Op == "obj" && m == r) && live[r] && r.Op == "obj" {
					if t := x.objType[r]; t != nil {
						if elemName(t) == k[2:] {
							x.havocObj(st, r, call)
						}
					}
				}
			}
		case strings.HasPrefix(k, "buf"):
			for o := range live {
				if t := x.objType[o]; t != nil && (typeName(t) == "bytes.Buffer" || typeName(t) == "bytes.Reader") {
					x.havocObj(st, o, call)
				}
			}
			for _, m := range st.sortedMem() {
				if m.Op == "bufc" && m.Args[0].Op != "obj" && terms[m.Args[0]] {
					st.mem[m] = mk("content", "", m.Args[0], call)
				}
				if m.Op == "rpos" && m.Args[0].Op != "obj" && terms[m.Args[0]] {
					st.mem[m] = mk("rposv", "", m.Args[0], call).withType(types.Typ[types.Int])
				}
			}
		case k == "reflect": // the callee fills whatever its argument points to
			written := args
			if len(args) > 1 && strings.HasPrefix(call.Sym, "internal/asn1andr.Unmarshal") {
				written = args[1:] // the encoding itself is only read
			}
			for o := range x.reachDirect(st, written) {
				if !x.initObj[o] {
					x.havocObj(st, o, call)
				}
			}
		case k == "file":
			for _, m := range st.sortedMem() {
				if m.Op == "fpos" {
					st.mem[m] = mk("fposv", "", m.Args[0], call).withType(types.Typ[types.Int64])
				}
			}
			st.mem[mk("fver", "fpos")] = call
		}
	}
}

// errCells: the error-list fields fld of the structures the terms point to.
func (x *Exec) errCells(st *State, terms map[*Term]bool, fld string) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var visit func(p *Term, d int)
	visit = func(p *Term, d int) {
		if p.Typ == nil || p.isConst() || seen[p] || p.Op == "fa" || p.Op == "ia" || p.Op == "undef" {
			return
		}
		t := p.Typ
		if p.Op != "obj" {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return
			}
			t = pt.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok || atomicStruct(t) {
			return
		}
		seen[p] = true
		for i := 0; i < s.NumFields(); i++ {
			if fieldSym(t, i) == fld {
				out = append(out, x.mkField(p, t, i))
			} else if d > 0 {
				if pt, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
					if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
						visit(x.load(st, x.mkField(p, t, i), s.Field(i).Type()), d-1)
					}
				}
			}
		}
	}
	var l []*Term
	for t := range terms {
		l = append(l, t)
	}
	for _, t := range sortTerms(l) {
		visit(t, 1)
	}
	return out
}

func elemName(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return typeName(u.Elem())
	case *types.Array:
		return typeName(u.Elem())
	}
	return ""
}

// havocObj makes the contents of an object unknown.
func (x *Exec) havocObj(st *State, o, tok *Term) {
	for _, m := range st.sortedMem() {
		if rootOf(m) == o {
			delete(st.mem, m)
		}
	}
	st.mem[mk("ver", "", o)] = tok
	if t := x.objType[o]; t != nil {
		if _, ok := t.Underlying().(*types.Map); ok {
			st.mem[o] = mk("content", "", o, tok)
		}
		if isByteArr(t) || isByteSeq(t) {
			// keeps its size
			st.mem[o] = mk("at", "", o, tok)
		}
	}
}

// named handles calls to functions outside the repository by name.
func (x *Exec) named(fr *Frame, ps *PS, in ssa.CallInstruction, name string, args []*Term, sig *types.Signature) []outcome {
	if m, ok := models[name]; ok && x.bound[name] == nil {
		c := &callCtx{x: x, fr: fr, ps: ps, in: in, name: name, args: args, sig: sig}
		if r := m(c); r != nil {
			return r
		}
	}
	b := x.bound[name]
	return x.opaque(fr, ps, in, name, args, sig, pureStd(name) || b != nil && b.Pure)
}

func (x *Exec) opaque(fr *Frame, ps *PS, in ssa.CallInstruction, name string, args []*Term, sig *types.Signature, pure bool) []outcome {
	st := ps.st
	ts := sigTypes(sig)
	if len(ts) < len(args) && strings.HasPrefix(name, "invoke ") {
		ts = append([]types.Type{in.Common().Value.Type()}, ts...)
	}
	off := 0
	if name == "dyn" {
		off = 1
	}
	vals := make([]*Term, len(args))
	for i, a := range args {
		var t types.Type
		if i-off >= 0 && i-off < len(ts) {
			t = ts[i-off]
		}
		vals[i] = x.argVal(st, a, t)
	}
	var call *Term
	if pure {
		call = mk("call", name, vals...)
	} else {
		call = mkDep(x.loopStack, "call", name+"@"+x.site(fr, in), vals...)
	}
	x.event("call", name, fr, in.(ssa.Instruction), st, append([]*Term{call}, vals...)...)
	x.rawArgs(args)
	if !pure {
		st.facts[mk("did", name, append([]*Term{call}, vals...)...)] = true
		if b := x.bound[name]; b != nil && b.Effect != nil {
			b.Effect(x, fr, st, call, args)
			return one(ps, x.resultTerm(call, sig))
		}
		written := args
		if m, ok := extMuts[name]; ok && m != "*" {
			written = nil
			for i, a := range args {
				if strings.Contains(m, strconv.Itoa(i)) {
					written = append(written, a)
				}
			}
		}
		for o := range x.reachDirect(st, written) {
			x.havocObj(st, o, call)
		}
		// file positions may move, hashes may be written to
		for _, m := range st.sortedMem() {
			if m.Op == "hdata" {
				for _, a := range args {
					if unwrap(a) == m.Args[0] {
						st.mem[m] = mk("partial", "", m.Args[0], call)
					}
				}
			}
			if m.Op == "fpos" {
				for _, a := range args {
					if a == m.Args[0] || a.contains(m.Args[0]) {
						st.mem[m] = mk("fposv", "", m.Args[0], call).withType(types.Typ[types.Int64])
					}
				}
			}
		}
	}
	return one(ps, x.resultTerm(call, sig))
}

// reachDirect: objects passed (directly, in interfaces, slices or closures) to an unknown function.
func (x *Exec) reachDirect(st *State, args []*Term) map[*Term]bool {
	seen := map[*Term]bool{}
	var l []*Term
	for _, a := range args {
		x.objsIn(a, seen, &l)
	}
	r := map[*Term]bool{}
	for _, o := range l {
		r[o] = true
	}
	return r
}

func (x *Exec) builtin(fr *Frame, ps *PS, in ssa.CallInstruction, name string, a []*Term, c *ssa.CallCommon) *Term {
	st := ps.st
	switch name {
	case "len":
		return x.lenOf(st, a[0], c.Args[0].Type())
	case "cap":
		if a[0].Op == "sl" {
			if t := x.objType[a[0].Args[0]]; t != nil {
				if ar, ok := t.Underlying().(*types.Array); ok {
					return mkSub(mkInt(ar.Len()), a[0].Args[1])
				}
			}
		}
		return mk("cap", "", a[0]).withType(types.Typ[types.Int])
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if isByte(et) {
			if a[0] == tNil && len(x.loopStack) == 0 {
				if v, ok := in.(ssa.Value); ok { // a fresh copy, which may be written to
					return x.freshBytes(fr, st, in.(ssa.Instruction), v.Name(), x.content(st, a[1], true), v.Type())
				}
			}
			return mkCat(x.content(st, a[0], true), x.content(st, a[1], true)).withType(c.Args[0].Type())
		}
		base := x.content(st, a[0], false)
		if base == tNil {
			base = mk("list", "")
		}
		add := x.content(st, a[1], false)
		return x.appendList(base, add, et).withType(c.Args[0].Type())
	case "copy":
		dst, src := a[0], x.content(st, a[1], isByteSeq(c.Args[1].Type()))
		dl := x.lenOf(st, dst, c.Args[0].Type())
		sl := mkLen(src)
		n := sl
		if st.eval(mkLe(sl, dl)) != 1 {
			if st.eval(mkLe(dl, sl)) == 1 {
				n = dl
			} else {
				n = mk("min", "", dl, sl)
			}
		}
		if dst.Op == "sl" && isByteSeq(c.Args[0].Type()) {
			obj := dst.Args[0]
			cont, ok := x.get(st, obj)
			if !ok {
				cont = x.defaultLoad(st, obj, types.NewArray(types.Typ[types.Uint8], 0))
			}
			st.mem[obj] = mkPut(cont, dst.Args[1], mkTake(src, n))
		} else if dst.Op == "sl" {
			x.havocObj(st, dst.Args[0], mk("copy", "", src))
		}
		x.event("copy", "", fr, in.(ssa.Instruction), st, a[0], a[1])
		return n
	case "delete":
		k := x.keyVal(st, a[1], c.Args[1].Type())
		x.event("mapdelete", "", fr, in.(ssa.Instruction), st, a[0], k)
		a[0].withType(c.Args[0].Type())
		st.mem[a[0]] = mk("del", "", x.mapContent(st, a[0]), k)
		return tNil
	case "min", "max":
		r := a[0]
		for _, b := range a[1:] {
			l, g := r, b
			if name == "max" {
				l, g = b, r
			}
			switch {
			case st.eval(mkLe(l, g)) == 1:
			case st.eval(mkLe(g, l)) == 1:
				r = b
			default:
				r = mk(name, "", sortTerms([]*Term{r, b})...).withType(c.Args[0].Type())
			}
		}
		return r
	case "recover":
		return mk("recovered", x.site(fr, in))
	case "print", "println", "close":
		return tNil
	case "clear":
		if a[0].Op == "obj" {
			x.havocObj(st, a[0], mk("clear", x.site(fr, in)))
		}
		return tNil
	case "ssa:wrapnilchk":
		return a[0]
	}
	return mk("builtin", name, a...)
}

func (x *Exec) appendList(base, add *Term, et types.Type) *Term {
	if add.Op != "list" {
		return mk("app", "", base, add)
	}
	if len(add.Args) == 0 {
		return base
	}
	// lists of errors or messages: how many there are does not matter
	if isErrType(et) {
		e := mk("err", "any")
		if v := add.Args[len(add.Args)-1]; v.Op == "iface" {
			e = mk("iface", v.Sym, e)
		}
		add = mk("list", "", e)
		for b := base; b.Op == "app"; b = b.Args[0] {
			if b.Args[1] == add {
				return base
			}
		}
		return mk("app", "", base, add)
	}
	if msgType(et) {
		if base.Op == "app" && base.Args[1].Op == "list" && len(base.Args[1].Args) == 1 {
			if isMsg(base.Args[1].Args[0]) && isMsg(add.Args[0]) || base.Args[1] == add {
				return base
			}
		}
		return mk("app", "", base, add)
	}
	if base.Op == "list" {
		return mk("list", "", append(append([]*Term(nil), base.Args...), add.Args...)...)
	}
	r := base
	for _, e := range add.Args {
		r = mk("app", "", r, mk("list", "", e))
	}
	return r
}

func msgType(t types.Type) bool {
	if isErrType(t) {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isMsg(t *Term) bool {
	return t.Op == "res" && t.Args[0].Op == "call" && strings.HasPrefix(t.Args[0].Sym, "fmt.Sprint")
}

// rawArgs completes the last logged call.
func (x *Exec) rawArgs(args []*Term) {
	if len(x.log) > 0 && x.wantEvent["call"] {
		x.log[len(x.log)-1].Raw = args
	}
}
