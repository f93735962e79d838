package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks = append(checks, checkDef{"C26", checkC26, 100})
}

// unstable: library functions whose result is not determined by their arguments and the file.
func unstableCall(n string) bool {
	switch n {
	case "time.Now", "time.Since", "time.Until", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "maps.Keys", "maps.Values", "maps.All", "(*crypto/x509.Certificate).Verify",
		"(*sync.Map).Range", "(*sync.Pool).Get":
		return true
	}
	for _, q := range []string{"math/rand", "(*math/rand", "crypto/rand.", "hash/maphash", "(*hash/maphash", "(hash/maphash", "runtime.", "os.Get", "os.Hostname", "os.Environ", "os.LookupEnv", "os.Exec", "os.User", "os.Temp", "sync/atomic.Add", "(*sync/atomic"} {
		if strings.HasPrefix(n, q) {
			return true
		}
	}
	return false
}

// verdictFuncs: what is reachable from the functions that verify or extract, leaving out the
// certificate description.
func (c *Check) verdictFuncs(p *PTA) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, f := range c.w.entryFuncs() {
		r := f.Signature.Recv()
		if f.Name() == "PickBestApkCert" || f.Name() == "NewCertInfo" || r != nil && strings.HasSuffix(typeName(deref(r.Type())), "CertInfo") {
			continue
		}
		work = append(work, f)
	}
	c.req(len(work) >= 10, "the exported functions were found", "apkverifier", "only %d", len(work))
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		for g := range p.calls[pctx{f, false}] {
			work = append(work, g)
		}
	}
	var out []*ssa.Function
	for f := range seen {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func checkC26(c *Check) {
	p := c.pta()
	c.countPTA(p)
	fns := c.verdictFuncs(p)
	for _, f := range c.w.Funcs {
		if isAsn1(f) {
			fns = append(fns, f)
		}
	}
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	for n, calls := range p.ext {
		for call := range calls {
			if in[call.Parent()] {
				c.req(!unstableCall(n), "nothing but the arguments and the file determines a library result", c.site(call.Parent(), call, n), "%s depends on the clock, on chance or on the process", n)
			}
		}
	}
	ranges := 0
	for _, f := range fns {
		wh := c.w.pos(f) + " " + shortFn(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Go:
					c.req(false, "nothing runs concurrently", c.site(f, i, "go"), "go statement")
				case *ssa.Select:
					c.req(len(i.States) < 2, "nothing runs concurrently", c.site(f, i, "select"), "select chooses at random")
				case *ssa.Convert:
					x, ok1 := i.X.Type().Underlying().(*types.Basic)
					y, ok2 := i.Type().Underlying().(*types.Basic)
					if ok1 && ok2 && x.Kind() == types.UnsafePointer && y.Kind() == types.Uintptr {
						c.req(false, "addresses are not used as numbers", c.site(f, i, "conversion"), "uintptr of a pointer")
					}
				case *ssa.Call:
					if g := i.Call.StaticCallee(); isAsn1(f) && g != nil {
						c.req(!unstableCall(fnName(g)), "nothing but the arguments and the file determines a library result", c.site(f, i, fnName(g)), "%s", fnName(g))
					}
					for _, a := range i.Call.Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
							c.req(false, "addresses are not printed", c.site(f, i, "format"), "%%p")
						}
					}
				case *ssa.Next:
					if !i.IsString {
						ranges++
						why := orderMatters(c, f, i)
						c.req(why == "", "the order in which a map is visited has no influence", c.site(f, i, "range over a map"), "%s", why)
					}
				}
			}
		}
		c.req(true, "function examined for clock, chance, concurrency and map order", wh, "")
	}
	c.loops = ranges
	c.req(ranges > 0, "map iterations are found", "all functions", "none")
}

// loopOf: the blocks of the innermost natural loop with the given header.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in
}

type mapLoop struct {
	c        *Check
	f        *ssa.Function
	next     *ssa.Next
	blocks   map[*ssa.BasicBlock]bool
	key, val map[ssa.Value]bool
	effects  int
}

// orderMatters says why the visiting order of the map range can be observed; "" if it cannot.
func orderMatters(c *Check, f *ssa.Function, n *ssa.Next) string {
	h := n.Block()
	l := &mapLoop{c: c, f: f, next: n, blocks: loopOf(h), key: map[ssa.Value]bool{}, val: map[ssa.Value]bool{}}
	for _, r := range *n.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				l.key[e] = true
			case 2:
				l.val[e] = true
			}
		}
	}
	// effects of the body
	var collectors []ssa.Value
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Next:
				if in != n && !in.IsString {
					continue // judged by itself
				}
			case *ssa.Extract, *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface,
				*ssa.Slice, *ssa.Jump, *ssa.If, *ssa.DebugRef, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.TypeAssert, *ssa.Range, *ssa.Panic:
			case *ssa.Store:
				switch root := storeRoot(in.Addr).(type) {
				case *ssa.Alloc:
					if l.blocks[root.Block()] {
						continue
					}
					if in.Addr != ssa.Value(root) {
						return "a part of a variable that outlives the loop is assigned"
					}
					l.effects++
					why, coll := l.accumulate([]ssa.Value{in.Val}, func(v ssa.Value) bool {
						u, ok := v.(*ssa.UnOp)
						return ok && u.Op == token.MUL && u.X == ssa.Value(root)
					})
					if why != "" {
						return why
					}
					if coll {
						collectors = append(collectors, root)
					}
				default:
					return "a variable that outlives the loop is assigned"
				}
			case *ssa.MapUpdate:
				if m, ok := storeRoot(in.Map).(*ssa.MakeMap); ok && l.blocks[m.Block()] {
					continue
				}
				l.effects++
				if !l.isKey(in.Key) {
					return "a map entry other than the one for the visited key is set"
				}
				if l.dependsOnPhi(in.Value) {
					return "what is stored under the visited key depends on earlier iterations"
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "len", "cap", "min", "max":
					case "delete":
						l.effects++
						if !l.isKey(in.Call.Args[1]) {
							return "a map entry other than the visited one is deleted"
						}
					default:
						return "the loop calls " + bi.Name()
					}
					continue
				}
				if !pureCall(c, in, 0) {
					return "the loop calls " + calleeText(in) + ", which may have effects"
				}
			case *ssa.Return:
			default:
				return fmt.Sprintf("the loop contains %T", in)
			}
		}
	}
	// values carried from one iteration to the next
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var carried []ssa.Value
		var from []*ssa.BasicBlock
		for i, e := range phi.Edges {
			if l.blocks[h.Preds[i]] {
				carried, from = append(carried, e), append(from, h.Preds[i])
			}
		}
		if l.extremum(phi.Type(), carried, from, func(v ssa.Value) bool { return v == ssa.Value(phi) }) {
			l.effects++
			continue
		}
		{
			for _, e := range carried {
				if e != ssa.Value(phi) {
					l.effects++
				}
			}
			why, coll := l.accumulate(carried, func(v ssa.Value) bool { return v == ssa.Value(phi) })
			if why != "" {
				return why
			}
			if coll {
				collectors = append(collectors, phi)
			}
		}
	}
	// leaving early
	exits := map[string]bool{}
	for b := range l.blocks {
		if b == h {
			continue
		}
		for si, s := range b.Succs {
			if l.blocks[s] {
				continue
			}
			k := fmt.Sprint("to ", s.Index)
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range s.Preds {
					if p == b {
						if !l.invariant(phi.Edges[i]) {
							return "leaving the loop early gives a value that depends on the visited entry"
						}
						k += " " + phi.Edges[i].String()
					}
				}
			}
			_ = si
			if len(s.Preds) == 1 || onlyLoopPreds(s, l.blocks) {
				// what follows may still use values of the loop
				if v := l.usedAfter(s); v != "" {
					return "after leaving the loop early " + v + " of the visited entry is used"
				}
			}
			exits[k] = true
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			k := "return"
			for _, v := range r.Results {
				if !l.invariant(v) {
					return "the loop returns something that depends on the visited entry"
				}
				k += " " + v.String()
			}
			exits[k] = true
		}
	}
	if len(exits) > 1 {
		return "the loop is left early in different ways"
	}
	if len(exits) == 1 && l.effects > 0 {
		return "the loop is left early after it had effects"
	}
	for _, v := range collectors {
		if why := l.sortedBeforeUse(f, v, l.blocks, 0); why != "" {
			return why
		}
	}
	return ""
}

func onlyLoopPreds(s *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	for _, p := range s.Preds {
		if !in[p] {
			return false
		}
	}
	return true
}

// usedAfter: blocks from s on that use a value computed from the visited entry.
func (l *mapLoop) usedAfter(s *ssa.BasicBlock) string {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{s}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || l.blocks[b] {
			continue
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil && !l.invariant(*op) {
					return (*op).Name()
				}
			}
		}
		work = append(work, b.Succs...)
	}
	return ""
}

func calleeText(in *ssa.Call) string {
	if f := in.Call.StaticCallee(); f != nil {
		return shortFn(f)
	}
	if in.Call.IsInvoke() {
		return in.Call.Method.Name()
	}
	return "a function value"
}

func storeRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

func (l *mapLoop) isKey(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return l.isKey(x.X)
	case *ssa.MakeInterface:
		return l.isKey(x.X)
	case *ssa.UnOp:
		// the key kept in a variable of the iteration
		if al, ok := x.X.(*ssa.Alloc); ok && l.blocks[al.Block()] {
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok {
					if !l.isKey(st.Val) {
						return false
					}
					n++
				}
			}
			return n == 1
		}
	}
	return l.key[v]
}

// invariant: the value is computed outside of the loop.
func (l *mapLoop) invariant(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return !l.blocks[x.Block()] || l.invariant(x.X)
	case *ssa.ChangeInterface:
		return !l.blocks[x.Block()] || l.invariant(x.X)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && g != nil {
			return true
		}
	case *ssa.Call:
		// errors.New("constant") and the like
		if l.blocks[x.Block()] {
			if f := x.Call.StaticCallee(); f != nil && (fnName(f) == "errors.New" || strings.HasPrefix(fnName(f), "fmt.")) {
				for _, a := range x.Call.Args {
					if k, ok := a.(*ssa.Const); !ok || k == nil {
						return false
					}
				}
				return true
			}
		}
	}
	if in, ok := v.(ssa.Instruction); ok {
		return !l.blocks[in.Block()]
	}
	return true
}

// dependsOnPhi: the value depends on what earlier iterations computed.
func (l *mapLoop) dependsOnPhi(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.blocks[in.Block()] {
			return false
		}
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == l.next.Block() {
			return true
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if al, ok := storeRoot(u.X).(*ssa.Alloc); ok && !l.blocks[al.Block()] {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && l.blocks[st.Block()] {
						return true
					}
				}
			}
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for b := range l.blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok && storeRoot(st.Addr) == ssa.Value(al) && visit(st.Val) {
						return true
					}
				}
			}
		}
		for _, op := range in.Operands(nil) {
			if op != nil && *op != nil && visit(*op) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

// accumulate: the new value of a carried variable does not depend on the order of the iterations,
// or it is a list of what was visited (the second result).
func (l *mapLoop) accumulate(vs []ssa.Value, old func(v ssa.Value) bool) (string, bool) {
	bad := "a variable carried over the iterations depends on their order"
	consts := map[string]bool{}
	coll := false
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) string
	visit = func(v ssa.Value) string {
		if seen[v] || old(v) {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			consts[x.String()] = true
			return ""
		case *ssa.Phi:
			if !l.blocks[x.Block()] || x.Block() == l.next.Block() {
				return bad
			}
			if l.extremum(x.Type(), x.Edges, x.Block().Preds, old) {
				return ""
			}
			for _, e := range x.Edges {
				if w := visit(e); w != "" {
					return w
				}
			}
			return ""
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					if old(x.X) && !l.dependsOnPhi(x.Y) || old(x.Y) && !l.dependsOnPhi(x.X) {
						return ""
					}
				}
			}
			return bad
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "append":
					if old(x.Call.Args[0]) && !l.dependsOnPhi(x.Call.Args[1]) {
						coll = true
						return ""
					}
				case "min", "max":
					for _, a := range x.Call.Args {
						if !old(a) && l.dependsOnPhi(a) {
							return bad
						}
					}
					return ""
				}
			}
			return bad
		}
		if l.invariant(v) {
			consts[v.Name()] = true
			return ""
		}
		return bad
	}
	for _, v := range vs {
		if w := visit(v); w != "" {
			return w, false
		}
	}
	if len(consts) > 1 || len(consts) == 1 && coll {
		return bad, false
	}
	return "", coll
}

// extremum: the phi picks the smaller or the larger of the old value and a value of this iteration.
func (l *mapLoop) extremum(t types.Type, edges []ssa.Value, preds []*ssa.BasicBlock, old func(v ssa.Value) bool) bool {
	if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsNumeric == 0 {
		return false
	}
	var o, n ssa.Value
	for _, e := range edges {
		switch {
		case old(e):
			o = e
		case n == nil || sameVal(n, e):
			n = e
		default:
			return false
		}
	}
	if o == nil || n == nil || l.dependsOnPhi(n) {
		return false
	}
	for _, p := range preds {
		for _, q := range append([]*ssa.BasicBlock{p}, p.Preds...) {
			if !l.blocks[q] {
				continue
			}
			br, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := br.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if (old(bo.X) && sameVal(bo.Y, n)) || (old(bo.Y) && sameVal(bo.X, n)) {
					return true
				}
			}
		}
	}
	return false
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		f, ok1 := x.Call.Value.(*ssa.Builtin)
		g, ok2 := y.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && f.Name() == "len" && g.Name() == "len" && sameVal(x.Call.Args[0], y.Call.Args[0])
	}
	p, ok1 := a.(*ssa.Convert)
	q, ok2 := b.(*ssa.Convert)
	return ok1 && ok2 && types.Identical(p.Type(), q.Type()) && sameVal(p.X, q.X)
}

// pureCall: the call has no effects and its result depends on its arguments only.
func pureCall(c *Check, in *ssa.Call, d int) bool {
	f := in.Call.StaticCallee()
	if f == nil {
		return in.Call.IsInvoke() && (in.Call.Method.Name() == "Error" || in.Call.Method.Name() == "String") && d < 3
	}
	if !c.w.isRepoFunc(f) {
		n := fnName(f)
		for _, q := range []string{"strings.", "strconv.", "fmt.Sprint", "fmt.Errorf", "errors.", "bytes.", "unicode", "math.", "math/bits.", "encoding/hex.EncodeToString", "path.", "(encoding/binary.littleEndian).Uint", "(encoding/asn1.ObjectIdentifier)"} {
			if strings.HasPrefix(n, q) {
				return true
			}
		}
		return false
	}
	if d > 6 || len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if al, ok := storeRoot(i.Addr).(*ssa.Alloc); !ok || al.Parent() != f {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case *ssa.Call:
				if bi, ok := i.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "delete", "clear", "print", "println", "recover":
						return false
					}
					continue
				}
				if !pureCall(c, i, d+1) {
					return false
				}
			}
		}
	}
	return true
}

// sortedBeforeUse: the list v (a value or a variable) is sorted totally before it is used for anything
// but its length.
func (l *mapLoop) sortedBeforeUse(f *ssa.Function, v ssa.Value, inside map[*ssa.BasicBlock]bool, d int) string {
	if d > 4 {
		return "the list is handed on too often"
	}
	var uses []ssa.Instruction
	var sorts []*ssa.Call
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value, cell bool)
	visit = func(v ssa.Value, cell bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if inside[r.Block()] {
				continue
			}
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				visit(r, false)
			case *ssa.UnOp:
				visit(r, false)
			case *ssa.Store:
				if cell && r.Addr == v {
					if inside[r.Block()] || r.Block().Dominates(l.entry(inside)) {
						continue
					}
				}
				uses = append(uses, r)
			case *ssa.MakeClosure:
				// the closure that compares reads the variable
				if cell && lessOnly(r) {
					continue
				}
				uses = append(uses, r)
			case *ssa.ChangeType:
				visit(r, false)
			case *ssa.MakeInterface:
				visit(r, false)
			case *ssa.Call:
				if bi, ok := r.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				if g := r.Call.StaticCallee(); g != nil && isSort(fnName(g)) && len(r.Call.Args) > 0 && r.Call.Args[0] == v {
					sorts = append(sorts, r)
				}
				uses = append(uses, r)
			default:
				uses = append(uses, r)
			}
		}
	}
	_, cell := v.(*ssa.Alloc)
	visit(v, cell)
	if len(sorts) == 0 {
		// an unexported helper that returns the list: its callers have to sort
		rets := 0
		for _, u := range uses {
			if _, ok := u.(*ssa.Return); ok {
				rets++
			}
		}
		if rets == len(uses) && rets > 0 && f.Object() != nil && !f.Object().Exported() && f.Signature.Results().Len() == 1 {
			n := 0
			for _, g := range l.c.w.Funcs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if cl, ok := in.(*ssa.Call); ok && cl.Call.StaticCallee() == f {
							n++
							if why := l.sortedBeforeUse(g, cl, map[*ssa.BasicBlock]bool{}, d+1); why != "" {
								return why
							}
						}
					}
				}
			}
			if n > 0 {
				return ""
			}
		}
		if len(uses) == 0 {
			return ""
		}
		return "the visited entries are listed in the order of the map at " + l.c.w.posOf(f, uses[0].Pos())
	}
	for _, s := range sorts {
		if why := l.totalOrder(s); why != "" {
			return why
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			ok = ok || u == ssa.Instruction(s) || before(s, u)
		}
		if !ok {
			return "the list is used before it is sorted at " + l.c.w.posOf(f, u.Pos())
		}
	}
	return ""
}

func (l *mapLoop) entry(inside map[*ssa.BasicBlock]bool) *ssa.BasicBlock {
	return l.next.Block()
}

func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

func isSort(n string) bool {
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return strings.HasPrefix(n, "slices.Sort[")
}

// lessOnly: the closure only reads its variables.
func lessOnly(mc *ssa.MakeClosure) bool {
	f := mc.Fn.(*ssa.Function)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Call, *ssa.Defer, *ssa.Go:
				return false
			}
		}
	}
	return true
}

// totalOrder: the sort leaves no choice between distinguishable entries.
func (l *mapLoop) totalOrder(s *ssa.Call) string {
	n := fnName(s.Call.StaticCallee())
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s":
		return ""
	}
	if strings.HasPrefix(n, "slices.Sort") && !strings.Contains(n, "Func") {
		return ""
	}
	var less *ssa.Function
	switch {
	case strings.HasPrefix(n, "sort.Slice"):
		switch x := s.Call.Args[1].(type) {
		case *ssa.MakeClosure:
			less = x.Fn.(*ssa.Function)
		case *ssa.Function:
			less = x
		}
	case n == "sort.Sort" || n == "sort.Stable":
		if mi, ok := s.Call.Args[0].(*ssa.MakeInterface); ok {
			if sel := l.c.w.Prog.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, "Less"); sel != nil {
				less = l.c.w.Prog.MethodValue(sel)
			}
		}
	}
	if less == nil {
		return "the order that is sorted by is not known"
	}
	if len(less.Blocks) != 1 {
		return "the order that is sorted by is not a comparison of keys"
	}
	r, ok := less.Blocks[0].Instrs[len(less.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return "the order that is sorted by is not a comparison of keys"
	}
	bo, ok := r.Results[0].(*ssa.BinOp)
	if !ok || bo.Op != token.LSS && bo.Op != token.GTR {
		return "the order that is sorted by is not a comparison of keys"
	}
	fx, ok1 := elemPath(bo.X)
	fy, ok2 := elemPath(bo.Y)
	if !ok1 || !ok2 || fx != fy {
		return "the order that is sorted by is not a comparison of keys"
	}
	if fx == "" {
		if _, ok := bo.X.Type().Underlying().(*types.Basic); ok {
			return ""
		}
	}
	// the compared field has to be the key of the visited map
	if l.fieldIsKey(fx) {
		return ""
	}
	return "the entries are sorted by something that may be equal for different entries"
}

// elemPath: list[i].f read in a comparison: "f"; list[i]: "".
func elemPath(v ssa.Value) (string, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "", false
	}
	switch a := u.X.(type) {
	case *ssa.IndexAddr:
		return "", true
	case *ssa.FieldAddr:
		name := deref(a.X.Type()).Underlying().(*types.Struct).Field(a.Field).Name()
		switch b := a.X.(type) {
		case *ssa.IndexAddr:
			return name, true
		case *ssa.UnOp:
			if _, ok := b.X.(*ssa.IndexAddr); ok {
				return name, true
			}
		}
	}
	return "", false
}

// fieldIsKey: the entries collected in the loop hold the key of the map in the field.
func (l *mapLoop) fieldIsKey(field string) bool {
	n := 0
	for b := range l.blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			s, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
			if !ok || s.Field(fa.Field).Name() != field {
				continue
			}
			if !l.isKey(st.Val) {
				return false
			}
			n++
		}
	}
	return n > 0
}
