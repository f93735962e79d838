package main

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks = append(checks, checkDef{"C24", checkC24, 3})
}

// entryFuncs: the functions a user calls to verify, to extract or to describe certificates.
func (w *World) entryFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, sp := range w.RepoPkg {
		path := strings.TrimPrefix(sp.Pkg.Path(), modPath)
		if strings.Contains(path, "/internal/") {
			continue
		}
		pkcs := strings.Contains(path, "/pkcs7")
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Object() == nil || !m.Object().Exported() || pkcs && m.Name() != "Parse" {
					continue
				}
				out = append(out, m)
			case *ssa.Type:
				if !m.Object().Exported() || pkcs && m.Name() != "PKCS7" && m.Name() != "SignerInfo" {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := w.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := w.Prog.MethodValue(ms.At(i))
						if f == nil || f.Synthetic != "" || f.Pkg != sp || !f.Object().Exported() || pkcs && strings.HasPrefix(f.Name(), "Decrypt") {
							continue
						}
						out = append(out, f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	var u []*ssa.Function
	for i, f := range out {
		if i == 0 || f != out[i-1] {
			u = append(u, f)
		}
	}
	return u
}

// pta runs the points-to analysis from the entry points.
func (c *Check) pta() *PTA {
	p := newPTA(c.w)
	p.opaque = isAsn1
	for _, sp := range c.w.RepoPkg {
		if f := sp.Func("init"); f != nil {
			p.enter(f, true)
		}
	}
	for _, f := range c.w.entryFuncs() {
		p.entryPoint(f, nil)
	}
	p.Run()
	return p
}

func isAsn1(f *ssa.Function) bool {
	return strings.HasSuffix(pkgPath(f), "internal/asn1andr")
}

// ptaAsn1 analyses the DER decoder by itself.
func (c *Check) ptaAsn1() *PTA {
	p := newPTA(c.w)
	n := 0
	for _, sp := range c.w.RepoPkg {
		if !strings.HasSuffix(sp.Pkg.Path(), "internal/asn1andr") {
			continue
		}
		if f := sp.Func("init"); f != nil {
			p.enter(f, true)
		}
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() {
				p.entryPoint(f, nil)
				n++
			}
		}
	}
	if n == 0 {
		fatalf("the DER decoder was not found")
	}
	p.Run()
	return p
}

func (c *Check) countPTA(p *PTA) {
	for _, x := range p.order {
		c.used[x.fn] = true
		c.paths++
		for _, b := range x.fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(ssa.CallInstruction); ok {
					c.sites++
				}
			}
		}
	}
	for _, n := range sortedKeys(p.notes) {
		if os.Getenv("PTA") != "" {
			println("note", n)
		}
	}
}

// site names an instruction by its function and what it does, without its line.
func (c *Check) site(f *ssa.Function, in ssa.Instruction, what string) string {
	return c.w.posOf(f, in.Pos()) + " " + shortFn(f) + ": " + what
}

func checkC24(c *Check) {
	for i, p := range []*PTA{c.pta(), c.ptaAsn1()} {
		c.countPTA(p)
		bad := map[ssa.Instruction]string{}
		all := map[ssa.Instruction]pwrite{}
		for _, e := range p.sortedWrites() {
			if e.init {
				continue
			}
			all[e.in] = e
			if e.loc.obj.init || e.loc.obj.kind == "glob" {
				bad[e.in] = e.kind + " to " + e.loc.obj.desc
			}
		}
		for in, e := range all {
			why, b := bad[in]
			if b && i == 0 && c.conversionPanicUnreachable(p, e.fn) {
				b = false
			}
			c.req(!b, "no code that runs after package initialisation writes to a package variable or to an object made by package initialisation", c.site(e.fn, in, e.kind), "%s", why)
		}
		// nothing that verification returns lets the caller change package state
		for _, f := range c.w.entryFuncs() {
			if i > 0 {
				break
			}
			sig := f.Signature.Results()
			for j := 0; j < sig.Len(); j++ {
				t := sig.At(j).Type()
				if !hasPtr(t) || isErrType(t) {
					continue
				}
				var out []*ploc
				p.reached(p.node(pkey{v: f, i: 100 + j}), map[*ploc]bool{}, &out)
				why := ""
				for _, l := range out {
					if l.obj.kind != "fn" && l.obj.init && l.typ != nil && mutableVia(l.typ) {
						why = l.obj.desc + " " + l.path
					}
				}
				c.req(why == "", "results do not expose package state that the caller could change", c.w.pos(f)+" "+shortFn(f), "result %d reaches %s", j, why)
			}
		}
	}
}

// mutableVia: whoever holds a reference to such a location can change it.
func mutableVia(t types.Type) bool { return true }

// conversionPanicUnreachable: f is the deferred function that reports a failed conversion of a
// certificate field, guarded by recover() != nil, and none of the conversions can fail: every field
// that both certificate types have is exported and convertible, unless it is skipped by name.
func (c *Check) conversionPanicUnreachable(p *PTA, f *ssa.Function) bool {
	par := f.Parent()
	if par == nil || f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "internal/x509andr") {
		return false
	}
	// everything with an effect happens after recover() returned something
	var rec ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(*ssa.Call); ok {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					rec = cl
				}
			}
		}
	}
	if rec == nil {
		return false
	}
	var guard *ssa.BasicBlock
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := br.Cond.(*ssa.BinOp); ok && bo.X == rec && isNilConst(bo.Y) {
				switch bo.Op.String() {
				case "!=":
					guard = b.Succs[0]
				case "==":
					guard = b.Succs[1]
				}
			}
		}
	}
	if guard == nil || len(guard.Preds) != 1 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if in != rec && !guard.Dominates(b) {
					return false
				}
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				if !guard.Dominates(b) {
					return false
				}
			}
		}
	}
	// the function that defers it does nothing but convert and set
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Defer, *ssa.RunDefers, *ssa.Return, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Store, *ssa.Alloc, *ssa.MakeClosure:
			case *ssa.UnOp:
			case *ssa.Call:
				n := fnNameOf(in)
				if n != "(reflect.Value).Convert" && n != "(reflect.Value).Set" && n != "(reflect.Value).Type" {
					return false
				}
			default:
				return false
			}
		}
	}
	// the callers pass fields of the same name of the two certificate types
	skip := map[string]bool{}
	callers := 0
	for ctx, m := range p.calls {
		if !m[par] {
			continue
		}
		callers++
		ok := false
		for _, b := range ctx.fn.Blocks {
			for _, in := range b.Instrs {
				if cl, is := in.(*ssa.Call); is && fnNameOf(cl) == "(reflect.Value).FieldByName" {
					ok = true
				}
				bo, is := in.(*ssa.BinOp)
				if !is || bo.Op.String() != "==" && bo.Op.String() != "!=" {
					continue
				}
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if k, is := v.(*ssa.Const); is && k.Value != nil && strings.HasPrefix(k.Value.String(), "\"") && skipsOn(bo, par) {
						skip[strings.Trim(k.Value.ExactString(), "\"")] = true
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	if callers == 0 {
		return false
	}
	ours := structOf(f.Pkg.Pkg, "Certificate")
	var theirs *types.Struct
	for _, imp := range f.Pkg.Pkg.Imports() {
		if imp.Path() == "crypto/x509" {
			theirs = structOf(imp, "Certificate")
		}
	}
	if ours == nil || theirs == nil {
		return false
	}
	good := true
	for i := 0; i < ours.NumFields(); i++ {
		a := ours.Field(i)
		for j := 0; j < theirs.NumFields(); j++ {
			b := theirs.Field(j)
			if a.Name() != b.Name() || skip[a.Name()] {
				continue
			}
			_, arr := b.Type().Underlying().(*types.Array)
			ok := a.Exported() && types.ConvertibleTo(a.Type(), b.Type()) && (!arr || types.Identical(a.Type().Underlying(), b.Type().Underlying()))
			c.req(ok, "every field that is copied between the certificate types can be converted", "Certificate."+a.Name(), "%s does not convert to %s: the failure is reported through a package variable and on standard error", a.Type(), b.Type())
			good = good && ok
		}
	}
	return true
}

// skipsOn: where the comparison finds the two equal, the conversion is not reached before the next
// iteration.
func skipsOn(bo *ssa.BinOp, conv *ssa.Function) bool {
	b := bo.Block()
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || br.Cond != bo {
		return false
	}
	eq := b.Succs[0]
	if bo.Op.String() == "!=" {
		eq = b.Succs[1]
	}
	// blocks reachable from the equal side without passing the comparison again
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{eq}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, in := range x.Instrs {
			if cl, ok := in.(*ssa.Call); ok && cl.Call.StaticCallee() == conv {
				return false
			}
		}
		work = append(work, x.Succs...)
	}
	return true
}

func fnNameOf(in ssa.CallInstruction) string {
	if f := in.Common().StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}

func structOf(p *types.Package, name string) *types.Struct {
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	s, _ := o.Type().Underlying().(*types.Struct)
	return s
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
