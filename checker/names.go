package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The rules of the checks name functions, types, fields and variables of the repository. Renaming one
// of these changes no behaviour, so that a declaration that is missing is looked for under another
// name: the only new declaration of the same kind and type in the same place takes its role, and the
// source is analysed as if it had the old name.

//go:embed names.txt
var origNames string

// decl is a declaration the rules may refer to.
type decl struct {
	key  string // package|kind|owner
	name string
	sig  string
	ids  map[string]bool // identifiers used in the body
	obj  types.Object
	at   string
}

func (d *decl) id() string { return d.key + "|" + d.name }

// declarations lists what the repository's packages declare; types are written with the names ren gives.
func declarations(pkgs []*packages.Package, ren map[types.Object]string) []*decl {
	var out []*decl
	str := func(t types.Type) string {
		s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
		for o, n := range ren {
			if tn, ok := o.(*types.TypeName); ok {
				s = replaceWord(s, tn.Pkg().Path()+"."+tn.Name(), tn.Pkg().Path()+"."+n)
			}
		}
		return s
	}
	nameOf := func(o types.Object) string {
		if n, ok := ren[o]; ok {
			return n
		}
		return o.Name()
	}
	for _, p := range pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			continue
		}
		bodies := map[types.Object]*ast.FuncDecl{}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					bodies[p.TypesInfo.Defs[fd.Name]] = fd
				}
			}
		}
		add := func(kind, owner string, o types.Object, sig string) {
			d := &decl{key: p.PkgPath + "|" + kind + "|" + owner, name: nameOf(o), sig: sig, obj: o, ids: map[string]bool{}}
			if fd := bodies[o]; fd != nil && fd.Body != nil {
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if u := p.TypesInfo.Uses[id]; u != nil && (u.Pkg() != p.Types || u.Parent() == p.Types.Scope()) {
							d.ids[id.Name] = true
						}
					}
					return true
				})
			}
			d.at = p.Fset.Position(o.Pos()).String()
			out = append(out, d)
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			switch o := sc.Lookup(n).(type) {
			case *types.Func:
				add("func", "", o, str(o.Type()))
			case *types.Var:
				add("var", "", o, str(o.Type()))
			case *types.Const:
				add("const", "", o, str(o.Type())+"="+o.Val().ExactString())
			case *types.TypeName:
				if o.IsAlias() {
					continue
				}
				owner := nameOf(o)
				self := p.PkgPath + "." + o.Name()
				s, isStruct := o.Type().Underlying().(*types.Struct)
				sig := replaceWord(str(o.Type().Underlying()), self, "SELF")
				if isStruct {
					// fields may have new names too
					var fs []string
					for i := 0; i < s.NumFields(); i++ {
						fs = append(fs, replaceWord(str(s.Field(i).Type()), self, "SELF"))
					}
					sort.Strings(fs)
					sig = "struct " + strings.Join(fs, "; ")
				}
				add("type", "", o, sig)
				td := out[len(out)-1]
				if isStruct {
					for i := 0; i < s.NumFields(); i++ {
						td.ids[s.Field(i).Name()] = true
					}
				}
				if nt, ok := o.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						td.ids[nt.Method(i).Name()] = true
					}
				}
				if isStruct {
					for i := 0; i < s.NumFields(); i++ {
						if !s.Field(i).Embedded() {
							add("field", owner, s.Field(i), str(s.Field(i).Type()))
						}
					}
				}
				if nt, ok := o.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						m := nt.Method(i)
						sig := m.Type().(*types.Signature)
						ptr := ""
						if _, ok := sig.Recv().Type().(*types.Pointer); ok {
							ptr = "*"
						}
						add("method", owner, m, ptr+str(sig))
					}
				}
			}
		}
	}
	return out
}

func replaceWord(s, old, new string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, old)
		if i < 0 {
			break
		}
		j := i + len(old)
		if j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= 'a' && s[j] <= 'z') {
			b.WriteString(s[:j])
		} else {
			b.WriteString(s[:i] + new)
		}
		s = s[j:]
	}
	return b.String() + s
}

func (d *decl) line() string {
	var ids []string
	for i := range d.ids {
		ids = append(ids, i)
	}
	sort.Strings(ids)
	return strings.Join([]string{d.key, d.name, d.sig, strings.Join(ids, ",")}, "\t")
}

// generateNames prints the declarations of a tree.
func generateNames(pkgs []*packages.Package) {
	var l []string
	for _, d := range declarations(pkgs, nil) {
		l = append(l, d.line())
	}
	sort.Strings(l)
	fmt.Println(strings.Join(l, "\n"))
}

// renamings finds the declarations that have been renamed since the rules were written.
func renamings(pkgs []*packages.Package) map[types.Object]string {
	orig := map[string]*decl{}
	for _, s := range strings.Split(strings.Trim(origNames, "\n"), "\n") {
		f := strings.Split(s, "\t")
		if len(f) != 4 {
			fatalf("bad line in names.txt: %s", s)
		}
		d := &decl{key: f[0], name: f[1], sig: f[2], ids: map[string]bool{}}
		for _, i := range strings.Split(f[3], ",") {
			if i != "" {
				d.ids[i] = true
			}
		}
		orig[d.id()] = d
	}
	ren := map[types.Object]string{}
	// types first: the declarations that follow mention them
	for _, kinds := range []string{"type", "field method func var const"} {
		for round := 0; round < 2; round++ {
			now := declarations(pkgs, ren)
			have := map[string]bool{}
			for _, d := range now {
				have[d.id()] = true
			}
			missing, fresh := map[string][]*decl{}, map[string][]*decl{}
			in := func(d *decl) bool { return strings.Contains(kinds, strings.Split(d.key, "|")[1]) }
			for _, d := range orig {
				if in(d) && !have[d.id()] {
					missing[d.key+"|"+d.sig] = append(missing[d.key+"|"+d.sig], d)
				}
			}
			for _, d := range now {
				if in(d) && orig[d.id()] == nil {
					fresh[d.key+"|"+d.sig] = append(fresh[d.key+"|"+d.sig], d)
				}
			}
			for k, ms := range missing {
				sort.Slice(ms, func(i, j int) bool { return ms[i].name < ms[j].name })
				used := map[*decl]bool{}
				for _, m := range ms {
					var best *decl
					bestV, second := -1.0, -1.0
					for _, f := range fresh[k] {
						if used[f] || f.obj.Exported() && f.obj.Parent() == f.obj.Pkg().Scope() && token.IsExported(m.name) {
							continue // exported names are the interface
						}
						v := similarity(m, f)
						if v > bestV {
							best, bestV, second = f, v, bestV
						} else if v > second {
							second = v
						}
					}
					if best != nil && (second < 0 || bestV > second) && (len(m.ids) == 0 || bestV >= 0.3) {
						used[best] = true
						ren[best.obj] = m.name
					}
				}
			}
		}
	}
	return ren
}

func similarity(a, b *decl) float64 {
	n := 0
	for i := range a.ids {
		if b.ids[i] {
			n++
		}
	}
	u := len(a.ids) + len(b.ids) - n
	if u == 0 {
		return 1
	}
	return float64(n) / float64(u)
}

// overlay is the source with the renamed declarations under their original names.
func overlay(pkgs []*packages.Package, ren map[types.Object]string) map[string][]byte {
	out := map[string][]byte{}
	for _, p := range pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			continue
		}
		for _, f := range p.Syntax {
			type edit struct {
				off, n int
				name   string
			}
			var es []edit
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := p.TypesInfo.Uses[id]
				if o == nil {
					o = p.TypesInfo.Defs[id]
				}
				if nn, ok := ren[o]; ok && o != nil {
					es = append(es, edit{p.Fset.Position(id.Pos()).Offset, len(id.Name), nn})
				}
				return true
			})
			if len(es) == 0 {
				continue
			}
			name := p.Fset.File(f.Pos()).Name()
			src, err := os.ReadFile(name)
			if err != nil {
				fatalf("%v", err)
			}
			sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
			for _, e := range es {
				src = append(src[:e.off:e.off], append([]byte(e.name), src[e.off+e.n:]...)...)
			}
			out[name] = src
		}
	}
	return out
}
