package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/avast/apkverifier"
const apkparserPath = "github.com/avast/apkparser"

// World is the loaded, type-checked and SSA-built program.
type World struct {
	Repo    string
	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package // by import path; repo packages and apkparser have bodies
	RepoPkg []*ssa.Package
	Funcs   []*ssa.Function // all source functions of repo packages, including anonymous ones and methods
	Files   int
	Renamed []string // declarations analysed under the names they had when the rules were written
	tmp     string
	mods    *ModSets
}

func loadWorld(repo string) *World {
	w := &World{Repo: repo, Pkgs: map[string]*ssa.Package{}}
	tmp, err := os.MkdirTemp("", "vchk")
	if err != nil {
		fatalf("mktemp: %v", err)
	}
	w.tmp = tmp
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			fatalf("cannot read %s of the repository: %v", f, err)
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			fatalf("%v", err)
		}
	}
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "CGO_ENABLED", "GOOS", "GOARCH", "GO111MODULE", "GOEXPERIMENT":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GO111MODULE=on")
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		BuildFlags: []string{"-modfile=" + filepath.Join(tmp, "go.mod")},
		Tests:      false,
	}
	load := func() (pkgs []*packages.Package, errs []string) {
		pkgs, err := packages.Load(cfg, "./...", apkparserPath)
		if err != nil {
			fatalf("loading packages: %v", err)
		}
		if len(pkgs) == 0 {
			fatalf("no packages found in %s", repo)
		}
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if strings.HasPrefix(p.PkgPath, modPath) || p.PkgPath == apkparserPath {
				for _, e := range p.Errors {
					errs = append(errs, e.Error())
				}
			}
		})
		return pkgs, errs
	}
	pkgs, errs := load()
	if len(errs) == 0 && printNames {
		generateNames(pkgs)
		os.Exit(0)
	}
	if len(errs) == 0 {
		if ren := renamings(pkgs); len(ren) > 0 {
			cfg.Overlay = overlay(pkgs, ren)
			p2, e2 := load()
			if len(e2) == 0 {
				pkgs = p2
				for o, n := range ren {
					w.Renamed = append(w.Renamed, o.Name()+" (analysed as "+n+")")
				}
				sort.Strings(w.Renamed)
			}
		}
	}
	if len(errs) > 0 {
		fatalf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog := ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics)
	created := map[*types.Package]*ssa.Package{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if p.Types == nil || p.IllTyped && (strings.HasPrefix(p.PkgPath, modPath)) {
			return
		}
		inRepo := strings.HasPrefix(p.PkgPath, modPath) || p.PkgPath == apkparserPath
		files := p.Syntax
		var sp *ssa.Package
		if inRepo || p.PkgPath == "slices" {
			sp = prog.CreatePackage(p.Types, files, p.TypesInfo, true)
		} else {
			sp = prog.CreatePackage(p.Types, nil, nil, true)
		}
		created[p.Types] = sp
		w.Pkgs[p.PkgPath] = sp
		if strings.HasPrefix(p.PkgPath, modPath) {
			w.RepoPkg = append(w.RepoPkg, sp)
			w.Files += len(p.Syntax)
		}
	})
	sort.Slice(w.RepoPkg, func(i, j int) bool { return w.RepoPkg[i].Pkg.Path() < w.RepoPkg[j].Pkg.Path() })
	for _, sp := range created {
		p := sp.Pkg.Path()
		if strings.HasPrefix(p, modPath) || p == apkparserPath || p == "slices" {
			sp.Build()
		}
	}
	w.Prog = prog
	w.collectFuncs()
	return w
}

func (w *World) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || isGeneric(f) {
			return
		}
		seen[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					// instances of our own generic functions
					if g, ok := (*op).(*ssa.Function); ok && g.Origin() != nil && w.isRepoFunc(g) {
						add(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range w.RepoPkg {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := w.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := w.Prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == sp && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
}

// fn finds an exported (anchor) function; nil if it is missing.
func (w *World) fn(pkg, name string) *ssa.Function {
	sp := w.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (w *World) method(pkg, typ, name string) *ssa.Function {
	sp := w.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(typ)
	if t == nil {
		return nil
	}
	for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		if sel := w.Prog.MethodSets.MethodSet(ty).Lookup(sp.Pkg, name); sel != nil {
			return w.Prog.MethodValue(sel)
		}
	}
	return nil
}

func (w *World) isRepoFunc(f *ssa.Function) bool { return strings.HasPrefix(pkgPath(f), modPath) }

// pkgPath: the package of a function or, for an instance, of the generic function.
func pkgPath(f *ssa.Function) string {
	for f.Pkg == nil && f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil && f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}

// isGeneric: the function has type parameters that are not bound.
func isGeneric(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		if len(f.TypeArgs()) == 0 && (f.TypeParams().Len() > 0 || f.Signature.RecvTypeParams().Len() > 0) {
			return true
		}
	}
	return false
}

func (w *World) pos(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return w.posOf(f, f.Pos())
}

func (w *World) posOf(f *ssa.Function, p token.Pos) string {
	if !p.IsValid() {
		p = f.Pos()
	}
	q := w.Prog.Fset.Position(p)
	n, err := filepath.Rel(w.Repo, q.Filename)
	if err != nil {
		n = q.Filename
	}
	return fmt.Sprintf("%s:%d", n, q.Line)
}

// constInt: the value of an integer constant of a package.
func (w *World) constInt(pkg, name string) (int64, bool) {
	sp := w.Pkgs[pkg]
	if sp == nil {
		return 0, false
	}
	if c, ok := sp.Members[name].(*ssa.NamedConst); ok {
		return c.Value.Int64(), true
	}
	return 0, false
}

// globType: the type of a package-level variable.
func (w *World) globType(pkg, name string) types.Type {
	sp := w.Pkgs[pkg]
	if sp != nil {
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			return deref(g.Type())
		}
	}
	fatalf("variable %s.%s not found", pkg, name)
	return nil
}
