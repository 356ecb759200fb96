package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/bytesparadise/libasciidoc"

// World is the analysed program.
type World struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // scope packages by path
	Scope []*packages.Package          // module packages reachable from the library and the command
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
	Funcs []*ssa.Function // all source functions (incl. anonymous) of the scope, sorted by position
	// number of functions that belong to the generated parser
	generated int
	inScope   map[*types.Package]bool
	genFiles  map[string]bool

	callees    map[ssa.CallInstruction][]*ssa.Function
	callers    map[*ssa.Function][]ssa.CallInstruction
	reachFrom  map[string]map[*ssa.Function]bool
	pt         *pta
	ptRoots    []*ptInst
	ptSettings []*ptInst
	tmpl       *tmplModel
	loans      map[string][]loan
	fstores    map[string][]ssa.Value
	files      map[string]*ast.File
	gram       *grammar
	contains   *containment
	touching   map[*ssa.Function]bool
	depths     map[string]bool // C19
	parsed     []parsedWith
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("GOFLAGS", "-mod=mod")
	set("GOPROXY", "off")
	set("GOSUMDB", "off")
	set("CGO_ENABLED", "0")
	set("GOTOOLCHAIN", "local")
	set("GOWORK", "off")
	return env
}

func loadWorld(repo string) (*World, error) {
	repo, err := filepath.Abs(repo)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile | packages.NeedDeps,
		Dir:   repo,
		Tests: false,
		Env:   goEnv(),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	all := map[string]*packages.Package{}
	for _, p := range pkgs {
		all[p.PkgPath] = p
	}
	// scope: import closure (within the module) of the library and the command
	w := &World{Repo: repo, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, inScope: map[*types.Package]bool{}, genFiles: map[string]bool{}, files: map[string]*ast.File{}}
	var visit func(path string) error
	visit = func(path string) error {
		p := all[path]
		if p == nil || w.Pkgs[path] != nil {
			return nil
		}
		for _, e := range p.Errors {
			return fmt.Errorf("%s: %v", path, e)
		}
		if p.Types == nil || len(p.Syntax) == 0 {
			return fmt.Errorf("%s: not type-checked", path)
		}
		w.Pkgs[path] = p
		var imps []string
		for i := range p.Imports {
			imps = append(imps, i)
		}
		sort.Strings(imps)
		for _, i := range imps {
			if err := visit(i); err != nil {
				return err
			}
		}
		return nil
	}
	for _, root := range []string{modulePath, modulePath + "/cmd/libasciidoc"} {
		if all[root] == nil {
			return nil, fmt.Errorf("package %s not found", root)
		}
		if err := visit(root); err != nil {
			return nil, err
		}
	}
	var paths []string
	for p := range w.Pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		w.Scope = append(w.Scope, w.Pkgs[p])
		w.inScope[w.Pkgs[p].Types] = true
	}
	w.Fset = pkgs[0].Fset
	for _, p := range w.Scope {
		for _, f := range p.Syntax {
			name := w.Fset.Position(f.Pos()).Filename
			w.files[name] = f
			if ast.IsGenerated(f) && strings.HasSuffix(name, "parser.go") {
				w.genFiles[name] = true
			}
		}
	}
	prog, spkgs := ssautil.Packages(w.Scope, ssa.InstantiateGenerics)
	w.Prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", w.Scope[i].PkgPath)
		}
		w.SSA[w.Scope[i].PkgPath] = sp
	}
	prog.Build()
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !w.inScope[fn.Pkg.Pkg] || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		w.Funcs = append(w.Funcs, fn)
	}
	sort.Slice(w.Funcs, func(i, j int) bool {
		a, b := w.Funcs[i], w.Funcs[j]
		if a.Pkg != b.Pkg {
			return a.Pkg.Pkg.Path() < b.Pkg.Pkg.Path()
		}
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, fn := range w.Funcs {
		if w.isGenerated(fn) {
			w.generated++
		}
	}
	return w, nil
}

func (w *World) isGenerated(fn *ssa.Function) bool {
	p := fn.Pos()
	if !p.IsValid() {
		return false
	}
	return w.genFiles[w.Fset.Position(p).Filename]
}

// pkgOf returns the path relative to the module ("" for the root package).
func relPkg(p *types.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modulePath), "/")
}

// fnName gives a stable name: package-relative, with receiver.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	n := fn.RelString(nil)
	n = strings.ReplaceAll(n, modulePath+"/", "")
	n = strings.ReplaceAll(n, modulePath, "libasciidoc")
	return n
}

// topFunc returns the outermost enclosing function.
func topFunc(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func (w *World) member(pkg, name string) ssa.Member {
	p := w.SSA[pkgPath(pkg)]
	if p == nil {
		return nil
	}
	return p.Members[name]
}

func pkgPath(rel string) string {
	if rel == "" {
		return modulePath
	}
	return modulePath + "/" + rel
}

// fn looks up a package-level function.
func (w *World) fn(pkg, name string) *ssa.Function {
	f, _ := w.member(pkg, name).(*ssa.Function)
	return f
}

// typ looks up a named type.
func (w *World) typ(pkg, name string) *types.Named {
	p := w.Pkgs[pkgPath(pkg)]
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func dumpThing(w *World, what string) {
	if what == "@ext" {
		dumpExternalCalls(w)
		return
	}
	for _, fn := range w.Funcs {
		if strings.Contains(fnName(fn), what) {
			fn.WriteTo(os.Stdout)
		}
	}
}

func dumpExternalCalls(w *World) {
	cnt := map[string]int{}
	forCalls(w.Funcs, func(fn *ssa.Function, c ssa.CallInstruction) {
		o := calleeObj(c.Common())
		if o == nil || o.Pkg() == nil {
			return
		}
		if w.inScope[o.Pkg()] {
			return
		}
		cnt[qname(o)]++
	})
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(cnt[k], k)
	}
}
