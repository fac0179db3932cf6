package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Harvey-OS/ninep"
const zz = modPath + "/zzverif"

// redirected maps an import of the code under test to its model package.
var redirected = map[string]string{"os": zz + "/vos", "time": zz + "/vtime"}

// Program is the loaded SSA program.
type Program struct {
	repo    string
	ssa     *ssa.Program
	byPath  map[string]*ssa.Package
	overlay map[string][]byte

	rtErrType    types.Type
	plainErrType types.Type
	user         map[*ssa.Package]bool
}

// buildOverlay computes the overlay: model packages, harnesses and the code
// under test with its os/time imports redirected. Nothing in /repo is touched.
func buildOverlay(repo, harness string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	if _, err := os.Stat(filepath.Join(repo, "go.mod")); err != nil {
		ov[filepath.Join(repo, "go.mod")] = []byte("module " + modPath + "\n\ngo 1.24\n")
	}
	err := filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harness, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, "zzverif", rel)] = b
		return nil
	})
	if err != nil {
		return nil, err
	}
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "cmd" || n == "zzverif" || n == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, changed := redirectImports(p, src)
		if changed {
			ov[p] = out
		}
		return nil
	})
	return ov, err
}

func redirectImports(name string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ImportsOnly|parser.ParseComments)
	if err != nil {
		return nil, false
	}
	type edit struct {
		off, end int
		text     string
	}
	var es []edit
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		to, ok := redirected[p]
		if !ok {
			continue
		}
		off := fset.Position(s.Path.Pos()).Offset
		txt := strconv.Quote(to)
		if s.Name == nil {
			txt = p + " " + txt
		}
		es = append(es, edit{off, off + len(s.Path.Value), txt})
	}
	if len(es) == 0 {
		return nil, false
	}
	sort.Slice(es, func(i, j int) bool { return es[i].off > es[j].off })
	out := append([]byte(nil), src...)
	for _, e := range es {
		out = append(out[:e.off:e.off], append([]byte(e.text), out[e.end:]...)...)
	}
	return out, true
}

func goEnv() []string {
	return append(os.Environ(), "GOPROXY=off", "GOWORK=off", "GO111MODULE=on", "GOFLAGS=", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

func Load(repo, harness string, pkgs []string) (*Program, error) {
	ov, err := buildOverlay(repo, harness)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: ov,
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, zz+"/"+p)
	}
	pats = append(pats, "runtime")
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{repo: repo, ssa: prog, byPath: map[string]*ssa.Package{}, overlay: ov, user: map[*ssa.Package]bool{}}
	for _, sp := range prog.AllPackages() {
		p.byPath[sp.Pkg.Path()] = sp
		p.user[sp] = strings.HasPrefix(sp.Pkg.Path(), modPath)
	}
	if rt := p.byPath["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			p.rtErrType = t.Type()
		}
		if t := rt.Type("plainError"); t != nil {
			p.plainErrType = t.Type()
		}
	}
	return p, nil
}

func (p *Program) ensureBuilt(fn *ssa.Function) {}

func (p *Program) isUser(sp *ssa.Package) bool { return p.user[sp] }

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return p.ssa.LookupMethod(t, m.Pkg(), m.Name())
}

func (p *Program) stdFunc(pkg, name string) *ssa.Function {
	sp := p.byPath[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) stdType(pkg, name string) types.Type {
	sp := p.byPath[pkg]
	if sp == nil {
		return nil
	}
	if t := sp.Type(name); t != nil {
		return t.Type()
	}
	return nil
}

// standIn finds what replaces a function of os when the library calls it (the
// code under test has its imports replaced).
func (p *Program) standIn(fn *ssa.Function) *ssa.Function {
	vos := p.byPath[zz+"/vos"]
	if vos == nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != "os" || fn.Parent() != nil || fn.Name() == "init" {
		return nil
	}
	recv := fn.Signature.Recv()
	if recv == nil {
		return vos.Func(fn.Name())
	}
	pt, ok := recv.Type().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || vos.Type(n.Obj().Name()) == nil {
		return nil
	}
	if types.Identical(vos.Type(n.Obj().Name()).Type(), n) {
		return nil // an alias
	}
	ms := p.ssa.MethodSets.MethodSet(types.NewPointer(vos.Type(n.Obj().Name()).Type()))
	if sel := ms.Lookup(vos.Pkg, fn.Name()); sel != nil {
		return p.ssa.MethodValue(sel)
	}
	return nil
}

// harnesses lists the exported harness functions of a package.
func (p *Program) harnesses(pkg string) []*ssa.Function {
	sp := p.byPath[zz+"/"+pkg]
	if sp == nil {
		return nil
	}
	var out []*ssa.Function
	for _, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && ast.IsExported(f.Name()) && strings.Contains(f.Name(), "_") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// writeOverlay materialises the overlay for the go command.
func writeOverlay(ov map[string][]byte, dir string) (string, error) {
	rep := map[string]string{}
	i := 0
	keys := make([]string, 0, len(ov))
	for k := range ov {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := filepath.Join(dir, fmt.Sprintf("f%03d_%s", i, filepath.Base(k)))
		i++
		if err := os.WriteFile(f, ov[k], 0644); err != nil {
			return "", err
		}
		rep[k] = f
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, j, 0644)
}
