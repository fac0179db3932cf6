package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

var pureOS = map[string]bool{"IsExist": true, "IsNotExist": true, "IsPermission": true, "IsTimeout": true, "IsPathSeparator": true,
	"NewSyscallError": true, "Exit": true}

// genMirror prints a package re-exporting std package path, leaving out the
// names already declared in dir.
func genMirror(path, pkgName, dir string) string {
	fset := token.NewFileSet()
	have := map[string]bool{}
	ps, _ := parser.ParseDir(fset, dir, nil, 0)
	for _, p := range ps {
		for fn, f := range p.Files {
			if strings.Contains(fn, "zz_mirror") {
				continue
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	imports := map[string]bool{}
	qual := func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		imports[p.Path()] = true
		return p.Name()
	}
	var body strings.Builder
	names := pkg.Scope().Names()
	sort.Strings(names)
	fsErr := map[string]bool{"ErrInvalid": true, "ErrPermission": true, "ErrExist": true, "ErrNotExist": true, "ErrClosed": true}
	usesStd := false
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			usesStd = true
			fmt.Fprintf(&body, "const %s = std.%s\n", n, n)
		case *types.TypeName:
			usesStd = true
			fmt.Fprintf(&body, "type %s = std.%s\n", n, n)
		case *types.Var:
			if path == "os" {
				if fsErr[n] {
					imports["io/fs"] = true
					fmt.Fprintf(&body, "var %s = fs.%s\n", n, n)
				}
				continue
			}
			usesStd = true
			fmt.Fprintf(&body, "var %s = std.%s\n", n, n)
		case *types.Func:
			sig := o.Type().(*types.Signature)
			if sig.TypeParams().Len() > 0 {
				continue
			}
			if path != "os" || pureOS[n] {
				usesStd = true
				fmt.Fprintf(&body, "var %s = std.%s\n", n, n)
				continue
			}
			var ps, rs []string
			for i := 0; i < sig.Params().Len(); i++ {
				t := types.TypeString(sig.Params().At(i).Type(), qual)
				if sig.Variadic() && i == sig.Params().Len()-1 {
					t = "..." + strings.TrimPrefix(t, "[]")
				}
				ps = append(ps, fmt.Sprintf("_ %s", t))
			}
			for i := 0; i < sig.Results().Len(); i++ {
				rs = append(rs, fmt.Sprintf("r%d %s", i, types.TypeString(sig.Results().At(i).Type(), qual)))
			}
			fmt.Fprintf(&body, "func %s(%s) (%s) { vnd.Unsupported(\"os.%s\"); return }\n", n, strings.Join(ps, ", "), strings.Join(rs, ", "), n)
		}
	}
	var out strings.Builder
	fmt.Fprintf(&out, "// Code generated by the engine (vengine -mirror %s). DO NOT EDIT.\n\npackage %s\n\nimport (\n", path, pkgName)
	if usesStd {
		fmt.Fprintf(&out, "\tstd %q\n", path)
	}
	if strings.Contains(body.String(), "vnd.") {
		fmt.Fprintf(&out, "\n\t%q\n", zz+"/vnd")
	}
	var im []string
	for i := range imports {
		im = append(im, i)
	}
	sort.Strings(im)
	for _, i := range im {
		fmt.Fprintf(&out, "\t%q\n", i)
	}
	out.WriteString(")\n\n")
	out.WriteString(body.String())
	return out.String()
}
