package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// repoDir is the tree that is analysed.
var repoDir = "/repo"

type Program struct {
	prog  *ssa.Program
	gost  *ssa.Package
	gokio *ssa.Package
	pkgs  []*packages.Package // of the repository
	errs  []string
}

// load type-checks the repository's current source together with the probe
// files (virtual files of the packages) and builds its SSA form. The bodies
// of other packages are not looked at.
func load(overlay map[string]string) (*Program, error) {
	ov := map[string][]byte{}
	for name, src := range overlay {
		ov[filepath.Join(repoDir, name)] = []byte(src)
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoDir,
		Fset:    fset,
		Overlay: ov,
		Env:     append(os.Environ(), "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off"),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			in := strings.HasPrefix(filename, repoDir+"/")
			mode := parser.SkipObjectResolution
			if in {
				mode |= parser.ParseComments
			}
			f, err := parser.ParseFile(fset, filename, src, mode)
			if f != nil && !in {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	os.Unsetenv("GOFLAGS")
	cfg.Env = append(cfg.Env, "GOFLAGS=")
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{}
	for _, pk := range pkgs {
		if !strings.HasPrefix(pk.PkgPath, "github.com/myyrakle/gost") {
			continue
		}
		p.pkgs = append(p.pkgs, pk)
		for _, e := range pk.Errors {
			p.errs = append(p.errs, e.Error())
		}
	}
	if len(p.errs) > 0 {
		return p, nil
	}
	if len(p.pkgs) == 0 {
		return nil, fmt.Errorf("no packages of the repository found")
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics|ssa.BareInits)
	_ = ssautil.AllFunctions
	created := map[*types.Package]bool{}
	var create func(pk *packages.Package)
	create = func(pk *packages.Package) {
		if pk == nil || pk.Types == nil || created[pk.Types] {
			return
		}
		created[pk.Types] = true
		for _, i := range pk.Imports {
			create(i)
		}
		if strings.HasPrefix(pk.PkgPath, "github.com/myyrakle/gost") {
			sp := prog.CreatePackage(pk.Types, pk.Syntax, pk.TypesInfo, true)
			switch {
			case strings.HasSuffix(pk.PkgPath, "/gokio"):
				p.gokio = sp
			case pk.PkgPath == "github.com/myyrakle/gost":
				p.gost = sp
			}
		} else {
			prog.CreatePackage(pk.Types, nil, nil, true)
		}
	}
	for _, pk := range pkgs {
		create(pk)
	}
	for _, sp := range []*ssa.Package{p.gost, p.gokio} {
		if sp != nil {
			sp.Build()
		}
	}
	p.prog = prog
	if p.gost == nil {
		return nil, fmt.Errorf("package gost not found")
	}
	return p, nil
}
