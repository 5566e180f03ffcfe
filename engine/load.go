package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Incomplete bool
	Module     *struct{ GoVersion string }
	Error      *struct{ Err string }
}

type Program struct {
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package
	TPkgs map[string]*types.Package
	Std   map[string]bool
	Dir   map[string]string
}

// Load type-checks the packages named by patterns in module dir, with all
// their dependencies from source, and creates (unbuilt) SSA packages.
func Load(dir string, patterns []string) (*Program, error) {
	args := append([]string{"list", "-deps", "-json=ImportPath,Dir,GoFiles,Imports,ImportMap,Standard,Incomplete,Error,Module"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	var order []*listPkg
	dec := json.NewDecoder(out)
	for dec.More() {
		p := new(listPkg)
		if err := dec.Decode(p); err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		order = append(order, p)
	}
	if err := cmd.Wait(); err != nil {
		return nil, err
	}
	pr := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*types.Package{}, Std: map[string]bool{}, Dir: map[string]string{}}
	files := make([][]*ast.File, len(order))
	infos := make([]*types.Info, len(order))
	perr := make([]error, len(order))
	sem := make(chan bool, 8)
	done := make([]chan bool, len(order))
	idx := map[string]int{}
	for i, p := range order {
		done[i] = make(chan bool)
		idx[p.ImportPath] = i
		pr.Std[p.ImportPath] = p.Standard
		pr.Dir[p.ImportPath] = p.Dir
	}
	var mu sync.Mutex
	tp := make([]*types.Package, len(order))
	for i, p := range order {
		go func(i int, p *listPkg) {
			defer close(done[i])
			if p.ImportPath == "unsafe" {
				tp[i] = types.Unsafe
				return
			}
			sem <- true
			for _, f := range p.GoFiles {
				af, err := parser.ParseFile(pr.Fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
				if err != nil {
					perr[i] = err
					<-sem
					return
				}
				files[i] = append(files[i], af)
			}
			<-sem
			for _, im := range p.Imports {
				if m, ok := p.ImportMap[im]; ok {
					im = m
				}
				if j, ok := idx[im]; ok {
					<-done[j]
					if perr[j] != nil {
						perr[i] = perr[j]
						return
					}
				}
			}
			sem <- true
			defer func() { <-sem }()
			info := &types.Info{
				Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
				Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
				Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
			}
			conf := &types.Config{Sizes: types.SizesFor("gc", "amd64"), FakeImportC: true,
				Importer: impFunc(func(path string) (*types.Package, error) {
					if m, ok := p.ImportMap[path]; ok {
						path = m
					}
					if path == "unsafe" {
						return types.Unsafe, nil
					}
					j, ok := idx[path]
					if !ok {
						return nil, fmt.Errorf("no package %s", path)
					}
					return tp[j], nil
				}), Error: func(err error) {
					mu.Lock()
					if perr[i] == nil && !p.Standard {
						perr[i] = err
					}
					mu.Unlock()
				}}
			if p.Module != nil && p.Module.GoVersion != "" {
				conf.GoVersion = "go" + p.Module.GoVersion
			}
			tp[i], _ = conf.Check(p.ImportPath, pr.Fset, files[i], info)
			infos[i] = info
		}(i, p)
	}
	for i := range order {
		<-done[i]
		if perr[i] != nil {
			return nil, fmt.Errorf("%s: %v", order[i].ImportPath, perr[i])
		}
	}
	prog := ssa.NewProgram(pr.Fset, ssa.InstantiateGenerics)
	for i, p := range order {
		if tp[i] == nil {
			return nil, fmt.Errorf("package %s did not type-check", p.ImportPath)
		}
		if tp[i] == types.Unsafe {
			prog.CreatePackage(types.Unsafe, nil, nil, true)
			continue
		}
		pr.TPkgs[p.ImportPath] = tp[i]
		pr.Pkgs[p.ImportPath] = prog.CreatePackage(tp[i], files[i], infos[i], true)
	}
	pr.SSA = prog
	return pr, nil
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }
