// Command xform rewrites the packages of a Go module so that every
// synchronisation operation, goroutine, channel and shared memory access goes
// through the model checker runtime in zz_verif/mc.
//
//	xform -src DIR -out DIR [-nomem] [-scale]
//
// DIR holds a complete module; the rewritten packages are written to the same
// relative paths below -out.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	Module     *struct{ Path, Dir string }
}

var (
	flagSrc   = flag.String("src", "", "source module directory")
	flagOut   = flag.String("out", "", "output module directory")
	flagNoMem = flag.Bool("nomem", false, "do not instrument plain memory accesses")
	flagScale = flag.Bool("scale", false, "scale the size thresholds of psort down")
	flagRT    = flag.String("rt", "github.com/intel/forGoParallel/zz_verif", "import path of the runtime")
	flagSkip  = flag.String("skip", "", "comma separated import paths to leave out")
	flagPkgs  = flag.String("pkgs", "./...", "packages to rewrite")
	flagStd   = flag.Bool("std", false, "rewrite standard packages (transformer self test)")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "xform: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,Imports,Module"}, strings.Fields(*flagPkgs)...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *flagSrc
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []*listPkg
	byPath := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		pkgs = append(pkgs, p)
		byPath[p.ImportPath] = p
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	skip := map[string]bool{}
	for _, s := range strings.Split(*flagSkip, ",") {
		skip[s] = true
	}
	done := map[string]*types.Package{}
	imp := importFunc(func(path string) (*types.Package, error) {
		if p := done[path]; p != nil {
			return p, nil
		}
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		return gc.Import(path)
	})
	loadShims()
	want := map[string]bool{}
	if *flagStd {
		for _, s := range strings.Fields(*flagPkgs) {
			want[s] = true
		}
	}
	for _, lp := range pkgs {
		if *flagStd {
			if !want[lp.ImportPath] {
				continue
			}
		} else if lp.Standard || lp.Module == nil {
			continue
		}
		var files []*ast.File
		for _, f := range lp.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, a)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Implicits:  map[ast.Node]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances:  map[*ast.Ident]types.Instance{},
			Scopes:     map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(lp.ImportPath, fset, files, info)
		if err != nil {
			die("type check %s: %v", lp.ImportPath, err)
		}
		if !*flagStd {
			done[lp.ImportPath] = tp
		}
		if skip[lp.ImportPath] {
			continue
		}
		rel := lp.ImportPath
		root := *flagSrc
		if lp.Module != nil && !*flagStd {
			rel = strings.TrimPrefix(strings.TrimPrefix(lp.ImportPath, lp.Module.Path), "/")
			root = lp.Module.Dir
		}
		g := &gen{
			fset: fset, info: info, pkg: tp, files: files, root: root,
			harness: strings.HasPrefix(lp.ImportPath, *flagRT+"/"),
			mem:     !*flagNoMem,
		}
		if *flagScale && strings.HasSuffix(lp.ImportPath, "/psort") {
			g.scale = true
		}
		g.analyse()
		dir := filepath.Join(*flagOut, rel)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			die("%v", err)
		}
		for i, f := range files {
			src := g.file(f)
			name := lp.GoFiles[i]
			if err := os.WriteFile(filepath.Join(dir, name), []byte(src), 0o644); err != nil {
				die("%v", err)
			}
		}
		if !g.harness {
			if err := os.WriteFile(filepath.Join(dir, "zz_reset.go"), []byte(g.resetFile()), 0o644); err != nil {
				die("%v", err)
			}
		}
	}
}

type importFunc func(string) (*types.Package, error)

func (f importFunc) Import(path string) (*types.Package, error) { return f(path) }

// shims maps a redirected import path to the names the shim exports.
var shims = map[string]map[string]bool{}

var shimDirs = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "context": "context", "runtime": "runtime", "time": "time",
}

func loadShims() {
	rt := filepath.Join(*flagOut, "zz_verif")
	for path, d := range shimDirs {
		names := map[string]bool{}
		fs := token.NewFileSet()
		ents, err := os.ReadDir(filepath.Join(rt, d))
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			f, err := parser.ParseFile(fs, filepath.Join(rt, d, e.Name()), nil, 0)
			if err != nil {
				die("%v", err)
			}
			for _, decl := range f.Decls {
				switch decl := decl.(type) {
				case *ast.FuncDecl:
					if decl.Recv == nil {
						names[decl.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range decl.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							names[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								names[n.Name] = true
							}
						}
					}
				}
			}
		}
		shims[path] = names
	}
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
