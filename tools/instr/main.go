// instr builds the simulation overlay for /repo.
//
// It reads the current non-test sources of every instrumented package of the
// module, writes rewritten copies in which every source of nondeterminism goes
// through the simulator (zzsim), and emits an overlay.json for
// `go build -overlay`.  /repo itself is never modified.
//
// usage: instr -repo /repo -sim /verif/sim -out SCRATCH
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/r3volut1oner/go-karbo"

// instrumentation level of each package, by path relative to the module
const (
	lvlFull = 2 // yield before every statement
	lvlLoop = 1 // yield at function entry and loop heads only
	lvlNone = 0 // imports only
)

func levelOf(rel string) (int, bool) {
	switch rel {
	case "p2p", "cryptonote", "config":
		return lvlFull, true
	case "utils", "encoding/binary", "crypto":
		return lvlLoop, true
	case "crypto/edwards25519", "crypto/base58":
		return lvlNone, true
	case "cmd", "":
		return 0, false
	}
	// a package added later: treat it as core code
	return lvlFull, true
}

var shimmed = map[string]bool{
	"sync": true, "time": true, "net": true, "math/rand": true, "crypto/rand": true,
	"context": true, "os": true, "io/ioutil": true, "math/rand/v2": true, "sync/atomic": false,
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	sim := flag.String("sim", "/verif/sim", "")
	out := flag.String("out", "", "")
	flag.Parse()
	if *out == "" {
		die("-out required")
	}

	pkgs := goList(*repo, "./...")
	byPath := map[string]*listPkg{}
	for _, p := range pkgs {
		byPath[p.ImportPath] = p
	}

	overlay := map[string]string{}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	})

	usedShims := map[string]bool{}
	var feat = map[string]*types.Package{}

	for _, p := range pkgs {
		if p.Standard || p.Module == nil || p.Module.Path != modPath {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		lvl, ok := levelOf(rel)
		if !ok {
			continue
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		var files []*ast.File
		var names []string
		fl := append(append([]string{}, p.GoFiles...), p.CgoFiles...)
		sort.Strings(fl)
		for _, f := range fl {
			full := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, full, nil, 0)
			if err != nil {
				die("parse: %v", err)
			}
			files = append(files, af)
			names = append(names, full)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: imp, FakeImportC: true, Error: func(error) {}, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			die("typecheck %s: %v", p.ImportPath, err)
		}
		feat[rel] = tp
		for i, af := range files {
			in := &instr{fset: fset, info: info, level: lvl, file: af, pkg: tp, sizes: conf.Sizes}
			in.rewriteFile(usedShims)
			var buf bytes.Buffer
			buf.WriteString("//go:build go1.21\n\n")
			if err := (&printer.Config{Mode: printer.TabIndent | printer.UseSpaces, Tabwidth: 4}).Fprint(&buf, fset, af); err != nil {
				die("print %s: %v", names[i], err)
			}
			r, _ := filepath.Rel(*repo, names[i])
			dst := filepath.Join(*out, "src", r)
			write(dst, buf.Bytes())
			overlay[names[i]] = dst
		}
	}

	// simulator runtime and harness
	addTree := func(src, under string) {
		_ = filepath.Walk(src, func(path string, fi os.FileInfo, err error) error {
			if err != nil {
				die("%v", err)
			}
			if fi.IsDir() || !strings.HasSuffix(path, ".go") {
				return nil
			}
			r, _ := filepath.Rel(src, path)
			overlay[filepath.Join(*repo, under, r)] = path
			return nil
		})
	}
	addTree(filepath.Join(*sim, "zzsim"), "zzsim")
	addTree(filepath.Join(*sim, "zzverif"), "zzverif")
	addTree(filepath.Join(*sim, "shim"), "zzsim/shim")

	// aliases for the rest of each shimmed package
	for path := range usedShims {
		tp, err := imp.Import(path)
		if err != nil {
			die("import %s: %v", path, err)
		}
		genAliases(*sim, *out, *repo, path, tp, overlay)
	}
	// shims import each other's real packages only, but the harness may use any
	genExports(*sim, *out, *repo, feat, overlay)

	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	write(filepath.Join(*out, "overlay.json"), b)
}

func goList(repo string, pat ...string) []*listPkg {
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Imports,Standard,Module,Error"}, pat...)
	// make sure every shimmed package has export data, whatever the repo imports
	for s, on := range shimmed {
		if on {
			args = append(args, s)
		}
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	outp, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(outp))
	var res []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list decode: %v", err)
		}
		res = append(res, &p)
	}
	return res
}

func write(path string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, b, 0644); err != nil {
		die("%v", err)
	}
}

// genAliases emits, for a shimmed std package, an alias for every exported name
// the hand-written shim does not define.
func genAliases(sim, out, repo, path string, tp *types.Package, overlay map[string]string) {
	dir := filepath.Join(sim, "shim", path)
	fs := token.NewFileSet()
	defined := map[string]bool{}
	pkgName := tp.Name()
	m, err := parser.ParseDir(fs, dir, nil, 0)
	if err != nil {
		die("shim %s: %v", path, err)
	}
	for n, p := range m {
		pkgName = n
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						defined[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							defined[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, id := range s.Names {
								defined[id.Name] = true
							}
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\nimport real %q\n\nvar _ = real.%s\n", pkgName, path, anyValue(tp))
	sc := tp.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() || defined[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			if nm, ok := o.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
		}
	}
	dst := filepath.Join(out, "shim", path, "zz_alias.go")
	write(dst, b.Bytes())
	overlay[filepath.Join(repo, "zzsim/shim", path, "zz_alias.go")] = dst
}

func anyValue(tp *types.Package) string {
	sc := tp.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() == 0 {
				return n
			}
		case *types.Var:
			return n
		}
	}
	return "nil"
}
