// rewrite copies the non-test packages of a Go module, instrumented for the simulator.
//
//	rewrite -src /repo -out DIR -sites FILE
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var shims = map[string]string{
	"time": "simrt/time", "net": "simrt/net", "sync": "simrt/sync", "sync/atomic": "simrt/atomic",
	"math/rand": "simrt/rand", "runtime": "simrt/runtime", "context": "simrt/context",
}

// imports through which code could wait or act outside the simulator
var refuse = map[string]bool{"net/http": true, "os/signal": true, "os/exec": true, "testing/synctest": true}

var (
	fset      = token.NewFileSet()
	modPath   string
	sites     []string
	packages  = map[string]*pkg{}
	writtenGl = map[types.Object]bool{}
)

type pkg struct {
	path, dir, rel string
	files          []*ast.File
	names          []string
	types          *types.Package
	info           *types.Info
	state          int
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	sitesFile := flag.String("sites", "", "file for the site table (Go source, package main)")
	flag.Parse()
	gm, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(gm), "\n") {
		if f := strings.Fields(l); len(f) >= 2 && f[0] == "module" {
			modPath = f[1]
		}
	}
	load(*src)
	imports := map[string]bool{}
	for _, p := range packages {
		for _, f := range p.files {
			for _, im := range f.Imports {
				ip := strings.Trim(im.Path.Value, "\"")
				if refuse[ip] {
					fatal("%s imports %s, which the simulator does not model", p.path, ip)
				}
				if _, ok := packages[ip]; !ok && ip != "unsafe" {
					imports[ip] = true
				}
			}
		}
	}
	exports := exportData(imports)
	imp := &chain{gc: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})}
	var paths []string
	for k := range packages {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		check(packages[k], imp)
	}
	for _, k := range paths {
		findWritten(packages[k])
	}
	for _, k := range paths {
		emit(packages[k], *out)
	}
	if err := os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module "+modPath+"\n\ngo 1.21\n\nrequire simrt v0.0.0\n\nreplace simrt => ../rt\n"), 0o644); err != nil {
		fatal("%v", err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package main\n\nimport (\n\t\"simrt/simrt\"\n")
	for i, k := range paths {
		fmt.Fprintf(&b, "\tp%d %q\n", i, k)
	}
	fmt.Fprintf(&b, ")\n\nfunc init() { simrt.SiteNames = siteNames }\n\nfunc resetGlobals() {\n")
	for _, k := range topo(paths) {
		for i, q := range paths {
			if q == k {
				fmt.Fprintf(&b, "\tp%d.%s()\n", i, resetName(q))
			}
		}
	}
	fmt.Fprintf(&b, "}\n\n// libraryVars gives pointers to the package-level variables of the library.\nfunc libraryVars() (l []interface{}) {\n")
	for i, q := range paths {
		fmt.Fprintf(&b, "\tl = append(l, p%d.%s()...)\n", i, varsName(q))
	}
	fmt.Fprintf(&b, "\treturn\n}\n\nvar siteNames = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	fmt.Fprintf(&b, "}\n")
	if err := os.WriteFile(*sitesFile, b.Bytes(), 0o644); err != nil {
		fatal("%v", err)
	}
}

func varsName(path string) string { return strings.Replace(resetName(path), "SimReset_", "SimVars_", 1) }

// resetName is unique per package (packages may be dot-imported).
func resetName(path string) string {
	b := []byte("SimReset_" + path)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			b[i] = '_'
		}
	}
	return string(b)
}

func topo(paths []string) []string {
	var out []string
	seen := map[string]bool{}
	var visit func(string)
	visit = func(k string) {
		if seen[k] {
			return
		}
		seen[k] = true
		for _, im := range packages[k].types.Imports() {
			if packages[im.Path()] != nil {
				visit(im.Path())
			}
		}
		out = append(out, k)
	}
	for _, k := range paths {
		visit(k)
	}
	return out
}

func load(src string) {
	ctx := build.Default
	ctx.CgoEnabled = false
	filepath.Walk(src, func(path string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		b := filepath.Base(path)
		if path != src && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "examples") {
			return filepath.SkipDir
		}
		ents, _ := os.ReadDir(path)
		rel, _ := filepath.Rel(src, path)
		ip := modPath
		if rel != "." {
			ip = modPath + "/" + filepath.ToSlash(rel)
		}
		p := &pkg{path: ip, dir: path, rel: rel}
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, _ := ctx.MatchFile(path, n); !ok {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(path, n), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			if f.Name.Name == "main" {
				continue
			}
			p.files = append(p.files, f)
			p.names = append(p.names, n)
		}
		if len(p.files) > 0 {
			packages[ip] = p
		}
		return nil
	})
}

func exportData(imports map[string]bool) map[string]string {
	var l []string
	for k := range imports {
		l = append(l, k)
	}
	sort.Strings(l)
	res := map[string]string{}
	if len(l) == 0 {
		return res
	}
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Export"}, l...)...)
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0")
	cmd.Dir = os.TempDir()
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	d := json.NewDecoder(bytes.NewReader(o))
	for {
		var e struct{ ImportPath, Export string }
		if d.Decode(&e) != nil {
			break
		}
		res[e.ImportPath] = e.Export
	}
	return res
}

type chain struct{ gc types.Importer }

func (c *chain) Import(path string) (*types.Package, error) {
	if p := packages[path]; p != nil {
		check(p, c)
		return p.types, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return c.gc.Import(path)
}

func check(p *pkg, imp types.Importer) {
	if p.state == 2 {
		return
	}
	if p.state == 1 {
		fatal("import cycle at %s", p.path)
	}
	p.state = 1
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, err) }}
	t, err := conf.Check(p.path, fset, p.files, p.info)
	if err != nil {
		fatal("type check of %s failed: %v", p.path, err)
	}
	p.types = t
	p.state = 2
}

// findWritten records package-level variables that are assigned or have their address taken.
func findWritten(p *pkg) {
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok {
					if _, isPkg := p.info.Uses[id].(*types.PkgName); isPkg {
						writtenGl[p.info.Uses[x.Sel]] = true
						return
					}
				}
				e = x.X
				continue
			case *ast.Ident:
				if o := p.info.Uses[x]; o != nil {
					writtenGl[o] = true
				}
			}
			return
		}
	}
	for _, f := range p.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					for _, l := range x.Lhs {
						mark(l)
					}
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					if x.Key != nil {
						mark(x.Key)
					}
					if x.Value != nil {
						mark(x.Value)
					}
				}
			}
			return true
		})
	}
}

func emit(p *pkg, out string) {
	dir := filepath.Join(out, p.rel)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fatal("%v", err)
	}
	// package-level initialisation
	type vinit struct {
		lhs []string
		rhs ast.Expr
	}
	var zero []string
	byVar := map[types.Object]*ast.ValueSpec{}
	for _, f := range p.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					if len(vs.Values) == 0 {
						zero = append(zero, n.Name)
					}
					byVar[p.info.Defs[n]] = vs
				}
			}
		}
	}
	ninit := 0
	w := &rw{p: p, info: p.info}
	initOrder := p.info.InitOrder
	for _, f := range p.files {
		w.file(f)
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				ninit++
				fd.Name = ast.NewIdent(fmt.Sprintf("simInit%d", ninit))
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport \"simrt/simrt\"\n\nvar _ = simrt.Y\n\n// %[2]s restores the package state of a fresh process.\nfunc %[2]s() {\n", p.types.Name(), resetName(p.types.Path()))
	for _, z := range zero {
		fmt.Fprintf(&b, "\tsimrt.Zero(&%s)\n", z)
	}
	// The initialisers go into the file that declares them (imports!): one function per variable.
	type add struct {
		name string
		spec *ast.ValueSpec
	}
	done := map[*ast.ValueSpec]bool{}
	k := 0
	var calls []string
	fileOf := func(vs *ast.ValueSpec) *ast.File {
		for _, f := range p.files {
			for _, d := range f.Decls {
				if gd, ok := d.(*ast.GenDecl); ok {
					for _, s := range gd.Specs {
						if s == vs {
							return f
						}
					}
				}
			}
		}
		return nil
	}
	for _, in := range initOrder {
		if len(in.Lhs) == 0 {
			continue
		}
		vs := byVar[in.Lhs[0]]
		if vs == nil {
			continue
		}
		if len(vs.Values) == 1 && len(vs.Names) > 1 {
			if done[vs] {
				continue
			}
			done[vs] = true
		}
		k++
		fn := fmt.Sprintf("simVar%d", k)
		var lhs []ast.Expr
		var rhs ast.Expr
		if len(vs.Values) == len(vs.Names) {
			for i, n := range vs.Names {
				if p.info.Defs[n] == in.Lhs[0] {
					lhs = append(lhs, ast.NewIdent(n.Name))
					rhs = vs.Values[i]
				}
			}
		} else {
			for _, n := range vs.Names {
				lhs = append(lhs, ast.NewIdent(n.Name))
			}
			rhs = vs.Values[0]
		}
		f := fileOf(vs)
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}}})
		calls = append(calls, fn)
	}
	for _, c := range calls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	for i := 1; i <= ninit; i++ {
		fmt.Fprintf(&b, "\tsimInit%d()\n", i)
	}
	fmt.Fprintf(&b, "}\n")
	fmt.Fprintf(&b, "\nfunc %s() []interface{} {\n\treturn []interface{}{\n", varsName(p.types.Path()))
	for _, f := range p.files {
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
				for _, s := range gd.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							fmt.Fprintf(&b, "\t\t&%s,\n", n.Name)
						}
					}
				}
			}
		}
	}
	fmt.Fprintf(&b, "\t}\n}\n")
	if ninit > 0 {
		fmt.Fprintf(&b, "\nfunc init() {\n")
		for i := 1; i <= ninit; i++ {
			fmt.Fprintf(&b, "\tsimInit%d()\n", i)
		}
		fmt.Fprintf(&b, "}\n")
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_simreset.go"), b.Bytes(), 0o644); err != nil {
		fatal("%v", err)
	}
	for i, f := range p.files {
		// imports
		for _, im := range f.Imports {
			ip := strings.Trim(im.Path.Value, "\"")
			if s, ok := shims[ip]; ok {
				im.Path = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", s)}
				im.EndPos = 0
			}
		}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: "\"simrt/simrt\""}}}}}, f.Decls...)
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel("Y")}}}})
		f.Comments = nil
		var o bytes.Buffer
		if err := format.Node(&o, token.NewFileSet(), f); err != nil {
			fatal("printing %s: %v", p.names[i], err)
		}
		if err := os.WriteFile(filepath.Join(dir, p.names[i]), o.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
}
