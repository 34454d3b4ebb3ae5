// Command rewriter copies the non-test packages of the module under test into a
// build directory, rewriting every source of nondeterminism so that it goes
// through the deterministic simulator runtime (package zzdst):
//
//   - go statements, channels, select, sync, sync/atomic, time, runtime,
//     context and math/rand are replaced by simulated counterparts;
//   - map iteration order becomes deterministic;
//   - every access to memory that several goroutines could share (fields through
//     pointers, slice elements, maps, captured and package variables) becomes a
//     scheduling point and is checked by the happens-before race detector.
//
// It works from the type-checked program, so it follows whatever the code in the
// tree does; it knows nothing about distclus.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
	DepOnly    bool
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewriter: "+f+"\n", a...)
	os.Exit(2)
}

var shimmed = map[string]string{
	"sync":         "zsync",
	"sync/atomic":  "zatomic",
	"time":         "ztime",
	"runtime":      "zruntime",
	"context":      "zcontext",
	"math/rand":    "zrand",
	"math/rand/v2": "zrandv2",
	"crypto/rand":  "zcryptorand",
	"hash/maphash": "zmaphash",
}

func main() {
	var repo, out string
	flag.StringVar(&repo, "repo", "/repo", "module under test")
	flag.StringVar(&out, "out", "", "build directory")
	tests := flag.Bool("tests", false, "keep the packages that use testing, with a stand-in")
	flag.Parse()
	if *tests {
		shimmed["testing"] = "ztesting"
	}
	if out == "" {
		die("-out required")
	}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,Imports,Module,Error,DepOnly", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pkgs = append(pkgs, p)
	}
	var modPath string
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.DepOnly && p.Module != nil && modPath == "" {
			modPath = p.Module.Path
		}
	}
	if modPath == "" {
		die("no module found in %s", repo)
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	r := &rewriter{fset: fset, modPath: modPath, repo: repo, done: map[string]*types.Package{}, gc: gc, mutable: map[*types.Var]bool{}}
	skipped := map[string]bool{}
	type unit struct {
		lp    *listPkg
		files []*ast.File
		info  *types.Info
		pkg   *types.Package
	}
	var units []*unit
	// -deps lists dependencies before dependents
	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != modPath || p.Standard {
			continue
		}
		if p.Error != nil {
			die("package %s: %s", p.ImportPath, p.Error.Err)
		}
		skip := false
		for _, im := range p.Imports {
			if im == "testing" && !*tests || im == "C" || skipped[im] {
				skip = true
			}
		}
		if skip || p.Name == "main" || len(p.GoFiles) == 0 {
			skipped[p.ImportPath] = true
			continue
		}
		u := &unit{lp: p}
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
			if err != nil {
				die("%v", err)
			}
			u.files = append(u.files, af)
		}
		u.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		}
		conf := types.Config{Importer: r, Error: func(err error) { die("type check: %v", err) }}
		tp, err := conf.Check(p.ImportPath, fset, u.files, u.info)
		if err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		r.done[p.ImportPath] = tp
		u.pkg = tp
		units = append(units, u)
	}
	for _, u := range units {
		r.info, r.pkg = u.info, u.pkg
		for _, f := range u.files {
			r.scanMutable(f)
		}
	}
	for _, u := range units {
		rel := strings.TrimPrefix(strings.TrimPrefix(u.lp.ImportPath, modPath), "/")
		odir := filepath.Join(out, rel)
		if err := os.MkdirAll(odir, 0o755); err != nil {
			die("%v", err)
		}
		r.info, r.pkg = u.info, u.pkg
		reset, fns := r.resets(u.files)
		for i, f := range u.files {
			name := u.lp.GoFiles[i]
			src := r.file(f, filepath.Join(rel, name))
			src = append(src, []byte(reset[i])...)
			if err := os.WriteFile(filepath.Join(odir, name), src, 0o644); err != nil {
				die("%v", err)
			}
		}
		if len(fns) > 0 {
			src := fmt.Sprintf("package %s\n\nimport %q\n\nfunc init() {\n\tzzdst.OnReset(", u.pkg.Name(), modPath+"/zzdst")
			src += strings.Join(fns, ", ") + ")\n}\n"
			if err := os.WriteFile(filepath.Join(odir, "zz_reset_pkg.go"), []byte(src), 0o644); err != nil {
				die("%v", err)
			}
		}
	}
	// site table
	var b bytes.Buffer
	b.WriteString("package zzdst\n\nfunc init() {\n\tSites = []string{\n")
	for _, s := range r.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n}\n")
	os.MkdirAll(filepath.Join(out, "zzdst"), 0o755)
	if err := os.WriteFile(filepath.Join(out, "zzdst", "zz_sites.go"), b.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
	// go.mod / go.sum
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(out, "go.mod"), gm, 0o644); err != nil {
		die("%v", err)
	}
	if gs, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(out, "go.sum"), gs, 0o644)
	}
	fmt.Printf("rewrote %d packages, %d sites\n", len(units), len(r.sites))
}

type rewriter struct {
	fset    *token.FileSet
	modPath string
	repo    string
	gc      types.Importer
	done    map[string]*types.Package
	info    *types.Info
	pkg     *types.Package
	sites   []string
	tmp     int
	shared  map[*types.Var]bool // local variables several goroutines may share
	mutable map[*types.Var]bool // package variables modified after initialisation
	curFile string
}

// Import implements types.Importer.
func (r *rewriter) Import(path string) (*types.Package, error) {
	if p, ok := r.done[path]; ok {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return r.gc.Import(path)
}

func (r *rewriter) inModule(p *types.Package) bool {
	if p == nil {
		return false
	}
	_, ok := r.done[p.Path()]
	return ok
}

func (r *rewriter) site(n ast.Node) ast.Expr {
	pos := r.fset.Position(n.Pos())
	s := fmt.Sprintf("%s:%d", r.curFile, pos.Line)
	if k := len(r.sites); k > 0 && r.sites[k-1] == s {
		return intLit(k - 1)
	}
	r.sites = append(r.sites, s)
	return intLit(len(r.sites) - 1)
}

func intLit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)} }

func (r *rewriter) fresh(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, r.tmp))
}

func zz(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("zzdst"), Sel: ast.NewIdent(name)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func method(x ast.Expr, m string, a ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: x, Sel: ast.NewIdent(m)}, a...)
}
func amp(x ast.Expr) ast.Expr  { return &ast.UnaryExpr{Op: token.AND, X: x} }
func star(x ast.Expr) ast.Expr { return &ast.ParenExpr{X: &ast.StarExpr{X: x}} }

// file rewrites one file and returns its source.
func (r *rewriter) file(f *ast.File, rel string) []byte {
	r.curFile = rel
	r.analyse(f)
	nf := &ast.File{Name: ast.NewIdent(f.Name.Name)}
	// imports
	imp := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1}
	for _, s := range f.Imports {
		path := strings.Trim(s.Path.Value, "`\"")
		ns := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: s.Path.Value}}
		if s.Name != nil {
			ns.Name = ast.NewIdent(s.Name.Name)
		}
		if sh, ok := shimmed[path]; ok {
			if ns.Name == nil {
				base := path[strings.LastIndex(path, "/")+1:]
				if base == "v2" {
					base = "rand"
				}
				ns.Name = ast.NewIdent(base)
			}
			ns.Path.Value = fmt.Sprintf("%q", r.modPath+"/zzdst/"+sh)
		}
		imp.Specs = append(imp.Specs, ns)
	}
	imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: ast.NewIdent("zzdst"), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", r.modPath+"/zzdst")}})
	nf.Decls = append(nf.Decls, imp)
	nf.Decls = append(nf.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{zz("Used")}}}})
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			nf.Decls = append(nf.Decls, r.genDecl(d))
		case *ast.FuncDecl:
			nd := &ast.FuncDecl{Name: d.Name, Type: r.funcType(d.Type), Recv: r.fields(d.Recv)}
			if d.Body != nil {
				nd.Body = r.block(d.Body)
			}
			nf.Decls = append(nf.Decls, nd)
		}
	}
	strip(nf)
	var b bytes.Buffer
	b.WriteString("//go:build go1.21\n\n")
	if err := format.Node(&b, token.NewFileSet(), nf); err != nil {
		die("printing %s: %v", rel, err)
	}
	b.WriteString("\n")
	return b.Bytes()
}

func (r *rewriter) genDecl(d *ast.GenDecl) *ast.GenDecl {
	nd := &ast.GenDecl{Tok: d.Tok, Lparen: d.Lparen, Rparen: d.Rparen}
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			nd.Specs = append(nd.Specs, r.valueSpec(s))
		case *ast.TypeSpec:
			ns := &ast.TypeSpec{Name: s.Name, TypeParams: r.fields(s.TypeParams), Assign: s.Assign, Type: r.typ(s.Type)}
			nd.Specs = append(nd.Specs, ns)
		default:
			nd.Specs = append(nd.Specs, s)
		}
	}
	return nd
}

func (r *rewriter) valueSpec(s *ast.ValueSpec) *ast.ValueSpec {
	ns := &ast.ValueSpec{Names: s.Names, Type: r.typ(s.Type)}
	if len(s.Names) == 2 && len(s.Values) == 1 {
		ns.Values = []ast.Expr{r.commaOk(s.Values[0])}
		return ns
	}
	for _, v := range s.Values {
		ns.Values = append(ns.Values, r.expr(v))
	}
	return ns
}

// ---------------------------------------------------------------- analysis

// root returns the variable at the root of an lvalue reached without any pointer
// dereference, slice indexing or map access.
func (r *rewriter) root(e ast.Expr) *types.Var {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.root(e.X)
	case *ast.Ident:
		v, _ := r.obj(e).(*types.Var)
		return v
	case *ast.SelectorExpr:
		if s, ok := r.info.Selections[e]; ok {
			if s.Kind() != types.FieldVal || s.Indirect() {
				return nil
			}
			return r.root(e.X)
		}
		v, _ := r.info.Uses[e.Sel].(*types.Var)
		return v
	case *ast.IndexExpr:
		if t := r.info.TypeOf(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return r.root(e.X)
			}
		}
	}
	return nil
}

func (r *rewriter) obj(id *ast.Ident) types.Object {
	if o := r.info.Uses[id]; o != nil {
		return o
	}
	return r.info.Defs[id]
}

func isPkgVar(v *types.Var) bool {
	return v != nil && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

// anyRoot is like root but goes through indexing and dereferences: the variable
// whose content (at any depth) is modified.
func (r *rewriter) anyRoot(e ast.Expr) *types.Var {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.anyRoot(e.X)
	case *ast.StarExpr:
		return r.anyRoot(e.X)
	case *ast.Ident:
		v, _ := r.obj(e).(*types.Var)
		return v
	case *ast.SelectorExpr:
		if _, ok := r.info.Selections[e]; ok {
			return r.anyRoot(e.X)
		}
		v, _ := r.info.Uses[e.Sel].(*types.Var)
		return v
	case *ast.IndexExpr:
		return r.anyRoot(e.X)
	case *ast.SliceExpr:
		return r.anyRoot(e.X)
	}
	return nil
}

// scanMutable records the package variables that some function modifies or whose
// address, methods with pointer receivers, channels ... it uses.
func (r *rewriter) scanMutable(f *ast.File) {
	mark := func(e ast.Expr) {
		if v := r.anyRoot(e); isPkgVar(v) {
			r.mutable[v] = true
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.RangeStmt:
				if n.Key != nil {
					mark(n.Key)
				}
				if n.Value != nil {
					mark(n.Value)
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND || n.Op == token.ARROW {
					mark(n.X)
				}
			case *ast.SendStmt:
				mark(n.Chan)
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 {
					if _, isB := r.obj(id).(*types.Builtin); isB && (id.Name == "delete" || id.Name == "copy" || id.Name == "close" || id.Name == "append" || id.Name == "clear") {
						mark(n.Args[0])
					}
				}
				if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
					if s, ok := r.info.Selections[sel]; ok && s.Kind() == types.MethodVal {
						if sig := s.Obj().Type().(*types.Signature); sig.Recv() != nil {
							if _, p := sig.Recv().Type().(*types.Pointer); p {
								mark(sel.X)
							}
						}
					}
				}
			}
			return true
		})
	}
}

// analyse finds the local variables that may be shared between goroutines.
func (r *rewriter) analyse(f *ast.File) {
	r.shared = map[*types.Var]bool{}
	declIn := map[*types.Var]ast.Node{}
	captured := map[*types.Var]bool{}
	assigned := map[*types.Var]bool{}
	addr := map[*types.Var]bool{}
	markA := func(e ast.Expr) {
		if v := r.root(e); v != nil {
			assigned[v] = true
		}
	}
	var walk func(n ast.Node, fn ast.Node)
	walk = func(n ast.Node, fn ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncLit:
				walk(m, m)
				return false
			case *ast.Ident:
				if v, ok := r.info.Defs[m].(*types.Var); ok {
					declIn[v] = fn
				} else if v, ok := r.info.Uses[m].(*types.Var); ok && !v.IsField() && !isPkgVar(v) {
					if d, ok := declIn[v]; ok && d != fn {
						captured[v] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range m.Lhs {
					if id, ok := l.(*ast.Ident); ok && m.Tok == token.DEFINE && r.info.Defs[id] != nil {
						continue
					}
					markA(l)
				}
			case *ast.IncDecStmt:
				markA(m.X)
			case *ast.RangeStmt:
				if m.Tok == token.ASSIGN {
					if m.Key != nil {
						markA(m.Key)
					}
					if m.Value != nil {
						markA(m.Value)
					}
				} else if id, ok := m.Key.(*ast.Ident); ok {
					// a loop variable is re-assigned at every iteration (pre-1.22 semantics)
					if v, ok := r.info.Defs[id].(*types.Var); ok {
						assigned[v] = true
					}
					if id, ok := m.Value.(*ast.Ident); ok {
						if v, ok := r.info.Defs[id].(*types.Var); ok {
							assigned[v] = true
						}
					}
				}
			case *ast.UnaryExpr:
				if m.Op == token.AND {
					if v := r.root(m.X); v != nil {
						addr[v] = true
					}
				}
			case *ast.SliceExpr:
				if t := r.info.TypeOf(m.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						if v := r.root(m.X); v != nil {
							addr[v] = true
						}
					}
				}
			case *ast.SelectorExpr:
				if s, ok := r.info.Selections[m]; ok && s.Kind() == types.MethodVal {
					sig := s.Obj().Type().(*types.Signature)
					if sig.Recv() != nil {
						if _, p := sig.Recv().Type().(*types.Pointer); p {
							if v := r.root(m.X); v != nil {
								if _, isP := v.Type().Underlying().(*types.Pointer); !isP {
									addr[v] = true
								}
							}
						}
					}
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			walk(d, d)
		case *ast.GenDecl:
			walk(d, d)
		}
	}
	for v := range captured {
		if assigned[v] {
			r.shared[v] = true
		}
	}
	for v := range addr {
		r.shared[v] = true
	}
}

// resets generates, per file, functions that initialise the package variables
// again, as the start of a process does, so that simulated runs in one process
// are independent of each other. It returns their names in execution order; the
// package's init functions come last.
func (r *rewriter) resets(files []*ast.File) (map[int]string, []string) {
	fileOf := map[*types.Var]int{}
	var zero []*types.Var
	for i, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, n := range vs.Names {
					v, ok := r.info.Defs[n].(*types.Var)
					if !ok {
						continue
					}
					fileOf[v] = i
					if len(vs.Values) == 0 && n.Name != "_" && r.mutable[v] {
						zero = append(zero, v)
					}
				}
			}
		}
	}
	out := map[int]string{}
	var names []string
	emit := func(file int, st func() ast.Stmt) {
		r.curFile = "reset"
		r.analyse(files[file])
		name := fmt.Sprintf("zzreset%d", len(names))
		fd := &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{st()}}}
		strip(fd)
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), fd); err != nil {
			die("printing reset: %v", err)
		}
		out[file] += "\n" + b.String() + "\n"
		names = append(names, name)
	}
	for _, v := range zero {
		v := v
		emit(fileOf[v], func() ast.Stmt {
			return &ast.ExprStmt{X: call(zz("Zero"), amp(ast.NewIdent(v.Name())))}
		})
	}
	for _, in := range r.info.InitOrder {
		in := in
		mut := false
		var lhs []ast.Expr
		for _, v := range in.Lhs {
			mut = mut || r.mutable[v]
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		if !mut && !stateful(r.info, in.Rhs) {
			continue
		}
		emit(fileOf[in.Lhs[0]], func() ast.Stmt {
			return &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{r.expr(in.Rhs)}}
		})
	}
	k := 0
	for i, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				name := fmt.Sprintf("zzinit%d", k)
				k++
				fd.Name = ast.NewIdent(name)
				out[i] += "\nfunc init() { " + name + "() }\n"
				names = append(names, name)
			}
		}
	}
	return out, names
}

// stateful tells whether the value of an initialiser may hold state that lives on
// from one run to the next although no function modifies the variable itself.
func stateful(info *types.Info, e ast.Expr) bool {
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return false
	}
	if c, ok := ast.Unparen(e).(*ast.CallExpr); ok {
		if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
			if id, ok := sel.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok {
					if p := pn.Imported().Path(); p == "errors" || p == "fmt" {
						return false
					}
				}
			}
		}
	}
	switch x := ast.Unparen(e).(type) {
	case *ast.FuncLit, *ast.Ident, *ast.SelectorExpr, *ast.BasicLit:
		_ = x
		return false
	}
	return true
}
