// simgen copies a Go module and rewrites its packages so that everything
// nondeterministic in them goes through the simulation runtime: goroutines,
// channels, select, sync, atomic, timers, map iteration, shared memory
// accesses, dialling and process exit.  It works from types, not from names in
// the code under test, and knows nothing about the repository it is run on.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	Module     *struct{ Path, Dir, GoVersion string }
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "", "module to translate")
	dst := flag.String("dst", "", "directory to write <dst>/<i> trees into")
	with := flag.String("with", "", "comma separated module paths of dependencies to translate as well")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Standard,Imports,ImportMap,Module,Error,DepsErrors", "./...")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	trees := map[string]bool{}
	for _, w := range strings.Split(*with, ",") {
		if w != "" {
			trees[w] = true
		}
	}
	var all []*pkgInfo
	mainMod := ""
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		all = append(all, p)
	}
	abs, _ := filepath.Abs(*src)
	for _, p := range all {
		if p.Module != nil && p.Module.Dir == abs {
			mainMod = p.Module.Path
		}
	}
	if mainMod == "" {
		die("no module in %s", abs)
	}
	trees[mainMod] = true
	instr := map[string]bool{}
	var todo []*pkgInfo
	for _, p := range all {
		if p.Module != nil && trees[p.Module.Path] && p.Name != "main" && len(p.CgoFiles) == 0 {
			instr[p.ImportPath] = true
			todo = append(todo, p)
		}
	}
	g := &gen{instr: instr}
	moddirs := map[string]string{}
	for _, p := range todo {
		root := filepath.Join(*dst, strings.NewReplacer("/", "_", "@", "_").Replace(p.Module.Path))
		if p.Module.Path == mainMod {
			root = filepath.Join(*dst, "main")
		}
		moddirs[p.Module.Path] = root
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			die("%v", err)
		}
		od := filepath.Join(root, rel)
		os.MkdirAll(od, 0o777)
		g.pkg(p, rel, od, exports)
		gv := p.Module.GoVersion
		if gv == "" || verLess(gv, "1.21") {
			gv = "1.21"
		}
		gm := "module " + p.Module.Path + "\n\ngo " + gv + "\n"
		if err := os.WriteFile(filepath.Join(root, "go.mod"), []byte(gm), 0o666); err != nil {
			die("%v", err)
		}
	}
	var ms []string
	for m := range moddirs {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		fmt.Printf("%s %s\n", m, moddirs[m])
	}
	// other third-party modules, used untranslated
	seen := map[string]bool{}
	for _, p := range all {
		if p.Module != nil && !trees[p.Module.Path] && !seen[p.Module.Path] {
			seen[p.Module.Path] = true
			dir := p.Module.Dir
			if _, err := os.Stat(filepath.Join(dir, "go.mod")); err != nil {
				dir = filepath.Join(*dst, strings.NewReplacer("/", "_", "@", "_").Replace(p.Module.Path))
				if err := os.CopyFS(dir, os.DirFS(p.Module.Dir)); err != nil {
					die("%v", err)
				}
				if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+p.Module.Path+"\n\ngo 1.16\n"), 0o666); err != nil {
					die("%v", err)
				}
			}
			fmt.Printf("%s %s\n", p.Module.Path, dir)
		}
	}
}

func verLess(a, b string) bool {
	var x1, x2, y1, y2 int
	fmt.Sscanf(a, "%d.%d", &x1, &x2)
	fmt.Sscanf(b, "%d.%d", &y1, &y2)
	return x1 < y1 || x1 == y1 && x2 < y2
}

type gen struct {
	instr map[string]bool
	nsite int
}

// pkgGen rewrites one package.
type pkgGen struct {
	*gen
	fset     *token.FileSet
	info     *types.Info
	tpkg     *types.Package
	captured map[types.Object]bool // local variables shared between functions and mutated
	taken    map[types.Object]bool // local variables whose address is taken
	oldLoop  bool
	first    int
	sites    []string
	rel      string
	tmp      int
	curFile  string
	need     map[string]bool
}

const rt = "simrt__"

func (g *gen) pkg(p *pkgInfo, rel, od string, exports map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
		names = append(names, f)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp, Error: func(err error) {}, FakeImportC: true}
	gv := "1.16"
	if p.Module.GoVersion != "" {
		gv = p.Module.GoVersion
	}
	tpkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	pg := &pkgGen{gen: g, fset: fset, info: info, tpkg: tpkg, oldLoop: verLess(gv, "1.22"), first: g.nsite, rel: rel,
		captured: map[types.Object]bool{}, taken: map[types.Object]bool{}}
	for _, f := range files {
		pg.analyse(f)
	}
	inits := pg.prepareReset(files)
	for i, f := range files {
		pg.curFile = names[i]
		pg.need = map[string]bool{}
		pg.file(f)
	}
	pg.writeReset(inits, files, names, od)
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport %s \"verif.local/sim/simrt\"\n\nfunc init() {\n\t%s.AddSites(%d, []string{\n", tpkg.Name(), rt, rt, pg.first)
	for _, s := range pg.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t})\n}\n")
	if err := os.WriteFile(filepath.Join(od, "zz_simsites.go"), []byte(b.String()), 0o666); err != nil {
		die("%v", err)
	}
}

func (g *pkgGen) site(pos token.Pos) ast.Expr {
	p := g.fset.Position(pos)
	name := fmt.Sprintf("%s:%d", filepath.ToSlash(filepath.Join(g.rel, g.curFile)), p.Line)
	if n := len(g.sites); n > 0 && g.sites[n-1] == name {
		return intLit(g.nsite - 1)
	}
	g.sites = append(g.sites, name)
	g.nsite++
	return intLit(g.nsite - 1)
}

// ---- analysis: which local variables can be shared between goroutines ----

func (g *pkgGen) analyse(f *ast.File) {
	declFn := map[types.Object]ast.Node{}
	shared := map[types.Object]bool{}
	mutated := map[types.Object]bool{}
	var stack []ast.Node
	var cur func() ast.Node = func() ast.Node {
		for i := len(stack) - 1; i >= 0; i-- {
			switch stack[i].(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				return stack[i]
			}
		}
		return nil
	}
	isLocal := func(o types.Object) bool {
		v, ok := o.(*types.Var)
		return ok && !v.IsField() && v.Parent() != nil && v.Parent() != g.tpkg.Scope() && v.Pkg() == g.tpkg
	}
	mut := func(e ast.Expr) {
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			if o := g.info.Uses[id]; o != nil {
				mutated[o] = true
			}
		}
	}
	root := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				if s := g.info.Selections[x]; s == nil || isPtr(g.info.TypeOf(x.X)) {
					return nil
				}
				e = x.X
			case *ast.IndexExpr:
				if _, ok := under(g.info.TypeOf(x.X)).(*types.Array); !ok {
					return nil
				}
				e = x.X
			case *ast.Ident:
				return g.info.Uses[x]
			default:
				return nil
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.Ident:
			if o := g.info.Defs[x]; o != nil && isLocal(o) {
				declFn[o] = cur()
			}
			if o := g.info.Uses[x]; o != nil && isLocal(o) {
				if d, ok := declFn[o]; ok && d != cur() {
					shared[o] = true
				}
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				mut(l)
				if x.Tok == token.ASSIGN || x.Tok != token.DEFINE {
					if o := root(l); o != nil {
						mutated[o] = true
					}
				}
			}
		case *ast.IncDecStmt:
			mut(x.X)
			if o := root(x.X); o != nil {
				mutated[o] = true
			}
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				if x.Key != nil {
					mut(x.Key)
				}
				if x.Value != nil {
					mut(x.Value)
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if o := root(x.X); o != nil && isLocal(o) {
					g.taken[o] = true
				}
			}
		case *ast.SelectorExpr:
			if s := g.info.Selections[x]; s != nil && s.Kind() == types.MethodVal && !isPtr(g.info.TypeOf(x.X)) {
				if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil && isPtr(sig.Recv().Type()) {
					if o := root(x.X); o != nil && isLocal(o) {
						g.taken[o] = true
					}
				}
			}
		}
		return true
	})
	for o := range shared {
		if mutated[o] || g.taken[o] {
			g.captured[o] = true
		}
	}
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isPtr(t types.Type) bool {
	_, ok := under(t).(*types.Pointer)
	return ok
}

func isParam(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

func isShimType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

// stateful standard library objects: a call of one of their methods is an
// access to the object
var objTypes = map[string]bool{"bufio.Reader": true, "bufio.Writer": true, "bufio.Scanner": true, "bytes.Buffer": true, "bytes.Reader": true,
	"strings.Builder": true, "strings.Reader": true, "math/rand.Rand": true, "hash.Hash": true, "hash.Hash32": true, "hash.Hash64": true, "math/rand.Source": true, "math/rand/v2.Rand": true, "text/scanner.Scanner": true, "container/list.List": true, "container/ring.Ring": true}

func objType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && objTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

// ---- helpers building syntax ----

func id(s string) *ast.Ident   { return ast.NewIdent(s) }
func intLit(n int) ast.Expr    { return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(n)} }
func rtf(name string) ast.Expr { return &ast.SelectorExpr{X: id(rt), Sel: id(name)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func sel(x ast.Expr, n string) ast.Expr { return &ast.SelectorExpr{X: x, Sel: id(n)} }
func addr(x ast.Expr) ast.Expr          { return &ast.UnaryExpr{Op: token.AND, X: x} }
func star(x ast.Expr) ast.Expr          { return &ast.ParenExpr{X: &ast.StarExpr{X: x}} }
func define(rhs ast.Expr, names ...string) ast.Stmt {
	var l []ast.Expr
	for _, n := range names {
		l = append(l, id(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}
func (g *pkgGen) fresh(p string) string { g.tmp++; return fmt.Sprintf("%s__%d", p, g.tmp) }

// ---- files ----

var usedDecl = map[string]string{"net": "var _ %s.Addr", "time": "var _ %s.Time", "log": "var _ = %s.Println", "os": "var _ = %s.Args", "runtime": "var _ = %s.NumCPU", "context": "var _ %s.Context", "sync": "var _ %s.Mutex", "sync/atomic": "var _ = %s.AddInt32"}

func (g *pkgGen) file(f *ast.File) {
	f.Comments = nil
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
			if x.Body != nil {
				site := g.site(x.Pos())
				x.Body = g.block(x.Body)
				x.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call(rtf("Point"), site)}}, x.Body.List...)
			}
		case *ast.GenDecl:
			x.Doc = nil
			switch x.Tok {
			case token.VAR:
				for _, s := range x.Specs {
					g.valueSpec(s.(*ast.ValueSpec))
				}
			case token.TYPE:
				for _, s := range x.Specs {
					ts := s.(*ast.TypeSpec)
					ts.Type = g.typ(ts.Type)
				}
			}
		}
	}
	// field and parameter types
	for _, d := range f.Decls {
		if x, ok := d.(*ast.FuncDecl); ok {
			g.funcType(x.Type)
		}
	}
	var extra []ast.Decl
	for _, imp := range f.Imports {
		p := strings.Trim(imp.Path.Value, `"`)
		name := filepath.Base(p)
		if imp.Name != nil {
			name = imp.Name.Name
		}
		imp.Doc, imp.Comment = nil, nil
		if name == "_" || name == "." {
			continue
		}
		switch p {
		case "sync":
			imp.Path.Value = `"verif.local/sim/simsync"`
			imp.Name = id(name)
		case "sync/atomic":
			imp.Path.Value = `"verif.local/sim/simatomic"`
			imp.Name = id(name)
		}
		if d, ok := usedDecl[p]; ok {
			src := "package p\n" + fmt.Sprintf(d, name)
			pf, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
			if err != nil {
				die("%v", err)
			}
			extra = append(extra, pf.Decls...)
		}
	}
	mk := func(name, path string) ast.Decl {
		return &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(name), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + path + `"`}}}}
	}
	imports := []ast.Decl{mk(rt, "verif.local/sim/simrt"), mk("simnet__", "verif.local/sim/simnet")}
	f.Decls = append(imports, f.Decls...)
	for _, s := range []string{"var _ = " + rt + ".Use", "var _ = simnet__.Use"} {
		pf, _ := parser.ParseFile(token.NewFileSet(), "", "package p\n"+s, 0)
		extra = append(extra, pf.Decls...)
	}
	f.Decls = append(f.Decls, extra...)
}

func (g *pkgGen) funcType(t *ast.FuncType) {
	for _, l := range []*ast.FieldList{t.Params, t.Results} {
		if l == nil {
			continue
		}
		for _, f := range l.List {
			f.Type = g.typ(f.Type)
			f.Doc, f.Comment = nil, nil
		}
	}
}

// typ rewrites type expressions: only names of replaced types change.
func (g *pkgGen) typ(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Field:
			x.Doc, x.Comment = nil, nil
		case *ast.SelectorExpr:
			if r := g.pkgSel(x); r != nil {
				if s, ok := r.(*ast.SelectorExpr); ok {
					x.X, x.Sel = s.X, s.Sel
				}
			}
		}
		return true
	})
	return e
}

// replacements of package level names of the standard library
var replaced = map[string]string{
	"net.Dial": "simnet__.Dial", "net.DialTimeout": "simnet__.DialTimeout", "net.Dialer": "simnet__.Dialer", "net.DialTCP": "simnet__.DialTCP", "net.TCPConn": "simnet__.Conn",
	"net.LookupHost": "simnet__.LookupHost", "net.ResolveTCPAddr": "simnet__.ResolveTCPAddr",
}

// calls that also get a site argument at the end (or at the front)
var sitedLast = map[string]string{"time.Sleep": "Sleep", "time.AfterFunc": "AfterFunc", "context.AfterFunc": "ContextAfterFunc", "runtime.Gosched": "Gosched"}
var sitedFirst = map[string]string{"log.Fatal": "Fatal", "log.Fatalln": "Fatal", "log.Fatalf": "Fatalf", "os.Exit": "Exit"}

func (g *pkgGen) qualified(x *ast.SelectorExpr) string {
	pid, ok := x.X.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := g.info.Uses[pid].(*types.PkgName)
	if !ok {
		return ""
	}
	return pn.Imported().Path() + "." + x.Sel.Name
}

func (g *pkgGen) pkgSel(x *ast.SelectorExpr) ast.Expr {
	q := g.qualified(x)
	if q == "" {
		return nil
	}
	if r, ok := replaced[q]; ok {
		i := strings.LastIndex(r, ".")
		return &ast.SelectorExpr{X: id(r[:i]), Sel: id(r[i+1:])}
	}
	return nil
}

// ---- package level state: made fresh for every run ----

type resetInfo struct {
	vars  [][]string // per file: variables without initialiser
	exprs []resetExpr
	inits int
	funcs map[int]int
}

type resetExpr struct {
	lhs  []string
	spec *ast.ValueSpec
	idx  int // value index in the spec
	file int
}

func (g *pkgGen) prepareReset(files []*ast.File) *resetInfo {
	r := &resetInfo{vars: make([][]string, len(files)), funcs: map[int]int{}}
	byName := map[*ast.Ident]resetExpr{}
	for fi, f := range files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" {
					x.Name = id(fmt.Sprintf("simInit__%d", r.inits))
					r.funcs[r.inits] = fi
					r.inits++
				}
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					v := s.(*ast.ValueSpec)
					for i, n := range v.Names {
						if len(v.Values) == 0 {
							if n.Name != "_" {
								r.vars[fi] = append(r.vars[fi], n.Name)
							}
							continue
						}
						e := resetExpr{spec: v, file: fi, idx: i}
						if len(v.Values) == 1 && len(v.Names) > 1 {
							e.idx = 0
						}
						byName[n] = e
					}
				}
			}
		}
	}
	for _, in := range g.info.InitOrder {
		var lhs []string
		var e resetExpr
		all := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				all = false
			}
			for n, x := range byName {
				if g.info.Defs[n] == v {
					e = x
				}
			}
		}
		if all || e.spec == nil {
			continue
		}
		e.lhs = lhs
		r.exprs = append(r.exprs, e)
	}
	return r
}

func (g *pkgGen) writeReset(r *resetInfo, files []*ast.File, names []string, od string) {
	// the assignments go into functions of the file that declares the
	// variable, so that its imports are in scope
	var body []ast.Stmt
	callStmt := func(n string) ast.Stmt { return &ast.ExprStmt{X: call(id(n))} }
	fn := func(fi int, name string, l []ast.Stmt) {
		files[fi].Decls = append(files[fi].Decls, &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: l}})
	}
	for fi, vs := range r.vars {
		var l []ast.Stmt
		for _, v := range vs {
			l = append(l, &ast.ExprStmt{X: call(rtf("Zero"), addr(id(v)))})
		}
		if l != nil {
			n := fmt.Sprintf("simZero__%d", fi)
			fn(fi, n, l)
			body = append(body, callStmt(n))
		}
	}
	for i, e := range r.exprs {
		var lhs []ast.Expr
		for _, n := range e.lhs {
			lhs = append(lhs, id(n))
		}
		n := fmt.Sprintf("simVar__%d", i)
		fn(e.file, n, []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{e.spec.Values[e.idx]}}})
		body = append(body, callStmt(n))
	}
	for i := 0; i < r.inits; i++ {
		body = append(body, callStmt(fmt.Sprintf("simInit__%d", i)))
	}
	for i, f := range files {
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, token.NewFileSet(), f); err != nil {
			die("print %s: %v", names[i], err)
		}
		if err := os.WriteFile(filepath.Join(od, names[i]), buf.Bytes(), 0o666); err != nil {
			die("%v", err)
		}
	}
	var buf bytes.Buffer
	f := &ast.File{Name: id(g.tpkg.Name())}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(rt), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif.local/sim/simrt"`}}}}
	var init []ast.Stmt
	for i := 0; i < r.inits; i++ {
		init = append(init, callStmt(fmt.Sprintf("simInit__%d", i)))
	}
	init = append(init, &ast.ExprStmt{X: call(rtf("AddReset"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})})
	f.Decls = []ast.Decl{imp, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: init}}}
	if err := printer.Fprint(&buf, token.NewFileSet(), f); err != nil {
		die("print: %v", err)
	}
	if err := os.WriteFile(filepath.Join(od, "zz_simreset.go"), buf.Bytes(), 0o666); err != nil {
		die("%v", err)
	}
}
