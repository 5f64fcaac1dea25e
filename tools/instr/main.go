// Command instr rewrites the Go sources of the repository under test so that
// they run against the controlled environment in /verif/shim, and writes a
// build overlay. It never looks at what the code means: imports are redirected
// and go/select/channel statements are routed through the scheduler.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/getsolus/ferryd"
const shim = mod + "/src/verifmc/"

var redirect = map[string]string{
	"os":                                  "vos",
	"io/ioutil":                           "vioutil",
	"sync":                                "vsync",
	"context":                             "vcontext",
	"time":                                "vtime",
	"os/exec":                             "vexec",
	"syscall":                             "vsys",
	"math/rand":                           "vrand",
	"os/signal":                           "vsignal",
	"net/http":                            "vhttp",
	"net":                                 "vnet",
	"github.com/syndtr/goleveldb/leveldb": "vleveldb",
	"github.com/radu-munteanu/fsnotify":   "vfsnotify",
	"github.com/cloudflare/cloudflare-go": "vcloudflare",
}

// local names of redirected imports
var localName = map[string]string{
	"io/ioutil": "ioutil", "os/exec": "exec", "math/rand": "rand", "os/signal": "signal", "net/http": "http",
	"github.com/syndtr/goleveldb/leveldb": "leveldb", "github.com/radu-munteanu/fsnotify": "fsnotify",
	"github.com/cloudflare/cloudflare-go": "cloudflare", "github.com/coreos/go-systemd/v22/activation": "activation",
}

type rw struct {
	info *types.Info
	n    int
	used bool
}

func main() {
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: instr REPO VERIF OUT")
		os.Exit(2)
	}
	repo, verif, out := os.Args[1], os.Args[2], os.Args[3]
	overlay := map[string]string{}
	// shims and harnesses
	for _, top := range []string{"shim", "mc"} {
		base := filepath.Join(verif, top)
		filepath.Walk(base, func(p string, st os.FileInfo, err error) error {
			if err == nil && !st.IsDir() && strings.HasSuffix(p, ".go") {
				rel, _ := filepath.Rel(base, p)
				if top == "mc" {
					rel = filepath.Join("h", rel)
				}
				overlay[filepath.Join(repo, "src/verifmc", rel)] = p
			}
			return nil
		})
	}
	dirs := map[string][]string{}
	filepath.Walk(filepath.Join(repo, "src"), func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if st.IsDir() {
			if st.Name() == "testdata" || st.Name() == "verifmc" || strings.HasPrefix(st.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	})
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	exp := exports(repo)
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if f, ok := exp[path]; ok {
			return os.Open(f)
		}
		return nil, os.ErrNotExist
	})
	for _, d := range ds {
		if err := process(fset, imp, repo, d, dirs[d], out, overlay); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
	}
	// internal peeks
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func process(fset *token.FileSet, imp types.Importer, repo, dir string, files []string, out string, overlay map[string]string) error {
	ctxt := build.Default
	ctxt.CgoEnabled = false
	var asts []*ast.File
	var names []string
	sort.Strings(files)
	for _, f := range files {
		ok, err := ctxt.MatchFile(dir, filepath.Base(f))
		if err != nil {
			return err
		}
		if !ok {
			continue
		}
		mode := parser.SkipObjectResolution
		src, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if bytes.Contains(src, []byte("\n//go:embed")) {
			mode |= parser.ParseComments
		}
		a, err := parser.ParseFile(fset, f, src, mode)
		if err != nil {
			return err
		}
		asts = append(asts, a)
		names = append(names, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Error: func(error) {}, Importer: fakeImporter{imp, map[string]*types.Package{}}, FakeImportC: true}
	conf.Check(dir, fset, asts, info)
	rel, _ := filepath.Rel(repo, dir)
	for i, a := range asts {
		r := &rw{info: info}
		r.file(a)
		isMain := a.Name.Name == "main"
		target := filepath.Join(dir, filepath.Base(names[i]))
		if isMain {
			pk := strings.ReplaceAll(filepath.Base(rel), "-", "") + "main"
			a.Name.Name = pk
			target = filepath.Join(repo, "src/verifmc", pk, filepath.Base(names[i]))
		}
		var buf bytes.Buffer
		if err := (&printer.Config{Mode: printer.TabIndent | printer.UseSpaces, Tabwidth: 8}).Fprint(&buf, fset, a); err != nil {
			return err
		}
		o := filepath.Join(out, "src", rel, filepath.Base(names[i]))
		os.MkdirAll(filepath.Dir(o), 0755)
		if err := os.WriteFile(o, buf.Bytes(), 0644); err != nil {
			return err
		}
		overlay[target] = o
		if isMain {
			x := filepath.Join(out, "src", rel, "verif_xmain.go")
			os.WriteFile(x, []byte("package "+a.Name.Name+"\n\n// XMain runs the program.\nfunc XMain() { main() }\n"), 0644)
			overlay[filepath.Join(filepath.Dir(target), "verif_xmain.go")] = x
		}
	}
	return nil
}

// exports maps the packages the repository depends on to their export data.
func exports(repo string) map[string]string {
	c := exec.Command("go", "list", "-e", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}}={{.Export}}{{end}}", "./src/...")
	c.Dir = repo
	out, _ := c.Output()
	m := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if p, f, ok := strings.Cut(l, "="); ok {
			m[p] = f
		}
	}
	return m
}

// fakeImporter makes packages up that have no export data.
type fakeImporter struct {
	real types.Importer
	m    map[string]*types.Package
}

func (f fakeImporter) Import(path string) (p *types.Package, err error) {
	if p, ok := f.m[path]; ok {
		return p, nil
	}
	if p, err := f.real.Import(path); err == nil {
		return p, nil
	}
	p = types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	f.m[path] = p
	return p, nil
}

func (r *rw) file(a *ast.File) {
	for _, im := range a.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := redirect[p]
		if !ok {
			continue
		}
		if im.Name == nil {
			n := localName[p]
			if n == "" {
				n = p
			}
			im.Name = ast.NewIdent(n)
		}
		im.Path.Value = strconv.Quote(shim + to)
	}
	for _, d := range a.Decls {
		r.decl(d)
	}
	if r.used {
		imp := &ast.ImportSpec{Name: ast.NewIdent("vsched_"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shim + "vsched")}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{imp}}
		a.Decls = append([]ast.Decl{gd}, a.Decls...)
		a.Imports = append(a.Imports, imp)
	}
}

func (r *rw) vs(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("vsched_"), Sel: ast.NewIdent(name)}
}

func (r *rw) fresh(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("_v%s%d", p, r.n))
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rw) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		if d.Body != nil {
			r.block(d.Body)
		}
	case *ast.GenDecl:
		for _, s := range d.Specs {
			r.spec(s)
		}
	}
}

func (r *rw) spec(s ast.Spec) {
	vs, ok := s.(*ast.ValueSpec)
	if !ok {
		return
	}
	if len(vs.Names) == 2 && len(vs.Values) == 1 {
		if u := recvOf(vs.Values[0]); u != nil {
			vs.Values[0] = call(r.vs("Rcv2"), r.expr(u.X))
			return
		}
	}
	r.exprs(vs.Values)
}

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		r.stmts(b.List)
	}
}

func (r *rw) stmts(l []ast.Stmt) {
	for i := range l {
		l[i] = r.stmt(l[i])
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
		}
		return nil
	}
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(r.vs("Snd"), r.expr(s.Chan)), r.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u := recvOf(s.Rhs[0]); u != nil {
				r.exprs(s.Lhs)
				s.Rhs[0] = call(r.vs("Rcv2"), r.expr(u.X))
				return s
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
	case *ast.DeclStmt:
		r.decl(s.Decl)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.IfStmt:
		s.Init = r.stmt(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		s.Else = r.stmt(s.Else)
	case *ast.ForStmt:
		s.Init = r.stmt(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		s.Post = r.stmt(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		isChan := r.isChan(s.X)
		isMap := r.isMap(s.X)
		s.X = r.expr(s.X)
		r.block(s.Body)
		if isChan {
			return r.rangeChan(s)
		}
		if isMap {
			return r.rangeMap(s)
		}
	case *ast.SwitchStmt:
		s.Init = r.stmt(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = r.stmt(s.Init)
		s.Assign = r.stmt(s.Assign)
		r.block(s.Body)
	case *ast.CaseClause:
		r.exprs(s.List)
		r.stmts(s.Body)
	case *ast.LabeledStmt:
		s.Stmt = r.stmt(s.Stmt)
	case *ast.SelectStmt:
		return r.sel(s)
	}
	return s
}

func (r *rw) chanType(e ast.Expr) *types.Chan {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	c, _ := tv.Type.Underlying().(*types.Chan)
	return c
}

func (r *rw) isChan(e ast.Expr) bool {
	if r.chanType(e) != nil {
		return true
	}
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil && tv.Type != types.Typ[types.Invalid] {
		return false
	}
	if se, ok := e.(*ast.SelectorExpr); ok {
		switch se.Sel.Name {
		case "Events", "Errors", "C":
			return true
		}
	}
	return false
}

// for v := range ch {body}  =>  for { v, ok := Rcv2(ch); if !ok { break }; body }
func (r *rw) rangeChan(s *ast.RangeStmt) ast.Stmt {
	ch := r.fresh("ch")
	ok := r.fresh("ok")
	v := r.fresh("val")
	var body []ast.Stmt
	body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.vs("Rcv2"), ch)}})
	body = append(body, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
	if s.Key != nil {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{v}})
	} else {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
	}
	body = append(body, s.Body.List...)
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}},
		Body: &ast.BlockStmt{List: body},
	}
}

func (r *rw) isMap(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, m := tv.Type.Underlying().(*types.Map)
	return m
}

// for k, v := range m {body} in a deterministic order
func (r *rw) rangeMap(s *ast.RangeStmt) ast.Stmt {
	p := r.fresh("p")
	var body []ast.Stmt
	body = append(body, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: call(&ast.SelectorExpr{X: p, Sel: ast.NewIdent("Live")})},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	set := func(l ast.Expr, v ast.Expr) {
		if l == nil {
			return
		}
		tok := s.Tok
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: tok, Rhs: []ast.Expr{v}})
	}
	set(s.Key, &ast.SelectorExpr{X: p, Sel: ast.NewIdent("K")})
	set(s.Value, call(&ast.SelectorExpr{X: p, Sel: ast.NewIdent("V")}))
	body = append(body, s.Body.List...)
	return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: p, Tok: token.DEFINE, X: call(r.vs("MapPairs"), s.X), Body: &ast.BlockStmt{List: body}}
}

func (r *rw) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	hoist := func(e ast.Expr, p string) ast.Expr {
		switch x := e.(type) {
		case *ast.BasicLit:
			return e
		case *ast.Ident:
			if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
				return e
			}
		}
		id := r.fresh(p)
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return id
	}
	var fun ast.Expr
	if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "close" || id.Name == "panic" || id.Name == "print" || id.Name == "println") {
		fun = id
	} else if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.block(fl.Body)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: call(r.vs("Go"), fl)}
		}
		fun = fl
	} else {
		fun = hoist(c.Fun, "f")
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		args[i] = hoist(a, "a")
	}
	nc := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.expr(nc)}}}}
	pre = append(pre, &ast.ExprStmt{X: call(r.vs("Go"), body)})
	return &ast.BlockStmt{List: pre}
}

func (r *rw) sel(s *ast.SelectStmt) ast.Stmt {
	var lhs, rhs []ast.Expr
	var cases []ast.Stmt
	hasDef := "false"
	var selArgs []ast.Expr
	idx := 0
	for _, cs := range s.Body.List {
		cc := cs.(*ast.CommClause)
		var body []ast.Stmt
		if cc.Comm == nil {
			hasDef = "true"
			r.stmts(cc.Body)
			cases = append(cases, &ast.CaseClause{Body: cc.Body})
			continue
		}
		id := r.fresh("c")
		v := call(&ast.SelectorExpr{X: id, Sel: ast.NewIdent("V")})
		v2 := call(&ast.SelectorExpr{X: id, Sel: ast.NewIdent("V2")})
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(call(r.vs("SC"), r.expr(c.Chan)), r.expr(c.Value)))
		case *ast.ExprStmt:
			rhs = append(rhs, call(r.vs("RC"), r.expr(recvOf(c.X).X)))
		case *ast.AssignStmt:
			rhs = append(rhs, call(r.vs("RC"), r.expr(recvOf(c.Rhs[0]).X)))
			r.exprs(c.Lhs)
			val := ast.Expr(v)
			if len(c.Lhs) == 2 {
				val = v2
			}
			body = append(body, &ast.AssignStmt{Lhs: c.Lhs, Tok: c.Tok, Rhs: []ast.Expr{val}})
		}
		lhs = append(lhs, id)
		selArgs = append(selArgs, id)
		r.stmts(cc.Body)
		body = append(body, cc.Body...)
		cases = append(cases, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: body})
		idx++
	}
	if hasDef == "false" {
		// a select may be the terminating statement of a function: so must be the switch
		cases = append(cases, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("select: no case")})}}})
	}
	sw := &ast.SwitchStmt{Tag: call(r.vs("Sel"), append([]ast.Expr{ast.NewIdent(hasDef)}, selArgs...)...), Body: &ast.BlockStmt{List: cases}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

func (r *rw) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(r.vs("Rcv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
			switch id.Name {
			case "close":
				n := "Close"
				if c := r.chanType(x.Args[0]); c != nil && c.Dir() == types.SendOnly {
					n = "CloseS"
				}
				return call(r.vs(n), r.expr(x.Args[0]))
			case "len", "cap":
				if c := r.chanType(x.Args[0]); c != nil {
					return call(r.vs(map[string]string{"len": "ChanLen", "cap": "ChanCap"}[id.Name]), r.expr(x.Args[0]))
				}
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
	case *ast.FuncLit:
		r.block(x.Body)
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.CompositeLit:
		r.exprs(x.Elts)
	case *ast.KeyValueExpr:
		x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
	case *ast.IndexExpr:
		x.X, x.Index = r.expr(x.X), r.expr(x.Index)
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		if x.Low != nil {
			x.Low = r.expr(x.Low)
		}
		if x.High != nil {
			x.High = r.expr(x.High)
		}
		if x.Max != nil {
			x.Max = r.expr(x.Max)
		}
	case *ast.SelectorExpr:
		x.X = r.expr(x.X)
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
	}
	return e
}
