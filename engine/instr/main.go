// Command instr rewrites, in place, the Go sources of a module copy so that
// their goroutines, channels, locks, random numbers and map iterations go
// through the controlled scheduler.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

var (
	modPath string
	noMap   = flag.Bool("nomap", false, "leave map ranges alone")
	noRand  = flag.Bool("norand", false, "leave math/rand alone")
	counts  = map[string]int{}
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Module     *struct{ Path, GoVersion string }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	dir := flag.String("dir", "", "module copy")
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Module", "./...")
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	gm, err := os.ReadFile(filepath.Join(*dir, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	goVer := "1.21"
	for _, l := range strings.Split(string(gm), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			modPath = f[1]
		}
		if len(f) == 2 && f[0] == "go" {
			p := strings.Split(f[1], ".")
			if len(p) >= 2 {
				if n, _ := strconv.Atoi(p[1]); n > 21 {
					goVer = p[0] + "." + p[1]
				}
			}
		}
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err != nil {
			break
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == modPath {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range pkgs {
		if strings.Contains(p.ImportPath, "/zzverif") {
			continue
		}
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, full, nil, 0)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			names = append(names, full)
		}
		info := &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{},
			Uses:  map[*ast.Ident]types.Object{},
			Defs:  map[*ast.Ident]types.Object{},
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		for i, af := range files {
			src, _ := os.ReadFile(names[i])
			res := rewriteFile(fset, af, info, buildTag(string(src), goVer))
			if err := os.WriteFile(names[i], res, 0o644); err != nil {
				die("%v", err)
			}
		}
	}
	b, _ := json.Marshal(counts)
	fmt.Println(string(b))
}

func buildTag(src, ver string) string {
	tag := "go" + ver
	for _, l := range strings.Split(src, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if constraint.IsGoBuild(t) {
			if x, err := constraint.Parse(t); err == nil {
				return "//go:build (" + x.String() + ") && " + tag
			}
		}
	}
	return "//go:build " + tag
}

type rewriter struct {
	info  *types.Info
	fset  *token.FileSet
	n     int
	used  map[string]bool // "fmt.Sprintf"-like keepers
	sched bool
	file  string
}

func rewriteFile(fset *token.FileSet, f *ast.File, info *types.Info, tag string) []byte {
	r := &rewriter{info: info, fset: fset, used: map[string]bool{}}
	r.file = filepath.Base(fset.Position(f.Package).Filename)
	shim := map[string]string{"sync": "sync", "sync/atomic": "atomic"}
	if !*noRand {
		shim["math/rand"] = "rand"
	}
	for i := range f.Decls {
		f.Decls[i] = r.node(f.Decls[i]).(ast.Decl)
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if s, ok := shim[path]; ok {
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/zzverif/shim/" + s)}
				counts["import "+path]++
			}
		}
	}
	if r.sched {
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{
			&ast.ImportSpec{Name: ast.NewIdent("zvsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/zzverif/sched")}},
		}}}, f.Decls...)
	}
	f.Comments = nil
	var buf bytes.Buffer
	buf.WriteString(tag + "\n\n")
	// detach positions so that the printer lays everything out anew
	if err := format.Node(&buf, token.NewFileSet(), stripPos(f)); err != nil {
		die("print %s: %v", r.file, err)
	}
	for k := range r.used {
		fmt.Fprintf(&buf, "\nvar _ = %s\n", k)
	}
	return buf.Bytes()
}

// stripPos zeroes the positions of the tree (keeping those with a meaning).
func stripPos(f *ast.File) *ast.File {
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		v := reflect.ValueOf(n)
		if v.Kind() != reflect.Ptr || v.IsNil() {
			return true
		}
		v = v.Elem()
		if v.Kind() != reflect.Struct {
			return true
		}
		for i := 0; i < v.NumField(); i++ {
			fl := v.Field(i)
			if fl.Type() == reflect.TypeOf(token.Pos(0)) && fl.CanSet() {
				name := v.Type().Field(i).Name
				switch name {
				case "Ellipsis", "Lparen", "Rparen", "Assign", "Opening", "Closing":
					if fl.Int() != 0 {
						fl.SetInt(1)
					}
				case "Lbrace", "Rbrace":
					if fl.Int() != 0 {
						fl.SetInt(1)
					}
				default:
					fl.SetInt(0)
				}
			}
		}
		return true
	})
	return f
}

// --- generic traversal -----------------------------------------------------

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	declT = reflect.TypeOf((*ast.Decl)(nil)).Elem()
	specT = reflect.TypeOf((*ast.Spec)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

func (r *rewriter) children(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	v = v.Elem()
	for i := 0; i < v.NumField(); i++ {
		fl := v.Field(i)
		name := v.Type().Field(i).Name
		if name == "Obj" || name == "Scope" || name == "Unresolved" || name == "Doc" || name == "Comment" || name == "Comments" || name == "Imports" {
			continue
		}
		switch fl.Kind() {
		case reflect.Interface, reflect.Ptr:
			if fl.IsNil() || !fl.Type().Implements(nodeT) {
				continue
			}
			nn := r.node(fl.Interface().(ast.Node))
			if nn != fl.Interface() {
				fl.Set(reflect.ValueOf(nn))
			}
		case reflect.Slice:
			if !fl.Type().Elem().Implements(nodeT) {
				continue
			}
			for j := 0; j < fl.Len(); j++ {
				e := fl.Index(j)
				if e.IsNil() {
					continue
				}
				nn := r.node(e.Interface().(ast.Node))
				if nn != e.Interface() {
					e.Set(reflect.ValueOf(nn))
				}
			}
		}
	}
}

func (r *rewriter) tmp(p string) string {
	r.n++
	return fmt.Sprintf("zv%s%d", p, r.n)
}

func (r *rewriter) schedSel(name string) ast.Expr {
	r.sched = true
	return &ast.SelectorExpr{X: ast.NewIdent("zvsched"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func method(x ast.Expr, m string, args ...ast.Expr) *ast.CallExpr {
	switch x.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.IndexExpr, *ast.ParenExpr:
	default:
		x = &ast.ParenExpr{X: x}
	}
	return call(&ast.SelectorExpr{X: x, Sel: ast.NewIdent(m)}, args...)
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func define(names []string, vals ...ast.Expr) ast.Stmt {
	var l []ast.Expr
	for _, n := range names {
		l = append(l, id(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: vals}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rewriter) foreign(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.foreign(x.X)
	case *ast.CallExpr:
		return r.foreignObj(x.Fun)
	case *ast.SelectorExpr:
		return r.foreignObj(x)
	}
	return false
}

func (r *rewriter) foreignObj(e ast.Expr) bool {
	var o types.Object
	switch x := e.(type) {
	case *ast.Ident:
		o = r.info.Uses[x]
	case *ast.SelectorExpr:
		o = r.info.Uses[x.Sel]
	}
	if o == nil || o.Pkg() == nil {
		return false
	}
	p := o.Pkg().Path()
	return p != modPath && !strings.HasPrefix(p, modPath+"/")
}

// isChan: a channel of the rewritten code.
func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Chan); !ok {
		return false
	}
	return !r.foreign(e)
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) builtin(e ast.Expr) string {
	if i, ok := e.(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// pkgFunc returns "path.Name" for a qualified package-level identifier.
func (r *rewriter) pkgFunc(e ast.Expr) (string, string) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	x, ok := s.X.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := r.info.Uses[x].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path() + "." + s.Sel.Name, x.Name
}

var replaced = map[string]string{
	"runtime.NumCPU":       "NumCPU",
	"runtime.GOMAXPROCS":   "GOMAXPROCS",
	"runtime.Gosched":      "Gosched",
	"runtime.NumGoroutine": "NumGoroutine",
	"fmt.Sprintf":          "Sprintf",
	"fmt.Sprint":           "Sprint",
	"fmt.Sprintln":         "Sprintln",
	"fmt.Errorf":           "Errorf",
	"os.Open":              "OsOpen",
	"os.Create":            "OsCreate",
}

var keep = map[string]string{"runtime": "GC", "fmt": "Sprint", "os": "Open"}

func arrow(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.node(e).(ast.Expr)
}

func (r *rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	return r.node(b).(*ast.BlockStmt)
}

func (r *rewriter) node(n ast.Node) ast.Node {
	switch x := n.(type) {
	case *ast.TypeSpec:
		if _, ok := x.Type.(*ast.ChanType); ok {
			x.Assign = 1
		}
	case *ast.ChanType:
		counts["chan type"]++
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.schedSel("Chan"), Index: r.expr(x.Value)}}
	case *ast.SendStmt:
		if r.isChan(x.Chan) {
			counts["send"]++
			return &ast.ExprStmt{X: method(r.expr(x.Chan), "Send", r.expr(x.Value))}
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW && r.isChan(x.X) {
			counts["receive"]++
			return method(r.expr(x.X), "Recv")
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u := arrow(x.Rhs[0]); u != nil && r.isChan(u.X) {
				counts["receive"]++
				for i := range x.Lhs {
					x.Lhs[i] = r.expr(x.Lhs[i])
				}
				x.Rhs[0] = method(r.expr(u.X), "Recv2")
				return x
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u := arrow(x.Values[0]); u != nil && r.isChan(u.X) {
				x.Type = r.expr(x.Type)
				x.Values[0] = method(r.expr(u.X), "Recv2")
				return x
			}
		}
	case *ast.SelectorExpr:
		if f, alias := r.pkgFunc(x); f != "" {
			if s, ok := replaced[f]; ok {
				counts[f]++
				pkg := f[:strings.Index(f, ".")]
				r.used[alias+"."+keep[pkg]] = true
				return r.schedSel(s)
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.CallExpr:
		switch b := r.builtin(x.Fun); b {
		case "close", "len", "cap":
			if len(x.Args) == 1 && r.isChan(x.Args[0]) {
				counts[b+"(chan)"]++
				m := map[string]string{"close": "Close", "len": "Len", "cap": "Cap"}[b]
				return method(r.expr(x.Args[0]), m)
			}
		case "make":
			if t := r.typeOf(x.Args[0]); t != nil {
				if ct, ok := t.Underlying().(*types.Chan); ok {
					counts["make(chan)"]++
					var elem ast.Expr
					if lit, ok := x.Args[0].(*ast.ChanType); ok {
						elem = r.expr(lit.Value)
					} else {
						s := types.TypeString(ct.Elem(), func(p *types.Package) string { return p.Name() })
						e, err := parser.ParseExpr(s)
						if err != nil {
							die("element type %s", s)
						}
						elem = e
					}
					size := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
					if len(x.Args) > 1 {
						size = call(id("int"), r.expr(x.Args[1]))
					}
					return call(&ast.IndexExpr{X: r.schedSel("MakeChan"), Index: elem}, size)
				}
			}
		}
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if s, ok := x.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(s, x.Label)
		}
	}
	r.children(n)
	return n
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func addr(e ast.Expr) ast.Expr {
	if blank(e) {
		return id("nil")
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func (r *rewriter) addressable(e ast.Expr) bool {
	if blank(e) {
		return true
	}
	if ix, ok := e.(*ast.IndexExpr); ok && r.isMap(ix.X) {
		return false
	}
	return true
}

func orBlank(e ast.Expr) ast.Expr {
	if e == nil {
		return id("_")
	}
	return e
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Node {
	switch {
	case r.isChan(x.X):
		counts["range chan"]++
		ch := r.expr(x.X)
		ok := r.tmp("ok")
		c := r.tmp("ch")
		body := r.block(x.Body)
		v := orBlank(x.Key)
		if x.Key != nil && x.Tok == token.ASSIGN && !blank(x.Key) {
			t := r.tmp("v")
			body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{r.expr(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}}}, body.List...)
			v = id(t)
		}
		_ = c
		// the channel expression is evaluated again at each iteration: bind it
		fs := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{v, id(ok), id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.schedSel("RangeChan"), ch)}},
			Cond: id(ok),
			Post: &ast.AssignStmt{Lhs: []ast.Expr{clone(v), id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{method(id(c), "Recv2")}},
			Body: body,
		}
		return fs
	case r.isMap(x.X) && !*noMap && r.addressable(x.Key) && r.addressable(x.Value):
		counts["range map"]++
		it := r.tmp("it")
		m := r.expr(x.X)
		def := x.Tok == token.DEFINE
		k, v := r.expr(x.Key), r.expr(x.Value)
		l := []ast.Expr{id(it), id("_"), id("_")}
		if def {
			l[1], l[2] = orBlank(k), orBlank(v)
		}
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.schedSel("Iter"), m)}},
			Cond: method(id(it), "Next", addr(clone(k)), addr(clone(v))),
			Body: r.block(x.Body),
		}
	}
	r.children(x)
	return x
}

// clone copies an identifier so that no node appears twice in the tree.
func clone(e ast.Expr) ast.Expr {
	if i, ok := e.(*ast.Ident); ok {
		return id(i.Name)
	}
	return e
}

func (r *rewriter) goStmt(x *ast.GoStmt) ast.Node {
	counts["go"]++
	pos := r.fset.Position(x.Go)
	what := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", r.file, pos.Line))}
	c := x.Call
	var pre []ast.Stmt
	if r.builtin(c.Fun) != "" {
		return &ast.ExprStmt{X: call(r.schedSel("Go"), what, closure(r.node(c).(*ast.CallExpr)))}
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		inline := tv.Value != nil || tv.IsNil()
		if t, ok := tv.Type.(*types.Tuple); ok && t.Len() > 1 {
			inline = true
		}
		ra := r.expr(a)
		if inline {
			args[i] = ra
			continue
		}
		t := r.tmp("a")
		pre = append(pre, define([]string{t}, ra))
		args[i] = id(t)
	}
	var fun ast.Expr
	if _, ok := c.Fun.(*ast.FuncLit); ok {
		fun = r.expr(c.Fun)
	} else {
		isFunc := false
		if i, ok := c.Fun.(*ast.Ident); ok {
			_, isFunc = r.info.Uses[i].(*types.Func)
		}
		if s, ok := c.Fun.(*ast.SelectorExpr); ok {
			if xi, ok := s.X.(*ast.Ident); ok {
				if _, ok := r.info.Uses[xi].(*types.PkgName); ok {
					isFunc = true
				}
			}
		}
		fun = r.expr(c.Fun)
		if !isFunc {
			t := r.tmp("f")
			pre = append([]ast.Stmt{define([]string{t}, fun)}, pre...)
			fun = id(t)
		}
	}
	nc := call(fun, args...)
	if c.Ellipsis != 0 {
		nc.Ellipsis = 1
	}
	pre = append(pre, &ast.ExprStmt{X: call(r.schedSel("Go"), what, closure(nc))})
	return &ast.BlockStmt{Lbrace: 1, List: pre, Rbrace: 1}
}

func closure(c *ast.CallExpr) ast.Expr {
	return &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}},
	}
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Node {
	counts["select"]++
	s := r.tmp("sel")
	hasDef := false
	var pre []ast.Stmt
	var clauses []ast.Stmt
	k := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		body := make([]ast.Stmt, 0, len(cc.Body)+1)
		if cc.Comm == nil {
			hasDef = true
			for _, b := range cc.Body {
				body = append(body, r.node(b).(ast.Stmt))
			}
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: body})
			continue
		}
		c := r.tmp("c")
		bindChan := func(e ast.Expr) {
			if r.foreign(e) {
				die("select on a foreign channel")
			}
			pre = append(pre, define([]string{c}, r.expr(e)))
		}
		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			bindChan(comm.Chan)
			pre = append(pre, &ast.ExprStmt{X: method(id(c), "SelSend", id(s), r.expr(comm.Value))})
		case *ast.ExprStmt:
			bindChan(arrow(comm.X).X)
			pre = append(pre, &ast.ExprStmt{X: method(id(c), "SelRecv", id(s))})
		case *ast.AssignStmt:
			bindChan(arrow(comm.Rhs[0]).X)
			pre = append(pre, &ast.ExprStmt{X: method(id(c), "SelRecv", id(s))})
			m := "Got"
			if len(comm.Lhs) == 2 {
				m = "Got2"
			}
			var l []ast.Expr
			for _, e := range comm.Lhs {
				l = append(l, r.expr(e))
			}
			body = append(body, &ast.AssignStmt{Lhs: l, Tok: comm.Tok, Rhs: []ast.Expr{method(id(c), m, id(s))}})
		}
		for _, b := range cc.Body {
			body = append(body, r.node(b).(ast.Stmt))
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(k)}}, Body: body})
		k++
	}
	def := "false"
	if hasDef {
		def = "true"
	}
	var list []ast.Stmt
	list = append(list, define([]string{s}, call(r.schedSel("NewSel"), id(def))))
	list = append(list, pre...)
	var sw ast.Stmt = &ast.SwitchStmt{Tag: method(id(s), "Do"), Body: &ast.BlockStmt{List: clauses}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	list = append(list, sw)
	return &ast.BlockStmt{List: list}
}
