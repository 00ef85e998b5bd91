// Command mutate lists the small changes that can be made to a Go file, or
// makes one of them: mutate FILE lists them, mutate FILE K prints the file
// with change number K.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var l []edit
	add := func(from, to token.Pos, text string) {
		a, b := off(from), off(to)
		old := string(src[a:b])
		if i := bytes.IndexByte(src[a:b], '\n'); i >= 0 {
			old = old[:i] + "..."
		}
		l = append(l, edit{a, b, text, fmt.Sprintf("line %d: %s -> %s", fset.Position(from).Line, old, text)})
	}
	swap := map[token.Token][]string{
		token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"/"}, token.QUO: {"*"},
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				// messages do not matter
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "panic" {
					return false
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					if s.Sel.Name == "debugPrint" || s.Sel.Name == "Errorf" || s.Sel.Name == "New" || s.Sel.Name == "Sprintf" {
						return false
					}
				}
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					// either side alone
					add(x.X.Pos(), x.Y.Pos(), "")
					add(x.OpPos, x.Y.End(), "")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						add(x.Pos(), x.End(), strconv.Itoa(v+1))
						if v > 0 {
							add(x.Pos(), x.End(), strconv.Itoa(v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true")
				}
			case *ast.IfStmt:
				if _, ok := x.Cond.(*ast.BinaryExpr); !ok {
					add(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
				}
				add(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
				add(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.GoStmt:
				add(n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					var b bytes.Buffer
					for _, r := range x.Rhs {
						fmt.Fprintf(&b, "_ = %s;", src[off(r.Pos()):off(r.End())])
					}
					if len(x.Lhs) == len(x.Rhs) {
						add(n.Pos(), n.End(), b.String())
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Low.Pos(), x.Low.End(), string(src[off(x.Low.Pos()):off(x.Low.End())])+"+1")
				}
				if x.High != nil {
					add(x.High.Pos(), x.High.End(), string(src[off(x.High.Pos()):off(x.High.End())])+"-1")
				}
			case *ast.RangeStmt:
				add(x.X.Pos(), x.X.End(), string(src[off(x.X.Pos()):off(x.X.End())])+"[:0]")
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if c, ok := r.(*ast.CallExpr); ok {
						_ = c
					}
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						add(id.Pos(), id.End(), "nil")
					}
				}
			}
			return true
		})
	}
	if len(os.Args) < 3 {
		for i, e := range l {
			fmt.Printf("%d\t%s\n", i, e.what)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	e := l[k]
	os.Stdout.Write(src[:e.from])
	os.Stdout.WriteString(e.text)
	os.Stdout.Write(src[e.to:])
}
