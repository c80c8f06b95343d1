//go:build ignore

// mutate lists and makes small changes of Go source files.
//
//	go run mutate.go list FILE...            one line per change: file, number, position, what
//	go run mutate.go make FILE NUMBER OUT    the file with that change
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	pos  token.Pos
	what string
	do   func()
}

func changes(f *ast.File) []change {
	var cs []change
	add := func(p token.Pos, what string, do func()) { cs = append(cs, change{p, what, do}) }
	stmts := func(list *[]ast.Stmt) {
		for i, s := range *list {
			i, s := i, s
			drop := func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) }
			switch x := s.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), "drop assignment", drop)
				}
			case *ast.ExprStmt:
				if c, ok := x.X.(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
						add(s.Pos(), "drop panic", drop)
					} else {
						add(s.Pos(), "drop call", drop)
					}
				}
			case *ast.IfStmt:
				if x.Else == nil {
					add(s.Pos(), "drop if", drop)
				} else {
					add(s.Pos(), "drop else", func() { x.Else = nil })
				}
			case *ast.BranchStmt:
				add(s.Pos(), "drop "+x.Tok.String(), drop)
			case *ast.IncDecStmt, *ast.DeferStmt, *ast.ForStmt, *ast.RangeStmt:
				add(s.Pos(), "drop statement", drop)
			case *ast.ReturnStmt:
				if i < len(*list)-1 || len(x.Results) == 0 {
					add(s.Pos(), "drop return", drop)
				}
			}
		}
		for i := 0; i+1 < len(*list); i++ {
			i := i
			if _, ok := (*list)[i].(*ast.ExprStmt); ok {
				if _, ok := (*list)[i+1].(*ast.ExprStmt); ok {
					add((*list)[i].Pos(), "swap statements", func() { (*list)[i], (*list)[i+1] = (*list)[i+1], (*list)[i] })
				}
			}
		}
	}
	not := func(e *ast.Expr, what string) {
		old := *e
		add(old.Pos(), "negate "+what, func() { *e = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: old}} })
		add(old.Pos(), "true "+what, func() {
			*e = &ast.BinaryExpr{X: &ast.Ident{Name: "true"}, Op: token.LOR, Y: &ast.ParenExpr{X: old}}
		})
		add(old.Pos(), "false "+what, func() {
			*e = &ast.BinaryExpr{X: &ast.Ident{Name: "false"}, Op: token.LAND, Y: &ast.ParenExpr{X: old}}
		})
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			stmts(&x.List)
		case *ast.CaseClause:
			stmts(&x.Body)
			if len(x.List) > 1 {
				for i := range x.List {
					i := i
					add(x.List[i].Pos(), "drop from case list", func() { x.List = append(append([]ast.Expr{}, x.List[:i]...), x.List[i+1:]...) })
				}
			}
		case *ast.SwitchStmt:
			for i := range x.Body.List {
				i := i
				add(x.Body.List[i].Pos(), "drop case", func() {
					x.Body.List = append(append([]ast.Stmt{}, x.Body.List[:i]...), x.Body.List[i+1:]...)
				})
			}
		case *ast.TypeSwitchStmt:
			for i := range x.Body.List {
				i := i
				add(x.Body.List[i].Pos(), "drop case", func() {
					x.Body.List = append(append([]ast.Stmt{}, x.Body.List[:i]...), x.Body.List[i+1:]...)
				})
			}
		case *ast.IfStmt:
			not(&x.Cond, "if")
		case *ast.BinaryExpr:
			sw := map[token.Token][]token.Token{token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
				token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR}, token.ADD: {token.SUB}, token.SUB: {token.ADD}}
			for _, t := range sw[x.Op] {
				t := t
				add(x.OpPos, x.Op.String()+" -> "+t.String(), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				l, r := x.X, x.Y
				unit := "true"
				if x.Op == token.LOR {
					unit = "false"
				}
				add(l.Pos(), "drop left", func() { x.X = &ast.Ident{Name: unit} })
				add(r.Pos(), "drop right", func() { x.Y = &ast.Ident{Name: unit} })
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, _ := strconv.Atoi(x.Value)
				add(x.Pos(), "+1", func() { x.Value = strconv.Itoa(v + 1) })
				if v > 0 {
					add(x.Pos(), "-1", func() { x.Value = strconv.Itoa(v - 1) })
				}
			case token.STRING:
				s, _ := strconv.Unquote(x.Value)
				add(x.Pos(), "longer string "+x.Value, func() { x.Value = strconv.Quote(s + "x") })
				if s != "" {
					add(x.Pos(), "empty string "+x.Value, func() { x.Value = `""` })
				}
			case token.CHAR:
				add(x.Pos(), "other char "+x.Value, func() { x.Value = `'q'` })
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), "true -> false", func() { x.Name = "false" })
			} else if x.Name == "false" {
				add(x.Pos(), "false -> true", func() { x.Name = "true" })
			}
		case *ast.ReturnStmt:
			for i := range x.Results {
				i := i
				if id, ok := x.Results[i].(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
					add(x.Results[i].Pos(), "return nil", func() { x.Results[i] = &ast.Ident{Name: "nil"} })
				}
			}
		case *ast.CallExpr:
			if len(x.Args) == 2 {
				add(x.Pos(), "swap arguments", func() { x.Args[0], x.Args[1] = x.Args[1], x.Args[0] })
			}
			if len(x.Args) == 1 && !x.Ellipsis.IsValid() {
				a := x.Args[0]
				_ = a
			}
		case *ast.KeyValueExpr:
		case *ast.CompositeLit:
			for i := range x.Elts {
				i := i
				if _, ok := x.Elts[i].(*ast.KeyValueExpr); ok {
					add(x.Elts[i].Pos(), "drop element", func() { x.Elts = append(append([]ast.Expr{}, x.Elts[:i]...), x.Elts[i+1:]...) })
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Pos(), "slice from start", func() { x.Low = nil })
			}
			if x.High != nil {
				add(x.Pos(), "slice to end", func() { x.High = nil })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), "drop !", func() { x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X} })
			}
		case *ast.RangeStmt:
			if id, ok := x.X.(*ast.Ident); ok {
				add(x.Pos(), "range skips first", func() {
					x.X = &ast.SliceExpr{X: id, Low: &ast.CallExpr{Fun: &ast.Ident{Name: "min"}, Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}, &ast.CallExpr{Fun: &ast.Ident{Name: "len"}, Args: []ast.Expr{id}}}}}
				})
			}
		}
		return true
	})
	return cs
}

func main() {
	if os.Args[1] == "list" {
		for _, name := range os.Args[2:] {
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, name, nil, parser.ParseComments)
			if err != nil {
				panic(err)
			}
			for i, c := range changes(f) {
				fmt.Printf("%s\t%d\t%d\t%s\n", name, i, fs.Position(c.pos).Line, c.what)
			}
		}
		return
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[2], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	n, _ := strconv.Atoi(os.Args[3])
	changes(f)[n].do()
	var b bytes.Buffer
	if err := format.Node(&b, fs, f); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	os.WriteFile(os.Args[4], b.Bytes(), 0o644)
}
