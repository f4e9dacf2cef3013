package main

// mut FILE            -> lists mutants: index\tline\tdescription
// mut FILE IDX OUT    -> writes mutant
import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mu struct {
	pos  token.Pos
	desc string
	do   func()
}

func isLog(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	switch x := s.X.(type) {
	case *ast.Ident:
		return x.Name == "log" || x.Name == "fmt" || x.Name == "logger"
	case *ast.CallExpr:
		return isLog(x)
	}
	return false
}

func main() {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mu
	add := func(p token.Pos, d string, do func()) { ms = append(ms, mu{p, d, do}) }
	swaps := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.XOR: {token.OR},
	}
	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		for i := range list {
			i := i
			s := list[i]
			switch t := s.(type) {
			case *ast.ExprStmt:
				if !isLog(t.X) {
					add(s.Pos(), "delete call", func() { list[i] = &ast.EmptyStmt{} })
				}
			case *ast.AssignStmt:
				if t.Tok != token.DEFINE {
					add(s.Pos(), "delete assignment", func() {
						for k, r := range t.Rhs {
							_ = k
							_ = r
						}
						var l, r []ast.Expr
						for range t.Rhs {
							l = append(l, ast.NewIdent("_"))
						}
						r = t.Rhs
						if len(t.Rhs) == 1 && len(t.Lhs) > 1 {
							l = nil
							for range t.Lhs {
								l = append(l, ast.NewIdent("_"))
							}
						}
						list[i] = &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: r}
					})
				}
			case *ast.IncDecStmt:
				add(s.Pos(), "delete incdec", func() { list[i] = &ast.EmptyStmt{} })
			case *ast.DeferStmt:
				add(s.Pos(), "delete defer", func() { list[i] = &ast.EmptyStmt{} })
			case *ast.GoStmt:
				add(s.Pos(), "go -> call", func() { list[i] = &ast.ExprStmt{X: t.Call} })
			case *ast.BranchStmt:
				add(s.Pos(), "delete "+t.Tok.String(), func() { list[i] = &ast.EmptyStmt{} })
				if t.Tok == token.CONTINUE {
					add(s.Pos(), "continue->break", func() { t.Tok = token.BREAK })
				}
				if t.Tok == token.BREAK {
					add(s.Pos(), "break->continue", func() { t.Tok = token.CONTINUE })
				}
			case *ast.ReturnStmt:
				if i > 0 || true {
					for k := range t.Results {
						k := k
						if id, ok := t.Results[k].(*ast.Ident); ok && id.Name == "err" {
							add(s.Pos(), "return nil error", func() { t.Results[k] = ast.NewIdent("nil") })
						}
						if c, ok := t.Results[k].(*ast.CallExpr); ok && isLog(c) {
							add(s.Pos(), "return nil error", func() { t.Results[k] = ast.NewIdent("nil") })
						}
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.GenDecl:
			if t.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			stmts(t.List)
		case *ast.CaseClause:
			stmts(t.Body)
		case *ast.BinaryExpr:
			for _, o := range swaps[t.Op] {
				o := o
				add(t.OpPos, fmt.Sprintf("%s -> %s", t.Op, o), func() { t.Op = o })
			}
		case *ast.IfStmt:
			add(t.Pos(), "if false", func() {
				t.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: t.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
			})
			add(t.Pos(), "if true", func() {
				t.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: t.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
			})
		case *ast.CallExpr:
			if isLog(t) {
				return false
			}
		case *ast.Field:
			return false
		case *ast.BasicLit:
			switch t.Kind {
			case token.INT:
				v, err := strconv.ParseInt(t.Value, 0, 64)
				if err == nil {
					add(t.Pos(), fmt.Sprintf("%s+1", t.Value), func() { t.Value = strconv.FormatInt(v+1, 10) })
					if v > 0 {
						add(t.Pos(), fmt.Sprintf("%s-1", t.Value), func() { t.Value = strconv.FormatInt(v-1, 10) })
					}
				}
			case token.STRING:
				if len(t.Value) <= 12 {
					switch t.Value {
					case `"1"`:
						add(t.Pos(), `"1" -> "0"`, func() { t.Value = `"0"` })
					case `"0"`:
						add(t.Pos(), `"0" -> "1"`, func() { t.Value = `"1"` })
					default:
						add(t.Pos(), t.Value+" -> x", func() { t.Value = `"x"` })
					}
				}
			}
		case *ast.Ident:
			if t.Name == "true" {
				add(t.Pos(), "true->false", func() { t.Name = "false" })
			} else if t.Name == "false" {
				add(t.Pos(), "false->true", func() { t.Name = "true" })
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, fs.Position(m.pos).Line, m.desc)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	ms[i].do()
	var b bytes.Buffer
	if err := format.Node(&b, fs, f); err != nil {
		panic(err)
	}
	os.WriteFile(os.Args[3], b.Bytes(), 0644)
}
