// mutate lists or applies small changes of Go files, to see which of them the checks notice.
//
//	mutate list FILE...          one line per change: N file:line description
//	mutate apply N FILE...       makes change N (of the same list)
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	file       string
	line       int
	from, to   int
	text, desc string
}

func main() {
	mode, files := os.Args[1], os.Args[2:]
	n := -1
	if mode == "apply" {
		n, _ = strconv.Atoi(files[0])
		files = files[1:]
	}
	var all []edit
	for _, f := range files {
		all = append(all, edits(f)...)
	}
	for i, e := range all {
		if mode == "list" {
			fmt.Printf("%d %s:%d %s\n", i, e.file, e.line, e.desc)
		} else if i == n {
			src, _ := os.ReadFile(e.file)
			out := string(src[:e.from]) + e.text + string(src[e.to:])
			if err := os.WriteFile(e.file, []byte(out), 0644); err != nil {
				panic(err)
			}
			fmt.Printf("%d %s:%d %s\n", i, e.file, e.line, e.desc)
		}
	}
}

func edits(file string) []edit {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var l []edit
	add := func(a, b token.Pos, text, desc string) {
		old := strings.Join(strings.Fields(string(src[off(a):off(b)])), " ")
		if len(old) > 90 {
			old = old[:90] + "..."
		}
		l = append(l, edit{file, fset.Position(a).Line, off(a), off(b), text, desc + ": " + old + " -> " + text})
	}
	isLog := func(e ast.Expr) bool {
		c, ok := e.(*ast.CallExpr)
		if !ok {
			return false
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		x, ok := s.X.(*ast.Ident)
		return ok && (x.Name == "log" || x.Name == "fmt")
	}
	op := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok != token.IMPORT
		case *ast.BinaryExpr:
			if t, ok := op[x.Op]; ok {
				if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
					return true
				}
				if b, ok := x.Y.(*ast.BasicLit); ok && b.Kind == token.STRING && x.Op == token.ADD {
					return true
				}
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, "operator")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil {
					add(x.Pos(), x.End(), strconv.Itoa(v+1), "constant")
					if v > 0 {
						add(x.Pos(), x.End(), strconv.Itoa(v-1), "constant")
					}
				}
			}
		case *ast.IfStmt:
			if x.Else == nil && x.Init == nil {
				log := len(x.Body.List) > 0
				for _, s := range x.Body.List {
					e, ok := s.(*ast.ExprStmt)
					log = log && ok && isLog(e.X)
				}
				if !log {
					add(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "never")
				}
			}
		case *ast.ExprStmt:
			if !isLog(x.X) {
				add(x.Pos(), x.End(), "", "drop")
			}
		case *ast.DeferStmt:
			add(x.Pos(), x.Call.Pos(), "", "undefer")
		case *ast.GoStmt:
			if _, lit := x.Call.Fun.(*ast.FuncLit); true {
				_ = lit
				add(x.Pos(), x.Call.Pos(), "", "ungo")
				add(x.Pos(), x.End(), "", "drop")
			}
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
				add(x.Pos(), x.End(), "", "drop")
			}
		case *ast.IncDecStmt:
			add(x.Pos(), x.End(), "", "drop")
		case *ast.SendStmt:
			add(x.Pos(), x.End(), "", "drop")
		case *ast.BranchStmt:
			if x.Tok == token.BREAK {
				add(x.Pos(), x.End(), "", "drop")
				add(x.Pos(), x.End(), "continue", "swap")
			}
			if x.Tok == token.CONTINUE {
				add(x.Pos(), x.End(), "break", "swap")
				add(x.Pos(), x.End(), "", "drop")
			}
		case *ast.ReturnStmt:
			if k := len(x.Results); k > 0 {
				if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
					add(id.Pos(), id.End(), "nil", "error")
				}
			} else {
				add(x.Pos(), x.End(), "", "drop")
			}
		}
		return true
	})
	return l
}
