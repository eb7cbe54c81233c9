// mutate makes small changes to a Go file, to measure how sensitive the checks are.
//
//	mutate list FILE            one line per mutant: number, line, description
//	mutate apply FILE N         writes the mutant to standard output
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	off, end int
	text     string
	line     int
	what     string
}

func main() {
	src, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		panic(err)
	}
	var ms []mut
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(a, b token.Pos, t string, what string) {
		ms = append(ms, mut{off(a), off(b), t, fset.Position(a).Line, what})
	}
	rel := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}}
	stmt := func(s ast.Stmt) {
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
			add(s.Pos(), s.End(), "", "delete "+short(text(s)))
			if d, ok := s.(*ast.DeferStmt); ok {
				add(d.Pos(), d.Call.Pos(), "", "undefer "+short(text(s)))
			}
			if d, ok := s.(*ast.GoStmt); ok {
				add(d.Pos(), d.Call.Pos(), "", "ungo "+short(text(s)))
			}
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				t := ""
				for i, r := range s.Rhs {
					if i > 0 {
						t += ";"
					}
					t += "_ = " + text(r)
				}
				if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
					t = ""
				}
				add(s.Pos(), s.End(), t, "delete "+short(text(s)))
			}
		case *ast.BranchStmt:
			if s.Tok == token.BREAK && s.Label == nil {
				add(s.Pos(), s.End(), "continue", "break to continue")
			}
			if s.Tok == token.CONTINUE && s.Label == nil {
				add(s.Pos(), s.End(), "break", "continue to break")
			}
		case *ast.IfStmt:
			if s.Init == nil {
				add(s.Cond.Pos(), s.Cond.End(), "("+text(s.Cond)+") && false", "never if "+short(text(s.Cond)))
				add(s.Cond.Pos(), s.Cond.End(), "("+text(s.Cond)+") || true", "always if "+short(text(s.Cond)))
			} else {
				add(s.Cond.Pos(), s.Cond.End(), "("+text(s.Cond)+") && false", "never if "+short(text(s.Cond)))
			}
		case *ast.ReturnStmt:
			for _, r := range s.Results {
				switch text(r) {
				case "true":
					add(r.Pos(), r.End(), "false", "return false")
				case "false":
					add(r.Pos(), r.End(), "true", "return true")
				case "err":
					add(r.Pos(), r.End(), "nil", "return nil for err")
				}
			}
		}
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				stmt(s)
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				stmt(s)
			}
			if len(n.List) > 1 {
				for i, e := range n.List {
					if i > 0 {
						add(n.List[i-1].End(), e.End(), "", "drop case "+text(e))
					}
				}
			}
		case *ast.BinaryExpr:
			for _, t := range rel[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, "op "+short(text(n))+" to "+t)
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.OpPos, n.X.Pos(), "", "drop ! of "+short(text(n)))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				v, err := strconv.ParseInt(n.Value, 0, 64)
				if err == nil {
					add(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), "const "+n.Value+"+1")
					if v > 0 {
						add(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), "const "+n.Value+"-1")
					}
				}
			}
		case *ast.IfStmt:
			if e, ok := n.Else.(*ast.IfStmt); ok && e.Init == nil {
				add(e.Cond.Pos(), e.Cond.End(), "("+text(e.Cond)+") && false", "never else if "+short(text(e.Cond)))
			}
		}
		return true
	})
	if os.Args[1] == "list" {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, m.line, m.what)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[3])
	m := ms[i]
	os.Stdout.Write(src[:m.off])
	os.Stdout.WriteString(m.text)
	os.Stdout.Write(src[m.end:])
}

func short(s string) string {
	for i, c := range s {
		if c == '\n' || i > 60 {
			return s[:i] + "..."
		}
	}
	return s
}
