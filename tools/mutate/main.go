// mutate lists the small changes of one Go file, or writes the file with one of them.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
)

var ops = map[token.Token][]token.Token{
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS, token.GEQ}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR, token.LEQ},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.AND: {token.OR}, token.OR: {token.AND, token.XOR}, token.XOR: {token.OR}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
}
var names = map[string][]string{
	"Add": {"Sub"}, "Sub": {"Add"}, "Mul": {"Div"}, "Div": {"Mod"}, "Lt": {"Gt"}, "Gt": {"Lt"}, "Slt": {"Lt", "Sgt"}, "Sgt": {"Gt", "Slt"},
	"Rsh": {"SRsh", "Lsh"}, "Lsh": {"Rsh"}, "SRsh": {"Rsh"}, "SDiv": {"Div"}, "SMod": {"Mod"}, "Cmp": {"Scmp"},
	"MulDiv": {"MulDivRoundingUp"}, "MulDivRoundingUp": {"MulDiv"}, "Floor": {"Ceil"}, "Ceil": {"Floor", "Round"}, "Round": {"Floor"},
	"GetAmount0Delta": {"GetAmount1Delta"}, "GetAmount1Delta": {"GetAmount0Delta"}, "true": {"false"}, "false": {"true"},
	"GetAmount0DeltaRounded": {"GetAmount1DeltaRounded"}, "GetAmount1DeltaRounded": {"GetAmount0DeltaRounded"}, "Min": {"Max"}, "Max": {"Min"},
	"ExactInputSwap": {"ExactOutputSwap"}, "MaxTick": {"MinTick"}, "MinTick": {"MaxTick"}, "TokensOwed0": {"TokensOwed1"},
	"UmulHop": {"UmulStep"}, "Add64": {"Sub64"}, "Sub64": {"Add64"}, "AddOverflow": {"SubOverflow"},
}

type edit func()

func main() {
	fset := token.NewFileSet()
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	want := -1
	if len(os.Args) > 2 {
		want, _ = strconv.Atoi(os.Args[2])
	}
	n := 0
	done := false
	add := func(pos token.Pos, what string, do edit) {
		if want < 0 {
			fmt.Printf("%d %d %s\n", n, fset.Position(pos).Line, what)
		} else if n == want {
			do()
			done = true
		}
		n++
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		// names of variables used in the function
		vars := map[string]bool{}
		ast.Inspect(fn, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name != "_" {
						vars[id.Name] = true
					}
				}
			case *ast.Field:
				for _, id := range y.Names {
					vars[id.Name] = true
				}
			}
			return true
		})
		var vs []string
		for v := range vars {
			vs = append(vs, v)
		}
		sort.Strings(vs)
		sels := map[string]bool{}
		ast.Inspect(fn, func(x ast.Node) bool {
			if s, ok := x.(*ast.SelectorExpr); ok {
				sels[s.Sel.Name] = true
			}
			return true
		})
		var ss []string
		for v := range sels {
			ss = append(ss, v)
		}
		sort.Strings(ss)
		h := 0
		ast.Inspect(fn.Body, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.BinaryExpr:
				for _, o := range ops[y.Op] {
					add(y.OpPos, y.Op.String()+" -> "+o.String(), func() { y.Op = o })
				}
			case *ast.UnaryExpr:
				if y.Op == token.NOT || y.Op == token.SUB {
					add(y.Pos(), "drop "+y.Op.String(), func() { y.Op = token.ADD; y.X = &ast.ParenExpr{X: y.X} })
				}
			case *ast.BasicLit:
				if y.Kind == token.INT {
					if v, err := strconv.ParseInt(y.Value, 0, 64); err == nil {
						for _, k := range []int64{v + 1, v - 1} {
							add(y.Pos(), fmt.Sprint(v, " -> ", k), func() { y.Value = fmt.Sprint(k) })
						}
					}
				}
			case *ast.Ident:
				for _, s := range names[y.Name] {
					add(y.Pos(), y.Name+" -> "+s, func() { y.Name = s })
				}
				if vars[y.Name] {
					// one other variable in its place, chosen by position
					h++
					for k := 0; k < 2; k++ {
						v := vs[(h*7+k*3)%len(vs)]
						if v != y.Name {
							add(y.Pos(), y.Name+" -> "+v, func() { y.Name = v })
						}
					}
				}
			case *ast.SelectorExpr:
				if sels[y.Sel.Name] {
					h++
					v := ss[(h*5)%len(ss)]
					if v != y.Sel.Name {
						add(y.Pos(), "."+y.Sel.Name+" -> ."+v, func() { y.Sel = ast.NewIdent(v) })
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(y.Args); i++ {
					add(y.Pos(), fmt.Sprintf("swap arguments %d and %d", i, i+1), func() { y.Args[i], y.Args[i+1] = y.Args[i+1], y.Args[i] })
				}
			case *ast.BlockStmt:
				for i, s := range y.List {
					switch s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.ForStmt, *ast.BranchStmt:
						add(s.Pos(), "delete statement", func() { y.List = append(append([]ast.Stmt{}, y.List[:i]...), y.List[i+1:]...) })
					case *ast.AssignStmt:
						if s.(*ast.AssignStmt).Tok != token.DEFINE {
							add(s.Pos(), "delete assignment", func() { y.List = append(append([]ast.Stmt{}, y.List[:i]...), y.List[i+1:]...) })
						}
					}
					if i+1 < len(y.List) {
						add(s.Pos(), "swap statements", func() { y.List[i], y.List[i+1] = y.List[i+1], y.List[i] })
					}
				}
			case *ast.IfStmt:
				add(y.Pos(), "condition true", func() { y.Cond = &ast.BinaryExpr{X: y.Cond, Op: token.LOR, Y: ast.NewIdent("true")} })
				add(y.Pos(), "condition false", func() { y.Cond = &ast.BinaryExpr{X: y.Cond, Op: token.LAND, Y: ast.NewIdent("false")} })
			case *ast.BranchStmt:
				if y.Tok == token.BREAK {
					add(y.Pos(), "break -> continue", func() { y.Tok = token.CONTINUE })
				} else if y.Tok == token.CONTINUE {
					add(y.Pos(), "continue -> break", func() { y.Tok = token.BREAK })
				}
			}
			return true
		})
	}
	if want >= 0 {
		if !done {
			os.Exit(1)
		}
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			os.Exit(1)
		}
		os.Stdout.Write(b.Bytes())
	}
}
