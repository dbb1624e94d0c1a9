// mutate REPO OUT: writes every single-change mutant of the non-test sources of
// REPO: OUT/NNNN.go (the changed file) and OUT/NNNN.json (a go -overlay file),
// and OUT/index (number, file, line, operator).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	pos, end int
	text     string
	op       string
	line     int
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	os.MkdirAll(out, 0o755)
	idx, _ := os.Create(filepath.Join(out, "index"))
	n := 0
	var files []string
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.Contains(p, "asttest") && !strings.Contains(p, "testing") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	for _, f := range files {
		src, _ := os.ReadFile(f)
		for _, e := range mutants(src) {
			b := append(append(append([]byte{}, src[:e.pos]...), e.text...), src[e.end:]...)
			if e.op == "negate err != nil" || e.op == "always err != nil" || strings.Contains(e.op, "Errorf") || strings.Contains(e.op, "Logf") || strings.Contains(e.op, "log.") || strings.HasPrefix(e.op, "append keeps") || strings.Contains(e.op, "TraceMethod") {
				continue
			}
			if _, err := format.Source(b); err != nil {
				continue
			}
			if bytes.Equal(b, src) {
				continue
			}
			p := filepath.Join(out, fmt.Sprintf("%05d.go", n))
			os.WriteFile(p, b, 0o644)
			j, _ := json.Marshal(map[string]map[string]string{"Replace": {f: p}})
			os.WriteFile(filepath.Join(out, fmt.Sprintf("%05d.json", n)), j, 0o644)
			fmt.Fprintf(idx, "%05d %s:%d %s\n", n, strings.TrimPrefix(f, repo+"/"), e.line, e.op)
			n++
		}
	}
	fmt.Println(n, "mutants")
}

func mutants(src []byte) (r []edit) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(n ast.Node, s, op string) {
		r = append(r, edit{off(n.Pos()), off(n.End()), s, op, fs.Position(n.Pos()).Line})
	}
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 60 {
			s = s[:60]
		}
		return s
	}
	list := func(l []ast.Stmt) {
		for i, s := range l {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(s, "", "delete "+short(text(s)))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s, "", "delete "+short(text(s)))
				}
				if len(x.Rhs) == 1 {
					if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && len(c.Args) == 2 && c.Ellipsis == token.NoPos {
							add(s, text(x.Lhs[0])+" = append("+text(c.Args[0])+"[:0:0], append("+text(c.Args[0])+"[:0:0], "+text(c.Args[1])+")...); "+text(x.Lhs[0])+" = append("+text(x.Lhs[0])+", "+text(c.Args[0])+"...)", "append keeps last only x2 "+short(text(s)))
							add(s, "if len("+text(c.Args[0])+") < 3 { "+text(s)+" }", "append at most 3 "+short(text(s)))
						}
					}
				}
			case *ast.IfStmt:
				if x.Else == nil {
					add(s, "", "delete if "+short(text(x.Cond)))
				}
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
				add(s, "", "delete "+short(text(s)))
			case *ast.BranchStmt:
				if x.Tok == token.BREAK {
					add(s, "continue", "break to continue")
				}
				if x.Tok == token.CONTINUE {
					add(s, "break", "continue to break")
				}
				add(s, "", "delete "+text(s))
			}
			if i+1 < len(l) {
				_, a := s.(*ast.ReturnStmt)
				_, b := l[i+1].(*ast.ReturnStmt)
				if !a && !b {
					t := l[i+1]
					r = append(r, edit{off(s.Pos()), off(t.End()), text(t) + "\n" + text(s), "swap with next " + short(text(s)), fs.Position(s.Pos()).Line})
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
			for i, e := range x.List {
				if len(x.List) > 1 {
					var o []string
					for j, y := range x.List {
						if j != i {
							o = append(o, text(y))
						}
					}
					r = append(r, edit{off(x.List[0].Pos()), off(x.List[len(x.List)-1].End()), strings.Join(o, ", "), "drop case " + text(e), fs.Position(e.Pos()).Line})
				}
			}
			if len(x.List) > 0 {
				add(x, "", "delete case "+short(text(x)))
			}
		case *ast.IfStmt:
			add(x.Cond, "!("+text(x.Cond)+")", "negate "+short(text(x.Cond)))
			add(x.Cond, "("+text(x.Cond)+") && false", "never "+short(text(x.Cond)))
			add(x.Cond, "("+text(x.Cond)+") || true", "always "+short(text(x.Cond)))
			if x.Else != nil {
				r = append(r, edit{off(x.Body.End()), off(x.Else.End()), "", "delete else of " + short(text(x.Cond)), fs.Position(x.Else.Pos()).Line})
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				add(x.Cond, "("+text(x.Cond)+") && false", "never "+short(text(x.Cond)))
			}
		case *ast.BinaryExpr:
			for _, t := range map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}}[x.Op] {
				add(x, text(x.X)+" "+t+" "+text(x.Y), x.Op.String()+" to "+t+" in "+short(text(x)))
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x, text(x.X), "left of "+short(text(x)))
				add(x, text(x.Y), "right of "+short(text(x)))
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, err := strconv.Atoi(x.Value)
				if err == nil {
					add(x, strconv.Itoa(v+1), x.Value+" + 1")
					if v > 0 {
						add(x, strconv.Itoa(v-1), x.Value+" - 1")
					}
				}
			case token.STRING:
				if len(x.Value) > 2 && x.Value[0] == '"' {
					add(x, x.Value[:len(x.Value)-1]+"_\"", "change string "+x.Value)
				}
			case token.CHAR:
				add(x, "'?'", "change rune "+x.Value)
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x, "false", "true to false")
			}
			if x.Name == "false" {
				add(x, "true", "false to true")
			}
		case *ast.CallExpr:
			if len(x.Args) > 1 {
				for i := range x.Args {
					var o []string
					for j, y := range x.Args {
						if j != i {
							o = append(o, text(y))
						}
					}
					r = append(r, edit{off(x.Args[0].Pos()), off(x.Args[len(x.Args)-1].End()), strings.Join(o, ", "), "drop argument " + short(text(x.Args[i])), fs.Position(x.Pos()).Line})
				}
			}
		case *ast.CompositeLit:
			for i := range x.Elts {
				var o []string
				for j, y := range x.Elts {
					if j != i {
						o = append(o, text(y))
					}
				}
				r = append(r, edit{off(x.Elts[0].Pos()), off(x.Elts[len(x.Elts)-1].End()), strings.Join(o, ", "), "drop element " + short(text(x.Elts[i])), fs.Position(x.Elts[i].Pos()).Line})
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				t := text(x.Results[0])
				if t != "nil" {
					add(x, "return !("+t+")", "return not "+short(t))
					add(x, "return nil", "return nil for "+short(t))
				}
			}
			if len(x.Results) == 2 && text(x.Results[1]) != "nil" && text(x.Results[0]) == "nil" {
				add(x, "return nil, nil", "drop error "+short(text(x.Results[1])))
			}
		}
		return true
	})
	return r
}
