// instr REPO OUT: writes OUT/sched.json, a build overlay of the sources of REPO
// with a call of verifhook.Y before every statement: Y(0) at the start of a
// function, Y(2) before a statement that mentions a package-level variable, and
// Y(1) before every other one.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/akm/tparser"

type file struct {
	path, rel string
	src       []byte
	ast       *ast.File
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	var files []*file
	vars := map[string]map[string]bool{} // package directory -> package-level variables
	die(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "vendor" || strings.HasSuffix(n, "test")) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, filepath.Dir(p))
		files = append(files, &file{p, rel, src, f})
		if vars[rel] == nil {
			vars[rel] = map[string]bool{}
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							vars[rel][n.Name] = true
						}
					}
				}
			}
		}
		return nil
	}))
	die(os.MkdirAll(out, 0o755))
	repl := map[string]string{}
	put := func(name, text string) string {
		p := filepath.Join(out, name)
		if old, err := os.ReadFile(p); err != nil || string(old) != text {
			die(os.WriteFile(p, []byte(text), 0o644))
		}
		return p
	}
	total := [3]int{}
	for i, f := range files {
		imports := map[string]string{}
		for _, im := range f.ast.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			if strings.HasPrefix(p, module+"/") {
				name := filepath.Base(p)
				if im.Name != nil {
					name = im.Name.Name
				}
				imports[name] = strings.TrimPrefix(p, module+"/")
			}
		}
		ins := map[int]string{}
		add := func(pos token.Pos, k int) {
			o := fset.Position(pos).Offset
			if _, ok := ins[o]; !ok {
				ins[o] = fmt.Sprintf(" verifhook.Y(%d); ", k)
				total[k]++
			}
		}
		var mentions func(n ast.Node) bool
		mentions = func(n ast.Node) bool {
			found := false
			ast.Inspect(n, func(m ast.Node) bool {
				switch x := m.(type) {
				case *ast.BlockStmt, *ast.FuncLit:
					return m == n
				case *ast.SelectorExpr:
					if id, ok := x.X.(*ast.Ident); ok {
						if dir, ok := imports[id.Name]; ok && vars[dir][x.Sel.Name] {
							found = true
						}
					}
					if mentions(x.X) {
						found = true
					}
					return false
				case *ast.Ident:
					if vars[f.rel][x.Name] {
						found = true
					}
				}
				return !found
			})
			return found
		}
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				k := 1
				if mentions(s) {
					k = 2
				}
				add(s.Pos(), k)
			}
		}
		ast.Inspect(f.ast, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body != nil {
					add(x.Body.Lbrace+1, 0)
				}
			case *ast.FuncLit:
				add(x.Body.Lbrace+1, 0)
			case *ast.SwitchStmt:
				for _, cc := range x.Body.List {
					list(cc.(*ast.CaseClause).Body)
				}
			case *ast.TypeSwitchStmt:
				for _, cc := range x.Body.List {
					list(cc.(*ast.CaseClause).Body)
				}
			case *ast.SelectStmt:
				for _, cc := range x.Body.List {
					list(cc.(*ast.CommClause).Body)
				}
			case *ast.BlockStmt:
				cases := false
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						cases = true
					}
				}
				if !cases {
					list(x.List)
				}
			}
			return true
		})
		if len(ins) == 0 {
			continue
		}
		o := fset.Position(f.ast.Name.End()).Offset
		ins[o] = fmt.Sprintf("; import verifhook %q", module+"/verifhook") + ins[o]
		offs := make([]int, 0, len(ins))
		for k := range ins {
			offs = append(offs, k)
		}
		sort.Ints(offs)
		var b strings.Builder
		last := 0
		for _, k := range offs {
			b.Write(f.src[last:k])
			b.WriteString(ins[k])
			last = k
		}
		b.Write(f.src[last:])
		repl[f.path] = put(fmt.Sprintf("f%03d.go", i), b.String())
	}
	repl[filepath.Join(repo, "verifhook", "hook.go")] = put("hook.go", `package verifhook

// Hook is called before every statement.
var Hook func(kind int)

func Y(kind int) {
	if Hook != nil {
		Hook(kind)
	}
}
`)
	js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	put("sched.json", string(js))
	fmt.Println("scheduling points:", total)
}
