package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

// ---- C25: queries on an AST ----

func qIdent(name string) *astcore.Ident {
	return &astcore.Ident{Name: name, Location: &astcore.Location{}}
}

// ---- lists of names ----

func sameTable(a, b astcore.DeclMap) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return va.IsValid() == vb.IsValid()
	}
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Ptr, reflect.Map:
		return va.Pointer() == vb.Pointer()
	}
	return true
}

var queryNames = []string{"a", "A", "b", "ab", "aB", "Éa", "éA"}

func firstIndex(names []string, q string) int {
	for i, n := range names {
		if strings.ToLower(n) == strings.ToLower(q) {
			return i
		}
	}
	return -1
}

func listCase(c *Ctx, names []string) string {
	c.Input(strings.Join(names, ","))
	c.Trans(1)
	c.Trace()
	ids := astcore.IdentList{}
	decls := astcore.Decls{}
	uses := ast.UsesClause{}
	units := ast.Units{}
	for i, n := range names {
		id := qIdent(n)
		ids = append(ids, id)
		decls = append(decls, &astcore.Decl{Ident: id, Node: id})
		u := &ast.Unit{Ident: id, DeclMap: astcore.NewDeclMap()}
		it := &ast.UsesClauseItem{Ident: id}
		if i%2 == 0 {
			it.Unit = u
		}
		uses = append(uses, it)
		units = append(units, u)
	}
	if got := ids.Names(); strings.Join(got, ",") != strings.Join(names, ",") || len(got) != len(names) {
		return fmt.Sprintf("IdentList.Names answers %v", got)
	}
	if got := uses.IdentList(); len(got) != len(ids) {
		return fmt.Sprintf("UsesClause.IdentList has %d names", len(got))
	} else {
		for i := range got {
			if got[i] != ids[i] {
				return fmt.Sprintf("UsesClause.IdentList has another identifier at %d", i)
			}
		}
	}
	us := uses.Units()
	if len(us) != len(uses) {
		return fmt.Sprintf("UsesClause.Units has %d units", len(us))
	}
	var kept ast.Units
	for i := range us {
		if us[i] != uses[i].Unit {
			return fmt.Sprintf("UsesClause.Units has another unit at %d", i)
		}
		if us[i] != nil {
			kept = append(kept, us[i])
		}
	}
	got := us.Compact()
	if len(got) != len(kept) {
		return fmt.Sprintf("Units.Compact keeps %d units", len(got))
	}
	for i := range got {
		if got[i] != kept[i] {
			return fmt.Sprintf("Units.Compact has another unit at %d", i)
		}
	}
	for i := range us {
		if us[i] != uses[i].Unit {
			return "Units.Compact changes the list it is asked about"
		}
	}
	dm := units.DeclMaps()
	if len(dm) != len(units) {
		return fmt.Sprintf("Units.DeclMaps has %d tables", len(dm))
	}
	rev := dm.Reverse()
	if len(rev) != len(dm) {
		return fmt.Sprintf("DeclMaps.Reverse has %d tables", len(rev))
	}
	for i := range units {
		if !sameTable(dm[i], units[i].DeclMap) {
			return fmt.Sprintf("Units.DeclMaps has another table at %d, or reversing changes it", i)
		}
		if !sameTable(rev[len(rev)-1-i], units[i].DeclMap) {
			return fmt.Sprintf("DeclMaps.Reverse has another table at %d", len(rev)-1-i)
		}
	}
	for _, q := range append([]string{"c", "", "AB"}, queryNames...) {
		w := firstIndex(names, q)
		c.Trans(4)
		fi, fd, fu, fn := ids.Find(q), decls.Find(q), uses.Find(q), units.ByName(q)
		if w < 0 {
			if fi != nil || fd != nil || fu != nil || fn != nil {
				return fmt.Sprintf("%q is found although it is not there", q)
			}
			continue
		}
		if fi != ids[w] {
			return fmt.Sprintf("IdentList.Find(%q) does not answer the first such name", q)
		}
		if fd != decls[w] {
			return fmt.Sprintf("Decls.Find(%q) does not answer the first such declaration", q)
		}
		if fu != uses[w] {
			return fmt.Sprintf("UsesClause.Find(%q) does not answer the first such unit", q)
		}
		if fn != units[w] {
			return fmt.Sprintf("Units.ByName(%q) does not answer the first such unit", q)
		}
	}
	return ""
}

func runLists(c *Ctx) {
	for n := 0; n <= c.Pick(5, 6); n++ {
		c.Space(fmt.Sprintf("all lists of %d names", n))
		names := make([]string, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				c.Case(func() string { return listCase(c, names) })
				return
			}
			for _, s := range queryNames {
				names[i] = s
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// ---- the file a uses item names ----

var pathRunes = []string{"a", "B", "\\", "/", ".", "表", " "}

func litPathCase(c *Ctx, content string) string {
	lit := "'" + content + "'"
	c.Input(lit)
	c.Trans(3)
	c.Trace()
	it := &ast.UsesClauseItem{Ident: qIdent("u"), Path: &lit}
	if got := it.UnquotedPath(); got != content {
		return fmt.Sprintf("the file name in %s is %q, not %q", lit, got, content)
	}
	if got, want := it.EffectivePath(), strings.ReplaceAll(content, "\\", "/"); got != want {
		return fmt.Sprintf("the path of %s is %q, not %q", lit, got, want)
	}
	if *it.Path != lit {
		return "asking for the path changes the item"
	}
	it.Path = nil
	if it.UnquotedPath() != "" || it.EffectivePath() != "" {
		return "an item without a path has one"
	}
	return ""
}

func runLitPaths(c *Ctx) {
	for n := 0; n <= c.Pick(6, 7); n++ {
		c.Space(fmt.Sprintf("all file names of %d characters in a uses item", n))
		var rec func(i int, s string)
		rec = func(i int, s string) {
			if i == n {
				c.Case(func() string { return litPathCase(c, s) })
				return
			}
			for _, r := range pathRunes {
				rec(i+1, s+r)
			}
		}
		rec(0, "")
	}
}

// ---- the declarations of an AST ----

// declaredBy lists the identifiers a declaring node declares, from its fields.
func declaredBy(n astcore.DeclNode) (astcore.IdentList, bool) {
	one := func(i *astcore.Ident) (astcore.IdentList, bool) { return astcore.IdentList{i}, true }
	switch v := n.(type) {
	case *ast.Program:
		return one(v.Ident)
	case *ast.Unit:
		return one(v.Ident)
	case *ast.UsesClauseItem:
		return one(v.Ident)
	case *ast.ConstantDecl:
		return one(v.Ident)
	case *ast.TypeDecl:
		return one(v.Ident)
	case *ast.VarDecl:
		return v.IdentList, true
	case *ast.ThreadVarDecl:
		return v.IdentList, true
	case *ast.LabelDeclSection:
		return one(v.LabelId)
	case *ast.FunctionDecl:
		return one(v.FunctionHeading.Ident)
	case *ast.ExportedHeading:
		return one(v.FunctionHeading.Ident)
	case *ast.FormalParm:
		return v.Parameter.IdentList, true
	case *ast.EnumeratedTypeElement:
		return one(v.Ident)
	case *ast.FieldDecl:
		return v.IdentList, true
	case *ast.ClassField:
		return v.IdentList, true
	case *ast.ClassProperty:
		return one(v.Ident)
	case *ast.ExceptionBlockHandlerDecl:
		return one(v.Ident)
	case *ast.ClassMethod:
		switch h := v.Heading.(type) {
		case *ast.FunctionHeading:
			return one(h.Ident)
		case *ast.ConstructorHeading:
			return one(h.Ident)
		case *ast.DestructorHeading:
			return one(h.Ident)
		}
	}
	return nil, false
}

func declaresCheck(c *Ctx, root interface{}) string {
	for _, r := range refNodes(root) {
		if dn, ok := r.val.(astcore.DeclNode); ok {
			want, known := declaredBy(dn)
			if known {
				c.Outcome(fmt.Sprintf("%T", dn))
				got := dn.ToDeclarations()
				c.Trans(1)
				if len(got) != len(want) {
					return fmt.Sprintf("%s declares %d names and reports %d", r.name, len(want), len(got))
				}
				for i := range got {
					if got[i] == nil || got[i].Ident != want[i] {
						return fmt.Sprintf("%s reports another identifier than %s", r.name, want[i].Name)
					}
					if got[i].Node != astcore.Node(dn) {
						return fmt.Sprintf("%s reports %s as declared by %T", r.name, want[i].Name, got[i].Node)
					}
				}
			}
		}
		if p, ok := r.val.(interface{ IsPacked() bool }); ok {
			f := reflect.ValueOf(r.val).Elem().FieldByName("Packed")
			if f.IsValid() && f.Bool() != p.IsPacked() {
				return fmt.Sprintf("%s: packed %v, IsPacked %v", r.name, f.Bool(), p.IsPacked())
			}
		}
		var want []astcore.DeclNode
		var got astcore.DeclNodes
		switch v := r.val.(type) {
		case ast.ConstSection:
			for _, d := range v {
				want = append(want, d)
			}
			got = v.GetDeclNodes()
		case ast.VarSection:
			for _, d := range v {
				want = append(want, d)
			}
			got = v.GetDeclNodes()
		case ast.ThreadVarSection:
			for _, d := range v {
				want = append(want, d)
			}
			got = v.GetDeclNodes()
		case *ast.ExportedHeading:
			want = append(want, v)
			got = v.GetDeclNodes()
		case ast.TypeSection:
			for _, d := range v {
				want = append(want, d)
				if e, ok := d.Type.(ast.EnumeratedType); ok {
					for _, x := range e {
						want = append(want, x)
					}
				}
			}
			got = v.GetDeclNodes()
		default:
			continue
		}
		c.Trans(1)
		if len(got) != len(want) {
			return fmt.Sprintf("%s has %d declaring nodes and reports %d", r.name, len(want), len(got))
		}
		for i := range got {
			if got[i] != want[i] {
				return fmt.Sprintf("%s reports another declaring node at %d", r.name, i)
			}
		}
	}
	switch v := root.(type) {
	case *ast.Unit:
		if v.GetIdent() != v.Ident || v.GetPath() != v.Path || !sameTable(v.GetDeclMap(), v.DeclMap) {
			return "the unit's accessors disagree with its fields"
		}
	case *ast.Program:
		if v.GetIdent() != v.Ident || v.GetPath() != v.Path || !sameTable(v.GetDeclMap(), v.DeclMap) {
			return "the program's accessors disagree with its fields"
		}
	}
	c.Trace()
	return ""
}

func runC25(c *Ctx) {
	runLists(c)
	runLitPaths(c)
	for b := 0; b <= c.Pick(1, 2); b++ {
		c.Space([]string{"the declarations of every production", "the declarations of every pair of productions", "the declarations of every triple of productions"}[b])
		eachText(c, corpus(b), func(it citem) string {
			c.Input(it.t.text())
			r := parseGoal(it.t.text(), it.unit)
			if r.err != nil {
				return "rejected: " + r.err.Error()
			}
			return declaresCheck(c, r.node())
		})
	}
}

func init() {
	register(&Check{ID: "C25", Title: "lookups", Run: runC25, Assumptions: []string{
		"letter case is folded as strings.ToLower does",
		"quotes inside a path literal are not judged (the tokenizer has no doubled quotes)",
	}})
}
