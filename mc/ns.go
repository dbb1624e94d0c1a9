package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/runes"
)

// ---- C24: declaration maps and namespaces ----

// exportsOf lists the interface declarations of a unit: folded name -> declaring identifier.
func exportsOf(u *ast.Unit) map[string]*astcore.Ident {
	if u.InterfaceSection == nil {
		return map[string]*astcore.Ident{}
	}
	return declsIn(u.InterfaceSection.InterfaceDecls)
}

// declsIn lists what the sections of one scope declare.
func declsIn[T any](sections []T) map[string]*astcore.Ident {
	r := map[string]*astcore.Ident{}
	add := func(ids ...*astcore.Ident) {
		for _, id := range ids {
			r[fold(id.Name)] = id
		}
	}
	for _, d := range sections {
		if _, ok := any(d).(*ast.FunctionDecl); !ok {
			for _, n := range refNodes(d) {
				if e, ok := n.val.(*ast.EnumeratedTypeElement); ok {
					add(e.Ident)
				}
			}
		}
		switch s := any(d).(type) {
		case ast.TypeSection:
			for _, t := range s {
				add(t.Ident)
			}
		case ast.VarSection:
			for _, v := range s {
				add(v.IdentList...)
			}
		case ast.ThreadVarSection:
			for _, v := range s {
				add(v.IdentList...)
			}
		case ast.ConstSection:
			for _, v := range s {
				add(v.Ident)
			}
		case *ast.ExportedHeading:
			add(s.Ident)
		}
	}
	return r
}

func spellings(s string) []string {
	return []string{s, strings.ToUpper(s), strings.ToLower(s)}
}

// mapWrong compares what a map answers for the names with what is declared.
func mapWrong(c *Ctx, where string, m astcore.DeclMap, want map[string]*astcore.Ident, names map[string]bool) string {
	if m == nil || reflect.ValueOf(m).Kind() == reflect.Ptr && reflect.ValueOf(m).IsNil() {
		return where + " has no declarations"
	}
	for n := range names {
		for _, s := range spellings(n) {
			c.Trans(1)
			d := m.Get(s)
			w := want[fold(n)]
			switch {
			case d == nil && w != nil:
				return fmt.Sprintf("%s does not know its %s", where, s)
			case d != nil && w == nil:
				return fmt.Sprintf("%s answers %s with %s, which is not its own", where, s, declStr(d))
			case d != nil:
				if e := declWrong(d); e != "" {
					return where + ", " + s + ": " + e
				}
				if d.Ident != w {
					return fmt.Sprintf("%s answers %s with %s instead of the declaration at %s", where, s, declStr(d), locStr(w.Location))
				}
			}
		}
	}
	return ""
}

// nsWrong checks the maps of every unit of a loaded program.
func nsWrong(c *Ctx, units ast.Units, prog *ast.Program) string {
	names := map[string]bool{}
	for _, n := range append([]string{"nosuch", "System"}, embeddedNames...) {
		names[n] = true
	}
	for _, u := range units {
		for _, id := range Idents(u) {
			names[id.Name] = true
		}
	}
	if prog != nil {
		for _, id := range Idents(prog) {
			names[id.Name] = true
		}
	}
	for _, u := range units {
		if m := mapWrong(c, "unit "+u.Ident.Name, u.GetDeclMap(), exportsOf(u), names); m != "" {
			return m
		}
	}
	return ""
}

// ---- operation sequences on maps and contexts ----

func opIdent(name string, at int) *astcore.Ident {
	return &astcore.Ident{Name: name, Location: astcore.NewLocation(&runes.Position{Index: at, Line: 1, Col: at + 1}, &runes.Position{Index: at + 1, Line: 1, Col: at + 2})}
}

// A sut is a map under test: the layers of the model, innermost first; a write goes to the first.
type sut struct {
	m      astcore.DeclMap
	stack  func() func()
	below  []astcore.DeclMap // the layers below that can be written directly
	layers int               // layers below the first
	emb    bool              // the embedded types are the outermost layer
}

var sutKinds = []struct {
	name string
	mk   func() *sut
}{
	{"a map", func() *sut { return &sut{m: astcore.NewDeclMap()} }},
	{"a chained map", func() *sut {
		p := astcore.NewDeclMap()
		return &sut{m: astcore.NewChainedDeclMap(p), below: []astcore.DeclMap{p}, layers: 1}
	}},
	{"a map chained twice", func() *sut {
		p := astcore.NewDeclMap()
		q := astcore.NewChainedDeclMap(p)
		return &sut{m: astcore.NewChainedDeclMap(q), below: []astcore.DeclMap{q, p}, layers: 2}
	}},
	{"a map chained to the embedded types", func() *sut { return &sut{m: astcore.NewChainedDeclMap(ast.EmbeddedTypeDeclMap), emb: true} }},
	{"a composite of one", func() *sut { return &sut{m: astcore.NewCompositeDeclMap(astcore.NewDeclMap())} }},
	{"a composite of three", func() *sut {
		a, b, d := astcore.NewDeclMap(), astcore.NewDeclMap(), astcore.NewDeclMap()
		return &sut{m: astcore.NewCompositeDeclMap(a, b, d), below: []astcore.DeclMap{b, d}, layers: 2}
	}},
	{"a composite with the embedded types", func() *sut {
		a, b := astcore.NewDeclMap(), astcore.NewDeclMap()
		return &sut{m: astcore.NewCompositeDeclMap(a, b, ast.EmbeddedTypeDeclMap), below: []astcore.DeclMap{b}, layers: 1, emb: true}
	}},
	{"a program context", func() *sut {
		x := parser.NewProgramContext("p.dpr")
		return &sut{m: x, stack: x.StackDeclMap, emb: true}
	}},
	{"a program context on a map", func() *sut {
		p := astcore.NewDeclMap()
		x := parser.NewProgramContext(p)
		return &sut{m: x, stack: x.StackDeclMap}
	}},
	{"a unit context", func() *sut {
		x := parser.NewUnitContext(parser.NewProgramContext("p.dpr"), "u.pas")
		return &sut{m: x, stack: x.StackDeclMap, emb: true}
	}},
	{"a unit context on a composite", func() *sut {
		a, b := astcore.NewDeclMap(), astcore.NewDeclMap()
		x := parser.NewUnitContext(parser.NewProgramContext("p.dpr"), "u.pas", astcore.NewCompositeDeclMap(a, b))
		return &sut{m: x, stack: x.StackDeclMap, below: []astcore.DeclMap{b}, layers: 1}
	}},
	{"a stackable context", func() *sut {
		p := parser.NewProgramContext("p.dpr")
		x := parser.NewStackableContext(p)
		return &sut{m: x, stack: x.StackDeclMap, below: []astcore.DeclMap{p}, layers: 1, emb: true}
	}},
}

type mapOp struct {
	kind  string // set, list, over, push, pop, below
	names []string
	layer int
}

func (o mapOp) String() string {
	return fmt.Sprintf("%s %s %d", o.kind, strings.Join(o.names, ","), o.layer)
}

var mapOps = []mapOp{
	{"set", []string{"a"}, 0}, {"set", []string{"A"}, 0}, {"set", []string{"b"}, 0}, {"set", []string{"Word"}, 0},
	{"set", []string{"a", "b"}, 0}, {"set", []string{"B", "aa"}, 0}, {"over", []string{"A"}, 0}, {"over", []string{"WORD"}, 0},
	{"push", nil, 0}, {"pop", nil, 0}, {"below", []string{"a"}, 0}, {"below", []string{"B"}, 1}, {"below", []string{"word"}, 0}, {"set", []string{"Éa"}, 0}, {"set", []string{"éA"}, 0},
}

// runOps executes the operations and compares every answer after each of them;
// it returns false when the sequence is not possible or ends here.
func runOps(c *Ctx, mk func() *sut, ops []mapOp) (string, bool) {
	s := mk()
	// layers[0] is written
	layers := make([]map[string]*astcore.Decl, s.layers+1)
	for i := range layers {
		layers[i] = map[string]*astcore.Decl{}
	}
	var pops []func()
	nBelow := s.layers
	at := 0
	check := func() string {
		for _, n := range []string{"a", "A", "b", "B", "aa", "AA", "word", "Word", "WORD", "éa", "ÉA", "c", ""} {
			var want *astcore.Decl
			for _, l := range layers {
				if d := l[fold(n)]; d != nil {
					want = d
					break
				}
			}
			if want == nil && s.emb {
				want = ast.EmbeddedTypeDeclMap.Get(n)
			}
			c.Trans(1)
			got := s.m.Get(n)
			same := got == want
			if !same && got != nil && want != nil {
				same = got.Ident == want.Ident && got.Node == want.Node
			}
			if !same {
				return fmt.Sprintf("%q is answered with %s instead of %s", n, declStr(got), declStr(want))
			}
		}
		return ""
	}
	if m := check(); m != "" {
		return m, false
	}
	for _, o := range ops {
		switch o.kind {
		case "set", "below":
			target, model := s.m, layers[0]
			if o.kind == "below" {
				if o.layer >= nBelow {
					return "", false
				}
				target, model = s.below[o.layer], layers[len(layers)-nBelow+o.layer]
			}
			var ids astcore.IdentList
			dup := false
			for _, n := range o.names {
				at++
				ids = append(ids, opIdent(n, at))
				dup = dup || model[fold(n)] != nil
			}
			node := &ast.VarDecl{IdentList: ids}
			err := target.Set(node)
			if dup {
				if err == nil {
					return "a second declaration of a name is accepted", false
				}
				if len(ids) > 1 {
					return "", false // whether the others are declared is open
				}
				break
			}
			if err != nil {
				return "rejected: " + err.Error(), false
			}
			for _, id := range ids {
				model[fold(id.Name)] = &astcore.Decl{Ident: id, Node: node}
			}
		case "over":
			at++
			id := opIdent(o.names[0], at)
			d := astcore.NewDeclaration(id, &ast.VarDecl{IdentList: astcore.IdentList{id}})
			s.m.Overwrite(o.names[0], d)
			layers[0][fold(o.names[0])] = d
		case "push":
			if s.stack == nil {
				return "", false
			}
			pops = append(pops, s.stack())
			layers = append([]map[string]*astcore.Decl{{}}, layers...)
		case "pop":
			if len(pops) == 0 {
				return "", false
			}
			pops[len(pops)-1]()
			pops = pops[:len(pops)-1]
			layers = layers[1:]
		}
		if m := check(); m != "" {
			return "after " + o.String() + ": " + m, false
		}
	}
	return "", true
}

// runLargeMaps: long compositions and chains, deep stacks and maps with many names.
func runLargeMaps(c *Ctx) {
	c.Space("compositions, chains and stacks of many maps: every pair declares the name")
	decl := func(at int, names ...string) *ast.VarDecl {
		v := &ast.VarDecl{}
		for _, n := range names {
			v.IdentList = append(v.IdentList, opIdent(n, at))
		}
		return v
	}
	for _, n := range []int{1, 2, 3, 5, 8, 9, 16, 17, 24, 33, 65, 130}[:c.Pick(11, 12)] {
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				for _, kind := range []string{"composite", "chain", "stack", "composite of composites"} {
					n, i, j, kind := n, i, j, kind
					c.Case(func() string {
						c.Input(fmt.Sprintf("%s of %d maps, the first answers first; maps %d and %d have the name", kind, n, i+1, j+1))
						c.State(c.cur)
						c.Trace()
						// maps[0] is the innermost
						maps := make([]astcore.DeclMap, n)
						var top astcore.DeclMap
						set := func(k int, m astcore.DeclMap) string {
							names := []string{fmt.Sprintf("own%d", k)}
							if k == i || k == j {
								names = append(names, "Name")
							}
							if err := m.Set(decl(k+1, names...)); err != nil {
								return "rejected: " + err.Error()
							}
							return ""
						}
						switch kind {
						case "composite", "composite of composites":
							for k := range maps {
								maps[k] = astcore.NewDeclMap()
								if m := set(k, maps[k]); m != "" {
									return m
								}
							}
							top = astcore.NewCompositeDeclMap(maps...)
							if kind != "composite" && n > 1 {
								top = astcore.NewCompositeDeclMap(astcore.NewCompositeDeclMap(maps[:n/2]...), astcore.NewCompositeDeclMap(maps[n/2:]...))
							}
						case "chain":
							for k := n - 1; k >= 0; k-- {
								if top == nil {
									top = astcore.NewDeclMap()
								} else {
									top = astcore.NewChainedDeclMap(top)
								}
								if m := set(k, top); m != "" {
									return m
								}
							}
						case "stack":
							x := parser.NewProgramContext("p.dpr")
							top = x
							for k := n - 1; k >= 0; k-- {
								x.StackDeclMap()
								if m := set(k, x); m != "" {
									return m
								}
							}
						}
						want := func(name string, at int) string {
							c.Trans(1)
							d := top.Get(name)
							if d == nil || d.Ident == nil || d.Ident.Location.Start.Index != at {
								return fmt.Sprintf("%s is answered with %s", name, declStr(d))
							}
							return ""
						}
						for _, s := range spellings("Name") {
							if m := want(s, i+1); m != "" {
								return m
							}
						}
						for k := 0; k < n; k++ {
							if m := want(strings.ToUpper(fmt.Sprintf("own%d", k)), k+1); m != "" {
								return m
							}
						}
						return ""
					})
				}
			}
		}
	}
	c.Space("maps with many names: every repeated one is refused")
	for _, n := range []int{2, 8, 9, 16, 17, 33, 65, 129, 300} {
		for k, kind := range []string{"one map", "a chained map", "a context"} {
			for i := 0; i < n; i++ {
				n, i, k, kind := n, i, k, kind
				c.Case(func() string {
					c.Input(fmt.Sprintf("%s, %d names, then name %d again", kind, n, i))
					c.State(c.cur)
					c.Trace()
					m := []func() astcore.DeclMap{astcore.NewDeclMap, func() astcore.DeclMap { return astcore.NewChainedDeclMap(astcore.NewDeclMap()) }, func() astcore.DeclMap { return parser.NewProgramContext("p.dpr") }}[k]()
					for x := 0; x < n; x++ {
						if err := m.Set(decl(x+1, fmt.Sprintf("Nm%d", x))); err != nil {
							return "rejected: " + err.Error()
						}
					}
					if m.Set(decl(9999, fmt.Sprintf("nM%d", i))) == nil {
						return "the second declaration is accepted"
					}
					for x := 0; x < n; x++ {
						c.Trans(1)
						if d := m.Get(fmt.Sprintf("NM%d", x)); d == nil || d.Ident.Location.Start.Index != x+1 {
							return fmt.Sprintf("nm%d is answered with %s", x, declStr(d))
						}
					}
					return ""
				})
			}
		}
	}
}

func runC24(c *Ctx) {
	for _, k := range sutKinds {
		k := k
		c.Space("every sequence of operations on " + k.name)
		// every prefix is checked by its extensions: sequences that are not possible are cut
		first := len(mapOps)
		for i := 0; i < first*first; i++ {
			i := i
			if !c.Mine() {
				c.Case(nil)
				continue
			}
			c.Case(func() string {
				seq := []mapOp{mapOps[i/first], mapOps[i%first]}
				var rec func(seq []mapOp) string
				n := 0
				rec = func(seq []mapOp) string {
					c.Input(fmt.Sprint(k.name, ": ", seq))
					c.Trace()
					if n++; n&1023 == 0 {
						c.Alive()
					}
					m, ok := runOps(c, k.mk, seq)
					c.State(fmt.Sprint(k.name, seq))
					if m != "" || !ok || len(seq) == c.Pick(4, 5) {
						return m
					}
					for _, o := range mapOps {
						if m := rec(append(append([]mapOp(nil), seq...), o)); m != "" {
							return m
						}
					}
					return ""
				}
				return rec(seq)
			})
		}
	}
	runLargeMaps(c)
	c.Space("the embedded types refuse declarations")
	c.Case(func() string {
		id := opIdent("Byte", 1)
		v := &ast.VarDecl{IdentList: astcore.IdentList{id, opIdent("zz", 2)}}
		before := ast.EmbeddedTypeDeclMap.Get("byte")
		if ast.EmbeddedTypeDeclMap.Set(v) == nil {
			return "a declaration is accepted"
		}
		ast.EmbeddedTypeDeclMap.Overwrite("Byte", astcore.NewDeclaration(id, v))
		ast.EmbeddedTypeDeclMap.Overwrite("zz", astcore.NewDeclaration(id, v))
		if ast.EmbeddedTypeDeclMap.Get("Byte") != before || ast.EmbeddedTypeDeclMap.Get("zz") != nil {
			return "an embedded type is overwritten"
		}
		return ""
	})
	for b := 0; b <= c.Pick(1, 2); b++ {
		c.Space([]string{"the map of every unit: every production", "the map of every unit: every pair of productions", "the map of every unit: every triple of productions"}[b])
		eachText(c, corpus(b), func(it citem) string {
			if !it.unit {
				return ""
			}
			c.Input(it.t.text())
			c.Trace()
			r := parseGoal(it.t.text(), true)
			if r.err != nil {
				return "rejected: " + r.err.Error()
			}
			if m := nsWrong(c, ast.Units{r.unit}, nil); m != "" {
				return "in memory: " + m
			}
			if b > 0 {
				return ""
			}
			prog, g := loadGoal(c, it.t.text(), true)
			if g.err != nil {
				return "rejected when loaded: " + g.err.Error()
			}
			return nsWrong(c, prog.Units, prog.Program)
		})
	}
	runNsProjects(c)
}

// runNsProjects: the maps of the units and the program after a load.
func runNsProjects(c *Ctx) {
	names := []string{"U1", "Unit2", "U3"}
	run := func(pc *projCfg) {
		if !c.Mine() {
			c.Case(nil)
			return
		}
		c.Case(func() string {
			p := pc.build()
			c.State(p.text())
			p.after = func(res *parser.Program) string {
				if m := nsWrong(c, res.Units, res.Program); m != "" {
					return m
				}
				return progMapWrong(c, res)
			}
			return p.check(c)
		})
	}
	kinds := len(unitDeclKinds)
	c.Space("maps after a load: every kind of declaration")
	for _, nm := range []string{"x", "Word"} {
		for k := 0; k < kinds; k++ {
			for impl := 0; impl <= kThread; impl++ {
				for own := 0; own <= kThread; own++ {
					run(&projCfg{name: nm, units: names[:1], prog: own, cfg: map[string]*unitCfg{names[0]: {intf: k, impl: impl}}})
				}
			}
		}
	}
	c.Space("maps after a load: every uses graph of three units")
	eachGraph(names, 6, func(intf, impl map[string][]string) {
		for e := 0; e < 64; e++ {
			cfg := map[string]*unitCfg{}
			skip := false
			for i, u := range names {
				k := e >> uint(2*i) & 3
				skip = skip || k == 3 && c.Quick()
				cfg[u] = &unitCfg{intfUses: intf[u], implUses: impl[u]}
				if k&1 == 1 {
					cfg[u].intf = []int{kConst, kEnum, kType}[i]
				}
				if k&2 == 2 {
					cfg[u].impl = kVar
				}
			}
			if !skip {
				run(&projCfg{name: "x", units: names, cfg: cfg, prog: []int{kNone, kConst}[e%2], lean: true})
			}
		}
	})
}

// progMapWrong: a program that uses units is a namespace of its own declarations and itself.
func progMapWrong(c *Ctx, res *parser.Program) string {
	prog := res.Program
	if prog.ProgramBlock == nil || prog.ProgramBlock.UsesClause == nil {
		return ""
	}
	names := map[string]bool{}
	for _, id := range Idents(prog) {
		names[id.Name] = true
	}
	for _, u := range res.Units {
		for _, id := range Idents(u) {
			names[id.Name] = true
		}
	}
	for _, n := range embeddedNames {
		names[n] = true
	}
	want := declsIn(prog.ProgramBlock.Block.DeclSections)
	// whether the program and its routines are in its own namespace is open
	open := map[string]bool{fold(prog.Ident.Name): true}
	for _, d := range prog.ProgramBlock.Block.DeclSections {
		if f, ok := d.(*ast.FunctionDecl); ok {
			open[fold(f.Ident.Name)] = true
		}
	}
	for n := range names {
		if open[fold(n)] && want[fold(n)] == nil {
			delete(names, n)
		}
	}
	return mapWrong(c, "the program", prog.GetDeclMap(), want, names)
}

func init() {
	register(&Check{ID: "C24", Title: "declaration maps and namespaces", Run: runC24, Assumptions: []string{
		"whether a program and the routines it defines are in the program's own map is left open, as is the map of a program without a uses clause",
		"after a refused list of names, whether the other names of the list are declared is left open",
	}})
}
