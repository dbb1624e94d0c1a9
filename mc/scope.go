package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

// ---- references of an AST ----

type foundRef struct {
	id   *astcore.Ident
	ref  *astcore.Decl
	what string
}

// collectRefs lists every place of an AST that refers to a declaration.
func collectRefs(n interface{}) []foundRef {
	var out []foundRef
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || v.Type() == tDecl || v.Type() == tIdent || v.Type() == tAbs {
				return
			}
			switch x := v.Interface().(type) {
			case *ast.IdentRef:
				out = append(out, foundRef{x.Ident, x.Ref, "IdentRef"})
				return
			case *ast.TypeId:
				out = append(out, foundRef{x.Ident, x.Ref, "TypeId"})
			case *ast.GotoStatement:
				out = append(out, foundRef{x.LabelId, x.Ref, "Goto"})
			}
			walk(v.Elem())
		case reflect.Struct:
			fields(v, func(_ fieldInfo, fv reflect.Value) { walk(fv) })
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(n))
	return out
}

// declares tells what is wrong with a resolved declaration as such: its node
// must declare its identifier.
func declWrong(d *astcore.Decl) string {
	if d.Ident == nil || d.Node == nil {
		return "a reference to a declaration without identifier or node"
	}
	dn, ok := d.Node.(astcore.DeclNode)
	if !ok {
		return fmt.Sprintf("a reference to %s, whose node %T is no declaration", d.Ident.Name, d.Node)
	}
	for _, x := range dn.ToDeclarations() {
		if x.Ident == d.Ident {
			return ""
		}
	}
	return fmt.Sprintf("a reference to %s, which its node %T does not declare", d.Ident.Name, d.Node)
}

// ---- C13: the scope machine ----

// A decl of the model: the token that declares it, and its kind.
type mdecl struct {
	tok  int
	kind string
}

type mframe struct {
	kind   string // program, routine, handler, intf, impl
	phase  int    // 0: declarations, 1: statements
	names  map[string]mdecl
	closer []string
}

type mstate struct {
	toks   []string
	exp    map[int]int // reference token -> declaring token, refNone, refEmbedded
	frames []*mframe
	q      int // fresh names
	trail  []string
}

const (
	refNone     = -1
	refEmbedded = -2
)

func (s *mstate) clone() *mstate {
	n := &mstate{toks: append(make([]string, 0, len(s.toks)+48), s.toks...), exp: make(map[int]int, len(s.exp)+2), q: s.q}
	for k, v := range s.exp {
		n.exp[k] = v
	}
	n.trail = append(make([]string, 0, len(s.trail)+1), s.trail...)
	for _, f := range s.frames {
		g := *f
		g.names = make(map[string]mdecl, len(f.names)+1)
		for k, v := range f.names {
			g.names[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func (s *mstate) top() *mframe { return s.frames[len(s.frames)-1] }

func (s *mstate) lookup(name string) (mdecl, bool) {
	for i := len(s.frames) - 1; i >= 0; i-- {
		if d, ok := s.frames[i].names[name]; ok {
			return d, true
		}
	}
	return mdecl{}, false
}

func (s *mstate) resolve(name string) int {
	if d, ok := s.lookup(name); ok {
		return d.tok
	}
	if ast.EmbeddedTypeDeclMap.Get(name) != nil {
		return refEmbedded
	}
	return refNone
}

// emit appends a template: "%n" is a reference to the name, "%d" declares it
// (in the current frame, after the whole template), "%x" is its text without
// meaning, "%q" a fresh name.
func (s *mstate) emit(tmpl, name, kind string) {
	d, m := -1, -1
	for _, w := range strings.Fields(tmpl) {
		switch w {
		case "%n":
			s.exp[len(s.toks)] = s.resolve(name)
			s.toks = append(s.toks, name)
		case "%d":
			d = len(s.toks)
			s.toks = append(s.toks, name)
		case "%x":
			s.toks = append(s.toks, name)
		case "%M": // a class member
			m = len(s.toks)
			s.toks = append(s.toks, name)
		case "%m": // a reference to it
			s.exp[len(s.toks)] = m
			s.toks = append(s.toks, name)
		case "%q":
			s.q++
			s.toks = append(s.toks, fmt.Sprintf("q%d", s.q))
		default:
			s.toks = append(s.toks, w)
		}
	}
	if d >= 0 {
		s.top().names[name] = mdecl{d, kind}
	}
}

var declEvents = []struct{ kind, tmpl string }{
	{"var", "var %d : Byte ;"}, {"const", "const %d = 1 ;"}, {"type", "type %d = Byte ;"}, {"label", "label %d ;"},
	{"enum", "type %q = ( %d ) ;"}, {"threadvar", "threadvar %d : Byte ;"}, {"var", "var %q , %d : Byte ;"}, {"const", "const %d : Byte = 1 ;"},
	{"class", "type %d = class end ;"}, {"record", "type %d = record end ;"}, {"pointer", "type %d = ^ Byte ;"}, {"enum", "var %q : ( %q , %d = 3 ) ;"},
}

// events that mention the name without declaring it in the current scope
var noiseEvents = []string{
	"type %q = record %x : Byte end ;", "type %q = class %M : Byte ; procedure %q ( %x : Byte ) ; property %q [ %x : Byte ] : Byte read %m ; end ;",
	"type %q = procedure ( %x : Byte ) ;", "type %q = function ( const %x , %q : Byte ) : Byte ;", "procedure %q ( %x : Byte ) ; forward ;",
	"procedure %q ( var %x : Byte ) ; external ;", "type %q = record case %x : Byte of 1 : ( %q : Byte ) end ;", "var %q : record %x : Byte ; end ;",
	"procedure %q ; var %x : Byte ; begin end ;", "procedure %q ( %x : Byte ) ; type %q = ( %q ) ; procedure %q ( %x : Byte ) ; begin end ; begin end ;",
	"type %q = class constructor %x ( %x : Byte ) ; end ;",
	"procedure %q ; forward ;", "procedure %q ; external ;", "function %q : Byte ; external 'l' name 'n' ;", "procedure %q ; procedure %q ; forward ; var %x : Byte ; begin end ;",
	"procedure %q ; begin try except on %x : Byte do end ; end ;",
}

// the same in an interface section
var intfNoiseEvents = []string{"procedure %q ( %x : Byte ) ;", "function %q ( const %q , %x : Byte ) : Byte ;", "procedure %q ( var %x ) ; stdcall ;", "procedure %q ;", "function %q : Byte ; external 'l' ;"}

var intfRefEvents = []string{"procedure %q ( %q : %n = %n ) ;", "function %q ( %q : Byte ) : %n ;", "procedure %q ( const %q : array of %n ; %x : %n ) ; stdcall ;"}

var declRefEvents = []string{
	"var %q : %n ;", "const %q = %n ;", "type %q = %n ;", "type %q = ^ %n ;", "type %q = %n .. 9 ;", "type %q = array [ 1 .. %n ] of %n ;",
	"type %q = record %q : %n end ;", "const %q : %n = %n ;", "type %q = file of %n ;", "type %q = set of 1 .. %n ;", "type %q = ( %q = %n ) ;", "type %q = class ( %n ) %q : %n ; end ;",
	"type %q = class procedure %q ( %q : %n ) ; end ;", "type %q = class %q , %M : %n ; procedure %q ( %q : %n ) ; property %q : %n read %m ; end ;",
	"type %q = function ( %q : %n ) : %n ;", "var %q : Byte = %n ;", "type %q = class of %n ;", "procedure %q ( %q : %n = %n ) ; forward ;", "function %q : %n ; forward ;", "procedure %q ( %x : %n ) ; forward ;",
	"type %q = record case Byte of %n : ( %q : %n ) end ;", "type %q = string [ %n ] ;", "const %q = ( %n + 1 ) * %n ;", "threadvar %q : %n ;", "type %q = packed array [ 1 .. 2 ] of %n ;",
}

// reference places in a statement; start: the name begins the statement
var stmtRefEvents = []struct {
	tmpl  string
	start bool
}{
	{"%n := 1", true}, {"z := %n", false}, {"%n", true}, {"z ( 1 , %n )", false}, {"z [ %n ] := %n", false}, {"for %n := 1 to %n do", false},
	{"with %n do", false}, {"if %n then else z", false}, {"case %n of %n .. %n : end", false}, {"while %n do", false}, {"raise %n", false}, {"goto %n", false},
	{"z := [ %n .. %n ]", false}, {"z := @ %n", false}, {"z := %n ( 1 )", false}, {"z := - %n + not %n * ( %n )", false}, {"repeat until %n = %n", false}, {"z := %n . %x [ %n ] ^ ( %n )", false},
	{"z . %x := %n ^", false}, {"try %n ; z finally z ( %n ) end", true}, {"if z then begin z := %n end else z := %n", false}, {"with z , %n do z := %n", false}, {"try except z := %n end", false},
	{"%n . %x := 1", true}, {"%n [ 1 ] ( 2 )", true}, {"raise z at %n", false}, {"case z of 1 : z := %n ; else z := %n end", false}, {"for z := %n downto 1 do z := %n", false},
}

var handlerTypeEvents = []string{"try except on %q : %n do end"}

// kinds for which a name at the start of a handler means the type
var typeKinds = map[string]bool{"type": true, "class": true, "record": true, "pointer": true}

var openEvents = []struct{ tmpl, own string }{
	{"procedure %q ;", ""}, {"procedure %q ( %d : Byte ) ;", "param"}, {"procedure %d ;", "routine"}, {"function %q ( const %q , %d : %n ) : Byte ;", "param"}, {"function %d : Byte ;", "routine"}, {"procedure %q ( var %d ) ;", "param"},
}

type scopeGen struct {
	names  []string
	max    int
	full   bool
	unit   bool
	depth  int
	visit  func(s *mstate)
	halted func() bool
}

func (g *scopeGen) start() *mstate {
	s := &mstate{exp: map[int]int{}}
	if g.unit {
		s.toks = strings.Fields("unit u ; interface")
		s.frames = []*mframe{{kind: "intf", names: map[string]mdecl{}}}
	} else {
		s.toks = strings.Fields("program p ;")
		s.frames = []*mframe{{kind: "program", names: map[string]mdecl{}}}
	}
	return s
}

// finish closes every open frame.
func (s *mstate) finish() []string {
	t := append([]string(nil), s.toks...)
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		switch f.kind {
		case "program":
			if f.phase == 0 {
				t = append(t, "begin")
			}
			t = append(t, "end", ".")
		case "routine":
			if f.phase == 0 {
				t = append(t, "begin")
			}
			t = append(t, "end", ";")
		case "handler":
			t = append(t, "end", ";")
		case "except":
			t = append(t, "end", ";")
		case "intf":
			t = append(t, "implementation", "end", ".")
		case "impl":
			t = append(t, "end", ".")
			return t
		}
	}
	return t
}

func (g *scopeGen) run() { g.step(g.start(), 0) }

// step visits the state and every state reachable from it with the remaining events.
func (g *scopeGen) step(s *mstate, n int) {
	g.visit(s)
	if n >= g.max || g.halted() {
		return
	}
	next := func(why string, f func(t *mstate)) {
		t := s.clone()
		t.trail = append(t.trail, why)
		f(t)
		g.step(t, n+1)
	}
	f := s.top()
	limit := func(k int, all int) int {
		if g.full || k > all {
			return all
		}
		return k
	}
	if f.phase == 0 {
		for _, nm := range g.names {
			nm := nm
			if _, dup := f.names[nm]; !dup {
				for _, e := range declEvents[:limit(5, len(declEvents))] {
					if f.kind == "intf" && e.kind == "label" {
						continue
					}
					e := e
					next("declare "+nm, func(t *mstate) { t.emit(e.tmpl, nm, e.kind) })
				}
			}
			for _, e := range declRefEvents[:limit(3, len(declRefEvents))] {
				if f.kind == "intf" && strings.HasPrefix(e, "procedure") || f.kind == "intf" && strings.HasPrefix(e, "function") {
					continue
				}
				if strings.Contains(e, "= %n ..") && s.resolve(nm) == refEmbedded {
					continue // a type is no bound
				}
				e := e
				next("refer "+nm, func(t *mstate) { t.emit(e, nm, "") })
			}
			if g.full {
				if f.kind == "intf" {
					for _, e := range intfNoiseEvents {
						e := e
						next("mention "+nm, func(t *mstate) { t.emit(e, nm, "") })
					}
					for _, e := range intfRefEvents {
						e := e
						next("refer "+nm, func(t *mstate) { t.emit(e, nm, "") })
					}
				}
				for _, e := range noiseEvents {
					if f.kind == "intf" && (strings.HasPrefix(e, "procedure") || strings.HasPrefix(e, "function")) {
						continue
					}
					e := e
					next("mention "+nm, func(t *mstate) { t.emit(e, nm, "") })
				}
			}
			if f.kind != "intf" && len(s.frames) < g.depth {
				for _, e := range openEvents[:limit(3, len(openEvents))] {
					e := e
					if e.own == "" && nm != g.names[0] {
						continue
					}
					next("open", func(t *mstate) {
						// references in the heading are resolved outside the new scope
						fr := &mframe{kind: "routine", names: map[string]mdecl{}}
						d := -1
						for _, w := range strings.Fields(e.tmpl) {
							switch w {
							case "%d":
								d = len(t.toks)
								t.toks = append(t.toks, nm)
							case "%n":
								t.exp[len(t.toks)] = t.resolve(nm)
								t.toks = append(t.toks, nm)
							case "%q":
								t.q++
								t.toks = append(t.toks, fmt.Sprintf("q%d", t.q))
							default:
								t.toks = append(t.toks, w)
							}
						}
						if d >= 0 {
							fr.names[nm] = mdecl{d, e.own}
						}
						t.frames = append(t.frames, fr)
					})
				}
			}
		}
		switch f.kind {
		case "intf":
			next("implementation", func(t *mstate) {
				t.toks = append(t.toks, "implementation")
				t.frames = append(t.frames, &mframe{kind: "impl", names: map[string]mdecl{}})
			})
		case "impl":
			next("initialization", func(t *mstate) { t.toks = append(t.toks, "initialization"); t.top().phase = 1 })
		default:
			next("begin", func(t *mstate) { t.toks = append(t.toks, "begin"); t.top().phase = 1 })
		}
		return
	}
	for _, nm := range g.names {
		nm := nm
		d, known := s.lookup(nm)
		for _, e := range stmtRefEvents[:limit(2, len(stmtRefEvents))] {
			if e.start && known && d.kind == "label" {
				continue
			}
			e := e
			next("refer "+nm, func(t *mstate) { t.emit(e.tmpl+" ;", nm, "") })
		}
		if g.full {
			for _, e := range handlerTypeEvents {
				e := e
				next("refer "+nm, func(t *mstate) { t.emit(e+" ;", nm, "") })
			}
			if known && (typeKinds[d.kind]) {
				next("handle "+nm, func(t *mstate) { t.emit("try except on %n do z ( %n ) end ;", nm, "") })
			}
			if known && d.kind == "label" {
				next("label "+nm, func(t *mstate) { t.emit("%x : z ;", nm, "") })
			}
		}
		if !known || g.full || !typeKinds[d.kind] {
			next("handler "+nm, func(t *mstate) {
				t.toks = append(t.toks, "try", "except")
				t.frames = append(t.frames, &mframe{kind: "except", phase: 1, names: map[string]mdecl{}})
				t.openHandler(nm)
			})
			if f.kind == "handler" {
				next("next handler "+nm, func(t *mstate) {
					t.toks = append(t.toks, "end", ";")
					t.frames = t.frames[:len(t.frames)-1]
					t.openHandler(nm)
				})
			}
		}
	}
	if f.kind == "handler" {
		next("else", func(t *mstate) {
			t.toks = append(t.toks, "end", ";", "else")
			t.frames = t.frames[:len(t.frames)-1]
		})
	}
	if len(s.frames) > 1 && f.kind != "impl" {
		next("close", func(t *mstate) {
			t.toks = append(t.toks, "end", ";")
			t.frames = t.frames[:len(t.frames)-1]
			if f.kind == "handler" { // the whole statement
				t.toks = append(t.toks, "end", ";")
				t.frames = t.frames[:len(t.frames)-1]
			}
		})
	}
}

// openHandler appends "on nm : nm do begin"; the type is resolved outside.
func (t *mstate) openHandler(nm string) {
	t.toks = append(t.toks, "on")
	fr := &mframe{kind: "handler", phase: 1, names: map[string]mdecl{nm: {len(t.toks), "handler"}}}
	t.toks = append(t.toks, nm, ":")
	t.exp[len(t.toks)] = t.resolve(nm)
	t.toks = append(t.toks, nm, "do", "begin")
	t.frames = append(t.frames, fr)
}

// checkRefs parses the tokens and compares every reference with exp.
func checkRefs(c *Ctx, toks []string, exp map[int]int, unit bool, spell func(i int, s string) string) string {
	_, m := checkRefs2(c, toks, exp, nil, unit, spell)
	return m
}

// checkRefs2 also admits alt[i] for reference token i.
func checkRefs2(c *Ctx, toks []string, exp, alt map[int]int, unit bool, spell func(i int, s string) string) (*goalResult, string) {
	starts := make([]int, len(toks))
	at := map[int]int{}
	var b strings.Builder
	pos := 0
	for i, t := range toks {
		if spell != nil {
			t = spell(i, t)
		}
		if i > 0 {
			b.WriteByte(' ')
			pos++
		}
		starts[i] = pos
		at[pos] = i
		b.WriteString(t)
		pos += len([]rune(t))
	}
	text := b.String()
	c.Input(text)
	c.Trace()
	r := parseGoal(text, unit)
	return r, refsWrong(c, r, at, exp, alt)
}

func refsWrong(c *Ctx, r *goalResult, at, exp, alt map[int]int) string {
	if r.err != nil {
		return "rejected: " + r.err.Error()
	}
	inAST := map[*astcore.Ident]bool{}
	for _, id := range Idents(r.node()) {
		inAST[id] = true
	}
	seen := 0
	refs := collectRefs(r.node())
	c.Trans(len(refs))
	for _, f := range refs {
		if f.id == nil || f.id.Location == nil || f.id.Location.Start == nil {
			return "a reference without location"
		}
		i, ok := at[f.id.Location.Start.Index]
		if !ok {
			return fmt.Sprintf("a reference %s that is not at a token", f.id.Name)
		}
		want, tracked := exp[i]
		if tracked {
			seen++
		} else if ast.EmbeddedTypeDeclMap.Get(f.id.Name) != nil {
			want = refEmbedded
		} else {
			want = refNone
		}
		got := refNone
		name := fmt.Sprintf("token %d (%s, %s)", i+1, f.id.Name, f.what)
		if f.ref != nil {
			if f.ref == ast.EmbeddedTypeDeclMap.Get(f.id.Name) {
				got = refEmbedded
			} else {
				if m := declWrong(f.ref); m != "" {
					return name + ": " + m
				}
				if !inAST[f.ref.Ident] {
					return name + " refers to a declaration that is not in this source"
				}
				got = at[f.ref.Ident.Location.Start.Index]
			}
		}
		if a, ok := alt[i]; ok && got == a {
			got = want
		}
		if got != want {
			show := func(k int) string {
				switch k {
				case refNone:
					return "nothing"
				case refEmbedded:
					return "the embedded type"
				}
				return fmt.Sprintf("the declaration at token %d", k+1)
			}
			return fmt.Sprintf("%s refers to %s instead of %s", name, show(got), show(want))
		}
	}
	if seen != len(exp) {
		return fmt.Sprintf("%d of %d references are in the AST", seen, len(exp))
	}
	return ""
}

// scopeRun enumerates every event sequence of up to max events.
func scopeRun(c *Ctx, names []string, max, depth int, full, unit bool, spell func(s *mstate) func(i int, s string) string) {
	g := &scopeGen{names: names, max: max, full: full, unit: unit, depth: depth, halted: c.Stopped}
	g.visit = func(s *mstate) {
		if !c.Mine() {
			c.Case(nil)
			return
		}
		c.Case(func() string {
			t := s.finish()
			c.State(strings.Join(s.toks, " "))
			var sp func(int, string) string
			if spell != nil {
				sp = spell(s)
			}
			return checkRefs(c, t, s.exp, unit, sp)
		})
	}
	g.run()
}

func runC13(c *Ctx) {
	for _, u := range []bool{false, true} {
		w := "program"
		if u {
			w = "unit"
		}
		c.Space(w + ": all kinds and places, one name")
		scopeRun(c, []string{"a"}, c.Pick(3, 4), 4, true, u, nil)
		c.Space(w + ": all kinds and places, a name and an embedded type")
		scopeRun(c, []string{"a", "Char"}, c.Pick(2, 3), 4, true, u, nil)
		c.Space(w + ": scopes, one name")
		scopeRun(c, []string{"a"}, c.Pick(6, 7), 5, false, u, nil)
		c.Space(w + ": scopes, two names")
		scopeRun(c, []string{"a", "b"}, c.Pick(4, 5), 4, false, u, nil)
	}
	runDeepScopes(c)
}

func init() {
	register(&Check{ID: "C13", Title: "scopes", Run: runC13, Assumptions: []string{
		"event sequences up to the stated length over one or two names; scope nesting up to 5",
		"routine names are not referenced from outside their routine, and parameters not inside their own heading",
	}})
}

// typeDecls lists the type declarations of an AST.
func typeDecls(n interface{}) []*ast.TypeDecl {
	var out []*ast.TypeDecl
	for _, r := range refNodes(n) {
		if r.key.typ == reflect.TypeOf((*ast.TypeDecl)(nil)) {
			out = append(out, r.val.(*ast.TypeDecl))
		}
	}
	return out
}
