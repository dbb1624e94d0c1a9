package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
)

// ---- C23: kinds of types ----

// The kinds of a type, in the order of the kind queries.
const (
	kSimple = 1 << iota
	kOrdinal
	kReal
	kOrdIdent
	kString
	kPointer
	kVariant
)

type typeForm struct {
	text string
	bits int
	name bool // a name, not a type expression
}

var embeddedForms = func() (r []typeForm) {
	for _, g := range []struct {
		names string
		bits  int
	}{
		{"Real48 Real Single Double Extended Currency Comp", kSimple | kReal},
		{"Integer Cardinal ShortInt SmallInt LongInt Int64 Byte Word LongWord Char AnsiChar WideChar Boolean", kSimple | kOrdinal | kOrdIdent},
		{"String AnsiString WideString", kString},
		{"Pointer PChar PAnsiChar PWideChar", kPointer},
		{"Variant OleVariant", kVariant},
	} {
		for _, n := range strings.Fields(g.names) {
			r = append(r, typeForm{n, g.bits, true})
		}
	}
	return r
}()

var otherForms = []typeForm{
	{"( %q )", kSimple | kOrdinal, false},
	{"( %q , %q )", kSimple | kOrdinal, false},
	{"( %q = 1 , %q = 3 )", kSimple | kOrdinal, false},
	{"1 .. 2", kSimple | kOrdinal, false},
	{"'a' .. 'z'", kSimple | kOrdinal, false},
	{"%c .. %c", kSimple | kOrdinal, false},
	{"%c .. 9", kSimple | kOrdinal, false},
	{"1 .. %c + 1", kSimple | kOrdinal, false},
	{"string [ 5 ]", kString, false},
	{"^ Byte", kPointer, false},
	{"^ %q", kPointer, false},
	{"array of Byte", 0, false},
	{"array [ 0 .. 1 ] of Byte", 0, false},
	{"array [ Byte , Boolean ] of ( %q )", 0, false},
	{"packed array [ Byte ] of Byte", 0, false},
	{"set of Byte", 0, false},
	{"set of ( %q )", 0, false},
	{"packed set of 1 .. 2", 0, false},
	{"file of Byte", 0, false},
	{"record end", 0, false},
	{"record %q : Byte end", 0, false},
	{"packed record %q : Byte end", 0, false},
	{"record case Byte of 0 : ( ) end", 0, false},
	{"procedure", 0, false},
	{"procedure ( %q : Byte )", 0, false},
	{"function : Byte", 0, false},
	{"procedure of object", 0, false},
	{"class end", 0, false},
	{"class ( TObject ) end", 0, false},
	{"class %q : Byte ; end", 0, false},
	{"class of %q", 0, false},
}

// names that are declared as something else than a type, or not at all
var noTypeForms = []typeForm{
	{"undeclared", 0, true}, {"aConst", 0, true}, {"aVar", 0, true}, {"aTyped", 0, true}, {"aThread", 0, true}, {"anElement", 0, true},
}

const noTypeDecls = "const aConst = 1 ; aTyped : string = 1 ; var aVar : string ; threadvar aThread : string ; type anEnum = ( anElement ) ; "

// Where a type is used; %t is the type.
type typePos struct {
	tmpl  string
	names bool // only names are a type here
}

var ordinalPos = []typePos{
	{"array [ %t ] of Byte", false},
	{"array [ %t , Byte ] of Byte", false},
	{"array [ Byte , %t ] of Byte", false},
	{"array [ 1 .. 2 , %t , 3 .. 4 ] of Byte", false},
	{"packed array [ %t ] of Byte", false},
	{"array of array [ %t ] of Byte", false},
	{"set of %t", false},
	{"packed set of %t", false},
	{"array [ Byte ] of set of %t", false},
	{"record case %t of 0 : ( ) end", true},
	{"record case %q : %t of 0 : ( ) end", true},
	{"record %q : Byte ; case %t of 0 : ( %q : Byte ) ; 1 : ( ) end", true},
	{"record case Byte of 0 : ( case %t of 1 : ( ) ) end", true},
	{"record %q : set of %t end", false},
	{"record case Byte of 0 : ( %q : set of %t ) end", false},
	{"record case Byte of 0 : ( case %q : %t of 1 : ( ) ) end", true},
}

var fewPos = []int{0, 6, 10} // array, set and record variant

// The kinds of sections the use stands in; %t is the type expression.
var typeUses = []string{"type %q = %t ;", "var %q : %t ;", "threadvar %q : %t ;", "const %q : %t = 1 ;", "type %q = record %q : %t end ;", "type %q = class %q : %t ; end ;"}

// isKinds answers the kind queries of a type.
func isKinds(t interface{}) int {
	r := 0
	if x, ok := t.(ast.SimpleType); ok && x.IsSimpleType() {
		r |= kSimple
	}
	if x, ok := t.(ast.OrdinalType); ok && x.IsOrdinalType() {
		r |= kOrdinal
	}
	if x, ok := t.(ast.RealType); ok && x.IsRealType() {
		r |= kReal
	}
	if x, ok := t.(ast.OrdIdent); ok && x.IsOrdIdent() {
		r |= kOrdIdent
	}
	if x, ok := t.(ast.StringType); ok && x.IsStringType() {
		r |= kString
	}
	if x, ok := t.(ast.PointerType); ok && x.IsPointerType() {
		r |= kPointer
	}
	if x, ok := t.(ast.VariantType); ok && x.IsVariantType() {
		r |= kVariant
	}
	return r
}

func kindNames(b int) string {
	var r []string
	for i, n := range []string{"simple", "ordinal", "real", "ordident", "string", "pointer", "variant"} {
		if b&(1<<i) != 0 {
			r = append(r, n)
		}
	}
	return "[" + strings.Join(r, " ") + "]"
}

// typesOf returns the type names and the types of type declarations of an AST.
func typesOf(n interface{}) (ids []*ast.TypeId, decls []*ast.TypeDecl) {
	tTypeId, tTypeDecl := reflect.TypeOf(&ast.TypeId{}), reflect.TypeOf(&ast.TypeDecl{})
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || v.Type() == tDecl || v.Type() == tIdent {
				return
			}
			switch v.Type() {
			case tTypeId:
				ids = append(ids, v.Interface().(*ast.TypeId))
			case tTypeDecl:
				decls = append(decls, v.Interface().(*ast.TypeDecl))
			}
			walk(v.Elem())
		case reflect.Struct:
			for _, f := range infoOf(v.Type()).fields {
				if f.typ == tDecl || f.typ == tUnit || f.name == "Actual" || (f.name == "Parent" && f.typ == tClassProp) {
					continue
				}
				walk(v.Field(f.idx))
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(n))
	return
}

// A kindCase is a chain of type declarations and a use at its end.
type kindCase struct {
	form   typeForm
	named  string // name of the first declaration, T0 if empty
	hops   int    // further declarations, each naming the one before
	at     []int  // where each declaration stands, then the use: see kindPlaces
	qual   bool   // names of other units are qualified
	strong bool   // declarations have TYPE
	split  bool   // each declaration in a section of its own
	pos    int    // -1: plain use
	use    int
	upper  bool
}

var kindPlaces = []string{"interface of a unit used by a unit", "interface of a unit", "program", "routine", "implementation of a unit", "routine of a unit"}

type kindProj struct {
	files  map[string]string
	order  []string
	reject bool
	bits   map[string]int // expected kinds of names, folded
}

func (k *kindCase) name(i int) string {
	if i == 0 && k.named != "" {
		return k.named
	}
	n := fmt.Sprintf("Tt%d", i)
	if k.upper && i%2 == 1 {
		return strings.ToUpper(n)
	}
	return n
}

func (k *kindCase) build() *kindProj {
	q := 0
	fill := func(tmpl, typ string) string {
		var b []string
		for _, w := range strings.Fields(tmpl) {
			switch w {
			case "%q":
				q++
				w = fmt.Sprintf("qq%d", q)
			case "%c":
				w = "someConst"
			case "%t":
				w = typ
			}
			b = append(b, w)
		}
		return strings.Join(b, " ")
	}
	var body [6]string
	lastPlace, open := -1, false
	decls := 0
	bits := map[string]int{}
	section := func(pl int) {
		if !open || lastPlace != pl || k.split {
			body[pl] += "type "
		}
		lastPlace, open = pl, true
	}
	typ, typPlace := fill(k.form.text, ""), -1
	unitOf := func(pl int) string {
		switch pl {
		case 0:
			return "Uz"
		case 1, 4, 5:
			return "Uy"
		}
		return ""
	}
	ref := func(pl int) string {
		s := typ
		if typPlace >= 0 {
			if k.upper && len(k.at)%2 == 0 {
				s = strings.ToLower(s)
			}
			if k.qual && unitOf(typPlace) != "" && unitOf(typPlace) != unitOf(pl) {
				s = unitOf(typPlace) + " . " + s
			}
		}
		return s
	}
	total := k.hops
	if !k.form.name {
		total++ // the form needs a declaration unless it is used directly
		if k.hops < 0 {
			total = 0
		}
	}
	for ; decls < total; decls++ {
		pl := k.at[decls]
		section(pl)
		st := ""
		if k.strong {
			st = "type "
		}
		body[pl] += k.name(decls) + " = " + st + ref(pl) + " ; "
		typ, typPlace = k.name(decls), pl
		bits[strings.ToUpper(typ)] = k.form.bits
	}
	pl := k.at[total]
	name := k.form.name || total > 0
	t := ref(pl)
	if k.pos >= 0 {
		t = fill(ordinalPos[k.pos].tmpl, t)
	}
	body[pl] += fill(typeUses[k.use], t)
	if k.pos < 0 && k.use == 0 {
		bits[fmt.Sprintf("QQ%d", q)] = k.form.bits
	}
	if name && total == 0 {
		bits[strings.ToUpper(typ)] = k.form.bits
	}
	for _, f := range noTypeForms {
		if f.text == k.form.text {
			body[k.at[0]] = noTypeDecls + body[k.at[0]]
		}
	}
	p := &kindProj{files: map[string]string{}, bits: bits, reject: k.pos >= 0 && k.form.bits&kOrdinal == 0}
	uses := [6]bool{}
	for _, a := range k.at[:total+1] {
		uses[a] = true
	}
	uz := uses[0]
	uy := uses[1] || uses[4] || uses[5]
	var list []string
	if uz {
		list = append(list, "Uz in 'uz.pas'")
	}
	if uy {
		list = append(list, "Uy in 'uy.pas'")
	}
	prog := "program Pp ; "
	if len(list) > 0 {
		prog += "uses " + strings.Join(list, " , ") + " ; "
	}
	prog += body[2]
	if uses[3] {
		prog += " procedure rr ; " + body[3] + " begin end ; "
	}
	prog += " begin end ."
	p.files["p.dpr"] = prog
	p.order = []string{"p.dpr"}
	if uz {
		p.files["uz.pas"] = "unit Uz ; interface " + body[0] + " implementation end ."
		p.order = append(p.order, "uz.pas")
	}
	if uy {
		s := "unit Uy ; interface "
		if uz {
			s += "uses Uz ; "
		}
		s += body[1] + " implementation " + body[4]
		if uses[5] {
			s += " procedure rs ; " + body[5] + " begin end ; "
		}
		p.files["uy.pas"] = s + " end ."
		p.order = append(p.order, "uy.pas")
	}
	return p
}

func (p *kindProj) text() string {
	if len(p.order) == 1 {
		return p.files["p.dpr"]
	}
	var b strings.Builder
	for _, f := range p.order {
		fmt.Fprintf(&b, "%s: %s\n", f, p.files[f])
	}
	return b.String()
}

func (p *kindProj) wrong(c *Ctx, nodes []interface{}, err error) string {
	c.Outcome(fmt.Sprint(p.reject, err == nil))
	if p.reject {
		if err == nil {
			return "a type that is not ordinal is accepted where the language needs an ordinal type"
		}
		return ""
	}
	if err != nil {
		return "rejected: " + err.Error()
	}
	for _, n := range nodes {
		ids, decls := typesOf(n)
		for _, id := range ids {
			if want, ok := p.bits[strings.ToUpper(id.Ident.Name)]; ok {
				if got := isKinds(id); got != want {
					return fmt.Sprintf("type name %s has the kinds %s, not %s", id.Ident.Name, kindNames(got), kindNames(want))
				}
				c.Trans(1)
			}
		}
		for _, d := range decls {
			want, ok := p.bits[strings.ToUpper(d.Ident.Name)]
			if ok {
				if got := isKinds(d.Type); got != want {
					return fmt.Sprintf("the type of %s has the kinds %s, not %s", d.Ident.Name, kindNames(got), kindNames(want))
				}
				c.Trans(1)
			}
		}
	}
	return ""
}

func (k *kindCase) run(c *Ctx) {
	if !c.Mine() {
		c.Case(nil)
		return
	}
	c.Case(func() string {
		p := k.build()
		c.Input(p.text())
		c.State(p.text())
		c.Trace()
		if len(p.order) == 1 {
			r, err := parseProgramText(p.files["p.dpr"])
			return p.wrong(c, []interface{}{r}, err)
		}
		return inScratch(c, func(dir string) {
			for f, s := range p.files {
				if err := os.WriteFile(filepath.Join(dir, f), []byte(s), 0o644); err != nil {
					panic(err)
				}
			}
		}, func() string {
			r, err := parser.ParseProgram("p.dpr")
			if err != nil {
				return p.wrong(c, nil, err)
			}
			nodes := []interface{}{r.Program}
			for _, u := range r.Units {
				nodes = append(nodes, u)
			}
			return p.wrong(c, nodes, nil)
		})
	})
}

// kindPaths returns every sequence of n places, each visible from the next.
func kindPaths(n int) (r [][]int) {
	order := [][]int{{0, 1, 2, 3}, {0, 1, 4, 5}}
	seen := map[string]bool{}
	for _, o := range order {
		var rec func(cur []int, from int)
		rec = func(cur []int, from int) {
			if len(cur) == n {
				s := fmt.Sprint(cur)
				if !seen[s] {
					seen[s] = true
					r = append(r, append([]int(nil), cur...))
				}
				return
			}
			for i := from; i < len(o); i++ {
				rec(append(cur, o[i]), i)
			}
		}
		rec(nil, 0)
	}
	return r
}

func runC23(c *Ctx) {
	all := append(append(append([]typeForm(nil), embeddedForms...), otherForms...), noTypeForms...)
	each := func(pos []int, f func(pos int)) {
		for _, p := range pos {
			f(p)
		}
	}
	var every []int
	for i := -1; i < len(ordinalPos); i++ {
		every = append(every, i)
	}
	few := append([]int{-1}, fewPos...)
	ok := func(k *kindCase, total int) bool {
		if k.pos < 0 {
			return true
		}
		if ordinalPos[k.pos].names && !k.form.name && total == 0 {
			return false
		}
		return true
	}

	c.Space("every type used directly, in every position and every kind of section")
	for _, f := range all {
		for _, at := range kindPaths(1) {
			for use := range typeUses {
				each(every, func(pos int) {
					for _, sp := range []func(string) string{nil, strings.ToUpper, strings.ToLower} {
						g := f
						if sp != nil {
							if !f.name {
								continue
							}
							g.text = sp(f.text)
						}
						k := &kindCase{form: g, hops: -1, at: at, pos: pos, use: use}
						if g.name {
							k.hops = 0
						}
						if strings.HasPrefix(f.text, "class") && (use > 0 || pos >= 0) {
							continue // class types are declared in type sections
						}
						if use == 3 && strings.Contains(f.text, "..") {
							continue // the = would belong to the upper bound
						}
						if ok(k, 0) {
							k.run(c)
						}
					}
				})
			}
		}
	}
	c.Space("every type under a name")
	for _, f := range all {
		for _, at := range kindPaths(2) {
			for use := range typeUses {
				each(every, func(pos int) {
					for _, st := range []bool{false, true} {
						h := 0
						if f.name {
							h = 1
						}
						k := &kindCase{form: f, hops: h, at: at, pos: pos, use: use, strong: st, qual: use%2 == 1}
						if st && !f.name {
							continue
						}
						k.run(c)
					}
				})
			}
		}
	}
	c.Space("every type under the name of every embedded type")
	for _, f := range all {
		for _, e := range embeddedForms {
			if strings.EqualFold(f.text, e.text) || strings.EqualFold(e.text, "string") {
				continue
			}
			for _, at := range kindPaths(2) {
				for _, qual := range []bool{false, true} {
					each(few, func(pos int) {
						h := 0
						if f.name {
							h = 1
						}
						k := &kindCase{form: f, named: e.text, hops: h, at: at, pos: pos, qual: qual}
						if qual && at[0] == at[1] {
							return
						}
						if strings.Contains(strings.ToLower(f.text), strings.ToLower(e.text)) {
							return // the type itself names the embedded type
						}
						for _, p := range []int{0, 6, 10} {
							if pos == p && strings.EqualFold(e.text, "byte") {
								return
							}
						}
						k.run(c)
					})
				}
			}
		}
	}
	c.Space("chains of names across sections, routines and units")
	max := c.Pick(4, 7)
	for n := 3; n <= max; n++ {
		for _, at := range kindPaths(n) {
			for _, f := range all {
				h := n - 2
				if f.name {
					h = n - 1
				}
				for v := 0; v < 8; v++ {
					if n > 3 && c.Quick() && v != 0 && v != 7 {
						continue
					}
					each(few, func(pos int) {
						(&kindCase{form: f, hops: h, at: at, pos: pos, qual: v&1 != 0, split: v&2 != 0, upper: v&4 != 0}).run(c)
					})
				}
			}
		}
	}
	c.Space("long chains")
	for n := 5; n <= c.Pick(40, 200); n++ {
		for _, f := range all {
			h := n
			at := make([]int, n+2)
			for i := range at {
				at[i] = 2
			}
			each(few, func(pos int) { (&kindCase{form: f, hops: h, at: at, pos: pos}).run(c) })
		}
	}
	c.Space("circular chains are not ordinal")
	for n := 1; n <= 5; n++ {
		for in := 0; in <= 3; in++ {
			for _, pos := range ordinalPos {
				var b strings.Builder
				b.WriteString("program p ; type ")
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "R%d = R%d ; ", i, (i+1)%n)
				}
				last := "R0"
				for i := 0; i < in; i++ {
					fmt.Fprintf(&b, "L%d = %s ; ", i, last)
					last = fmt.Sprintf("L%d", i)
				}
				fmt.Fprintf(&b, "type U = %s ; begin end .", strings.ReplaceAll(strings.ReplaceAll(pos.tmpl, "%t", last), "%q", "q"))
				text := b.String()
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				c.Case(func() string {
					c.Input(text)
					c.State(text)
					c.Trace()
					if _, err := parseProgramText(text); err == nil {
						return "a type that is not ordinal is accepted where the language needs an ordinal type"
					}
					return ""
				})
			}
		}
	}
}

func init() {
	register(&Check{ID: "C23", Title: "kinds of types", Run: runC23, Assumptions: []string{
		"a type name is declared before it is used where an ordinal type is needed",
		"class types only in type declarations; a variant selector is a type name",
	}})
}
