package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast"
)

// ---- C17: forward references in type sections ----

// Type forms; %n is a reference to one of the names.
var fwdForms = []string{
	"^ %n", "record %q : %n end", "class ( %n ) end", "array [ 1 .. 2 ] of %n", "%n", "procedure ( %q : %n )", "function : %n", "class %q : %n ; end",
	"class of %n", "file of %n", "class procedure %q ( %q : %n ) ; end", "class function %q : %n ; end", "class constructor %q ( const %q : array of %n ) ; end",
	"record case Byte of 1 : ( %q : %n ) end", "class %M : Byte ; property %q : %n read %m ; end", "class %M : Byte ; property %q [ %q : %n ] : Byte read %m ; end", "array of ^ %n",
	"function ( var %q , %q : %n ) : Byte of object", "record %q : record %q : ^ %n end end", "class ( qq , %n ) end", "type %n", "packed array [ Byte ] of %n", "class private %q : %n ; public %q : ^ %n ; end",
	"class ( %n ) %q : %n ; procedure %q ( %q : %n ) ; end", "record %q , %q : %n ; %q : array of %n end", "class procedure %q ( %x : %n ) ; end", "record %x : %n end", "procedure ( %x : %n )", "class %x : %n ; end",
	"class ; ;; class end", "class ; ;; class ( %n ) end", "class ; ;; class %q : %n ; end",
	"%n platform", "record %q : %n end deprecated", "^ %n library", "class ( %n ) end platform", "Byte",
}

const fwdFew = 11

var fwdPlaces = []struct {
	pre, post string
	unit      bool
}{
	{"program p ;", "begin end .", false},
	{"unit u ; interface", "implementation end .", true},
	{"unit u ; interface implementation", "end .", true},
	{"program p ; procedure q0 ;", "begin end ; begin end .", false},
	{"unit u ; interface implementation procedure q0 ; procedure q00 ;", "begin end ; begin end ; end .", true},
	{"program p ; var v0 : Byte ; const c0 = 1 ; type z0 = ^ z1 ;", "type z1 = Byte ; var v1 : Byte ; begin end .", false},
	{"unit u ; interface type z0 = class end ;", "var v1 : Byte ; implementation type z1 = Byte ; end .", true},
}

type fwdDecl struct {
	form int
	refs []int // one per %n
}

// fwdCase renders a section: split gives after which declaration a new TYPE
// section starts (-1: none).
func fwdCase(c *Ctx, place int, ds []fwdDecl, split int) string {
	pl := fwdPlaces[place]
	toks := strings.Fields(pl.pre)
	nameOf := func(i int) string {
		if i >= len(ds) {
			return "tx"
		}
		return fmt.Sprintf("t%d", i+1)
	}
	type ref struct{ tok, name, sec, pos int }
	var refs []ref
	first := make([]int, len(ds))  // token of the first declaration of the name
	actual := make([]int, len(ds)) // token of the completing one
	sec := make([]int, len(ds))
	section, q := 0, 0
	fwd := map[int]bool{}
	// forms with ";;" are declared forward at their own place and completed at the
	// end of the section
	type tail struct {
		i    int
		body []string
		refs []int
	}
	var tails []tail
	mem, memRefs := 0, map[int]int{}
	emit := func(i int, body []string, rs []int) []int {
		for _, w := range body {
			switch w {
			case "%n":
				refs = append(refs, ref{len(toks), rs[0], section, i})
				toks = append(toks, nameOf(rs[0]))
				rs = rs[1:]
			case "%x": // a member or parameter with the name of the type used
				toks = append(toks, nameOf(rs[0]))
			case "%M":
				mem = len(toks)
				toks = append(toks, "f1")
			case "%m":
				memRefs[len(toks)] = mem
				toks = append(toks, "f1")
			case "%q":
				q++
				toks = append(toks, fmt.Sprintf("q%d", q))
			default:
				toks = append(toks, w)
			}
		}
		return rs
	}
	flush := func() {
		for _, t := range tails {
			actual[t.i] = len(toks)
			toks = append(toks, strings.ToUpper(nameOf(t.i)), "=")
			emit(t.i, t.body, t.refs)
			toks = append(toks, ";")
		}
		tails = nil
	}
	toks = append(toks, "type")
	for i, d := range ds {
		first[i], actual[i], sec[i] = len(toks), len(toks), section
		toks = append(toks, strings.ToUpper(nameOf(i)), "=") // references are in lower case
		body := strings.Fields(fwdForms[d.form])
		cut := -1
		for k, w := range body {
			if w == ";;" {
				cut = k
			}
		}
		if cut >= 0 {
			fwd[i] = true
			toks = append(toks, body[:cut]...)
			tails = append(tails, tail{i, body[cut+1:], d.refs})
		} else {
			emit(i, body, d.refs)
			toks = append(toks, ";")
		}
		if split == i {
			flush()
			section++
			toks = append(toks, "type")
		}
	}
	flush()
	toks = append(toks, strings.Fields(pl.post)...)
	exp, alt := map[int]int{}, map[int]int{}
	for _, r := range refs {
		switch {
		case r.name >= len(ds) || sec[r.name] > r.sec:
			exp[r.tok] = refNone
		default:
			exp[r.tok] = actual[r.name]
			if fwd[r.name] && r.sec == sec[r.name] {
				alt[r.tok] = first[r.name]
			}
		}
	}
	for k, v := range memRefs {
		exp[k] = v
	}
	for i, t := range toks { // the context's own types
		if t == "z1" {
			exp[i] = refNone
		}
	}
	for i, t := range toks {
		if t == "z1" && i+1 < len(toks) && toks[i+1] == "=" {
			delete(exp, i)
		}
	}
	res, msg := checkRefs2(c, toks, exp, alt, pl.unit, nil)
	if msg != "" {
		return msg
	}
	// every forward declaration has the class declared later
	for _, td := range typeDecls(res.node()) {
		if f, ok := td.Type.(*ast.ForwardDeclaredClassType); ok {
			n := 0
			for _, td2 := range typeDecls(res.node()) {
				if cl, ok := td2.Type.(*ast.CustomClassType); ok && strings.EqualFold(td.Ident.Name, td2.Ident.Name) {
					n++
					if f.Actual != cl {
						return "the forward declaration of " + td.Ident.Name + " does not have the class declared later"
					}
				}
			}
			if n != 1 {
				return "no class for the forward declaration of " + td.Ident.Name
			}
		}
	}
	return ""
}

func fwdSlots(form int) int { return strings.Count(fwdForms[form], "%n") }

// eachTypes enumerates every sequence of n declarations over the first k forms.
func eachTypes(n, k int, f func(ds []fwdDecl)) {
	ds := make([]fwdDecl, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(ds)
			return
		}
		for fo := 0; fo < k; fo++ {
			s := fwdSlots(fo)
			refs := make([]int, s)
			var rr func(j int)
			rr = func(j int) {
				if j == s {
					ds[i] = fwdDecl{fo, append([]int(nil), refs...)}
					rec(i + 1)
					return
				}
				for t := 0; t <= n; t++ {
					refs[j] = t
					rr(j + 1)
				}
			}
			if s > 2 { // all slots refer to the same name
				for t := 0; t <= n; t++ {
					for j := range refs {
						refs[j] = t
					}
					ds[i] = fwdDecl{fo, append([]int(nil), refs...)}
					rec(i + 1)
				}
			} else {
				rr(0)
			}
		}
	}
	rec(0)
}

func runC17(c *Ctx) {
	run := func(place, n, k, split int) {
		eachTypes(n, k, func(ds []fwdDecl) {
			if c.Stopped() {
				return
			}
			if !c.Mine() {
				c.Case(nil)
				return
			}
			d2 := append([]fwdDecl(nil), ds...)
			c.Case(func() string {
				m := fwdCase(c, place, d2, split)
				c.State(c.cur)
				return m
			})
		})
	}
	few := c.Pick(5, fwdFew)
	for p := range fwdPlaces {
		pl := strings.Join(strings.Fields(fwdPlaces[p].pre), " ")
		c.Space("all forms, two types, in " + pl)
		run(p, 1, len(fwdForms), -1)
		run(p, 2, len(fwdForms), -1)
		run(p, 2, len(fwdForms), 0)
		c.Space("three types, in " + pl)
		run(p, 3, few, -1)
		run(p, 3, few, 0)
		run(p, 3, few, 1)
	}
	c.Space("three types, more forms, in a program")
	run(0, 3, c.Pick(11, 20), -1)
	runLongTypes(c)
	if !c.Quick() {
		c.Space("four types, in a program")
		run(0, 4, 6, -1)
		c.Space("four types, in a unit")
		run(1, 4, 5, -1)
	}
}

func init() {
	register(&Check{ID: "C17", Title: "forward references", Run: runC17, Assumptions: []string{
		"the name used before its declaration is not visible from elsewhere (an outer or earlier declaration of it, a used unit or an embedded type)",
		"type names only; constants and bounds must be declared before",
	}})
}
