package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// Spaces that go far in one direction: deep nesting, long lists, many units.

// ---- C13: deep nesting ----

var deepKinds = []string{"var %d : Byte ;", "const %d = 1 ;", "type %q = ( %q , %d ) ;", "param", "type %d = Byte ;", "threadvar %q , %d : Byte ;"}

// deepCase nests n scopes; in declares at the levels in the set, with the kinds
// from k on; every level refers to the name before and after its declaration,
// after the nested routine and in its statements.
func deepCase(c *Ctx, n int, in func(i int) bool, k int, unit bool) string {
	var toks []string
	q := 0
	exp := map[int]int{}
	var stack []int // declarations, innermost last
	w := func(t string) { toks = append(toks, strings.Fields(t)...) }
	ref := func(name string) {
		if len(stack) == 0 {
			exp[len(toks)] = refNone
		} else {
			exp[len(toks)] = stack[len(stack)-1]
		}
		w(name)
	}
	use := func() {
		q++
		w(fmt.Sprintf("const q%d =", q))
		ref("A")
		w(";")
	}
	var level func(i int)
	level = func(i int) {
		kind := deepKinds[(i+k)%len(deepKinds)]
		if i == 0 && kind == "param" || unit && i == 1 && kind == "param" {
			kind = deepKinds[0]
		}
		depth := len(stack)
		declare := func() {
			for _, x := range strings.Fields(kind) {
				switch x {
				case "%d":
					stack = append(stack, len(toks))
					w("a")
				case "%q":
					q++
					w(fmt.Sprintf("q%d", q))
				default:
					w(x)
				}
			}
		}
		switch {
		case i == 0 && unit:
			w("unit u ; interface")
		case i == 0:
			w("program p ;")
		case unit && i == 1:
			w("implementation")
		default:
			w(fmt.Sprintf("procedure r%d", i))
			if in(i) && kind == "param" {
				w("( zz : Byte ; const")
				stack = append(stack, len(toks))
				w("a : Byte )")
			}
			w(";")
		}
		use()
		if in(i) && kind != "param" {
			declare()
			use()
		}
		if i+1 < n {
			level(i + 1)
			if !(unit && i == 0) {
				use()
			}
		}
		switch {
		case i == 0 && unit:
		case unit && i == 1:
			w("initialization z :=")
			ref("a")
			w("; end .")
		default:
			w("begin z :=")
			ref("a")
			w("; if z then begin")
			ref("A")
			w(":= 1 end ; end")
			if i == 0 {
				w(".")
			} else {
				w(";")
			}
		}
		stack = stack[:depth]
	}
	if unit && n < 2 {
		n = 2
	}
	level(0)
	c.State(strings.Join(toks, " "))
	return checkRefs(c, toks, exp, unit, nil)
}

func runDeepScopes(c *Ctx) {
	for _, unit := range []bool{false, true} {
		unit := unit
		c.Space(fmt.Sprintf("nested routines, every subset of the levels declares the name (unit: %v)", unit))
		for n := 2; n <= c.Pick(8, 10); n++ {
			for m := 0; m < 1<<uint(n); m++ {
				for k := range deepKinds {
					n, m, k := n, m, k
					c.Case(func() string { return deepCase(c, n, func(i int) bool { return m>>uint(i)&1 == 1 }, k, unit) })
				}
			}
		}
		for _, n := range []int{12, 16, 17, 24, 33, 48, 65}[:c.Pick(5, 7)] {
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ {
					n, i, j := n, i, j
					c.Case(func() string { return deepCase(c, n, func(l int) bool { return l == i || l == j }, i+j, unit) })
				}
			}
		}
	}
}

// ---- C14: many units ----

func runManyUnits(c *Ctx) {
	names := []string{"Ua", "uB", "UC", "ud", "Ue", "Uf", "Ug", "Uh", "Ui", "Uj"}
	c.Space("many units: every subset of them exports the name")
	for n := 4; n <= c.Pick(6, 8); n++ {
		us := names[:n]
		for m := 0; m < 1<<uint(n); m++ {
			for _, own := range []int{kNone, kVar} {
				cfg := map[string]*unitCfg{}
				for i, u := range us {
					cfg[u] = &unitCfg{intf: []int{kNone, []int{kConst, kVar, kType, kEnum}[i%4]}[m>>uint(i)&1]}
				}
				(&projCfg{name: "x", units: us, cfg: cfg, prog: own, full: true}).run(c)
			}
		}
	}
	c.Space("a unit with many others: every subset of them exports the name, every split of the uses clauses")
	for n := 4; n <= c.Pick(5, 7); n++ {
		us := names[1 : n+1]
		for m := 0; m < 1<<uint(n); m++ {
			for s := 0; s <= n; s++ {
				for _, rev := range []bool{false, true} {
					cfg := map[string]*unitCfg{names[0]: {intfUses: us[:s], implUses: us[s:]}}
					for i, u := range us {
						cfg[u] = &unitCfg{intf: []int{kNone, []int{kConst, kVar, kType, kEnum}[i%4]}[m>>uint(i)&1]}
					}
					all := append([]string{names[0]}, us...)
					if rev {
						all = append(append([]string(nil), us...), names[0])
					}
					(&projCfg{name: "x", units: all, cfg: cfg, full: true}).run(c)
				}
			}
		}
	}
}

// runUnitCrowds: many units, every one of them (and every pair) exports the name.
func runUnitCrowds(c *Ctx) {
	c.Space("crowds of units: every one, and every pair, exports the name")
	for _, n := range []int{12, 17, 20, 33, 65}[:c.Pick(4, 5)] {
		var us []string
		for i := 0; i < n; i++ {
			us = append(us, fmt.Sprintf("U%dx", i))
		}
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				if c.Quick() && n > 17 && j > i+1 && j < n-1 {
					continue
				}
				cfg := map[string]*unitCfg{}
				for k, u := range us {
					cfg[u] = &unitCfg{}
					if k == i || k == j {
						cfg[u].intf = []int{kConst, kVar, kType, kEnum}[k%4]
					}
				}
				(&projCfg{name: "x", units: us, cfg: cfg, lean: true}).run(c)
				if j > i && j < n-1 && c.Quick() {
					continue
				}
				// a unit that uses the others
				for _, s := range []int{0, n / 2, n} {
					cfg2 := map[string]*unitCfg{"Main": {intfUses: us[:s], implUses: us[s:]}}
					for u, k := range cfg {
						cfg2[u] = k
					}
					(&projCfg{name: "x", units: append([]string{"Main"}, us...), cfg: cfg2, lean: true}).run(c)
				}
			}
		}
	}
}

// ---- C16: long lists ----

// Lists of n names; sep and the ends are text.
var dupLists = []struct {
	pre, sep, post string
	unit           bool
}{
	{"program p ; var ", " , ", " : Byte ; begin end .", false},
	{"program p ; threadvar ", " , ", " : Byte ; begin end .", false},
	{"program p ; label ", " ; label ", " ; begin end .", false},
	{"program p ; var ", " : Byte ; ", " : Byte ; begin end .", false},
	{"program p ; var ", " : Byte ; var ", " : Byte ; begin end .", false},
	{"program p ; const ", " = 1 ; ", " = 1 ; begin end .", false},
	{"program p ; const ", " : Byte = 1 ; const ", " : Byte = 1 ; begin end .", false},
	{"program p ; type ", " = Byte ; ", " = Byte ; begin end .", false},
	{"program p ; type ", " = class end ; type ", " = class end ; begin end .", false},
	{"program p ; type q = ( ", " , ", " ) ; begin end .", false},
	{"program p ; var q : ( ", " , ", " ) ; begin end .", false},
	{"program p ; procedure q ( ", " , ", " : Byte ) ; begin end ; begin end .", false},
	{"program p ; procedure q ( ", " : Byte ; ", " : Byte ) ; begin end ; begin end .", false},
	{"program p ; function q ( const ", " ; var ", " : Byte ) : Byte ; begin end ; begin end .", false},
	{"program p ; procedure q ; var ", " , ", " : Byte ; begin end ; begin end .", false},
	{"program p ; procedure q ; const ", " = 1 ; ", " = 1 ; begin end ; begin end .", false},
	{"program p ; type q = procedure ( ", " , ", " : Byte ) ; begin end .", false},
	{"program p ; type q = class procedure r ( ", " : Byte ; ", " : Byte ) ; end ; begin end .", false},
	{"program p ; uses ", " , ", " ; begin end .", false},
	{"unit u ; interface var ", " , ", " : Byte ; implementation end .", true},
	{"unit u ; interface const ", " = 1 ; ", " = 1 ; implementation end .", true},
	{"unit u ; interface type ", " = Byte ; ", " = Byte ; implementation end .", true},
	{"unit u ; interface type q = ( ", " , ", " ) ; implementation end .", true},
	{"unit u ; interface procedure q ( ", " , ", " : Byte ) ; implementation end .", true},
	{"unit u ; interface uses ", " , ", " ; implementation end .", true},
	{"unit u ; interface implementation uses ", " , ", " ; end .", true},
	{"unit u ; interface implementation var ", " : Byte ; ", " : Byte ; end .", true},
	{"unit u ; interface implementation type ", " = Byte ; type ", " = Byte ; end .", true},
}

func runLongDups(c *Ctx) {
	c.Space("long lists: every pair of places of the repeated name")
	lens := []int{3, 4, 5, 6, 8, 9, 10, 16, 17, 33, 65}
	lens = lens[:c.Pick(9, 11)]
	for _, l := range dupLists {
		for _, n := range lens {
			for i := 0; i < n; i++ {
				for j := i; j < n; j++ { // i == j: no name is repeated
					if i == j && i > 0 {
						continue
					}
					l, n, i, j := l, n, i, j
					if strings.Contains(l.pre, "implementation uses") && i != j {
						continue // the implementation's uses clause is judged in C14's loads only
					}
					c.Case(func() string {
						ns := make([]string, n)
						for k := range ns {
							ns[k] = fmt.Sprintf("n%d", k)
						}
						if i != j {
							ns[j] = strings.ToUpper(ns[i])
						}
						text := l.pre + strings.Join(ns, l.sep) + l.post
						c.Input(text)
						c.State(text)
						c.Trace()
						r := parseGoal(text, l.unit)
						switch {
						case i != j && r.err == nil:
							return "the second declaration is accepted"
						case i == j && r.err != nil:
							return "rejected although no name is declared twice in a scope: " + r.err.Error()
						}
						return ""
					})
				}
			}
		}
	}
}

// ---- C17: long type sections ----

func runLongTypes(c *Ctx) {
	c.Space("long type sections: every type refers to every other")
	plain := len(fwdForms) - 1
	for _, n := range []int{5, 6, 8, 12, 17, 24}[:c.Pick(4, 6)] {
		for place := range fwdPlaces {
			if n > 8 && place > 2 {
				continue
			}
			for fo := 0; fo < plain; fo++ {
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						if c.Stopped() {
							return
						}
						n, place, fo, i, j := n, place, fo, i, j
						if !c.Mine() {
							c.Case(nil)
							continue
						}
						c.Case(func() string {
							ds := make([]fwdDecl, n)
							for k := range ds {
								ds[k] = fwdDecl{form: plain}
							}
							refs := make([]int, fwdSlots(fo))
							for k := range refs {
								refs[k] = j
							}
							ds[i] = fwdDecl{fo, refs}
							m := fwdCase(c, place, ds, -1)
							c.State(c.cur)
							return m
						})
					}
				}
			}
		}
	}
	c.Space("long type sections: every type refers to the one at a distance")
	for _, n := range []int{6, 10, 16, 32} {
		for place := range fwdPlaces {
			for fo := 0; fo < plain; fo++ {
				for d := 0; d < n; d++ {
					n, place, fo, d := n, place, fo, d
					if fwdForms[fo] == "%n" || strings.HasPrefix(fwdForms[fo], "type %n") {
						continue
					}
					c.Case(func() string {
						ds := make([]fwdDecl, n)
						for k := range ds {
							refs := make([]int, fwdSlots(fo))
							for x := range refs {
								refs[x] = (k + d) % n
							}
							ds[k] = fwdDecl{fo, refs}
						}
						m := fwdCase(c, place, ds, -1)
						c.State(c.cur)
						return m
					})
				}
			}
		}
	}
}

// ---- C20: long and deep ASTs ----

func runLongWalks(c *Ctx) {
	for _, st := range starts() {
		st := st
		c.Space("repetition in " + strings.ToLower(st.nt.name) + "s: walk and every stop")
		for _, pu := range pascal.pumps(st.nt) {
			for _, m := range []int{2, 3, 4, 8, 17, 400, 40, 1100}[:c.Pick(6, 8)] {
				pu, m := pu, m
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				cfg := &genCfg{g: pascal, start: st.nt, path: pu.path(m), budget: 0}
				cfg.each(nil, func(ev func() *gtext) {
					c.Case(func() string {
						t := ev()
						if t.bad {
							return ""
						}
						c.Input(t.text())
						r := parseGoal(t.text(), st.unit)
						if r.err != nil {
							return "rejected: " + r.err.Error()
						}
						n, ok := r.node().(astcore.Node)
						if !ok {
							return "the goal is no node"
						}
						return walkCheck(c, n)
					})
				})
			}
		}
	}
}

// ---- texts through the file API ----

// loadGoal parses a text by loading it from a file; a unit is loaded by a program that lists it.
func loadGoal(c *Ctx, text string, unit bool) (prog *parser.Program, r *goalResult) {
	r = &goalResult{}
	if !unit {
		inScratch(c, func(dir string) { mustWrite(dir+"/prog.dpr", []byte(text)) }, func() string {
			prog, r.err = parser.ParseProgram("prog.dpr")
			return ""
		})
		if r.err == nil {
			r.prog = prog.Program
		}
		return
	}
	name := "u"
	if f := strings.Fields(text); len(f) > 1 {
		name = f[1]
	}
	inScratch(c, func(dir string) {
		mustWrite(dir+"/unit.pas", []byte(text))
		mustWrite(dir+"/prog.dpr", []byte("program qqprog ; uses "+name+" in 'unit.pas' ; begin end ."))
	}, func() string {
		prog, r.err = parser.ParseProgram("prog.dpr")
		return ""
	})
	if r.err == nil {
		r.unit = prog.Units[0]
	}
	return
}

func runLoaded(c *Ctx) {
	for b := 0; b <= c.Pick(1, 2); b++ {
		c.Space([]string{"every production, loaded from a file", "every pair of productions, loaded from a file", "every triple of productions, loaded from a file"}[b])
		eachText(c, corpus(b), func(it citem) string {
			text := it.t.text()
			c.Input(text)
			c.Trace()
			c.Trans(1)
			want := parseGoal(text, it.unit)
			prog, got := loadGoal(c, text, it.unit)
			if want.err != nil {
				return "rejected: " + want.err.Error()
			}
			if got.err != nil {
				return "rejected when loaded from a file: " + got.err.Error()
			}
			if it.unit {
				if len(prog.Units) != 1 || prog.Units[0].Path != "unit.pas" {
					return "the program has not its unit"
				}
			} else if len(prog.Units) != 0 {
				return "units are returned although none is loaded"
			}
			d := func(r *goalResult) string { return (&Dumper{Loc: true}).Dump(r.node()) }
			if w, g := d(want), d(got); w != g {
				return "loaded from a file it is parsed differently, " + diffAt(w, g)
			}
			return ""
		})
	}
}

// runLoadedEdits: a unit that is rejected in memory is rejected with the same error when it is loaded.
func runLoadedEdits(c *Ctx) {
	c.Space("every production of units, single-token edits, loaded from a file")
	alpha := smallAlphabet
	if !c.Quick() {
		alpha = editAlphabet(false)
	}
	for _, it := range corpus(0) {
		it := it
		if !it.unit {
			continue
		}
		if !c.Mine() {
			c.Case(nil)
			continue
		}
		c.Case(func() string {
			name := it.t.toks[1]
			c.State(it.t.text())
			return inScratch(c, func(dir string) {
				mustWrite(dir+"/prog.dpr", []byte("program qqprog ; uses "+name+" in 'unit.pas' ; begin end ."))
			}, func() string {
				msg, k := "", 0
				edits(it.t.toks, alpha, func(e edit) {
					toks := e.apply(it.t.toks)
					if msg != "" || len(toks) < 2 || toks[1] != name && kindOfTok(toks[1]) == tkIdent {
						return
					}
					if k++; k&255 == 0 {
						c.Alive()
					}
					text := strings.Join(toks, " ")
					c.Input(text)
					c.Trace()
					c.Trans(1)
					mustWrite("unit.pas", []byte(text))
					want := parseGoal(text, true)
					_, err := parser.ParseProgram("prog.dpr")
					ws, gs := "accepted", "accepted"
					if want.err != nil {
						ws = want.err.Error()
					}
					if err != nil {
						gs = err.Error()
					}
					if ws != gs {
						msg = fmt.Sprintf("in memory %q, loaded from a file %q", ws, gs)
					}
				})
				return msg
			})
		})
	}
}
