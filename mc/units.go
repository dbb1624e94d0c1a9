package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// ---- projects: a program and its units, with the expected references ----

// A psrc is one source file of a project.
type psrc struct {
	file string
	toks []string
	key  map[string]int // declaration -> token
	refs map[int]string // reference token -> "none", "emb" or "file!declaration"
	q    int
}

func newSrc(file string) *psrc {
	return &psrc{file: file, key: map[string]int{}, refs: map[int]string{}}
}

func (s *psrc) w(text string) { s.toks = append(s.toks, strings.Fields(text)...) }

// d declares name under the key.
func (s *psrc) d(key, name string) {
	s.key[key] = len(s.toks)
	s.toks = append(s.toks, name)
}

func (s *psrc) r(name, want string) {
	s.refs[len(s.toks)] = want
	s.toks = append(s.toks, name)
}

func (s *psrc) fresh() string {
	s.q++
	return fmt.Sprintf("q%d%s", s.q, strings.Map(func(r rune) rune {
		if r == '.' || r == '/' {
			return '_'
		}
		return r
	}, s.file))
}

type proj struct {
	srcs   []*psrc // the program first, the loaded units in listing order
	reject bool
	after  func(p *parser.Program) string
}

func (p *proj) text() string {
	var b strings.Builder
	for _, s := range p.srcs {
		fmt.Fprintf(&b, "[%s] %s\n", s.file, strings.Join(s.toks, " "))
	}
	return b.String()
}

func (p *proj) write(dir string) {
	for _, s := range p.srcs {
		f := filepath.Join(dir, s.file)
		if strings.Contains(s.file, "/") {
			os.MkdirAll(filepath.Dir(f), 0o755)
		}
		if err := os.WriteFile(f, []byte(strings.Join(s.toks, " ")), 0o644); err != nil {
			panic(err)
		}
	}
}

// check loads the project with the file API and compares every reference.
func (p *proj) check(c *Ctx) string {
	c.Input(p.text())
	c.Trace()
	return inScratch(c, p.write, func() string {
		res, err := parser.ParseProgram(p.srcs[0].file)
		if p.reject {
			if err == nil {
				return "accepted"
			}
			return ""
		}
		if err != nil {
			return "rejected: " + err.Error()
		}
		if m := p.wrong(c, res); m != "" {
			return m
		}
		if p.after != nil {
			return p.after(res)
		}
		return ""
	})
}

type tokPos struct{ src, tok int }

func (p *proj) wrong(c *Ctx, res *parser.Program) string {
	if len(res.Units) != len(p.srcs)-1 {
		return fmt.Sprintf("%d units are returned instead of %d", len(res.Units), len(p.srcs)-1)
	}
	asts := []interface{}{res.Program}
	for i, u := range res.Units {
		if u == nil || u.Ident == nil {
			return "a unit without a name"
		}
		if want := p.srcs[i+1].toks[1]; !strings.EqualFold(u.Ident.Name, want) {
			return fmt.Sprintf("unit %d is %s instead of %s", i+1, u.Ident.Name, want)
		}
		asts = append(asts, u)
	}
	ids := map[*astcore.Ident]tokPos{}
	ats := make([]map[int]int, len(asts))
	for i, a := range asts {
		_, ats[i] = joinToks(p.srcs[i].toks)
		for _, id := range Idents(a) {
			if id.Location == nil || id.Location.Start == nil {
				return "an identifier without location"
			}
			t, ok := ats[i][id.Location.Start.Index]
			if !ok {
				return fmt.Sprintf("identifier %s is at no token of %s", id.Name, p.srcs[i].file)
			}
			ids[id] = tokPos{i, t}
		}
	}
	show := func(t tokPos) string {
		return fmt.Sprintf("%s token %d (%s)", p.srcs[t.src].file, t.tok+1, p.srcs[t.src].toks[t.tok])
	}
	for i, a := range asts {
		s := p.srcs[i]
		seen := 0
		for _, f := range collectRefs(a) {
			c.Trans(1)
			t := ats[i][f.id.Location.Start.Index]
			want, tracked := s.refs[t]
			if tracked {
				seen++
			} else if ast.EmbeddedTypeDeclMap.Get(f.id.Name) != nil {
				want = "emb"
			} else {
				want = "none"
			}
			name := show(tokPos{i, t})
			got := "none"
			var gp tokPos
			if f.ref != nil {
				if f.ref == ast.EmbeddedTypeDeclMap.Get(f.id.Name) {
					got = "emb"
				} else {
					if m := declWrong(f.ref); m != "" {
						return name + ": " + m
					}
					var ok bool
					if gp, ok = ids[f.ref.Ident]; !ok {
						return name + " refers to a declaration that is in none of the sources"
					}
					got = show(gp)
				}
			}
			if k := strings.IndexByte(want, '!'); k >= 0 {
				w := want
				for j, o := range p.srcs {
					if o.file == want[:k] {
						tk, ok := o.key[want[k+1:]]
						if !ok {
							panic("no declaration " + want)
						}
						w = show(tokPos{j, tk})
					}
				}
				want = w
			}
			if got != want {
				return fmt.Sprintf("%s refers to %s instead of %s", name, got, want)
			}
		}
		if seen != len(s.refs) {
			return fmt.Sprintf("%d of %d references of %s are in the AST", seen, len(s.refs), s.file)
		}
	}
	// every uses item refers to the unit it names
	byName := map[string]*ast.Unit{}
	for _, u := range res.Units {
		byName[strings.ToLower(u.Ident.Name)] = u
	}
	items := func(where string, uc ast.UsesClause) string {
		for _, it := range uc {
			c.Trans(1)
			if it.Unit != byName[strings.ToLower(it.Ident.Name)] {
				return fmt.Sprintf("the item %s of the uses clause of %s does not refer to its unit", it.Ident.Name, where)
			}
		}
		return ""
	}
	if m := items("the program", res.ProgramBlock.UsesClause); m != "" {
		return m
	}
	for _, u := range res.Units {
		if m := items(u.Ident.Name, u.InterfaceSection.UsesClause); m != "" {
			return m
		}
		if m := items(u.Ident.Name, u.ImplementationSection.UsesClause); m != "" {
			return m
		}
	}
	return ""
}

// ---- C14: the reference resolver of units ----

// declaration kinds; own: the name can also be referred to in its own unit
var unitDeclKinds = []struct {
	name, tmpl string
	own        bool
}{
	{"", "", true},
	{"const", "const %d = 1 ;", true}, {"var", "var %d : Byte ;", true}, {"type", "type %d = Byte ;", true}, {"enum", "type %q = ( %d ) ;", true},
	{"class", "type %d = class end ;", true}, {"threadvar", "threadvar %q , %d : Byte ;", true}, {"function", "function %d : Byte ;", false}, {"procedure", "procedure %d ( z : Byte ) ;", false},
	{"typed const", "const %d : Byte = 1 ;", true}, {"enum in a record", "type %q = record f : ( %q , %d ) end ;", true}, {"enum of a variable", "var %q : ( %q , %d = 2 ) ;", true},
	{"enum in an array", "type %q = array [ ( %d ) ] of Byte ;", true}, {"enum in a set", "type %q = set of ( %q , %d ) ;", true}, {"record", "type %d = record f : Byte end ;", true},
	{"enum in a class", "type %q = class f : ( %d ) ; end ;", true}, {"forward class", "type %x = class ; %q = ^ Byte ; %d = class end ;", false}, {"enum in a class, after a use", "type %q = ( %q ) ; %q = record case Byte of 1 : ( f : ( %d ) ) end ;", true},
	{"pointer", "type %q = Byte ; %d = ^ %q ;", true},
}

const (
	kNone = iota
	kConst
	kVar
	kType
	kEnum
	kClass
	kThread
	kFunc
)

type unitCfg struct {
	intfUses, implUses []string
	intf, impl         int // kind of the declaration of the name, in each section
}

type projCfg struct {
	name  string   // the name in question
	units []string // in listing order
	cfg   map[string]*unitCfg
	prog  int      // kind of the program's own declaration
	extra []string // units listed without a path
	full  bool     // probe in every place
	lean  bool     // probe in few places
	bad   string   // unit or "p": one illegal reference is put there
	badAt string   // the reference
}

func (pc *projCfg) file(u string) string { return strings.ToLower(u) + ".pas" }

// exported tells whether the unit's interface declares the name.
func (pc *projCfg) exported(u string) bool { return pc.cfg[u] != nil && pc.cfg[u].intf != kNone }

// spelling of the k-th reference
func spellRef(s string, k int) string {
	switch k % 3 {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return strings.ToUpper(s[:1]) + strings.ToLower(s[1:])
}

func (pc *projCfg) emb() string {
	if ast.EmbeddedTypeDeclMap.Get(pc.name) != nil {
		return "emb"
	}
	return "none"
}

func (s *psrc) declare(kind int, key, name string) {
	for _, w := range strings.Fields(unitDeclKinds[kind].tmpl) {
		switch w {
		case "%d":
			s.d(key, name)
		case "%x":
			s.w(name)
		case "%q":
			s.w(s.fresh())
		default:
			s.w(w)
		}
	}
}

// a place of references: what the name alone, and every qualified form, refers to
type place struct {
	plain string
	qual  []qualRef
}

type qualRef struct {
	unit string
	item string // what the unit's name refers to
	want string
}

func (pc *projCfg) declProbes(s *psrc, pl place) {
	n := func(k int) string { return spellRef(pc.name, k) }
	if pl.plain != "" {
		if !pc.lean {
			s.w("const " + s.fresh() + " =")
			s.r(n(0), pl.plain)
			s.w(";")
		}
		s.w("var " + s.fresh() + " :")
		s.r(n(1), pl.plain)
		s.w(";")
		if pc.full {
			s.w("type " + s.fresh() + " = record f : array [ 1 .. 2 ] of")
			s.r(n(2), pl.plain)
			s.w("; g : ^")
			s.r(n(0), pl.plain)
			s.w("end ;")
		}
	}
	for i, q := range pl.qual {
		if q.want == "" || pc.lean && q.want == "none" {
			continue
		}
		s.w("var " + s.fresh() + " :")
		s.w(spellRef(q.unit, i) + " .")
		s.r(n(i), q.want)
		s.w(";")
		if q.want != "none" && !pc.lean {
			s.w("const " + s.fresh() + " =")
			s.r(spellRef(q.unit, i+1), q.item)
			s.w(".")
			s.r(n(i+1), q.want)
			s.w(";")
		}
		if pc.full {
			s.w("type " + s.fresh() + " = function ( z : " + spellRef(q.unit, i+2) + " .")
			s.r(n(i+2), q.want)
			s.w(") : " + q.unit + " .")
			s.r(n(i), q.want)
			s.w(";")
		}
	}
}

func (pc *projCfg) stmtProbes(s *psrc, pl place) {
	n := func(k int) string { return spellRef(pc.name, k) }
	if pc.lean {
		s.r(n(1), pl.plain)
		s.w(";")
		for i, q := range pl.qual {
			if q.want != "none" {
				s.r(spellRef(q.unit, i+2), q.item)
				s.w(".")
				s.r(n(i+1), q.want)
				s.w(";")
			}
		}
		return
	}
	if pl.plain != "" {
		s.r(n(2), pl.plain)
		s.w(":=")
		s.r(n(1), pl.plain)
		s.w(";")
		if pc.full {
			s.w("with")
			s.r(n(0), pl.plain)
			s.w("do z [")
			s.r(n(1), pl.plain)
			s.w("] ;")
		}
	}
	for i, q := range pl.qual {
		if q.want == "" || q.want == "none" {
			continue
		}
		s.r(spellRef(q.unit, i+2), q.item)
		s.w(".")
		s.r(n(i+1), q.want)
		s.w(":= - (")
		s.r(spellRef(q.unit, i), q.item)
		s.w(".")
		s.r(n(i+2), q.want)
		s.w(". " + pc.name + " [ 1 ] ) ;")
		if pc.full {
			s.w("with")
			s.r(spellRef(q.unit, i), q.item)
			s.w(".")
			s.r(n(i), q.want)
			s.w("do ; case 1 of")
			s.r(spellRef(q.unit, i), q.item)
			s.w(".")
			s.r(n(i), q.want)
			s.w(": end ;")
		}
	}
	// a unit that is not used means nothing
	s.w("z :=")
	s.r("nosuch", "none")
	s.w(". " + pc.name + " ;")
}

func (pc *projCfg) badProbe(s *psrc, where string) {
	if pc.bad == where {
		s.w("z := " + pc.badAt + " ;")
	}
}

// through looks a name up in the units of a clause, last to first.
func (pc *projCfg) through(uses []string, def string) string {
	for i := len(uses) - 1; i >= 0; i-- {
		if pc.exported(uses[i]) {
			return pc.file(uses[i]) + "!intf"
		}
	}
	return def
}

func (pc *projCfg) quals(file string, uses []string, pre string) []qualRef {
	var out []qualRef
	for _, u := range uses {
		w := "none"
		if pc.exported(u) {
			w = pc.file(u) + "!intf"
		}
		out = append(out, qualRef{u, file + "!" + pre + u, w})
	}
	return out
}

func (s *psrc) uses(pre string, us []string, path func(u string) string) {
	if len(us) == 0 {
		return
	}
	s.w("uses")
	for i, u := range us {
		if i > 0 {
			s.w(",")
		}
		s.d(pre+u, spellRef(u, i))
		if path != nil {
			if p := path(u); p != "" {
				s.w("in '" + p + "'")
			}
		}
	}
	s.w(";")
}

// build renders the project and what everything refers to.
func (pc *projCfg) build() *proj {
	p := &proj{reject: pc.bad != ""}
	pf := "p.dpr"
	ps := newSrc(pf)
	ps.w("program")
	ps.d("self", "p")
	ps.w(";")
	all := append(append([]string(nil), pc.extra...), pc.units...)
	ps.uses("uses ", all, func(u string) string {
		if pc.cfg[u] == nil {
			return ""
		}
		return pc.file(u)
	})
	imp := pc.through(all, pc.emb())
	before := place{imp, append(pc.quals(pf, all, "uses "), qualRef{"p", pf + "!self", "none"})}
	if len(all) == 0 {
		before.qual = nil
	}
	if !pc.lean {
		pc.declProbes(ps, before)
		ps.w("procedure " + ps.fresh() + " ; begin")
		pc.stmtProbes(ps, before)
		ps.w("end ;")
	}
	after := before
	if pc.prog != kNone {
		ps.declare(pc.prog, "own", pc.name)
		after = place{pf + "!own", pc.quals(pf, all, "uses ")}
		if len(all) > 0 {
			after.qual = append(after.qual, qualRef{"p", pf + "!self", pf + "!own"})
		} else {
			after.qual = nil
		}
	}
	if !pc.lean {
		pc.declProbes(ps, after)
		ps.w("procedure " + ps.fresh() + " ; begin")
		pc.stmtProbes(ps, after)
		ps.w("end ;")
	}
	ps.w("begin")
	pc.badProbe(ps, "p")
	pc.stmtProbes(ps, after)
	ps.w("end .")
	p.srcs = append(p.srcs, ps)
	for _, u := range pc.units {
		p.srcs = append(p.srcs, pc.buildUnit(u))
	}
	return p
}

func (pc *projCfg) buildUnit(u string) *psrc {
	f := pc.file(u)
	k := pc.cfg[u]
	s := newSrc(f)
	s.w("unit")
	s.d("self", u)
	s.w("; interface")
	s.uses("intf uses ", k.intfUses, nil)
	imp := pc.through(k.intfUses, pc.emb())
	q := pc.quals(f, k.intfUses, "intf uses ")
	self := func(want string) qualRef { return qualRef{u, f + "!self", want} }
	pl := place{imp, append(append([]qualRef(nil), q...), self("none"))}
	pc.declProbes(s, pl)
	own, ownQ := "", ""
	if k.intf != kNone {
		s.declare(k.intf, "intf", pc.name)
		if unitDeclKinds[k.intf].own {
			own, ownQ = f+"!intf", f+"!intf"
			pl = place{own, append(append([]qualRef(nil), q...), self(ownQ))}
		} else {
			pl = place{"", q}
		}
	}
	pc.declProbes(s, pl)
	s.w("implementation")
	s.uses("impl uses ", k.implUses, nil)
	q = append(pc.quals(f, k.implUses, "impl uses "), q...)
	if k.intf == kNone {
		pl = place{pc.through(k.implUses, imp), append(append([]qualRef(nil), q...), self("none"))}
	} else if own != "" {
		pl = place{own, append(append([]qualRef(nil), q...), self(ownQ))}
	} else {
		pl = place{"", q}
	}
	if !pc.lean {
		pc.declProbes(s, pl)
		s.w("procedure " + s.fresh() + " ; begin")
		pc.stmtProbes(s, pl)
		s.w("end ;")
	}
	if k.impl != kNone {
		s.declare(k.impl, "impl", pc.name)
		pl = place{f + "!impl", append(append([]qualRef(nil), q...), self(f+"!impl"))}
		pc.declProbes(s, pl)
	}
	if !pc.lean {
		s.w("procedure " + s.fresh() + " ; begin")
		pc.badProbe(s, u)
		pc.stmtProbes(s, pl)
		s.w("end ;")
	}
	s.w("initialization")
	pc.stmtProbes(s, pl)
	if pc.full {
		s.w("finalization")
		pc.stmtProbes(s, pl)
	}
	s.w("end .")
	return s
}

func (pc *projCfg) run(c *Ctx) {
	if !c.Mine() {
		c.Case(nil)
		return
	}
	c.Case(func() string {
		p := pc.build()
		c.State(p.text())
		return p.check(c)
	})
}

func permutations(s []string) [][]string {
	if len(s) == 0 {
		return [][]string{nil}
	}
	var out [][]string
	for i := range s {
		rest := append(append([]string(nil), s[:i]...), s[i+1:]...)
		for _, p := range permutations(rest) {
			out = append(out, append([]string{s[i]}, p...))
		}
	}
	return out
}

// arrangements: all ordered selections of any size
func arrangements(s []string) [][]string {
	out := [][]string{}
	for m := 0; m < 1<<uint(len(s)); m++ {
		var sub []string
		for i, x := range s {
			if m>>uint(i)&1 == 1 {
				sub = append(sub, x)
			}
		}
		out = append(out, permutations(sub)...)
	}
	return out
}

func minus(s, t []string) []string {
	var out []string
	for _, x := range s {
		in := false
		for _, y := range t {
			in = in || x == y
		}
		if !in {
			out = append(out, x)
		}
	}
	return out
}

func runC14(c *Ctx) {
	names := []string{"U1", "Unit2", "U3", "Abc4"}
	kinds := len(unitDeclKinds)
	c.Space("a program and one unit: every kind of declaration")
	for _, nm := range []string{"x", "Word", "String_", "Integer"} {
		for k := 0; k < kinds; k++ {
			for own := 0; own <= kThread; own++ {
				for impl := 0; impl <= kThread; impl++ {
					pc := &projCfg{name: nm, units: names[:1], full: true, prog: own, cfg: map[string]*unitCfg{names[0]: {intf: k, impl: impl}}}
					pc.run(c)
				}
			}
		}
	}
	c.Space("a program and two units: every pair of kinds, every order")
	for _, nm := range []string{"x", "Word"} {
		for k1 := 0; k1 < kinds; k1++ {
			for k2 := 0; k2 < kinds; k2++ {
				for _, ord := range permutations(names[:2]) {
					for _, own := range []int{kNone, kVar, kType} {
						for _, ex := range [][]string{nil, {"SysUtils"}} {
							pc := &projCfg{name: nm, units: ord, full: true, prog: own, extra: ex, cfg: map[string]*unitCfg{names[0]: {intf: k1}, names[1]: {intf: k2, impl: kNone}}}
							pc.run(c)
						}
					}
				}
			}
		}
	}
	c.Space("a unit and the others: every pair of uses clauses, every export")
	U := names[0]
	others := names[1:4]
	opts := []unitCfg{{}, {intf: kConst}, {impl: kVar}, {intf: kType, impl: kConst}}
	no := c.Pick(2, 3)
	others = others[:no]
	owns := []struct{ i, m int }{{kNone, kNone}, {kVar, kNone}, {kNone, kConst}, {kType, kVar}}
	for _, nm := range []string{"x", "Word"} {
		for _, iu := range arrangements(others) {
			for _, mu := range arrangements(minus(others, iu)) {
				for e := 0; e < 1<<uint(2*no); e++ {
					for oi, own := range owns {
						for _, pos := range []int{0, no} {
							if no == 3 && (oi > 1 && pos == 0 || nm != "x" && pos > 0) {
								continue
							}
							cfg := map[string]*unitCfg{U: {intfUses: iu, implUses: mu, intf: own.i, impl: own.m}}
							for i, o := range others {
								k := opts[e>>uint(2*i)&3]
								cfg[o] = &k
							}
							us := append([]string(nil), others[:pos]...)
							us = append(us, U)
							us = append(us, others[pos:]...)
							pc := &projCfg{name: nm, units: us, full: no == 2, cfg: cfg}
							pc.run(c)
						}
					}
				}
			}
		}
	}
	c.Space("every uses graph of three units, every export")
	eachGraph(names[:3], 6, func(intf, impl map[string][]string) {
		for e := 0; e < 64; e++ {
			orders := permutations(names[:3])
			if c.Quick() {
				orders = [][]string{orders[0], orders[5]}
			}
			for oi, ord := range orders {
				cfg := map[string]*unitCfg{}
				ok := true
				for i, u := range names[:3] {
					k := e >> uint(2*i) & 3
					if k == 3 && c.Quick() {
						ok = false
					}
					cfg[u] = &unitCfg{intfUses: intf[u], implUses: impl[u]}
					if k&1 == 1 {
						cfg[u].intf = kConst
					}
					if k&2 == 2 {
						cfg[u].impl = kVar
					}
				}
				if !ok {
					continue
				}
				pc := &projCfg{name: "x", units: ord, cfg: cfg, prog: []int{kNone, kConst}[oi%2]}
				pc.run(c)
			}
		}
	})
	c.Space("references that must be rejected")
	badRefs := []string{"%u . %n", "%u . nosuch", "%u", "%u . %u . %n", "%u . %o . %n", "%o . %u . %n", "f ( %u )", "%u + 1", "SysUtils . %n", "@ %u . %n", "z [ %u . %n ]", "( %u . %n )"}
	for _, nm := range []string{"x", "Word"} {
		for _, where := range []string{"p", names[0]} {
			for _, how := range []string{"intf", "impl"} {
				for _, b := range badRefs {
					for k1 := 0; k1 < 4; k1++ {
						for k2 := 0; k2 < 4; k2++ {
							if strings.Contains(b, "%u . %n") && !strings.Contains(b, "%o") && !strings.Contains(b, "%u . %u") && k1&1 == 1 {
								continue // exported
							}
							mk := func(k int) *unitCfg {
								r := &unitCfg{}
								if k&1 == 1 {
									r.intf = kConst
								}
								if k&2 == 2 {
									r.impl = kConst
								}
								return r
							}
							bad := strings.NewReplacer("%u", names[1], "%o", names[2], "%n", nm).Replace(b)
							us := []string{names[1], names[2], "SysUtils"}
							cfg := map[string]*unitCfg{names[0]: {}, names[1]: mk(k1), names[2]: mk(k2)}
							if how == "intf" {
								cfg[names[0]].intfUses = us
							} else {
								cfg[names[0]].implUses = us
							}
							pc := &projCfg{name: nm, units: names[:3], cfg: cfg, extra: []string{"SysUtils"}, bad: where, badAt: bad}
							pc.run(c)
						}
					}
				}
			}
		}
	}
	runManyUnits(c)
	runUnitCrowds(c)
	if !c.Quick() {
		c.Space("every uses graph of four units with up to two implementation uses")
		eachGraph(names[:4], 2, func(intf, impl map[string][]string) {
			for e := 0; e < 16; e++ {
				cfg := map[string]*unitCfg{}
				for i, u := range names[:4] {
					cfg[u] = &unitCfg{intfUses: intf[u], implUses: impl[u], intf: e >> uint(i) & 1}
				}
				pc := &projCfg{name: "x", units: names[:4], cfg: cfg}
				pc.run(c)
			}
		})
	}
}

// eachGraph enumerates every acyclic graph of interface uses and every set of
// up to max implementation uses besides, each with the clauses in both orders.
func eachGraph(names []string, max int, f func(intf, impl map[string][]string)) {
	n := len(names)
	var edges [][2]int
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j {
				edges = append(edges, [2]int{i, j})
			}
		}
	}
	for m := 0; m < 1<<uint(len(edges)); m++ {
		if cyclic(n, edges, m) {
			continue
		}
		for k := 0; k < 1<<uint(len(edges)); k++ {
			if k&m != 0 || popcount(k) > max {
				continue
			}
			for _, rev := range []bool{false, true} {
				intf, impl := map[string][]string{}, map[string][]string{}
				multi := false
				for i := 0; i < n; i++ {
					a, b := succ(names, edges, m, i), succ(names, edges, k, i)
					if len(a) > 1 || len(b) > 1 {
						multi = true
					}
					if rev {
						sort.Sort(sort.Reverse(sort.StringSlice(a)))
						sort.Sort(sort.Reverse(sort.StringSlice(b)))
					}
					intf[names[i]], impl[names[i]] = a, b
				}
				if rev && !multi {
					continue
				}
				f(intf, impl)
			}
		}
	}
}

func succ(names []string, edges [][2]int, m, i int) []string {
	var out []string
	for k, e := range edges {
		if m>>uint(k)&1 == 1 && e[0] == i {
			out = append(out, names[e[1]])
		}
	}
	sort.Strings(out)
	return out
}

func popcount(x int) int {
	n := 0
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}

// cyclic tells whether the edges of the mask contain a cycle.
func cyclic(n int, edges [][2]int, m int) bool {
	in := make([]int, n)
	for k, e := range edges {
		if m>>uint(k)&1 == 1 {
			in[e[1]]++
		}
	}
	gone := make([]bool, n)
	for round := 0; round < n; round++ {
		for i := 0; i < n; i++ {
			if !gone[i] && in[i] == 0 {
				gone[i] = true
				for k, e := range edges {
					if m>>uint(k)&1 == 1 && e[0] == i {
						in[e[1]]--
					}
				}
			}
		}
	}
	for i := range gone {
		if !gone[i] {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C14", Title: "names of used units", Run: runC14, Assumptions: []string{
		"one name in question per project, projects of up to three (thorough: four) units",
		"routine names, and classes declared forward, are referred to from other units only",
	}})
}
