package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
)

// ---- C18: accessors and property overrides ----

// A member configuration of one class: the kind and the visibility of its
// member "m"; kind 0 is none.
var memKinds = []string{"", "%M : Byte ;", "function %M : Byte ;", "procedure %M ( q : Byte ) ;", "x , %M : Byte ;", "y , %M , z : Byte ; x : Byte ;", "x : Byte ; %M : Byte ;", "procedure x ; function %M : Byte ;", "constructor %M ;", "x : Byte ; procedure y ; property %M : Byte read x ;"}

const memFew = 4

var visibilities = []string{"", "private", "protected", "public", "published"}

// how a class names its ancestor: the declarations between and the heritage
var heritages = []struct{ between, name string }{
	{"", "%c"}, {"a%i = %c ;", "a%i"}, {"a%i = %c ; b%i = a%i ;", "b%i"}, {"a%i = type %c ;", "a%i"}, {"", "%c , ifc , other"}, {"var v%i : Byte ; type", "%c"}, {"f%i = class ; f%i = class ( %c ) end ;", "f%i"}, {"c%i = class ; x%i = class of c%i ;", "%c"},
}

type clsCfg struct {
	kind, vis, her int
}

// memberOf renders a class with one member.
type clsText struct {
	toks []string
	decl int // token of the member, -1
}

func sepFields(s string) []string { return strings.Fields(s) }

// lookupCase: classes c1 <- c2 <- ... with members, the last class has the
// property whose accessor is "m".
func lookupCase(c *Ctx, cfg []clsCfg, acc string, ownVis int) string {
	toks := sepFields("program p ; type")
	decls := make([]int, len(cfg)) // token of m in class i
	defs := make([]int, len(cfg))  // token of the class name
	accTok, accOK := -1, false
	for i, k := range cfg {
		rep := strings.NewReplacer("%i", fmt.Sprint(i+1), "%c", fmt.Sprintf("C%d", i))
		h := heritages[k.her]
		if i > 0 || strings.Contains(h.between, "class ;  x") {
			toks = append(toks, sepFields(rep.Replace(h.between))...)
		}
		defs[i] = len(toks)
		toks = append(toks, fmt.Sprintf("c%d", i+1), "=", "class")
		if i > 0 {
			toks = append(toks, "(")
			toks = append(toks, sepFields(rep.Replace(h.name))...)
			toks = append(toks, ")")
		}
		decls[i] = -1
		if v := visibilities[k.vis]; v != "" {
			toks = append(toks, v)
		}
		for _, w := range sepFields(memKinds[k.kind]) {
			if w == "%M" {
				decls[i] = len(toks)
				w = "m"
			}
			toks = append(toks, w)
		}
		if i == len(cfg)-1 {
			isProp := strings.Contains(memKinds[k.kind], "property")
			if v := visibilities[ownVis]; v != "" {
				toks = append(toks, v)
			} else if isProp { // a property of the same section is not visible yet
				toks = append(toks, "public")
			}
			toks = append(toks, "property", "P", ":", "Byte")
			switch acc {
			case "write":
				toks = append(toks, "read", "own")
			case "stored":
				toks = append(toks, "read", "own", "write", "own")
			}
			toks = append(toks, acc)
			accTok = len(toks)
			toks = append(toks, "M")
			if acc == "read" {
				toks = append(toks, "default", "1")
			}
			toks = append(toks, ";")
		}
		toks = append(toks, "end", ";")
	}
	toks = append(toks, "begin", "end", ".")
	// "own" must exist for write and stored
	if acc != "read" {
		// a root class with the field own
		ins := sepFields("C0 = class own : Byte ; end ;")
		toks = append(append(append([]string(nil), toks[:4]...), ins...), toks[4:]...)
		for i := range decls {
			if decls[i] >= 0 {
				decls[i] += len(ins)
			}
			defs[i] += len(ins)
		}
		accTok += len(ins)
		// the first class descends from C0
		at := defs[0] + 3
		toks = append(append(append([]string(nil), toks[:at]...), "(", "c0", ")"), toks[at:]...)
		for i := range decls {
			if decls[i] >= at {
				decls[i] += 3
			}
			if defs[i] >= at {
				defs[i] += 3
			}
		}
		accTok += 3
	}
	want := refNone
	n := len(cfg) - 1
	if decls[n] >= 0 {
		want, accOK = decls[n], true
	}
	for i := n - 1; i >= 0 && !accOK; i-- {
		if decls[i] >= 0 && visibilities[cfg[i].vis] != "private" {
			want, accOK = decls[i], true
		}
	}
	text, at := joinToks(toks)
	c.Input(text)
	c.Trace()
	c.Trans(len(cfg))
	c.State(text)
	r := parseGoal(text, false)
	if !accOK {
		if r.err == nil {
			return "an accessor without a visible member is accepted"
		}
		return ""
	}
	if r.err != nil {
		return "rejected: " + r.err.Error()
	}
	for _, f := range collectRefs(r.node()) {
		if i := at[f.id.Location.Start.Index]; i == accTok {
			if f.ref == nil {
				return "the accessor refers to nothing"
			}
			if m := declWrong(f.ref); m != "" {
				return m
			}
			if got := at[f.ref.Ident.Location.Start.Index]; got != want {
				return fmt.Sprintf("the accessor refers to the member at token %d instead of %d", got+1, want+1)
			}
			return ""
		}
	}
	return "the accessor is not in the AST"
}

func joinToks(toks []string) (string, map[int]int) {
	at := map[int]int{}
	pos := 0
	for i, t := range toks {
		if i > 0 {
			pos++
		}
		at[pos] = i
		pos += len([]rune(t))
	}
	return strings.Join(toks, " "), at
}

// ---- overrides ----

// A property declaration of the model: which specifiers it gives.  Bits:
// 0 interface, 1 index, 2 read, 3 write, 4 stored, 5 default, 6 implements;
// dflt selects the kind of default.
type propCfg struct {
	has  bool
	bits int
	dflt int // 0 value, 1 nodefault
	alt  int // variant of the specifiers' text
	vis  int
}

func (p propCfg) text(cls int) []string {
	toks := []string{"property", []string{"P", "p"}[cls%2]}
	b := func(i int) bool { return p.bits&(1<<uint(i)) != 0 }
	n := fmt.Sprint(cls)
	if b(0) {
		if p.alt&1 != 0 {
			toks = append(toks, "[", "i"+n, ":", "Byte", "]")
		}
		toks = append(toks, ":", []string{"Byte", "Word", "Integer", "Char"}[cls%4])
	}
	if b(1) {
		toks = append(toks, "index", n)
	}
	if b(2) {
		toks = append(toks, "read", "g"+n)
	}
	if b(3) {
		toks = append(toks, "write", "s"+n)
	}
	if b(4) {
		toks = append(toks, "stored", []string{"g" + n, "True", "False"}[(cls+p.alt)%3])
	}
	if b(5) {
		if p.dflt == 0 {
			toks = append(toks, "default", "1"+n)
		} else {
			toks = append(toks, "nodefault")
		}
	}
	if b(6) {
		toks = append(toks, "implements", "ifc"+n)
	}
	return append(toks, ";")
}

// overrideCase: classes with the property, each descending from the one before.
func overrideCase(c *Ctx, ps []propCfg, her int) string {
	toks := sepFields("program p ; type")
	for i, p := range ps {
		rep := strings.NewReplacer("%i", fmt.Sprint(i+1), "%c", fmt.Sprintf("C%d", i))
		h := heritages[her]
		if i > 0 {
			toks = append(toks, sepFields(rep.Replace(h.between))...)
		}
		toks = append(toks, fmt.Sprintf("c%d", i+1), "=", "class")
		if i > 0 {
			toks = append(toks, "(")
			toks = append(toks, sepFields(rep.Replace(h.name))...)
			toks = append(toks, ")")
		}
		toks = append(toks, fmt.Sprintf("g%d", i+1), ":", "Byte", ";", "procedure", fmt.Sprintf("s%d", i+1), ";")
		if v := visibilities[p.vis]; v != "" {
			toks = append(toks, v)
		}
		if p.has {
			toks = append(toks, p.text(i+1)...)
		}
		toks = append(toks, "end", ";")
	}
	toks = append(toks, "begin", "end", ".")
	text := strings.Join(toks, " ")
	c.Input(text)
	c.Trace()
	c.Trans(len(ps))
	r := parseGoal(text, false)
	if r.err != nil {
		return "rejected: " + r.err.Error()
	}
	before := (&Dumper{Loc: true, Ref: true}).Dump(r.node())
	c.State(before)
	// the model: where every specifier comes from
	comp := computedSources(ps)
	props := make([]*ast.ClassProperty, len(ps))
	findProps(r.node(), props)
	if m := computedWrong(ps, comp, props); m != "" {
		return m
	}
	dump := func(v interface{}) string { return (&Dumper{Loc: true, Ref: true}).Dump(v) }
	if after := dump(r.node()); after != before {
		return "computing a property changed the AST, " + diffAt(before, after)
	}
	return ""
}

// computedSources is the model of ComputedProperty: the class every specifier comes from.
func computedSources(ps []propCfg) [][7]int {
	type src = [7]int // class that gives it, -1: none
	none := src{-1, -1, -1, -1, -1, -1, -1}
	comp := make([]src, len(ps))
	last := -1
	for i, p := range ps {
		comp[i] = none
		if !p.has {
			continue
		}
		for b := 0; b < 7; b++ {
			if p.bits&(1<<uint(b)) != 0 {
				comp[i][b] = i
			}
		}
		if last >= 0 {
			inherits := false
			for b := 0; b < 4; b++ {
				inherits = inherits || (comp[last][b] >= 0 && comp[i][b] < 0)
			}
			if inherits {
				for b := 0; b < 7; b++ {
					if comp[i][b] < 0 {
						comp[i][b] = comp[last][b]
					}
				}
			}
		}
		last = i
	}
	return comp
}

// findProps stores the property of class k in props[k-1].
func findProps(n interface{}, props []*ast.ClassProperty) {
	for _, td := range typeDecls(n) {
		var k int
		if cl, ok := td.Type.(*ast.CustomClassType); ok {
			if _, err := fmt.Sscanf(strings.ToLower(td.Ident.Name), "c%d", &k); err == nil {
				for _, s := range cl.Members {
					for _, p := range s.ClassPropertyList {
						props[k-1] = p
					}
				}
			}
		}
	}
}

func computedWrong(ps []propCfg, comp [][7]int, props []*ast.ClassProperty) string {
	dump := func(v interface{}) string { return (&Dumper{Loc: true, Ref: true}).Dump(v) }
	part := func(p *ast.ClassProperty, b int) string {
		switch b {
		case 0:
			return dump(p.Interface)
		case 1:
			return dump(p.Index)
		case 2:
			return dump(p.Read)
		case 3:
			return dump(p.Write)
		case 4:
			return dump(p.Stored)
		case 5:
			return dump(p.Default)
		}
		return dump(p.Implements)
	}
	partName := []string{"interface", "index", "read", "write", "stored", "default", "implements"}
	for round := 0; round < 2; round++ {
		for i, p := range ps {
			if !p.has {
				continue
			}
			if props[i] == nil {
				return "a property is missing in the AST"
			}
			cp := props[i].ComputedProperty()
			if cp == nil || cp.Ident == nil || !strings.EqualFold(cp.Ident.Name, "p") {
				return "the computed property has no name"
			}
			for b := 0; b < 7; b++ {
				want := "nil"
				if comp[i][b] >= 0 {
					want = part(props[comp[i][b]], b)
				}
				if got := part(cp, b); got != want {
					return fmt.Sprintf("class %d, computed %s: %s instead of %s", i+1, partName[b], got, want)
				}
			}
		}
	}
	return ""
}

func runC18(c *Ctx) {
	run := func(f func() string) {
		if !c.Mine() {
			c.Case(nil)
			return
		}
		c.Case(f)
	}
	accs := []string{"read", "write", "stored"}
	// lookups
	lookup := func(n int, kinds, hers []int, vis []int) {
		cfg := make([]clsCfg, n)
		var rec func(i int)
		rec = func(i int) {
			if c.Stopped() {
				return
			}
			if i == n {
				for _, a := range accs {
					for _, ov := range []int{0, 1, 3} {
						a, ov, cf := a, ov, append([]clsCfg(nil), cfg...)
						run(func() string { return lookupCase(c, cf, a, ov) })
					}
				}
				return
			}
			for _, k := range kinds {
				for _, v := range vis {
					if k == 0 && v > 0 {
						continue
					}
					for _, h := range hers {
						if i == 0 && h > 0 {
							continue
						}
						cfg[i] = clsCfg{k, v, h}
						rec(i + 1)
					}
				}
			}
		}
		rec(0)
	}
	upTo := func(n int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		return r
	}
	c.Space("member lookup: one class")
	lookup(1, upTo(len(memKinds)), upTo(1), upTo(5))
	c.Space("member lookup: two classes")
	lookup(2, upTo(len(memKinds)), upTo(len(heritages)), upTo(5))
	c.Space("member lookup: three classes")
	lookup(3, upTo(c.Pick(3, memFew)), upTo(c.Pick(2, len(heritages))), upTo(5))
	c.Space("member lookup: four classes")
	lookup(4, upTo(2), upTo(1), upTo(c.Pick(3, 5)))
	if !c.Quick() {
		c.Space("member lookup: five classes")
		lookup(5, upTo(2), upTo(1), upTo(4))
	}
	// overrides
	override := func(n int, bits []int, dflts, alts, viss, hers []int, gaps bool) {
		ps := make([]propCfg, n)
		var rec func(i int)
		rec = func(i int) {
			if c.Stopped() {
				return
			}
			if i == n {
				if !ps[n-1].has {
					return
				}
				for _, h := range hers {
					h, cf := h, append([]propCfg(nil), ps...)
					run(func() string { return overrideCase(c, cf, h) })
				}
				return
			}
			if gaps {
				ps[i] = propCfg{}
				rec(i + 1)
			}
			// all subsets of the bits
			for m := 0; m < 1<<uint(len(bits)); m++ {
				b := 0
				for k, bit := range bits {
					if m&(1<<uint(k)) != 0 {
						b |= 1 << uint(bit)
					}
				}
				for _, d := range dflts {
					if b&(1<<5) == 0 && d > 0 {
						continue
					}
					for _, a := range alts {
						for _, v := range viss {
							ps[i] = propCfg{true, b, d, a, v}
							rec(i + 1)
						}
					}
				}
			}
		}
		rec(0)
	}
	all := upTo(7)
	c.Space("overrides: two classes, every specifier subset")
	override(2, all, upTo(2), upTo(1), upTo(1), upTo(1), false)
	c.Space("overrides: two classes, every heritage and visibility")
	override(2, []int{0, 2, 5}, upTo(1), upTo(2), []int{0, 2, 3, 4}, upTo(len(heritages)), false)
	c.Space("overrides: three classes")
	if c.Quick() {
		override(3, []int{0, 1, 2, 4, 5}, upTo(1), upTo(1), upTo(1), upTo(1), true)
		c.Space("overrides: three classes, other specifiers")
		override(3, []int{0, 3, 5, 6}, upTo(2), upTo(1), upTo(1), upTo(1), true)
	} else {
		override(3, all, upTo(1), upTo(1), upTo(1), upTo(1), true)
	}
	c.Space("overrides: four classes")
	override(4, []int{0, 2, 5}[:c.Pick(3, 3)], upTo(1), upTo(1), upTo(1), upTo(c.Pick(1, 3)), true)
	if !c.Quick() {
		c.Space("overrides: four classes, more specifiers")
		override(4, []int{0, 1, 2, 4}, upTo(1), upTo(1), upTo(1), upTo(1), true)
		c.Space("overrides: five classes")
		override(5, []int{0, 2, 5}, upTo(1), upTo(1), upTo(1), upTo(1), true)
	}
	c.Space("long chains of classes")
	for _, n := range []int{6, 8, 12, 16, 17, 24, 33, 40, 65}[:c.Pick(7, 9)] {
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				if n > 17 && j > i+2 && j < n-2 {
					continue
				}
				for _, v := range []int{0, 1, 2} { // visibility of the nearer one
					if c.Stopped() {
						return
					}
					cfg := make([]clsCfg, n)
					cfg[i].kind = 1
					cfg[j].kind, cfg[j].vis = 2, v
					run(func() string { return lookupCase(c, cfg, "read", 0) })
				}
			}
			// a property of class i, of every class from i, of every second class from i
			for step := 0; step < 3; step++ {
				for _, bits := range []int{1 | 4, 1 | 4 | 32, 1} {
					ps := make([]propCfg, n)
					ps[i] = propCfg{has: true, bits: bits}
					for k := i + 1; k < n-1 && step > 0; k += step {
						ps[k] = propCfg{has: true, bits: []int{2, 16, 8, 64, 32}[k%5]}
					}
					ps[n-1] = propCfg{has: true, bits: 8}
					run(func() string { return overrideCase(c, ps, 0) })
				}
			}
		}
	}
	runC18Units(c)
}

// ---- classes in several units ----

// The containers of a class, in the order in which they may follow each other.
const (
	inA      = iota // interface of unit A
	inB             // interface of unit B, which uses A
	inBimpl         // implementation of B
	inP             // the program, which uses A and B
	inPlocal        // a routine of the program
	nPlaces
)

// placements calls f with every way to put n classes, each after its ancestor,
// into the containers, at least one of them in a unit.
func placements(n int, f func(at []int)) {
	at := make([]int, n)
	var rec func(i, from int)
	rec = func(i, from int) {
		if i == n {
			if at[0] < inP {
				f(at)
			}
			return
		}
		for k := from; k < nPlaces; k++ {
			if i > 0 && at[i-1] == inBimpl && k > inBimpl {
				continue
			}
			at[i] = k
			rec(i+1, k)
		}
	}
	rec(0, inA)
}

type classProj struct {
	proj
	a, b, p *psrc
}

// classProject writes the classes; body writes the members of class i.
func classProject(at, hers []int, qual, impl bool, body func(s *psrc, i int)) *classProj {
	cp := &classProj{a: newSrc("a.pas"), b: newSrc("b.pas"), p: newSrc("p.dpr")}
	cp.a.w("unit")
	cp.a.d("self", "UA")
	cp.a.w("; interface")
	cp.b.w("unit")
	cp.b.d("self", "UB")
	cp.b.w("; interface")
	if !impl {
		cp.b.w("uses")
		cp.b.d("uses A", "UA")
		cp.b.w(";")
	}
	cp.p.w("program p ; uses")
	cp.p.d("uses A", "UA")
	cp.p.w("in 'a.pas' ,")
	cp.p.d("uses B", "UB")
	cp.p.w("in 'b.pas' ;")
	src := func(k int) *psrc { return []*psrc{cp.a, cp.b, cp.b, cp.p, cp.p}[k] }
	place := -1
	// enter moves to the start of a container
	enter := func(k int) {
		for place < k {
			place++
			switch place {
			case inBimpl:
				cp.b.w("implementation")
				if impl {
					cp.b.w("uses")
					cp.b.d("uses A", "UA")
					cp.b.w(";")
				}
			case inPlocal:
				cp.p.w("procedure pp ;")
			}
		}
	}
	for i, k := range at {
		enter(k)
		s := src(k)
		s.w("type")
		anc, ancKey := "", ""
		if i > 0 {
			o := src(at[i-1])
			anc, ancKey = fmt.Sprintf("C%d", i), fmt.Sprintf("%s!c%d", o.file, i)
			ref := func() {
				if qual && o != s {
					u := "A"
					if o == cp.b {
						u = "B"
					}
					s.w("u" + u + " .")
				}
				s.r(anc, ancKey)
			}
			switch hers[i] {
			case 1, 2, 3: // names for the ancestor
				x := fmt.Sprintf("a%d", i+1)
				s.d(x, x)
				s.w("=")
				if hers[i] == 3 {
					s.w("type")
				}
				ref()
				s.w(";")
				anc, ancKey = x, s.file+"!"+x
				if hers[i] == 2 {
					y := fmt.Sprintf("b%d", i+1)
					s.d(y, y)
					s.w("=")
					s.r(anc, ancKey)
					s.w(";")
					anc, ancKey = y, s.file+"!"+y
				}
				s.d(fmt.Sprintf("c%d", i+1), fmt.Sprintf("c%d", i+1))
				s.w("= class (")
				s.r(strings.ToUpper(anc), ancKey)
			default:
				s.d(fmt.Sprintf("c%d", i+1), fmt.Sprintf("c%d", i+1))
				s.w("= class (")
				ref()
			}
			s.w(")")
		} else {
			s.d("c1", "c1")
			s.w("= class")
		}
		body(s, i)
		s.w("end ;")
	}
	last := place
	if last < inBimpl {
		place = inB
		enter(inBimpl)
	}
	cp.a.w("implementation end .")
	cp.b.w("end .")
	if last == inPlocal {
		cp.p.w("begin end ;")
	}
	cp.p.w("begin end .")
	cp.srcs = []*psrc{cp.p, cp.a, cp.b}
	return cp
}

// lookupUnits is lookupCase with the classes in several units.
func lookupUnits(c *Ctx, cfg []clsCfg, at []int, qual, impl bool, acc string) string {
	n := len(cfg) - 1
	want := ""
	if memKinds[cfg[n].kind] != "" {
		want = fmt.Sprint("m", n+1)
	}
	for i := n - 1; i >= 0 && want == ""; i-- {
		if memKinds[cfg[i].kind] != "" && visibilities[cfg[i].vis] != "private" {
			want = fmt.Sprint("m", i+1)
		}
	}
	file := func(i int) string { return []string{"a.pas", "b.pas", "b.pas", "p.dpr", "p.dpr"}[at[i]] }
	hers := make([]int, len(cfg))
	for i := range cfg {
		hers[i] = cfg[i].her
	}
	cp := classProject(at, hers, qual, impl, func(s *psrc, i int) {
		s.w(visibilities[cfg[i].vis])
		for _, w := range sepFields(memKinds[cfg[i].kind]) {
			if w == "%M" {
				s.d(fmt.Sprint("m", i+1), "m")
			} else {
				s.w(w)
			}
		}
		if i == n {
			s.w("public property P : Byte")
			if want == "" {
				s.w(acc + " M")
			} else {
				var d int
				fmt.Sscanf(want, "m%d", &d)
				s.w(acc)
				s.r("M", file(d-1)+"!"+want)
			}
			s.w(";")
		}
	})
	cp.reject = want == ""
	return cp.check(c)
}

func overrideUnits(c *Ctx, ps []propCfg, at []int, her int, qual, impl bool) string {
	hers := make([]int, len(ps))
	for i := range hers {
		hers[i] = her
	}
	cp := classProject(at, hers, qual, impl, func(s *psrc, i int) {
		n := fmt.Sprint(i + 1)
		s.d("g"+n, "g"+n)
		s.w(": Byte ; procedure")
		s.d("s"+n, "s"+n)
		s.w(";")
		if !ps[i].has {
			return
		}
		s.w(visibilities[ps[i].vis])
		for _, w := range ps[i].text(i + 1) {
			switch w {
			case "g" + n, "s" + n:
				s.r(w, s.file+"!"+w)
			default:
				s.w(w)
			}
		}
	})
	cp.after = func(p *parser.Program) string {
		props := make([]*ast.ClassProperty, len(ps))
		findProps(p.Program, props)
		for _, u := range p.Units {
			findProps(u, props)
		}
		return computedWrong(ps, computedSources(ps), props)
	}
	return cp.check(c)
}

func runC18Units(c *Ctx) {
	one := func(f func() string) {
		if !c.Mine() {
			c.Case(nil)
			return
		}
		c.Case(f)
	}
	accs := []string{"read", "write", "stored"}
	eachCfg := func(n int, kinds, vis, hers []int, f func(cfg []clsCfg)) {
		cfg := make([]clsCfg, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				f(append([]clsCfg(nil), cfg...))
				return
			}
			for _, k := range kinds {
				for _, v := range vis {
					if k == 0 && v > 0 {
						continue
					}
					for _, h := range hers {
						if i == 0 && h > 0 {
							continue
						}
						cfg[i] = clsCfg{k, v, h}
						rec(i + 1)
					}
				}
			}
		}
		rec(0)
	}
	lookup := func(n int, kinds, vis, hers []int) {
		placements(n, func(at []int) {
			if c.Stopped() {
				return
			}
			at = append([]int(nil), at...)
			eachCfg(n, kinds, vis, hers, func(cfg []clsCfg) {
				for _, a := range accs[:c.Pick(2, 3)] {
					for m := 0; m < 4; m++ {
						a, qual, impl := a, m&1 != 0, m&2 != 0
						if impl && needsA(at) {
							continue
						}
						one(func() string { return lookupUnits(c, cfg, at, qual, impl, a) })
					}
				}
			})
		})
	}
	c.Space("member lookup across units: two classes")
	lookup(2, []int{0, 1, 2, 3, 4, 8}, []int{0, 1, 2, 3, 4}, []int{0, 1, 2, 3})
	c.Space("member lookup across units: three classes")
	lookup(3, []int{0, 1, 2}[:c.Pick(2, 3)], []int{0, 1, 2}, []int{0, 2}[:c.Pick(1, 2)])
	override := func(n int, bits []int, hers []int) {
		placements(n, func(at []int) {
			at = append([]int(nil), at...)
			ps := make([]propCfg, n)
			var rec func(i int)
			rec = func(i int) {
				if c.Stopped() {
					return
				}
				if i == n {
					if !ps[n-1].has {
						return
					}
					for _, h := range hers {
						for m := 0; m < 4; m++ {
							h, cf, qual, impl := h, append([]propCfg(nil), ps...), m&1 != 0, m&2 != 0
							if impl && needsA(at) {
								continue
							}
							one(func() string { return overrideUnits(c, cf, at, h, qual, impl) })
						}
					}
					return
				}
				ps[i] = propCfg{}
				rec(i + 1)
				for m := 0; m < 1<<uint(len(bits)); m++ {
					b := 0
					for k, bit := range bits {
						if m&(1<<uint(k)) != 0 {
							b |= 1 << uint(bit)
						}
					}
					ps[i] = propCfg{has: true, bits: b, vis: 2}
					rec(i + 1)
				}
			}
			rec(0)
		})
	}
	c.Space("overrides across units: two classes")
	override(2, []int{0, 1, 2, 3, 5}[:c.Pick(4, 5)], []int{0, 1, 2, 3})
	c.Space("overrides across units: three classes")
	override(3, []int{0, 2, 5}[:c.Pick(2, 3)], []int{0})
}

// needsA: a class in the interface of B descends from one in A
func needsA(at []int) bool {
	for i := 1; i < len(at); i++ {
		if at[i] == inB && at[i-1] == inA {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C18", Title: "class members", Run: runC18, Assumptions: []string{
		"the member an accessor names is declared before the property, properties of the same section excepted",
		"an ancestor's property is not private and no other kind of member between has its name",
	}})
}
