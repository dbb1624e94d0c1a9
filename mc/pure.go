package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	tlog "github.com/akm/tparser/log"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
)

// ---- C21: purity ----

// observe is everything a caller sees of a parse: the error, or the AST with
// locations and references, which stay inside this AST and the embedded types.
func observe(r *goalResult) string {
	if r.err != nil {
		return "error: " + r.err.Error()
	}
	d := Dumper{Loc: true, Ref: true}
	s := d.Dump(r.node())
	in := map[*astcore.Ident]bool{}
	for _, id := range Idents(r.node()) {
		in[id] = true
	}
	for _, f := range collectRefs(r.node()) {
		if f.ref != nil && !in[f.ref.Ident] && f.ref != ast.EmbeddedTypeDeclMap.Get(f.id.Name) {
			s += " foreign " + f.id.Name
		}
	}
	return s
}

func parseRunes(r *[]rune, unit bool) *goalResult {
	g := &goalResult{}
	if unit {
		p := parser.NewUnitParser(parser.NewUnitContext(parser.NewProgramContext("prog.dpr"), "unit.pas"))
		p.SetText(r)
		p.NextToken()
		g.unit, g.err = p.ParseUnit()
	} else {
		p := parser.NewProgramParser(parser.NewProgramContext("prog.dpr"))
		p.SetText(r)
		p.NextToken()
		g.prog, g.err = p.ParseProgram()
	}
	return g
}

// sharedState is the visible shared state: the embedded types and the tables
// of the tokenizer.
func sharedState() string {
	var b strings.Builder
	d := Dumper{Loc: true, Ref: true}
	for _, n := range embeddedNames {
		e := ast.EmbeddedTypeDeclMap.Get(n)
		if e == nil {
			b.WriteString(n + " gone ")
			continue
		}
		fmt.Fprintf(&b, "%s %s %T %s;", n, e.Ident.Name, e.Node, d.Dump(e.Node))
	}
	for _, n := range []string{"a", "u1", "x", "q", "p", "u"} {
		if ast.EmbeddedTypeDeclMap.Get(n) != nil {
			b.WriteString(n + " is embedded ")
		}
	}
	for a := rune(33); a < 127; a++ {
		for _, z := range "=.>)*" {
			if token.TwoRunesSpecialSymbols[[2]rune{a, z}] {
				b.WriteString(string([]rune{a, z}))
			}
		}
	}
	return b.String()
}

var embeddedNames = strings.Fields("Integer Cardinal Shortint Smallint Longint Int64 Byte Word Longword Char AnsiChar WideChar Boolean ByteBool WordBool LongBool Real48 Real Single Double Extended Comp Currency String AnsiString ShortString WideString Pointer Variant OleVariant")

type histItem struct {
	text string
	unit bool
}

// histItems: every production, and each of them cut short.
func histItems(cut bool) []histItem {
	var out []histItem
	for _, it := range corpus(0) {
		out = append(out, histItem{it.t.text(), it.unit})
		if cut {
			out = append(out, histItem{strings.Join(it.t.toks[:len(it.t.toks)*2/3], " "), it.unit})
		}
	}
	return out
}

// interesting texts for schedules and histories
var tinyTexts = []histItem{
	{"program p ; begin end .", false},
	{"program p ; var a : Word ; begin a := 1.5 end .", false},
	{"program p ; uses a , b ; type t = ( x , y ) ; const c = x + 'q' ; begin end .", false},
	{"program p ; type c = class ( Integer ) f : Byte ; property g : Byte read f ; end ; begin end .", false},
	{"program p ; function f ( a : c ; const b : string = 's' ) : Byte ; forward ; begin try except on e : x do end end .", false},
	{"unit u ; interface uses v ; const a = $1 ; implementation end .", true},
	{"program p ; begin <> end .", false},
	{"program p ; type t = class ; u = ^ t ; t = class end ; r = record case Byte of 1 : ( ) end ; begin asm end end .", false},
}

type recLogger struct{ n int }

func (l *recLogger) Printf(f string, v ...interface{}) { l.n += len(fmt.Sprintf(f, v...)) }

func soloMain() {
	b, _ := io.ReadAll(os.Stdin)
	s := string(b)
	fmt.Print(observe(parseGoal(s[1:], s[0] == 'u')))
}

func goalMark(unit bool) string {
	if unit {
		return "u"
	}
	return "p"
}

func runPureSeq(c *Ctx) {
	state0 := sharedState()
	base := map[histItem]string{}
	solo := func(h histItem) string {
		if s, ok := base[h]; ok {
			return s
		}
		s := observe(parseGoal(h.text, h.unit))
		base[h] = s
		return s
	}
	all := histItems(true)
	c.Space("every text in a fresh process and after others")
	for _, h := range all {
		h := h
		if !c.Mine() {
			c.Case(nil)
			continue
		}
		c.Case(func() string {
			c.Input(h.text)
			c.State(h.text)
			exe, _ := os.Executable()
			cmd := exec.Command(exe, "solo")
			cmd.Stdin = strings.NewReader(goalMark(h.unit) + h.text)
			var out, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &se
			if err := cmd.Run(); err != nil {
				return "the fresh process fails: " + err.Error() + " " + se.String()
			}
			c.Trace()
			for k := 0; k < 3; k++ {
				c.Trans(1)
				if got := solo(h); got != out.String() {
					return "the result differs from that of a fresh process; " + diffAt(out.String(), got)
				}
				delete(base, h)
			}
			base[h] = out.String()
			if s := sharedState(); s != state0 {
				return "shared state has changed; " + diffAt(state0, s)
			}
			return ""
		})
	}
	c.Space("the text is not changed and may be shared")
	for _, h := range all {
		h := h
		if !c.Mine() {
			c.Case(nil)
			continue
		}
		c.Case(func() string {
			c.Input(h.text)
			r := []rune(h.text)
			want := solo(h)
			for k := 0; k < 2; k++ {
				c.Trans(1)
				if got := observe(parseRunes(&r, h.unit)); got != want {
					return "the result differs; " + diffAt(want, got)
				}
				if string(r) != h.text {
					return "the text is changed"
				}
			}
			c.Trace()
			return ""
		})
	}
	c.Space("every logger")
	for _, h := range all {
		h := h
		if !c.Mine() {
			c.Case(nil)
			continue
		}
		c.Case(func() string {
			c.Input(h.text)
			want := solo(h)
			for k := 0; k < 2; k++ {
				var l tlog.LoggerIntf = &recLogger{}
				if k == 1 {
					l = nullLogger{}
				}
				back := tlog.SetLogger(l)
				got := observe(parseGoal(h.text, h.unit))
				back()
				c.Trans(1)
				if got != want {
					return "the result depends on the logger; " + diffAt(want, got)
				}
			}
			c.Trace()
			return ""
		})
	}
	c.Space("every map iteration order")
	for _, h := range all {
		h := h
		if !c.Mine() {
			c.Case(nil)
			continue
		}
		c.Case(func() string {
			c.Input(h.text)
			want := solo(h)
			var r *goalResult
			return mapOrders(c, 1, func() { r = parseGoal(h.text, h.unit) }, func() string {
				c.Trace()
				if got := observe(r); got != want {
					return "the result depends on the map iteration order; " + diffAt(want, got)
				}
				return ""
			})
		})
	}
	c.Space("every ordered pair of texts")
	for _, a := range all {
		a := a
		if !c.Mine() {
			c.Case(nil)
			continue
		}
		c.Case(func() string {
			for _, b := range all {
				c.Input(a.text + "\nthen\n" + b.text)
				c.State(c.cur)
				c.Trace()
				c.Trans(2)
				wa := solo(a)
				wb := solo(b)
				ra := parseGoal(a.text, a.unit)
				if got := observe(ra); got != wa {
					return "the first result differs; " + diffAt(wa, got)
				}
				if got := observe(parseGoal(b.text, b.unit)); got != wb {
					return "the second result depends on the first parse; " + diffAt(wb, got)
				}
				if got := observe(ra); got != wa {
					return "the second parse changes the first result; " + diffAt(wa, got)
				}
				c.Alive()
			}
			if s := sharedState(); s != state0 {
				return "shared state has changed; " + diffAt(state0, s)
			}
			return ""
		})
		if c.Stopped() {
			break
		}
	}
	runHistories(c, tinyTexts, c.Pick(4, 5))
	var spelled []histItem
	for _, t := range tinyTexts {
		spelled = append(spelled, t, histItem{strings.ToUpper(t.text), t.unit})
	}
	runHistories(c, spelled, c.Pick(3, 4))
	c.Space("every text in a buffer that held another text")
	for _, h := range all {
		h := h
		if !c.Mine() {
			c.Case(nil)
			continue
		}
		c.Case(func() string {
			for _, t := range append(spelled[:len(spelled):len(spelled)], h) {
				c.Input(t.text + "\nthen, at the same address,\n" + h.text)
				c.Trace()
				buf := make([]rune, 0, len(t.text)+len(h.text))
				for i, x := range []histItem{t, h, t} {
					c.Trans(1)
					buf = append(buf[:0], []rune(x.text)...)
					if got := observe(parseRunes(&buf, x.unit)); got != soloOf(x) {
						return fmt.Sprintf("the result of parse %d depends on what the buffer held before; %s", i+1, diffAt(soloOf(x), got))
					}
				}
			}
			return ""
		})
	}
	runLoadHistories(c)
}

// ---- histories of loads ----

// A fileState is what is found at p.dpr, u.pas and v.pas: for each of them an index into its variants.
type fileState [3]int

var stateFiles = []string{"p.dpr", "u.pas", "d/v.pas"}

// Variants of each file: two texts of the same size, a text with an error, a missing file, another text.
var stateTexts = [][]string{
	{
		"program p ; uses u in 'u.pas' , v in 'd\\v.pas' ; var x : ta ; begin x := ca end .",
		"program p ; uses v in 'd\\v.pas' , u in 'u.pas' ; var y : tb ; begin y := cb end .",
		"program p ; uses u in 'u.pas' , v in 'd\\v.pas' ; var x : ta ; begin x : ca end  .",
		"",
		"program p ; var x : ta ; begin x := ca end .",
	},
	{
		"unit u ; interface uses v ; const ca = 1 ; type ta = Byte ; implementation var i : tb ; end .",
		"unit u ; interface uses v ; const cb = 2 ; type tb = Word ; implementation var j : ta ; end .",
		"unit u ; interface uses v ; const ca ; 1 = type ta = Byte ; implementation var i : tb ; end .",
		"",
		"unit u ; interface implementation end .",
	},
	{
		"unit v ; interface type tb = Char ; const cb = 'b' ; implementation uses u ; const k = ca ; end .",
		"unit v ; interface type ta = Real ; const ca = 'a' ; implementation uses u ; const l = cb ; end .",
		"unit v ; interface type tb = Char ; const cb = 'b' ; implementation uses ; u const k = ca ; end .",
		"",
		"unit v ; interface uses u ; type tc = ta ; implementation end .",
	},
}

func (s fileState) write() {
	os.MkdirAll("d", 0o755)
	when := time.Unix(1600000000, 0)
	for i, f := range stateFiles {
		t := stateTexts[i][s[i]]
		if t == "" {
			os.Remove(f)
			continue
		}
		mustWrite(f, []byte(t))
		os.Chtimes(f, when, when)
	}
}

func observeLoad(r *parser.Program, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	d := Dumper{Loc: true, Ref: true}
	s := d.Dump(r.Program)
	for _, u := range r.Units {
		s += d.Dump(u)
	}
	return s
}

func soloLoadMain() {
	fmt.Print(observeLoad(parser.ParseProgram("p.dpr")))
}

// runLoadHistories: loads of the same paths while the files change, and of the same names in other directories.
func runLoadHistories(c *Ctx) {
	fresh := map[fileState]string{}
	solo := func(s fileState) string {
		if r, ok := fresh[s]; ok {
			return r
		}
		s.write()
		exe, _ := os.Executable()
		out, err := exec.Command(exe, "soloload").Output()
		if err != nil {
			panic(fmt.Sprint("the fresh process fails: ", err))
		}
		fresh[s] = string(out)
		return fresh[s]
	}
	type step struct {
		dir int
		s   fileState
	}
	history := func(h []step) string {
		c.Input(fmt.Sprint(h))
		c.State(c.cur)
		c.Trace()
		c.Alive()
		return inScratch(c, func(dir string) {
			os.Mkdir(dir+"/0", 0o755)
			os.Mkdir(dir+"/1", 0o755)
		}, func() string {
			top, _ := os.Getwd()
			defer os.Chdir(top)
			var got []*parser.Program
			var wants []string
			for i, x := range h {
				os.Chdir(fmt.Sprintf("%s/%d", top, x.dir))
				want := solo(x.s)
				x.s.write()
				c.Trans(1)
				r, err := parser.ParseProgram("p.dpr")
				if o := observeLoad(r, err); o != want {
					return fmt.Sprintf("the result of load %d differs from that of a fresh process; %s", i+1, diffAt(want, o))
				}
				if err == nil {
					got = append(got, r)
					wants = append(wants, want)
				}
			}
			for i, r := range got {
				if o := observeLoad(r, nil); o != wants[i] {
					return "a later load changes an earlier result; " + diffAt(wants[i], o)
				}
			}
			return ""
		})
	}
	var states []fileState
	for a := range stateTexts[0] {
		for b := range stateTexts[1] {
			for d := range stateTexts[2] {
				states = append(states, fileState{a, b, d})
			}
		}
	}
	c.Space("every ordered pair of file states at the same paths")
	for _, a := range states {
		a := a
		if !c.Mine() {
			c.Case(nil)
			continue
		}
		c.Case(func() string {
			for _, b := range states {
				diff := 0
				for i := range a {
					if a[i] != b[i] {
						diff++
					}
				}
				if diff > c.Pick(2, 3) {
					continue
				}
				for dir := 0; dir < 2; dir++ {
					if m := history([]step{{0, a}, {dir, b}}); m != "" {
						return m
					}
				}
			}
			return ""
		})
	}
	c.Space("every sequence of loads while one file changes at a time")
	var few []fileState
	for _, s := range states {
		n := 0
		for _, v := range s {
			if v != 0 {
				n++
			}
		}
		if n <= 1 {
			few = append(few, s)
		}
	}
	var rec func(h []step)
	rec = func(h []step) {
		if len(h) == c.Pick(3, 4) {
			if !c.Mine() {
				c.Case(nil)
				return
			}
			c.Case(func() string { return history(h) })
			return
		}
		for _, s := range few {
			rec(append(h[:len(h):len(h)], step{0, s}))
		}
	}
	rec(nil)
}

// runHistories: every sequence of n small texts.
func runHistories(c *Ctx, texts []histItem, n int) {
	c.Space(fmt.Sprintf("every sequence of %d of %d small texts", n, len(texts)))
	var rec func(h []histItem)
	rec = func(h []histItem) {
		if len(h) == n {
			if !c.Mine() {
				c.Case(nil)
				return
			}
			c.Case(func() string {
				for i, x := range h {
					c.Trans(1)
					if got := observe(parseGoal(x.text, x.unit)); got != soloOf(x) {
						c.Input(fmt.Sprint(h))
						return fmt.Sprintf("the result of parse %d depends on the ones before; %s", i+1, diffAt(soloOf(x), got))
					}
				}
				c.Trace()
				return ""
			})
			return
		}
		for _, t := range texts {
			rec(append(h[:len(h):len(h)], t))
		}
	}
	rec(nil)
}

func runPureSched(c *Ctx) {
	runtime.GOMAXPROCS(1)
	// two parses under one schedule
	pair := func(a, b histItem, first, mask int, plan []int, share bool) (string, [2]int) {
		ra, rb := []rune(a.text), []rune(b.text)
		pa, pb := &ra, &rb
		if share {
			pb = pa
		}
		var ga, gb *goalResult
		counts, blocked := together(first, mask, plan, func() { ga = parseRunes(pa, a.unit) }, func() { gb = parseRunes(pb, b.unit) })
		c.Trans(1)
		c.Trace()
		c.Alive()
		if blocked {
			c.Outcome("blocked")
		}
		wa, wb := soloOf(a), soloOf(b)
		if got := observe(ga); got != wa {
			return fmt.Sprintf("the first parse is disturbed by the second (thread %d begins, the turn changes at %v); %s", first+1, plan, diffAt(wa, got)), counts
		}
		if got := observe(gb); got != wb {
			return fmt.Sprintf("the second parse is disturbed by the first (thread %d begins, the turn changes at %v); %s", first+1, plan, diffAt(wb, got)), counts
		}
		return "", counts
	}
	one := func(f func() string) {
		if !c.Mine() {
			c.Case(nil)
			return
		}
		c.Case(f)
	}
	items := histItems(true)
	c.Space("every text twice at the same time, without preemption: data races")
	for i, h := range items {
		h, g := h, items[(i+1)%len(items)]
		one(func() string {
			c.Input(h.text)
			c.State(h.text)
			for _, sh := range []bool{false, true} {
				for first := 0; first < 2; first++ {
					if m, _ := pair(h, h, first, 0, nil, sh); m != "" {
						return m
					}
				}
			}
			m, _ := pair(h, g, 0, 0, nil, false)
			return m
		})
	}
	c.Space("every text with itself, one preemption at every access to a package-level variable")
	for _, h := range items {
		h := h
		one(func() string {
			c.Input(h.text)
			_, n := pair(h, h, 0, 4, nil, false)
			for first := 0; first < 2; first++ {
				for k := 1; k <= n[first]; k++ {
					if m, _ := pair(h, h, first, 4, []int{k}, false); m != "" {
						return m
					}
				}
			}
			return ""
		})
	}
	c.Space("small texts, one preemption at every statement")
	for i, a := range tinyTexts {
		for j, b := range tinyTexts {
			if c.Quick() && j != i {
				continue
			}
			a, b := a, b
			for first := 0; first < 2; first++ {
				first := first
				const parts = 16
				for part := 0; part < parts; part++ {
					part := part
					one(func() string {
						c.Input(a.text + "\nwith\n" + b.text)
						_, n := pair(a, b, first, 7, nil, false)
						for k := 1 + part; k <= n[first]; k += parts {
							if m, _ := pair(a, b, first, 7, []int{k}, false); m != "" {
								return m
							}
						}
						return ""
					})
				}
			}
		}
	}
	c.Space("two loads of the same files, one preemption at every function entry")
	for _, m := range []int{1, 5} {
		m := m
		if c.Quick() && m == 5 {
			continue
		}
		pc := &projCfg{lean: true, name: "x", units: []string{"U1", "U2"}, cfg: map[string]*unitCfg{"U1": {intf: kConst, implUses: []string{"U2"}}, "U2": {intf: kType, intfUses: []string{"U1"}}}}
		p := pc.build()
		load := func() string {
			r, err := parser.ParseProgram("p.dpr")
			if err != nil {
				return err.Error()
			}
			d := Dumper{Loc: true, Ref: true}
			s := d.Dump(r.Program)
			for _, u := range r.Units {
				s += d.Dump(u)
			}
			return s
		}
		const parts = 32
		for first := 0; first < 2; first++ {
			for part := 0; part < parts; part++ {
				first, part := first, part
				one(func() string {
					c.Input(p.text())
					return inScratch(c, p.write, func() string {
						want := load()
						run := func(plan []int) (string, [2]int) {
							var a, b string
							n, _ := together(first, m, plan, func() { a = load() }, func() { b = load() })
							c.Trans(1)
							c.Trace()
							c.Alive()
							if a != want || b != want {
								return fmt.Sprintf("two loads at the same time disturb each other (the turn changes at %v); %s; %s", plan, diffAt(want, a), diffAt(want, b)), n
							}
							return "", n
						}
						m, n := run(nil)
						for k := 1 + part; k <= n[first] && m == ""; k += parts {
							m, _ = run([]int{k})
						}
						return m
					})
				})
			}
			if c.Quick() {
				break
			}
		}
	}
	c.Space("small texts, two preemptions at every access to a package-level variable")
	for i, a := range tinyTexts {
		for j, b := range tinyTexts {
			if c.Quick() && (j != i || i > 1 && i != 6) {
				continue
			}
			a, b := a, b
			for first := 0; first < 2; first++ {
				first := first
				const parts = 32
				for part := 0; part < parts; part++ {
					part := part
					one(func() string {
						c.Input(a.text + "\nwith\n" + b.text)
						_, n := pair(a, b, first, 4, nil, false)
						for k := 1 + part; k <= n[first]; k += parts {
							for l := 1; l <= n[1-first]; l++ {
								if m, _ := pair(a, b, first, 4, []int{k, k + l}, false); m != "" {
									return m
								}
							}
						}
						return ""
					})
				}
			}
		}
	}
}

var soloCache = map[histItem]string{}

func soloOf(h histItem) string {
	if s, ok := soloCache[h]; ok {
		return s
	}
	s := observe(parseGoal(h.text, h.unit))
	soloCache[h] = s
	return s
}

func runC21(c *Ctx) {
	if schedControl {
		runPureSched(c)
	} else {
		runPureSeq(c)
	}
}

func init() {
	register(&Check{ID: "C21", Title: "purity", Run: runC21, Kinds: []string{"map", "race"}, Assumptions: []string{
		"schedules of two parses with up to two preemptions at the instrumented points; unsynchronised conflicting accesses are found in every schedule by the race detector",
		"histories: every ordered pair of the texts, each in a process that has parsed all texts before it",
	}})
}
