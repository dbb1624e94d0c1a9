package main

import (
	"fmt"
	"strings"
)

// ---- C16: duplicate declarations ----

// Every way to declare a name; %d is the name, %q a fresh one.  Group says in
// which frames the declaration can stand: "i" also in an interface section.
type dupKind struct {
	tmpl string
	intf bool
}

var dupKinds = []dupKind{
	{"var %d : Byte ;", true}, {"const %d = 1 ;", true}, {"type %d = Byte ;", true}, {"label %d ;", false}, {"type %q = ( %d ) ;", true},
	{"type %d = class end ;", true}, {"threadvar %d : Byte ;", true}, {"const %d : Byte = 1 ;", true}, {"var %q , %d : Byte ;", true}, {"var %d , %q : Byte ;", true},
	{"var %q : Byte ; %d : Byte ;", true}, {"const %q = 1 ; %d = 2 ;", true}, {"type %q = Byte ; %d = Byte ;", true}, {"threadvar %q , %d : Byte ;", true},
	{"type %d = record end ;", true}, {"type %d = ^ Byte ;", true}, {"type %d = ( %q , %q ) ;", true}, {"type %d = 1 .. 2 ;", true}, {"type %d = array of Byte ;", true},
	{"type %d = procedure ;", true}, {"type %d = set of Byte ;", true}, {"type %d = string ;", true}, {"type %d = class of %q ;", true}, {"type %d = file of Byte ;", true}, {"type %d = type Byte ;", true},
	{"type %q = ( %q , %d ) ;", true}, {"type %q = ( %q = 1 , %d = 2 , %q ) ;", true}, {"type %q = set of ( %q , %d ) ;", true}, {"type %q = array [ ( %d , %q ) ] of Byte ;", true},
	{"var %q : ( %d ) ;", true}, {"var %q : set of ( %d ) ;", true}, {"const %q : ( %d ) = 1 ;", true}, {"type %q = record %q : ( %d ) end ;", true},
	{"var %d : Byte = 1 ;", true}, {"var %d : Byte absolute %q ;", true}, {"var %q : record %q : set of ( %d ) end ;", true}, {"type %q = class %q : ( %d ) ; end ;", true},
	{"type %d = class ; %d = class end ;", true}, {"type %d = class ; %q = Byte ; %d = class ( %q ) end ;", true},
}

// how many of the first kinds the reduced alphabet has
const dupFew = 6

// declarations that open a routine; the name is declared in the new scope
var dupOpens = []string{"procedure %q ;", "procedure %q ( %d : Byte ) ;", "function %q ( const %q , %d : Byte ) : Byte ;", "procedure %q ( var %q : Byte ; out %d : Byte ) ;", "procedure %q ( const %d ) ;", "procedure %q ( %d : array of Byte ; %q : Byte ) ;"}

// headings whose own parameters repeat the name
var dupHeads = []string{
	"procedure %q ( %d , %d : Byte ) ; begin end ;", "procedure %q ( %d : Byte ; var %d : Byte ) ; begin end ;", "function %q ( const %d : Byte ; %q : Byte ; out %d : Byte ) : Byte ; begin end ;",
	"procedure %q ( %d : Byte ; %q , %d : Byte ) ; forward ;", "procedure %q ( var %d ; const %d ) ; external ;",
	"type %q = procedure ( %d , %d : Byte ) ;", "type %q = function ( %d : Byte ; %d : Byte ) : Byte ;", "type %q = class procedure %q ( %d , %d : Byte ) ; end ;",
	"type %q = ( %d , %d ) ;", "var %d , %d : Byte ;", "var %d , %q , %d : Byte ;", "threadvar %d , %d : Byte ;", "var %q : ( %d , %q , %d ) ;", "type %d = ( %d ) ;", "type %d = ( %q , %d ) ;", "var %d : ( %d ) ;",
	"const %d : ( %d ) = 1 ;", "type %d = set of ( %d ) ;", "type %d = record %q : ( %d ) end ;", "type %d = class end ; %d = class end ;", "type %d = class ; %d = class end ; %d = class end ;",
	"type %d = class ; %d = class ;  %d = class end ;",
}

type dupFrame struct {
	kind  string
	names map[string]bool
}

type dupState struct {
	toks   []string
	frames []dupFrame
	q      int
	trail  []string
}

func (s *dupState) clone() *dupState {
	n := &dupState{toks: append(make([]string, 0, len(s.toks)+24), s.toks...), q: s.q, trail: append(make([]string, 0, len(s.trail)+1), s.trail...)}
	for _, f := range s.frames {
		m := map[string]bool{}
		for k := range f.names {
			m[k] = true
		}
		n.frames = append(n.frames, dupFrame{f.kind, m})
	}
	return n
}

func (s *dupState) emit(tmpl, name string) {
	for _, w := range strings.Fields(tmpl) {
		switch w {
		case "%d":
			s.toks = append(s.toks, name)
		case "%x", "%M", "%m":
			s.toks = append(s.toks, name)
		case "%q":
			s.q++
			s.toks = append(s.toks, fmt.Sprintf("q%d", s.q))
		default:
			s.toks = append(s.toks, w)
		}
	}
}

func (s *dupState) finish() string {
	t := append([]string(nil), s.toks...)
	for i := len(s.frames) - 1; i >= 0; i-- {
		switch s.frames[i].kind {
		case "program":
			t = append(t, "begin", "end", ".")
		case "routine":
			t = append(t, "begin", "end", ";")
		case "intf":
			t = append(t, "implementation", "end", ".")
		case "impl":
			return strings.Join(append(t, "end", "."), " ")
		}
	}
	return strings.Join(t, " ")
}

type dupGen struct {
	names  []string // spellings
	max    int
	kinds  int
	opens  int
	depth  int
	unit   bool
	noise  bool // events that mention the name in a scope of their own
	c      *Ctx
	judged func(s *dupState, dup bool)
}

func fold(s string) string { return strings.ToLower(s) }

func (g *dupGen) run() {
	s := &dupState{}
	if g.unit {
		s.toks = strings.Fields("unit u ; interface")
		s.frames = []dupFrame{{"intf", map[string]bool{}}}
	} else {
		s.toks = strings.Fields("program p ;")
		s.frames = []dupFrame{{"program", map[string]bool{}}}
	}
	g.step(s, 0)
}

func (g *dupGen) step(s *dupState, n int) {
	g.judged(s, false)
	if n >= g.max || g.c.Stopped() {
		return
	}
	f := s.frames[len(s.frames)-1]
	do := func(why string, fn func(t *dupState)) {
		t := s.clone()
		t.trail = append(t.trail, why)
		fn(t)
		g.step(t, n+1)
	}
	for _, nm := range g.names {
		nm := nm
		for i, k := range dupKinds[:g.kinds] {
			if f.kind == "intf" && !k.intf {
				continue
			}
			if f.names[fold(nm)] {
				t := s.clone()
				t.trail = append(t.trail, fmt.Sprint("again ", i))
				t.emit(k.tmpl, nm)
				g.judged(t, true)
				continue
			}
			k := k
			do(fmt.Sprint("declare ", i), func(t *dupState) {
				t.emit(k.tmpl, nm)
				t.frames[len(t.frames)-1].names[fold(nm)] = true
			})
		}
		if g.noise {
			ev := noiseEvents
			if f.kind == "intf" {
				ev = intfNoiseEvents
			}
			for i, e := range ev {
				e := e
				do(fmt.Sprint("mention ", i), func(t *dupState) { t.emit(e, nm) })
			}
		}
		if n+1 == g.max && g.kinds == len(dupKinds) {
			for i, h := range dupHeads {
				if f.kind == "intf" && (strings.HasPrefix(h, "procedure") || strings.HasPrefix(h, "function")) {
					h = h[:strings.Index(h, " ) ")+3] + "; "
					if strings.HasPrefix(dupHeads[i], "function") {
						h = h[:len(h)-2] + ": Byte ; "
					}
				}
				t := s.clone()
				t.trail = append(t.trail, fmt.Sprint("twice ", i))
				t.emit(h, nm)
				g.judged(t, true)
			}
		}
		if f.kind != "intf" && len(s.frames) < g.depth {
			for i, o := range dupOpens[:g.opens] {
				if i == 0 && nm != g.names[0] {
					continue
				}
				o, i := o, i
				do(fmt.Sprint("open ", i), func(t *dupState) {
					t.emit(o, nm)
					fr := dupFrame{"routine", map[string]bool{}}
					if i > 0 {
						fr.names[fold(nm)] = true
					}
					t.frames = append(t.frames, fr)
				})
			}
		}
	}
	switch f.kind {
	case "routine":
		do("close", func(t *dupState) {
			t.toks = append(t.toks, "begin", "end", ";")
			t.frames = t.frames[:len(t.frames)-1]
		})
	case "intf":
		do("implementation", func(t *dupState) {
			t.toks = append(t.toks, "implementation")
			t.frames = append(t.frames, dupFrame{"impl", map[string]bool{}})
		})
	}
}

func runC16(c *Ctx) {
	judge := func(unit bool) func(s *dupState, dup bool) {
		return func(s *dupState, dup bool) {
			if !c.Mine() {
				c.Case(nil)
				return
			}
			c.Case(func() string {
				text := s.finish()
				c.Input(text)
				c.Trace()
				c.Trans(1)
				c.State(strings.Join(s.trail, "|"))
				r := parseGoal(text, unit)
				c.Outcome(fmt.Sprint(dup, r.err == nil))
				switch {
				case dup && r.err == nil:
					return "the second declaration is accepted"
				case !dup && r.err != nil:
					return "rejected although no name is declared twice in a scope: " + r.err.Error()
				}
				return ""
			})
		}
	}
	for _, u := range []bool{false, true} {
		w := "program"
		if u {
			w = "unit"
		}
		c.Space(w + ": all kinds")
		(&dupGen{names: []string{"a", "A"}, max: c.Pick(2, 3), kinds: len(dupKinds), opens: len(dupOpens), depth: 3, unit: u, c: c, judged: judge(u)}).run()
		c.Space(w + ": all kinds, name of an embedded type")
		(&dupGen{names: []string{"Word"}, max: c.Pick(2, 3), kinds: len(dupKinds), opens: len(dupOpens), depth: 3, unit: u, c: c, judged: judge(u)}).run()
		c.Space(w + ": scopes")
		(&dupGen{names: []string{"a", "A"}, max: c.Pick(4, 5), kinds: dupFew, opens: 2, depth: 4, unit: u, c: c, judged: judge(u)}).run()
		c.Space(w + ": scopes, two names")
		(&dupGen{names: []string{"a", "b"}, max: c.Pick(4, 5), kinds: dupFew, opens: 2, depth: 4, unit: u, c: c, judged: judge(u)}).run()
	}
	for _, u := range []bool{false, true} {
		w := "program"
		if u {
			w = "unit"
		}
		c.Space(w + ": scopes that mention the name in between")
		(&dupGen{names: []string{"a"}, max: c.Pick(4, 5), kinds: dupFew, opens: 2, depth: 3, noise: true, unit: u, c: c, judged: judge(u)}).run()
		c.Space(w + ": all kinds, the name is mentioned in between")
		(&dupGen{names: []string{"a"}, max: c.Pick(3, 4), kinds: len(dupKinds), opens: 2, depth: 2, noise: true, unit: u, c: c, judged: judge(u)}).run()
	}
	// uses clauses
	c.Space("uses clauses")
	names := []string{"u1", "U1", "u2", "u3", "U3", "u1 in 'a.pas'", "U1 in 'b.pas'", "u2 in 'a.pas'"}
	var rec func(cl []string)
	rec = func(cl []string) {
		if len(cl) > 0 && !c.Stopped() {
			for form := 0; form < 3; form++ {
				form := form
				c.Case(func() string {
					seen, dup := map[string]bool{}, false
					for _, n := range cl {
						n = fold(strings.Fields(n)[0])
						dup = dup || seen[n]
						seen[n] = true
					}
					var text string
					list := strings.Join(cl, " , ")
					unit := form > 0
					if form == 0 {
						if strings.Contains(list, "'") {
							return "" // a program opens the files it names
						}
						text = "program p ; uses " + list + " ; begin end ."
					} else if form == 2 {
						text = "unit u ; interface implementation uses " + list + " ; end ."
					} else {
						text = "unit u ; interface uses " + list + " ; implementation end ."
					}
					c.Input(text)
					c.Trace()
					c.State(text)
					r := parseGoal(text, unit)
					if dup == (r.err == nil) {
						return fmt.Sprintf("duplicate: %v, error: %v", dup, r.err)
					}
					return ""
				})
			}
		}
		if len(cl) == c.Pick(3, 4) {
			return
		}
		for _, n := range names {
			rec(append(append([]string(nil), cl...), n))
		}
	}
	rec(nil)
	runLongDups(c)
}

func init() {
	register(&Check{ID: "C16", Title: "duplicate declarations", Run: runC16, Assumptions: []string{
		"declarations of up to the stated number of events, scope nesting up to 4",
		"the interface and the implementation section are two scopes; names of routines, of the program or unit itself and members of records and classes are not enumerated",
	}})
}
