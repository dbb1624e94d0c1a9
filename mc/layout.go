package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/token"
)

// ---- layouts of token lists (C03, C04) ----

// A laidOut is a text made of tokens and fillers, with the rune index where
// each token starts (the last entry is the end of the text).
type laidOut struct {
	text   string
	starts []int
}

// lay writes the tokens with fill(i) before token i (i = len(toks): at the end).
func lay(toks []string, fill func(i int) string) *laidOut {
	var b strings.Builder
	l := &laidOut{}
	n := 0
	put := func(s string) {
		b.WriteString(s)
		n += len([]rune(s))
	}
	for i, t := range toks {
		put(fill(i))
		l.starts = append(l.starts, n)
		put(t)
	}
	put(fill(len(toks)))
	l.starts = append(l.starts, n)
	l.text = b.String()
	return l
}

// same tells whether the reference lexer reads exactly the tokens in a layout.
func (l *laidOut) same(toks []string) bool {
	rs := []rune(l.text)
	i := 0
	for _, k := range refLex(rs) {
		if k.typ == token.Space || k.typ == token.Comment || k.typ == token.EOF {
			continue
		}
		if i >= len(toks) || k.start != l.starts[i] || string(rs[k.start:k.end]) != toks[i] {
			return false
		}
		i++
	}
	return i == len(toks)
}

// around separates a filler that would merge with its neighbours.
func around(a, f, b string) string {
	if len(a) > 0 && len(f) > 0 {
		x, y := a[len(a)-1], f[0]
		if x == '/' && y == '/' || x == '(' && y == '*' {
			f = " " + f
		}
	}
	return f
}

var fillers = []string{
	"\n", "\t", "\r\n", "   ", " \n\n\t\r\n ",
	"{c}", "(*c*)", "//c\n", "{}", "(**)", "//\n", "// c\r\n",
	" {a} (*b*) //c\n ", "{\n}", "(*\n\n*)", "{ begin end ; }", "{'}", "(*'*)", "//'\n", "{(*}", "(*{*)", "//{\n", "{//}", "(*//\n*)", "{$R+}",
	"\u3000", "{日本\n語}", "\v", "\f", "\n \n", "{*)}", "(*}*)", "(***)", "{ { }", "//}*)\n",
}

var fewFillers = []string{"\r\n", "{c\n}", " {a} (*b*) //c\n "}

type layoutCase struct {
	name string
	fill func(i int) string
}

// layouts enumerates the layouts of a token list: every filler at every single
// boundary, every filler at all boundaries at once, and every boundary without
// any filler where the tokens stay apart.
func layouts(toks []string, fs []string, joins bool, f func(l *laidOut, what string)) {
	n := len(toks)
	def := func(i int) string {
		if i == 0 || i == n {
			return ""
		}
		return " "
	}
	sep := func(i int, s string) string {
		a, b := "", ""
		if i > 0 {
			a = toks[i-1]
		}
		if i < n {
			b = toks[i]
		}
		return around(a, s, b)
	}
	for _, fl := range fs {
		for k := 0; k <= n; k++ {
			l := lay(toks, func(i int) string {
				if i == k {
					return sep(i, fl)
				}
				return def(i)
			})
			f(l, fmt.Sprintf("filler %q before token %d", fl, k+1))
		}
	}
	uniform(toks, fs, f)
	if joins {
		for k := 1; k < n; k++ {
			l := lay(toks, func(i int) string {
				if i == k {
					return ""
				}
				return def(i)
			})
			if l.same(toks) {
				f(l, fmt.Sprintf("no space before token %d", k+1))
			}
		}
	}
}

// uniform enumerates the layouts with one filler everywhere.
func uniform(toks []string, fs []string, f func(l *laidOut, what string)) {
	n := len(toks)
	for _, fl := range fs {
		l := lay(toks, func(i int) string {
			a := ""
			if i > 0 {
				a = toks[i-1]
			}
			b := ""
			if i < n {
				b = toks[i]
			}
			return around(a, fl, b)
		})
		f(l, fmt.Sprintf("filler %q everywhere", fl))
	}
}

// tight leaves out every space that may be left out, from the left.
func tight(toks []string) *laidOut {
	drop := make([]bool, len(toks)+1)
	mk := func() *laidOut {
		return lay(toks, func(i int) string {
			if i == 0 || i == len(toks) || drop[i] {
				return ""
			}
			return " "
		})
	}
	for k := 1; k < len(toks); k++ {
		drop[k] = true
		if !mk().same(toks) {
			drop[k] = false
		}
	}
	return mk()
}

func layoutCheck(c *Ctx, it citem, l *laidOut, what string) string {
	c.Input(l.text)
	c.Trans(1)
	if !l.same(it.t.toks) {
		return "MODEL: the layout does not keep the tokens: " + what
	}
	r := parseGoal(l.text, it.unit)
	if r.err != nil {
		return what + ": rejected: " + r.err.Error()
	}
	if m := r.either(); m != "" {
		return m
	}
	c.Trace()
	if got := Dump(r.node()); got != it.t.dump {
		return what + ": wrong AST, " + diffAt(it.t.dump, got)
	}
	return ""
}

func eachText(c *Ctx, items []citem, f func(it citem) string) {
	for _, it := range items {
		it := it
		if !c.Mine() {
			c.Case(nil)
			continue
		}
		c.Case(func() string {
			c.State(it.t.text())
			return f(it)
		})
	}
}

func runC04(c *Ctx) {
	all := func(it citem, fs []string, singles bool) string {
		msg, k := "", 0
		f := func(l *laidOut, what string) {
			if k&255 == 0 {
				c.Alive()
			}
			k++
			if msg == "" {
				msg = layoutCheck(c, it, l, what)
			}
		}
		if singles {
			layouts(it.t.toks, fs, true, f)
		} else {
			uniform(it.t.toks, fs, f)
		}
		if msg == "" {
			msg = layoutCheck(c, it, tight(it.t.toks), "no space wherever possible")
		}
		return msg
	}
	c.Space("every production: every filler at every boundary and at all")
	eachText(c, corpus(0), func(it citem) string { return all(it, fillers, true) })
	c.Space("every pair of productions: every filler at all boundaries")
	eachText(c, corpus(1), func(it citem) string { return all(it, fillers, false) })
	c.Space("every pair of productions: fillers at every boundary")
	eachText(c, corpus(1), func(it citem) string {
		if c.Quick() {
			return all(it, fewFillers[:2], true)
		}
		return all(it, fillers, true)
	})
	c.Space("every comment content at every boundary of a program")
	var small citem
	for _, it := range corpus(0) {
		if !it.unit && (small.t == nil || len(it.t.toks) < len(small.t.toks)) {
			small = it
		}
	}
	content := func(s string) {
		if !c.Mine() {
			c.Case(nil)
			return
		}
		c.Case(func() string {
			var fs []string
			for _, f := range []string{"{" + s + "}", "(*" + s + "*)", "//" + s + "\n"} {
				if k := refLex([]rune(f)); len(k) > 0 && k[0].end == len([]rune(strings.TrimSuffix(f, "\n"))) {
					fs = append(fs, f)
				}
			}
			msg := ""
			layouts(small.t.toks, fs, false, func(l *laidOut, what string) {
				if msg == "" && l.same(small.t.toks) {
					msg = layoutCheck(c, small, l, what)
				}
			})
			return msg
		})
	}
	for n := 0; n <= 2; n++ {
		allStrings(lexASCII, n, func(t []rune) { content(string(t)) })
	}
	allStrings(lexInside, 3, func(t []rune) { content(string(t)) })
	for _, w := range insideWords {
		for _, q := range []string{"", "$", "$$", " ", "%", "#"} {
			content(q + w)
			content(q + w + "*")
			content(q + w + " *.dfm")
		}
	}
	c.Space("many spaces and comments in a row")
	runs := []string{" ", "\t\n", "{c}", "{c} ", "(*c*)\r\n", "//c\n", "{a}(*b*) //c\n", "\u3000{\n}"}
	lens := []int{64, 100, 129, 257, 1025}[:c.Pick(4, 5)]
	for i := 2; i <= c.Pick(36, 63); i++ {
		lens = append(lens, i)
	}
	for _, n := range lens {
		for _, u := range runs {
			n, u := n, u
			if !c.Mine() {
				c.Case(nil)
				continue
			}
			c.Case(func() string {
				msg := ""
				layouts(small.t.toks, []string{strings.Repeat(u, n)}, false, func(l *laidOut, what string) {
					if msg == "" {
						msg = layoutCheck(c, small, l, what)
					}
				})
				return msg
			})
		}
	}
	eachText(c, corpus(0), func(it citem) string {
		msg := ""
		for _, n := range []int{3, 5, 9, 17, 33, 65, 130}[:c.Pick(6, 7)] {
			uniform(it.t.toks, []string{strings.Repeat("{c} ", n), strings.Repeat("//c\n", n), strings.Repeat(" \n", n), strings.Repeat("(*c*)", n)}, func(l *laidOut, what string) {
				if msg == "" {
					msg = layoutCheck(c, it, l, what)
				}
			})
		}
		return msg
	})
	c.Space("rejected texts stay rejected in every layout")
	eachText(c, corpus(0), func(it citem) string {
		msg := ""
		edits(it.t.toks, smallAlphabet[:c.Pick(6, len(smallAlphabet))], func(e edit) {
			if msg != "" {
				return
			}
			c.Alive()
			toks := e.apply(it.t.toks)
			base := parseGoal(strings.Join(toks, " "), it.unit)
			uniform(toks, fewFillers, func(l *laidOut, what string) {
				if msg != "" || !l.same(toks) {
					return
				}
				c.Input(l.text)
				c.Trans(1)
				c.Trace()
				r := parseGoal(l.text, it.unit)
				if (r.err == nil) != (base.err == nil) {
					msg = fmt.Sprintf("%s: %v, but %v with single spaces", what, r.err, base.err)
				} else if r.err == nil {
					if a, b := Dump(base.node()), Dump(r.node()); a != b {
						msg = what + ": AST differs from the one with single spaces, " + diffAt(a, b)
					}
				}
			})
		})
		return msg
	})
}

// ---- C03 on the parser ----

func checkIdentLocs(c *Ctx, it citem, l *laidOut, what string) string {
	c.Input(l.text)
	r := parseGoal(l.text, it.unit)
	if r.err != nil {
		return what + ": rejected: " + r.err.Error()
	}
	rs := []rune(l.text)
	right, quirk := lineCol(rs)
	c.Trace()
	ids := Idents(r.node())
	c.Trans(len(ids))
	at := map[int]int{}
	for i, s := range l.starts[:len(l.starts)-1] {
		at[s] = i
	}
	used := map[int]bool{}
	for _, id := range ids {
		loc := id.Location
		if loc == nil || loc.Start == nil || loc.End == nil {
			return fmt.Sprintf("%s: identifier %s has no location", what, id.Name)
		}
		s, e := loc.Start, loc.End
		i, ok := at[s.Index]
		if !ok || it.t.toks[i] != id.Name {
			return fmt.Sprintf("%s: identifier %s is located at index %d, where it is not", what, id.Name, s.Index)
		}
		if used[i] {
			return fmt.Sprintf("%s: two identifiers (%s) are located at the same token", what, id.Name)
		}
		used[i] = true
		wantEnd := s.Index + len([]rune(id.Name))
		if e.Index != wantEnd {
			return fmt.Sprintf("%s: identifier %s ends at index %d instead of %d", what, id.Name, e.Index, wantEnd)
		}
		ok1 := right[s.Index] == [2]int{s.Line, s.Col} && right[e.Index] == [2]int{e.Line, e.Col}
		if !ok1 && quirk != nil && quirk[s.Index] == [2]int{s.Line, s.Col} && quirk[e.Index] == [2]int{e.Line, e.Col} {
			ok1 = c.Known(leadingLF)
		}
		if !ok1 {
			return fmt.Sprintf("%s: identifier %s is located at %d:%d - %d:%d, the text says %d:%d - %d:%d", what, id.Name, s.Line, s.Col, e.Line, e.Col,
				right[s.Index][0], right[s.Index][1], right[e.Index][0], right[e.Index][1])
		}
	}
	return ""
}

func runC03(c *Ctx) {
	lexSpaces(c, func(t []rune) string { return checkPositions(c, t) })
	breaks := []string{"\n", "\r\n", "{\n}", "(*\r\n\n*)", "//c\n", " \n\n ", "{c}", "\t"}
	c.Space("every production: identifier locations, every filler at every boundary and at all")
	eachText(c, corpus(0), func(it citem) string {
		msg := ""
		layouts(it.t.toks, breaks, true, func(l *laidOut, what string) {
			if msg == "" {
				msg = checkIdentLocs(c, it, l, what)
			}
		})
		if msg == "" {
			msg = checkIdentLocs(c, it, tight(it.t.toks), "no space wherever possible")
		}
		return msg
	})
	c.Space("every pair of productions: identifier locations")
	eachText(c, corpus(1), func(it citem) string {
		msg := ""
		f := func(l *laidOut, what string) {
			if msg == "" {
				msg = checkIdentLocs(c, it, l, what)
			}
		}
		if c.Quick() {
			uniform(it.t.toks, breaks[:5], f)
			layouts(it.t.toks, breaks[1:2], false, f)
		} else {
			layouts(it.t.toks, breaks, false, f)
		}
		return msg
	})
	c.Space("names of other lengths and alphabets: identifier locations")
	eachText(c, corpus(1), func(it citem) string {
		for _, w := range []string{"é", "日本語", "_日é", "𝒳y", strings.Repeat("n", 70), strings.Repeat("長", 40)} {
			n := 0
			t := evalSpelled(it.t.ch, func(i int, old string) string {
				switch it.t.cls[i] {
				case 'i', 'd', 'a', 't':
					n++
					return fmt.Sprint(w, n)
				}
				return old
			})
			x := citem{t: t, unit: it.unit}
			one := func(s string) *laidOut {
				return lay(t.toks, func(i int) string {
					if i == 0 || i == len(t.toks) {
						return ""
					}
					return s
				})
			}
			for _, s := range []string{" ", "\n\t", "{é}"} {
				if m := checkIdentLocs(c, x, one(s), fmt.Sprintf("names like %s, filler %q", w, s)); m != "" {
					return m
				}
			}
		}
		return ""
	})
	c.Space("error positions in every layout")
	eachText(c, corpus(0), func(it citem) string {
		msg := ""
		edits(it.t.toks, smallAlphabet[:c.Pick(8, len(smallAlphabet))], func(e edit) {
			if msg != "" {
				return
			}
			c.Alive()
			toks := e.apply(it.t.toks)
			one := lay(toks, func(i int) string {
				if i == 0 || i == len(toks) {
					return ""
				}
				return " "
			})
			base := parseGoal(one.text, it.unit)
			if base.err == nil {
				return
			}
			bl, bc, ok := errPos(base.err)
			if !ok {
				return // a semantic error, whose text names declarations
			}
			c.Input(one.text)
			tok := -1
			for i, s := range one.starts {
				if bl == 1 && bc == s+1 {
					tok = i
				}
			}
			if tok < 0 {
				msg = fmt.Sprintf("the error is not at the start of a token: %v", base.err)
				return
			}
			uniform(toks, []string{"\n", "{c\r\n}", " //c\n\t"}, func(l *laidOut, what string) {
				if msg != "" || !l.same(toks) {
					return
				}
				c.Input(l.text)
				c.Trans(1)
				c.Trace()
				r := parseGoal(l.text, it.unit)
				if r.err == nil {
					msg = what + ": accepted, but rejected with single spaces"
					return
				}
				right, quirk := lineCol([]rune(l.text))
				gl, gc, _ := errPos(r.err)
				w := right[l.starts[tok]]
				if gl == w[0] && gc == w[1] {
					return
				}
				if quirk != nil {
					if q := quirk[l.starts[tok]]; q[0] == gl && q[1] == gc && c.Known(leadingLF) {
						return
					}
				}
				msg = fmt.Sprintf("%s: token %d is at %d:%d, the error says: %v", what, tok+1, w[0], w[1], r.err)
			})
		})
		return msg
	})
}

func init() {
	asm := []string{"fillers and break forms are the stated ones; texts beyond the enumerated productions and pairs are extrapolated"}
	register(&Check{ID: "C03", Title: "positions", Run: runC03, Assumptions: asm})
	register(&Check{ID: "C04", Title: "layout independence", Run: runC04, Assumptions: asm})
}
