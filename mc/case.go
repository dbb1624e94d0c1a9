package main

import (
	"fmt"
	"strings"
	"unicode"
)

// ---- C05: letter case ----

func respell(s string, how int) string {
	switch how {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	// alternate, starting with lower (2) or upper (3) case
	rs := []rune(s)
	for i := range rs {
		if (i+how)%2 == 0 {
			rs[i] = unicode.ToLower(rs[i])
		} else {
			rs[i] = unicode.ToUpper(rs[i])
		}
	}
	return string(rs)
}

func isWord(s string) bool { k := kindOfTok(s); return k == tkIdent || k == tkReserved }

func caseCheck(c *Ctx, it citem, xf func(i int, s string) string, what string) string {
	t := evalSpelled(it.t.ch, xf)
	text := t.text()
	c.Input(text)
	c.Trans(1)
	c.Trace()
	r := parseGoal(text, it.unit)
	if r.err != nil {
		return what + ": rejected: " + r.err.Error()
	}
	if m := r.either(); m != "" {
		return m
	}
	if got := Dump(r.node()); got != t.dump {
		return what + ": wrong AST, " + diffAt(t.dump, got)
	}
	// references: the same as in the original spelling
	base := parseGoal(it.t.text(), it.unit)
	if base.err != nil {
		return "rejected in its original spelling: " + base.err.Error()
	}
	d := Dumper{Ref: true, Loc: true, Fold: true}
	a := d.Dump(base.node())
	if b := d.Dump(r.node()); a != b {
		return what + ": references differ, " + diffAt(a, b)
	}
	return ""
}

func runC05(c *Ctx) {
	for b := 0; b <= 1; b++ {
		c.Space([]string{"every production: every word", "every pair of productions: every word"}[b])
		eachText(c, corpus(b), func(it citem) string {
			for how := 0; how < 4; how++ {
				if m := caseCheck(c, it, func(i int, s string) string {
					if isWord(s) {
						return respell(s, how)
					}
					return s
				}, fmt.Sprintf("all words in spelling %d", how)); m != "" {
					return m
				}
			}
			for k, w := range it.t.toks {
				if !isWord(w) {
					continue
				}
				for how := 0; how < 4; how++ {
					if respell(w, how) == w || b == 1 && c.Quick() && how != 0 && how != 3 {
						continue
					}
					c.Alive()
					if m := caseCheck(c, it, func(i int, s string) string {
						if i == k {
							return respell(s, how)
						}
						return s
					}, fmt.Sprintf("word %d (%s) in spelling %d", k+1, w, how)); m != "" {
						return m
					}
				}
			}
			return ""
		})
	}
	runCaseRefs(c)
}

func init() {
	register(&Check{ID: "C05", Title: "letter case", Run: runC05, Assumptions: []string{
		"ASCII letters; each word is respelled alone and all words together",
	}})
}

// Every scope arrangement, with the references and with the declarations
// respelled: every reference must find the same declaration.
func runCaseRefs(c *Ctx) {
	up := func(ref bool) func(s *mstate) func(i int, w string) string {
		return func(s *mstate) func(int, string) string {
			return func(i int, w string) string {
				if _, isRef := s.exp[i]; isRef == ref && (w == "a" || w == "Char") {
					if w == "a" {
						return "A"
					}
					return "cHAR"
				}
				return w
			}
		}
	}
	for _, u := range []bool{false, true} {
		for k, ref := range []bool{true, false} {
			w := []string{"references", "declarations"}[k] + " respelled, " + map[bool]string{false: "program", true: "unit"}[u]
			c.Space(w + ": all kinds and places")
			scopeRun(c, []string{"a", "Char"}, c.Pick(2, 3), 4, true, u, up(ref))
			c.Space(w + ": scopes")
			scopeRun(c, []string{"a"}, c.Pick(5, 6), 5, false, u, up(ref))
		}
	}
}
