package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/akm/tparser/runes"
	"github.com/akm/tparser/token"
)

// ---- reference lexer ----

type rtok struct {
	typ        token.Type
	start, end int
}

var refReserved = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`and array as asm begin case class const constructor destructor dispinterface div do
 downto else end except exports file finalization finally for function goto if implementation in inherited
 initialization inline interface is label library mod nil not object of or out packed procedure program property
 raise record repeat resourcestring set shl shr string then threadvar to try type unit until uses var while with xor`) {
		m[w] = true
	}
	return m
}()

func reservedList() []string {
	var r []string
	for w := range refReserved {
		r = append(r, w)
	}
	sortStrings(r)
	return r
}

const refSingles = "#$&'()*+,-./:;<=>@[]^{}"

var refDoubles = map[string]bool{"(.": true, ".)": true, "..": true, ":=": true, "<=": true, ">=": true, "<>": true}

func isWordHead(r rune) bool { return r == '_' || unicode.IsLetter(r) }
func isDig(r rune) bool      { return r >= '0' && r <= '9' }

func asciiLower(s string) string {
	b := []rune(s)
	for i, r := range b {
		if r >= 'A' && r <= 'Z' {
			b[i] = r + 32
		}
	}
	return string(b)
}

// refLex is the lexical grammar, written over absolute indexes.
func refLex(t []rune) []rtok {
	var out []rtok
	n := len(t)
	at := func(i int) rune {
		if i < n {
			return t[i]
		}
		return -1
	}
	for i := 0; i < n; {
		r := t[i]
		j := i + 1
		typ := token.Unknown
		switch {
		case r == '{':
			typ = token.Comment
			for j < n && t[j] != '}' {
				j++
			}
			if j < n {
				j++
			}
		case r == '/' && at(i+1) == '/':
			typ = token.Comment
			for j < n && t[j] != '\n' {
				j++
			}
		case r == '(' && at(i+1) == '*':
			typ = token.Comment
			j = i + 2
			for j < n && !(t[j] == '*' && at(j+1) == ')') {
				j++
			}
			if j < n {
				j += 2
			}
		case r == '\'':
			typ = token.CharacterString
			for j < n && !(t[j] == '\'' && !(j-1 > i && t[j-1] == '\\')) {
				j++
			}
			if j < n {
				j++
			}
		case isDig(r) || (r == '-' && isDig(at(i+1))):
			typ = token.NumeralInt
			for isDig(at(j)) {
				j++
			}
			if at(j) == '.' && at(j+1) != '.' {
				typ = token.NumeralReal
				j++
				for isDig(at(j)) {
					j++
				}
			}
		case i+1 < n && refDoubles[string(t[i:i+2])]:
			typ = token.SpecialSymbol
			j = i + 2
		case r >= 0 && strings.ContainsRune(refSingles, r):
			typ = token.SpecialSymbol
		case isWordHead(r):
			for isWordHead(at(j)) || isDig(at(j)) {
				j++
			}
			typ = token.Identifier
			if refReserved[asciiLower(string(t[i:j]))] {
				typ = token.ReservedWord
			}
		case unicode.IsSpace(r):
			typ = token.Space
			for j < n && unicode.IsSpace(t[j]) {
				j++
			}
		}
		out = append(out, rtok{typ, i, j})
		i = j
	}
	return append(out, rtok{token.EOF, n, n})
}

// hasFoldTrap: the letters outside ASCII whose case folding meets ASCII letters;
// whether a word that contains one is a reserved word is left open.
func hasFoldTrap(s string) bool { return strings.ContainsAny(s, "\u0131\u017f\u212a\u0130") }

// ---- text generators shared by the lexical checks ----

var lexAlpha = []rune("aBi_1 \n\r\t'\\{}(*)/.:=<>-;?\x00あ\u3000")
var lexASCII = func() []rune {
	r := []rune("\x00\t\n\r\v\f\x1b\x7fあ\u3000\u00a0é\uFEFF")
	for x := ' '; x < 0x7f; x++ {
		r = append(r, x)
	}
	return r
}()
var lexInside = []rune("a$*'\\\n\r{}(/) 1#")

// insideWords are texts that compilers give a meaning inside comments, or that
// look like other lexemes.
var insideWords = []string{"", "R", "I", "I x.inc", "IFDEF", "IFNDEF X", "ELSE", "ENDIF", "INCLUDE", "L", "R *.dfm", "R *.RES", "APPTYPE CONSOLE", "H", "M", "DEFINE X", "UNDEF", "region", "endregion", "begin", "end", "end.", "http://x", "asm", "implementation", "TODO", "1", "1..2", "あ"}
var lexNest = []rune("a'\\\n{}(*)/.")
var lexNum = []rune("19.-=:a ")
var lexSym = []rune("(.)*:=<>/-1'")

// allStrings enumerates every string over alpha with exactly n runes.
func allStrings(alpha []rune, n int, f func(s []rune)) {
	buf := make([]rune, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(buf)
			return
		}
		for _, r := range alpha {
			buf[i] = r
			rec(i + 1)
		}
	}
	rec(0)
}

// lexSpaces enumerates the lexical texts of a check.
func lexSpaces(c *Ctx, chk func(t []rune) string) {
	one := func(t []rune) {
		c.Case(func() string {
			tt := append([]rune(nil), t...)
			c.Input(fmt.Sprintf("%q", string(tt)))
			return chk(tt)
		})
	}
	str := func(s string) { one([]rune(s)) }

	c.Space("strings/classes")
	for n := 0; n <= c.Pick(4, 5) && !c.Stopped(); n++ {
		allStrings(lexAlpha, n, one)
	}
	c.Space("strings/nesting")
	for n := 5; n <= c.Pick(6, 7) && !c.Stopped(); n++ {
		allStrings(lexNest, n, one)
	}
	c.Space("strings/numerals")
	for n := 5; n <= c.Pick(6, 7) && !c.Stopped(); n++ {
		allStrings(lexNum, n, one)
	}
	c.Space("strings/symbols")
	for n := 5; n <= c.Pick(5, 6) && !c.Stopped(); n++ {
		allStrings(lexSym, n, one)
	}

	c.Space("strings/all of ASCII")
	for n := 1; n <= c.Pick(3, 4) && !c.Stopped(); n++ {
		allStrings(lexASCII, n, one)
	}
	c.Space("inside comments and strings")
	for _, d := range [][2]string{{"{", "}"}, {"(*", "*)"}, {"//", "\n"}, {"'", "'"}} {
		d := d
		in := func(t []rune) { str(d[0] + string(t) + d[1] + " end;") }
		for n := 0; n <= 2; n++ {
			allStrings(lexASCII, n, in)
		}
		for n := 3; n <= c.Pick(4, 5) && !c.Stopped(); n++ {
			allStrings(lexInside, n, in)
		}
		for _, w := range insideWords {
			for _, q := range []string{"", "$", "$$", " ", "%", "#", "@", "&", "-", "=", "<", "[", "!"} {
				for _, e := range []string{"", "*.dfm", " x", "+", "-", ",", "\n", "'", "\\", "}", ")", "*", "."} {
					str(d[0] + q + w + e + d[1] + " end;")
					str(d[0] + q + w + " " + e + d[1] + " end;")
				}
			}
		}
	}

	c.Space("runes")
	for r := rune(0); r <= 0x10FFFF && !c.Stopped(); r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		rs := r
		c.Case(func() string {
			c.Input(fmt.Sprintf("%U in contexts", rs))
			for _, t := range [][]rune{{rs}, {'a', rs}, {rs, 'a'}, {'1', rs}, {rs, '1'}, {'\'', rs, '\'', ';'}, {'{', rs, '}', 'x'}, {'(', '*', rs, '*', ')', 'x'}, {'/', '/', rs, '\n', 'x'}, {' ', rs, ' '}, {rs, rs}, {'i', 'f', rs}, {';', rs, ';'}} {
				if m := chk(t); m != "" {
					c.Input(fmt.Sprintf("%q", string(t)))
					return m
				}
			}
			return ""
		})
	}

	c.Space("words")
	for n := 1; n <= 3; n++ {
		allStrings([]rune("abcdefghijklmnopqrstuvwxyz"), n, one)
	}
	if !c.Quick() {
		allStrings([]rune("abcdefghijklmnopqrstuvwxyz"), 4, one)
	}
	for _, w := range reservedList() {
		rs := []rune(w)
		for i := 0; i <= len(rs); i++ {
			for _, x := range "abcdefghijklmnopqrstuvwxyz_0 .あé" {
				str(string(rs[:i]) + string(x) + string(rs[i:]))
				if i < len(rs) {
					str(string(rs[:i]) + string(x) + string(rs[i+1:]))
				}
			}
			if i < len(rs) {
				str(string(rs[:i]) + string(rs[i+1:]))
			}
		}
		for _, w2 := range reservedList() {
			str(w + w2)
			str(w + " " + w2)
			str(w + "_" + w2)
		}
		for m := 0; m < 1<<len(rs); m++ {
			b := []byte(w)
			for i := range b {
				if m>>i&1 == 1 {
					b[i] -= 32
				}
			}
			str(string(b))
		}
	}
	for _, w := range directiveWords {
		for _, v := range []string{w, strings.ToUpper(w), strings.Title(w)} {
			str(v)
		}
	}

	c.Space("lengths")
	kinds := []struct{ pre, unit, post string }{
		{"", "a", ""}, {"", "Z9_", ""}, {"", "7", ""}, {"-", "7", ""}, {"1.", "7", ""}, {"'", "x", "'"}, {"'", "あ", "'"}, {"'", "\\'", "'"},
		{"{", "x", "}"}, {"{", "\n", "}"}, {"(*", "*", "*)"}, {"(*", "x\n", "*)"}, {"//", "x", "\n"}, {"", " ", ""}, {"", "\n", ""}, {"", "\r\n", ""},
		{"", "\t", ""}, {"", ";", ""}, {"", "(", ""}, {"", "a ", ""}, {"", "a\n", ""}, {"", "a\r\n", ""}, {"", "{}", ""}, {"", "''", ""}, {"", "//\n", ""},
		{"", "..", ""}, {"", ":=", ""}, {"", "<>", ""}, {"", "1.", ""}, {"", "?", ""}, {"'", "x", ""}, {"{", "x", ""}, {"(*", "x", ""}, {"//", "x", ""}, {"", "あ", ""},
	}
	var lens []int
	for n := 0; n <= c.Pick(140, 320); n++ {
		lens = append(lens, n)
	}
	for k := uint(8); k <= uint(c.Pick(12, 16)); k++ {
		lens = append(lens, 1<<k-1, 1<<k, 1<<k+1)
	}
	for _, k := range kinds {
		for _, n := range lens {
			k, n := k, n
			c.Case(func() string {
				c.Input(fmt.Sprintf("%q + %d * %q + %q + \" end;\"", k.pre, n, k.unit, k.post))
				return chk([]rune(k.pre + strings.Repeat(k.unit, n) + k.post + " end;"))
			})
		}
	}
	for _, k := range kinds {
		k := k
		c.Case(func() string {
			n := 66000
			c.Input(fmt.Sprintf("%q + %d * %q + %q + \" end;\"", k.pre, n, k.unit, k.post))
			return chk([]rune(k.pre + strings.Repeat(k.unit, n) + k.post + " end;"))
		})
	}
}

var directiveWords = strings.Fields(`absolute abstract assembler automated cdecl contains default deprecated dispid dynamic export
 external far forward implements index local message name near nodefault overload override package pascal platform private
 protected public published read readonly register reintroduce requires resident safecall stdcall stored varargs virtual write
 writeonly on at self result break exit continue`)

func lexAll(t []rune, flags token.TokeninzerFlag, limit int) ([]*token.Token, bool) {
	z := token.NewTokenizer(&t, flags)
	var out []*token.Token
	for {
		k := z.GetNext()
		if k == nil {
			return out, false
		}
		out = append(out, k)
		if k.Type == token.EOF {
			return out, true
		}
		if len(out) > limit {
			return out, false
		}
	}
}

func tokStr(k *token.Token) string {
	if k == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%s[%d,%d)", k.Type, k.Start.Index, k.End.Index)
}

func tokSame(a, b *token.Token) bool {
	return a.Type == b.Type && *a.Start == *b.Start && *a.End == *b.End
}

func checkTiling(c *Ctx, t []rune) string {
	orig := string(t)
	all, ok := lexAll(t, token.LoadSpace|token.LoadComment, len(t)+1)
	if !ok {
		return fmt.Sprintf("the token sequence has no end: %d tokens for %d characters", len(all), len(t))
	}
	pos := 0
	var sb strings.Builder
	for i, k := range all {
		if k.Start.Index != pos {
			return fmt.Sprintf("token %d %s starts at %d, but the text is covered up to %d", i, tokStr(k), k.Start.Index, pos)
		}
		if k.Type == token.EOF {
			if k.End.Index != pos || pos != len(t) {
				return fmt.Sprintf("EOF at %d of %d", pos, len(t))
			}
			break
		}
		if k.End.Index <= pos {
			return fmt.Sprintf("token %d %s is empty", i, tokStr(k))
		}
		pos = k.End.Index
		sb.WriteString(k.RawString())
	}
	if sb.String() != orig {
		return fmt.Sprintf("the texts of the tokens make %q", sb.String())
	}
	c.Trans(len(all))
	c.State(orig)
	c.Trace()
	if len(t) <= 6 || len(t)%5 == 0 {
		for _, fl := range []token.TokeninzerFlag{0, token.LoadSpace, token.LoadComment} {
			got, ok := lexAll(t, fl, len(t)+1)
			if !ok {
				return fmt.Sprintf("flags %d: the token sequence has no end", fl)
			}
			i := 0
			for _, k := range all {
				if k.Type == token.Space && fl&token.LoadSpace == 0 || k.Type == token.Comment && fl&token.LoadComment == 0 {
					continue
				}
				if i >= len(got) || !tokSame(k, got[i]) {
					return fmt.Sprintf("flags %d: token %d differs from the complete sequence: %s", fl, i, tokStr(k))
				}
				i++
			}
			if i != len(got) {
				return fmt.Sprintf("flags %d: %d tokens instead of %d", fl, len(got), i)
			}
			// a tokenizer copied at any token continues with the same tokens
			z := token.NewTokenizer(&t, fl)
			for i := 0; i < len(got) && i < 8; i++ {
				cl := z.Clone()
				cl2 := cl.Clone()
				for j := i; j < len(got) && j < 8; j++ {
					if k := cl.GetNext(); k == nil || !tokSame(k, got[j]) {
						return fmt.Sprintf("flags %d: a clone made before token %d yields %s as token %d instead of %s", fl, i, tokStr(k), j, tokStr(got[j]))
					}
				}
				if k := cl2.GetNext(); k == nil || !tokSame(k, got[i]) {
					return fmt.Sprintf("flags %d: a clone of a clone yields %s as token %d instead of %s", fl, tokStr(k), i, tokStr(got[i]))
				}
				if k := z.GetNext(); k == nil || !tokSame(k, got[i]) {
					return fmt.Sprintf("flags %d: the original yields %s as token %d after its clone advanced", fl, tokStr(k), i)
				}
			}
		}
	}
	// a clone continues exactly like the original, and EOF stays EOF
	z := token.NewTokenizer(&t, token.LoadSpace|token.LoadComment)
	maxClone := len(all)
	if maxClone > 12 {
		maxClone = 12
	}
	for i := 0; i < maxClone; i++ {
		cl := z.Clone()
		for j := i; j < maxClone; j++ {
			k := cl.GetNext()
			if k == nil || !tokSame(k, all[j]) {
				return fmt.Sprintf("a clone made before token %d yields %s as token %d instead of %s at %s", i, tokStr(k), j, tokStr(all[j]), posStr(k))
			}
		}
		k := z.GetNext()
		if k == nil || !tokSame(k, all[i]) {
			return fmt.Sprintf("the original yields %s as token %d after its clone advanced", tokStr(k), i)
		}
		kc := k.Clone()
		if !tokSame(kc, k) || kc.RawString() != k.RawString() {
			return "a cloned token differs"
		}
	}
	if maxClone == len(all) {
		for i := 0; i < 3; i++ {
			k := z.GetNext()
			if k == nil || k.Type != token.EOF || k.Start.Index != len(t) {
				return fmt.Sprintf("after the end: %s", tokStr(k))
			}
		}
	}
	if string(t) != orig {
		return "the text was modified"
	}
	return ""
}

func posStr(k *token.Token) string {
	if k == nil {
		return "?"
	}
	return fmt.Sprintf("%d:%d-%d:%d", k.Start.Line, k.Start.Col, k.End.Line, k.End.Col)
}

func checkClasses(c *Ctx, t []rune) string {
	exp := refLex(t)
	got, ok := lexAll(t, token.LoadSpace|token.LoadComment, len(t)+1)
	c.Trans(len(exp))
	c.State(string(t))
	c.Trace()
	oc := ""
	for i, e := range exp {
		if i >= len(got) {
			return fmt.Sprintf("token %d is missing (%s[%d,%d))", i, e.typ, e.start, e.end)
		}
		g := got[i]
		raw := string(t[e.start:e.end])
		trap := (e.typ == token.Identifier || e.typ == token.ReservedWord) && hasFoldTrap(raw)
		if g.Start.Index != e.start || g.End.Index != e.end || (g.Type != e.typ && !trap) {
			return fmt.Sprintf("token %d is %s, the lexical rules say %s[%d,%d)", i, tokStr(g), e.typ, e.start, e.end)
		}
		if trap {
			continue
		}
		val := raw
		if e.typ == token.ReservedWord {
			val = strings.ToUpper(raw)
		}
		if g.Value() != val || g.RawString() != raw {
			return fmt.Sprintf("token %d: value %q raw %q, expected %q %q", i, g.Value(), g.RawString(), val, raw)
		}
		if len(exp) < 8 {
			oc += g.Type.String() + ","
		}
	}
	if !ok || len(got) != len(exp) {
		return fmt.Sprintf("%d tokens instead of %d", len(got), len(exp))
	}
	c.Outcome(oc)
	return ""
}

// lineCol gives the position of every index of a text, and the one that the
// known finding about a leading line feed gives.
func lineCol(t []rune) (right, quirk [][2]int) {
	right = make([][2]int, len(t)+1)
	l, col := 1, 1
	for i := 0; i <= len(t); i++ {
		right[i] = [2]int{l, col}
		col++
		if i < len(t) && t[i] == '\n' {
			l++
			col = 1
		}
	}
	if len(t) > 0 && t[0] == '\n' {
		quirk = make([][2]int, len(t)+1)
		l, col = 1, 1
		for i := 0; i <= len(t); i++ {
			quirk[i] = [2]int{l, col}
			col++
			if i > 0 && i < len(t) && t[i] == '\n' {
				l++
				col = 1
			}
		}
	}
	return
}

const leadingLF = "a text whose first character is a line feed: the line feed is not counted, lines are one too small (runes.Cursor.Next; TestQualIdInCompoundStmt and TestVarSectionl assert it)"

func checkPositions(c *Ctx, t []rune) string {
	right, quirk := lineCol(t)
	got, ok := lexAll(t, token.LoadSpace|token.LoadComment, len(t)+1)
	if !ok {
		return "the token sequence has no end"
	}
	c.Trans(len(got))
	c.State(string(t))
	c.Trace()
	cmp := func(tab [][2]int) string {
		for i, g := range got {
			for k, p := range []*runes.Position{g.Start, g.End} {
				if p.Index < 0 || p.Index > len(t) {
					return fmt.Sprintf("token %d: index %d", i, p.Index)
				}
				w := tab[p.Index]
				if p.Line != w[0] || p.Col != w[1] {
					return fmt.Sprintf("token %d %s: %s is line %d column %d, the text says %d:%d", i, tokStr(g), [2]string{"start", "end"}[k], p.Line, p.Col, w[0], w[1])
				}
			}
		}
		return ""
	}
	m := cmp(right)
	if m != "" && quirk != nil && cmp(quirk) == "" && c.Known(leadingLF) {
		m = ""
	}
	if m != "" {
		return m
	}
	// the same positions when a clone continues from anywhere
	if len(got) <= 10 {
		z := token.NewTokenizer(&t, token.LoadSpace|token.LoadComment)
		for i := range got {
			cl := z.Clone()
			for j := i; j < len(got); j++ {
				k := cl.GetNext()
				if k == nil || *k.Start != *got[j].Start || *k.End != *got[j].End {
					return fmt.Sprintf("after a rollback to token %d, token %d is at %s instead of %s", i, j, posStr(k), posStr(got[j]))
				}
			}
			z.GetNext()
		}
	}
	return ""
}

func init() {
	asm := []string{"texts over the stated character classes and bounds; every other rune is covered singly in 13 contexts"}
	register(&Check{ID: "C01", Title: "tokens tile the text", Assumptions: asm, Run: func(c *Ctx) {
		lexSpaces(c, func(t []rune) string { return checkTiling(c, t) })
	}})
	register(&Check{ID: "C02", Title: "lexical classification", Assumptions: asm, Run: func(c *Ctx) {
		lexSpaces(c, func(t []rune) string { return checkClasses(c, t) })
	}})
}
