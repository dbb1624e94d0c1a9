package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

var looseRec, strictRec *recog

func recogs() {
	if looseRec == nil {
		looseRec = newRecog(pascal, false)
		strictRec = newRecog(pascal, true)
	}
}

var editDirectives = strings.Fields("virtual read write name index forward external stdcall absolute default platform private public message on at out implements stored override nodefault dynamic")

// editAlphabet: every reserved word, every symbol and a representative of every
// other token class.
func editAlphabet(full bool) []string {
	var a []string
	for _, w := range reservedList() {
		a = append(a, strings.ToLower(w))
	}
	a = append(a, strings.Fields("+ - * / = < > [ ] . , ( ) : ; ^ @ .. := <= >= <>")...)
	a = append(a, "7", "2.5", "'q'", "zz", "Integer")
	if full {
		a = append(a, editDirectives...)
	}
	return a
}

// An edit of a token list: tokens [at, at+del) are replaced by ins.
type edit struct {
	at, del int
	ins     []string
}

func (e edit) apply(toks []string) []string {
	out := append([]string(nil), toks[:e.at]...)
	out = append(out, e.ins...)
	return append(out, toks[e.at+e.del:]...)
}

// edits enumerates all single-token deletions, insertions and replacements.
func edits(toks []string, alpha []string, f func(e edit)) {
	n := len(toks)
	for i := 0; i <= n; i++ {
		if i < n {
			f(edit{i, 1, nil})
			for k := range alpha {
				f(edit{i, 1, alpha[k : k+1]})
			}
		}
		for k := range alpha {
			f(edit{i, 0, alpha[k : k+1]})
		}
	}
}

// blockEdits enumerates deletions of runs of tokens and exchanges of
// neighbours.
func blockEdits(toks []string, maxRun int, f func(e edit)) {
	n := len(toks)
	for i := 0; i < n; i++ {
		for d := 2; d <= maxRun && i+d <= n; d++ {
			f(edit{i, d, nil})
		}
		if i+1 < n {
			f(edit{i, 2, []string{toks[i+1], toks[i]}})
		}
		if i+2 < n {
			f(edit{i, 3, []string{toks[i+2], toks[i], toks[i+1]}})
			f(edit{i, 3, []string{toks[i+1], toks[i+2], toks[i]}})
		}
	}
}

// pairEdits enumerates pairs of edits: delete or replace one token and one of
// the following ones.
func pairEdits(toks []string, alpha []string, f func(e edit)) {
	n := len(toks)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			mid := toks[i+1 : j]
			f(edit{i, j - i + 1, mid})
			for _, a := range alpha {
				f(edit{i, j - i + 1, append([]string{a}, mid...)})
				f(edit{i, j - i + 1, append(append([]string(nil), mid...), a)})
			}
		}
	}
}

// verdict of the model on a text: must (accept), must not, or open.
type verdict int

const (
	vOpen verdict = iota
	vAccept
	vReject
)

type charts struct {
	goal          *nonterm
	toks          []string
	loose, strict [][]*eset // per prefix length; nil when the prefix is dead
}

func newCharts(it citem) *charts {
	recogs()
	c := &charts{goal: pascal.nt("Program"), toks: it.t.toks}
	if it.unit {
		c.goal = pascal.nt("Unit")
	}
	fill := func(r *recog) [][]*eset {
		out := make([][]*eset, len(c.toks)+1)
		ch := r.start(c.goal)
		out[0] = ch
		for i, t := range c.toks {
			var ok bool
			ch, ok = r.step(ch, r.terms(t), c.goal)
			if !ok {
				break
			}
			out[i+1] = ch
		}
		return out
	}
	c.loose, c.strict = fill(looseRec), fill(strictRec)
	return c
}

// judge returns the verdict and, for a rejected text, the index of the first
// token that cannot follow what precedes it (len of the text at its end) and
// whether that is beyond doubt.
func (c *charts) judge(e edit) (v verdict, at int, sure bool) {
	rest := make([]string, 0, len(c.toks)+2)
	rest = append(rest, e.ins...)
	rest = append(rest, c.toks[e.at+e.del:]...)
	if c.loose[e.at] == nil {
		panic("dead prefix")
	}
	ok, k, end := looseRec.run(c.loose[e.at], rest, c.goal)
	if !ok {
		for _, n := range typePlaces() {
			if len(end[len(end)-1].wait[int32(n.id)]) > 0 || len(end) > 1 && len(end[len(end)-2].wait[int32(n.id)]) > 0 {
				// a type of the wrong kind is reported when it is complete
				return vReject, e.at + k, false
			}
		}
		if c.strict[e.at] == nil {
			return vReject, e.at + k, false
		}
		_, k2, _ := strictRec.run(c.strict[e.at], rest, c.goal)
		return vReject, e.at + k, k == k2
	}
	if c.strict[e.at] != nil {
		if ok, _, _ := strictRec.run(c.strict[e.at], rest, c.goal); ok {
			return vAccept, 0, true
		}
	}
	return vOpen, 0, false
}

var typePlacesNT []*nonterm

func typePlaces() []*nonterm {
	if typePlacesNT == nil {
		for _, n := range []string{"Ord", "EOrd", "OrdName", "CType", "PDType"} {
			typePlacesNT = append(typePlacesNT, pascal.nt(n))
		}
	}
	return typePlacesNT
}

func editDbg(budget int, full bool, max int) {
	alpha := editAlphabet(full)
	items := corpus(budget)
	type key struct{ s string }
	count := map[string]int{}
	shown := map[string]int{}
	var nAcc, nRej, nOpen, posOK, posBad int
	for _, it := range items {
		ch := newCharts(it)
		if ch.loose[len(ch.toks)] == nil || !ch.loose[len(ch.toks)][len(ch.toks)].acc {
			fmt.Println("MODEL: loose recogniser rejects corpus text", it.t.text())
			continue
		}
		edits(it.t.toks, alpha, func(e edit) {
			v, at, sure := ch.judge(e)
			toks := e.apply(it.t.toks)
			text := strings.Join(toks, " ")
			var err error
			func() {
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Errorf("PANIC %v", r)
					}
				}()
				err = parseGoal(text, it.unit).err
			}()
			if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
				if shown["panic"] < 10 {
					shown["panic"]++
					fmt.Println(err, "\n   ", text)
				}
			}
			switch v {
			case vAccept:
				nAcc++
				if err != nil {
					k := "A " + strings.Join(e.ins, " ") + " " + ctxOf(it.t.toks, e)
					count[k]++
					if count[k] == 1 && shown["a"] < max {
						shown["a"]++
						fmt.Printf("SHOULD ACCEPT: %s\n    %v\n", text, err)
					}
				}
			case vReject:
				nRej++
				if err == nil {
					k := "R " + strings.Join(e.ins, " ") + " " + ctxOf(it.t.toks, e)
					count[k]++
					if count[k] == 1 && shown["r"] < max {
						shown["r"]++
						fmt.Printf("SHOULD REJECT at %d (%s): %s\n", at, tokAt(toks, at), text)
					}
				} else if sure {
					col := 1
					for i := 0; i < at && i < len(toks); i++ {
						col += len(toks[i]) + 1
					}
					if at >= len(toks) {
						col--
					}
					if strings.HasSuffix(err.Error(), fmt.Sprintf("1:%d", col)) {
						posOK++
					} else {
						posBad++
						kk := errShape(err.Error())
						shown[kk]++
						if shown["p"] < 4*max && shown[kk] <= 2 {
							shown["p"]++
							fmt.Printf("POS want %d (%s): %s\n    %v\n", col, tokAt(toks, at), text, err)
						}
					}
				}
			default:
				nOpen++
			}
		})
	}
	fmt.Println("texts", len(items), "accept", nAcc, "reject", nRej, "open", nOpen, "pos ok", posOK, "pos bad", posBad, "mismatch kinds", len(count))
}

func tokAt(t []string, i int) string {
	if i < len(t) {
		return t[i]
	}
	return "<end>"
}

func ctxOf(t []string, e edit) string {
	at := e.at
	prev, next := "", ""
	if at > 0 {
		prev = t[at-1]
	}
	if at+e.del < len(t) {
		next = t[at+e.del]
	}
	return prev + "~" + next
}

func errShape(s string) string {
	f := strings.Fields(s)
	if len(f) > 4 {
		f = f[:4]
	}
	return strings.Join(f, " ")
}

// editCase parses one edited text and compares it with the verdict.
func editCase(c *Ctx, it citem, ch *charts, e edit) string {
	v, at, sure := ch.judge(e)
	toks := e.apply(it.t.toks)
	text := strings.Join(toks, " ")
	c.Input(text)
	c.Trans(1)
	r := parseGoal(text, it.unit)
	if m := r.either(); m != "" {
		return m
	}
	switch v {
	case vAccept:
		c.Trace()
		if r.err != nil {
			return fmt.Sprintf("a text of the language is rejected: %v", r.err)
		}
	case vReject:
		c.Trace()
		if r.err == nil {
			return fmt.Sprintf("a text that is not of the language is accepted: token %d (%s) cannot follow", at+1, tokAt(toks, at))
		}
		if sure {
			line, col, ok := errPos(r.err)
			if !ok {
				return fmt.Sprintf("the error has no position: %v", r.err)
			}
			want := 1
			for i := 0; i < at && i < len(toks); i++ {
				want += len(toks[i]) + 1
			}
			if at >= len(toks) && at > 0 {
				want--
			}
			if line != 1 || col != want {
				return fmt.Sprintf("the error is not reported at token %d (%s) in column %d: %v", at+1, tokAt(toks, at), want, r.err)
			}
		}
	}
	return ""
}

var errPosRE = regexp.MustCompile(`(\d+):(\d+)$`)

func errPos(err error) (line, col int, ok bool) {
	m := errPosRE.FindStringSubmatch(err.Error())
	if m == nil {
		return 0, 0, false
	}
	line, _ = strconv.Atoi(m[1])
	col, _ = strconv.Atoi(m[2])
	return line, col, true
}

var smallAlphabet = strings.Fields("; , : . ( ) [ = .. := end begin zz 7 'q' Integer of do else class procedure -")

func runEdits(c *Ctx) {
	type sp struct {
		name   string
		budget int
		each   func(it citem, f func(e edit))
	}
	full := editAlphabet(true)
	sps := []sp{
		{"every production, all single-token edits", 0, func(it citem, f func(e edit)) { edits(it.t.toks, full, f) }},
		{"every production, run deletions and exchanges", 0, func(it citem, f func(e edit)) { blockEdits(it.t.toks, 12, f) }},
		{"every pair of productions, run deletions and exchanges", 1, func(it citem, f func(e edit)) { blockEdits(it.t.toks, c.Pick(4, 10), f) }},
	}
	if c.Quick() {
		sps = append(sps, sp{"every pair of productions, single-token edits with the short alphabet", 1, func(it citem, f func(e edit)) { edits(it.t.toks, smallAlphabet, f) }})
	} else {
		sps = append(sps, sp{"every pair of productions, all single-token edits", 1, func(it citem, f func(e edit)) { edits(it.t.toks, full, f) }},
			sp{"every production, pairs of edits with the short alphabet", 0, func(it citem, f func(e edit)) { pairEdits(it.t.toks, smallAlphabet, f) }})
	}
	for _, s := range sps {
		c.Space(s.name)
		for _, it := range corpus(s.budget) {
			it := it
			if !c.Mine() {
				c.Case(nil)
				continue
			}
			c.Case(func() string {
				ch := newCharts(it)
				n := len(ch.toks)
				if ch.loose[n] == nil || !ch.loose[n][n].acc {
					return "MODEL: the recogniser does not know this text: " + it.t.text()
				}
				c.State(it.t.text())
				msg := ""
				k := 0
				s.each(it, func(e edit) {
					if msg == "" {
						if k&255 == 0 {
							c.Alive()
						}
						k++
						msg = editCase(c, it, ch, e)
					}
				})
				return msg
			})
		}
	}
	runLoadedEdits(c)
}

func init() {
	register(&Check{ID: "C19", Title: "texts outside the language are rejected", Run: runEdits, Assumptions: []string{
		"the recogniser's grammar in mc/pascal.go marks the laxities of the parser as open (neither required nor forbidden); they are listed in DESIGN.md",
		"beyond the enumerated texts and edits the result is extrapolated",
	}})
}
