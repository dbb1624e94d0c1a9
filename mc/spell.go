package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// The value of a name or literal never changes the structure: every leaf of
// every derivation within the budget is spelled in every one of these ways.
var leafSpellings = map[byte][]string{
	'n': {"0", "1", "00", "007", "2", "9", "10", "16", "32", "64", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775808", strings.Repeat("9", 60)},
	'g': {"-0", "-1", "-00", "-128", "-32769", "-2147483649", "-" + strings.Repeat("9", 60)},
	'r': {"0.0", "0.", "1.", "1.0", "00.10", "0.000000001", "3.14", "99999999999999999999.5"},
	's': {"''", "' '", "'a'", "'A'", "'1'", "'a b'", "'{'", "'}'", "'(*'", "'*)'", "'//'", "';'", "','", "'.'", "'end'", "'begin'", "'nil'", "'#'", "'$'", "'\"'", "'é'", "'あ'", "'表'", "'\\''", "'" + strings.Repeat("x", 300) + "'"},
	'i': {"x", "_", "_1", "X9", "é", "あ", "endx", "begin1", "nil_", "in0", "dox", "result", "self", "exit", "Sender", "Length", "System_", strings.Repeat("n", 130)},
	'd': {"x", "_", "_1", "X9", "é", "あ", "endx", "begin1", "nil_", "in0", "dox", "result", "self", "exit", "Sender", "Length", "System_", strings.Repeat("n", 130)},
}

// directives are not reserved: they are names wherever a name is expected
var directiveSpellings = map[byte][]string{'i': directiveWords, 'd': directiveWords}

func runSpellings(c *Ctx, quick, deep int, targets ...string) {
	leafSpaces(c, "spellings of the leaves", leafSpellings, quick, deep, targets)
	leafSpaces(c, "directives as the names", directiveSpellings, max(quick-1, 1), deep-1, targets)
	leafSpaces(c, "declared names as the leaves", nil, quick, deep, targets)
	leafSpaces(c, "leaves spelled alike", map[byte][]string{}, quick, deep, targets)
}

// knownNames are declared outside the text; whether a name is declared, and as
// what, does not change the structure of the text that mentions it.
const knownText = `program known; const KConst = 1; type KEnum = (KElem, KElem2); KAlias = Byte; KClass = class FK : Byte; end; KFwd = class;
 KRec = record F : Byte; end; KPtr = ^KRec; KProc = procedure(A : Byte); KStr = string; KReal = Double; KSet = set of KEnum; KRef = class of KClass;
 KUnres = TNowhere; KSub = 1..2; KArr = array of KRec; Single = KRec; Word = (KElem3); Text = class end; var Int64, KVar : KRec; KVar2 : KAlias; threadvar KThread : Byte; begin end.`

var (
	knownMap    astcore.DeclMap
	knownValues = strings.Fields("KConst KElem KVar kvar2 KThread Int64")
	knownTypes  = strings.Fields("KEnum KAlias KClass kfwd KRec KPtr KProc KStr KReal KSet KRef KUnres KSub KArr Single word Text")
)

func known() astcore.DeclMap {
	if knownMap == nil {
		ctx := parser.NewProgramContext("known.dpr")
		r := []rune(knownText)
		p := parser.NewProgramParser(ctx)
		p.SetText(&r)
		p.NextToken()
		if _, err := p.ParseProgram(); err != nil {
			panic(err)
		}
		knownMap = ctx.DeclMap
	}
	return knownMap
}

func parseKnown(text string, unit bool) *goalResult {
	r := []rune(text)
	res := &goalResult{}
	m := astcore.NewChainedDeclMap(known())
	if unit {
		p := parser.NewUnitParser(parser.NewUnitContext(parser.NewProgramContext("prog.dpr"), "unit.pas", m))
		p.SetText(&r)
		p.NextToken()
		res.unit, res.err = p.ParseUnit()
	} else {
		p := parser.NewProgramParser(parser.NewProgramContext("prog.dpr", m))
		p.SetText(&r)
		p.NextToken()
		res.prog, res.err = p.ParseProgram()
	}
	return res
}

// alikeLeaves spells, for every pair of references, the second one like the first.
func alikeLeaves(c *Ctx, t *gtext, unit bool) string {
	ref := func(i int) bool {
		switch t.cls[i] {
		case 'i', 'a', 't', 'n', 'g', 'r', 's':
			return i > 1
		}
		return false
	}
	for p := range t.cls {
		if !ref(p) {
			continue
		}
		for q := p + 1; q < len(t.cls); q++ {
			lit := strings.IndexByte("ngrs", t.cls[q]) >= 0
			if !ref(q) || lit && t.cls[p] != t.cls[q] || !lit && strings.IndexByte("ngrs", t.cls[p]) >= 0 || t.toks[q-1] == "index" || t.toks[q-1] == "in" {
				continue
			}
			if m := spellOne(c, t, unit, q, t.toks[p]); m != "" {
				return m
			}
			if !lit {
				if m := spellOne(c, t, unit, q, strings.ToUpper(t.toks[p])); m != "" {
					return m
				}
			}
		}
	}
	return ""
}

// knownLeaves spells every reference, and every pair of type names, with declared names.
func knownLeaves(c *Ctx, t *gtext, unit bool) string {
	for i, cl := range t.cls {
		words := knownTypes
		switch cl {
		case 'i':
			words = knownValues
		case 'a':
			if i < 2 {
				continue
			}
			words = append(append([]string(nil), knownTypes...), knownValues...)
		case 'd':
			if i < 2 {
				continue
			}
			// a scope may declare again what is declared outside; a forward declaration is completed instead
			words = append(strings.Fields("KEnum KAlias KClass KRec KPtr KProc KReal KUnres Single Word Text"), knownValues...)
		case 't':
			if t.toks[i-1] == "." {
				continue
			}
		default:
			continue
		}
		for _, w := range words {
			if m := spellKnown(c, t, unit, map[int]string{i: w}); m != "" {
				return m
			}
			if cl != 't' {
				continue
			}
			for j := i + 1; j < len(t.cls); j++ {
				if t.cls[j] == 't' && t.toks[j-1] != "." {
					if m := spellKnown(c, t, unit, map[int]string{i: w, j: "KClass"}); m != "" {
						return m
					}
				}
			}
		}
	}
	return ""
}

func spellKnown(c *Ctx, base *gtext, unit bool, at map[int]string) string {
	t := evalSpelled(base.ch, func(i int, old string) string {
		if s := at[i]; s != "" {
			return s
		}
		return old
	})
	text := t.text()
	c.Input(text + "   (with the declarations of: " + knownText + ")")
	c.Trans(len(t.toks))
	r := parseKnown(text, unit)
	if r.err != nil {
		return "rejected: " + r.err.Error()
	}
	got := Dump(r.node())
	c.State(got)
	c.Trace()
	if got != t.dump {
		return "wrong AST, " + diffAt(t.dump, got)
	}
	return ""
}

func leafSpaces(c *Ctx, what string, words map[byte][]string, quick, deep int, targets []string) {
	costs := map[*prod]int{}
	for _, p := range pascal.nt("Factor").prods {
		if len(p.rhs) == 1 && p.rhs[0].s == "Literal" {
			costs[p] = 0
		}
	}
	for _, p := range pascal.nt("Literal").prods {
		costs[p] = 0
	}
	frozen := ntSet([]string{"MulRest", "AddRest", "RelRest"})
	if c.ck.ID == "C07" {
		frozen = nil
	}
	for _, tn := range targets {
		target := pascal.nt(tn)
		for _, st := range starts() {
			ctxs := pascal.contexts(st.nt, target)
			if len(ctxs) == 0 {
				continue
			}
			b := c.Pick(quick, deep)
			if c.Quick() && st.unit && tn == "Stmt" && b > 1 {
				b-- // the statements of a unit are the ones of a program
			}
			c.Space(fmt.Sprintf("%s of a %s in one %s context, budget %d", what, tn, strings.ToLower(st.nt.name), b))
			cfg := &genCfg{g: pascal, start: st.nt, path: ctxs[0], target: target, budget: b, costs: costs, frozen: frozen}
			cfg.each(c.Stopped, func(ev func() *gtext) {
				if !c.Mine() {
					c.Case(nil)
					return
				}
				c.Case(func() string {
					t := ev()
					if t.bad {
						return ""
					}
					if m := spellOne(c, t, st.unit, -1, ""); m != "" {
						return m
					}
					if words == nil {
						return knownLeaves(c, t, st.unit)
					}
					if len(words) == 0 {
						return alikeLeaves(c, t, st.unit)
					}
					for i, cl := range t.cls {
						if i > 0 && (t.toks[i-1] == "index" || t.toks[i-1] == "in") {
							continue
						}
						for _, s := range words[cl] {
							if s == "at" && i > 0 && t.toks[i-1] == "raise" {
								continue // ambiguous
							}
							if m := spellOne(c, t, st.unit, i, s); m != "" {
								return m
							}
						}
					}
					return ""
				})
			})
		}
	}
}

func spellOne(c *Ctx, base *gtext, unit bool, at int, s string) string {
	t := base
	if at >= 0 {
		t = evalSpelled(base.ch, func(i int, old string) string {
			if i == at {
				return s
			}
			return old
		})
	}
	text := t.text()
	c.Input(text)
	c.Trans(len(t.toks))
	r := parseGoal(text, unit)
	if r.err != nil {
		return "rejected: " + r.err.Error()
	}
	got := Dump(r.node())
	c.State(got)
	c.Trace()
	if got != t.dump {
		return "wrong AST, " + diffAt(t.dump, got)
	}
	return ""
}
