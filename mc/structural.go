package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/akm/tparser/ast"
)

// ---- structural checks C07 to C12 ----

type goalResult struct {
	prog *ast.Program
	unit *ast.Unit
	err  error
}

func (g *goalResult) node() interface{} {
	if g.unit != nil {
		return g.unit
	}
	if g.prog != nil {
		return g.prog
	}
	return nil
}

func parseGoal(text string, unit bool) *goalResult {
	r := &goalResult{}
	if unit {
		r.unit, r.err = parseUnitText(text)
	} else {
		r.prog, r.err = parseProgramText(text)
	}
	return r
}

func (r *goalResult) either() string {
	n := r.node()
	if r.err == nil && n == nil {
		return "neither an AST nor an error"
	}
	if r.err != nil && n != nil {
		return fmt.Sprintf("both an AST and an error: %v", r.err)
	}
	return ""
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		if lo >= len(s) {
			return ""
		}
		return trunc(s[lo:], 260)
	}
	return fmt.Sprintf("first difference at %d:\n  want ...%s\n  got  ...%s", i, cut(a), cut(b))
}

// structCase compares the AST of one generated text with the model.
func structCase(c *Ctx, ev func() *gtext, unit bool) {
	if !c.Mine() {
		c.Case(nil)
		return
	}
	c.Case(func() string {
		t := ev()
		if t.bad {
			return ""
		}
		text := t.text()
		c.Input(text)
		c.Trans(len(t.toks))
		r := parseGoal(text, unit)
		if r.err != nil {
			return "rejected: " + r.err.Error()
		}
		if m := r.either(); m != "" {
			return m
		}
		got := Dump(r.node())
		c.State(got)
		c.Trace()
		if got != t.dump {
			return "wrong AST, " + diffAt(t.dump, got)
		}
		return ""
	})
}

// A structSpace is the set of derivations of a target within a budget of
// deviations from the defaults, in every place of the grammar where the target
// occurs (or in the first one of programs and of units).
type structSpace struct {
	target string
	quick  int // -1: thorough tier only
	deep   int
	one    bool     // first context of each goal only
	free   []string // nonterminals all of whose alternatives cost nothing
	frozen []string // nonterminals that keep their default
	tag    string
	goal   string // restrict to one goal
}

func starts() []struct {
	nt   *nonterm
	unit bool
} {
	return []struct {
		nt   *nonterm
		unit bool
	}{{pascal.nt("Program"), false}, {pascal.nt("Unit"), true}}
}

func ntSet(names []string) map[*nonterm]bool {
	m := map[*nonterm]bool{}
	for _, n := range names {
		if pascal.nts[n] == nil {
			panic("no nonterminal " + n)
		}
		m[pascal.nt(n)] = true
	}
	return m
}

func runStruct(c *Ctx, spaces ...structSpace) {
	for _, sp := range spaces {
		b := c.Pick(sp.quick, sp.deep)
		if b < 0 {
			continue
		}
		fr := ntSet(sp.frozen)
		var costs map[*prod]int
		if len(sp.free) > 0 {
			costs = map[*prod]int{}
			for n := range ntSet(sp.free) {
				for _, p := range n.prods {
					costs[p] = 0
				}
			}
		}
		target := pascal.nt(sp.target)
		for _, st := range starts() {
			if sp.goal != "" && sp.goal != st.nt.name {
				continue
			}
			ctxs := pascal.contexts(st.nt, target)
			where := "every"
			if st.nt == target {
				ctxs = [][]step{nil}
				where = "the"
			}
			if len(ctxs) == 0 {
				continue
			}
			if sp.one && len(ctxs) > 1 {
				ctxs = ctxs[:1]
				where = "one"
			}
			name := fmt.Sprintf("%s in %s %s context, budget %d", sp.target, where, strings.ToLower(st.nt.name), b)
			if sp.tag != "" {
				name += ", " + sp.tag
			}
			c.Space(name)
			for _, path := range ctxs {
				cfg := &genCfg{g: pascal, start: st.nt, path: path, target: target, budget: b, frozen: fr, costs: costs}
				cfg.each(c.Stopped, func(ev func() *gtext) { structCase(c, ev, st.unit) })
			}
		}
	}
}

// runPumps repeats every recursive production of the given nonterminals.
func runPumps(c *Ctx, owners []string, maxM int) {
	extra := []int{32, 33, 48, 64, 65, 100, 128, 129, 150, 200, 255, 256, 257, 400, 1025}[:c.Pick(13, 15)]
	var ms []int
	for m := 1; m <= maxM; m++ {
		ms = append(ms, m)
	}
	two := 4 // lengths with two deviations
	switch c.ck.ID {
	case "C08", "C09":
		two = 2
	}
	runPump(c, "repetition", owners, append(ms, extra...), 0)
	runListPumps(c, owners)
	runPump(c, "repetition and one deviation", owners, []int{2, 3, 4, 5, 6, 8, 9, 16, 17, 33, 7, 10, 24, 65}[:c.Pick(10, 14)], 1)
	runPump(c, "repetition and two deviations", owners, []int{2, 3, 4, 5, 6, 7, 8}[:c.Pick(two, 7)], 2)
	if !c.Quick() {
		runPump(c, "repetition and three deviations", owners, []int{2, 3, 4}, 3)
	}
}

// runListPumps repeats every list in every place where it may stand.
func runListPumps(c *Ctx, owners []string) {
	own := ntSet(owners)
	for _, st := range starts() {
		c.Space("lists in every context of " + strings.ToLower(st.nt.name) + "s")
		for _, pu := range pascal.listPumps(st.nt) {
			if !own[pu.loop[0].p.lhs] && !own[pu.pre[len(pu.pre)-1].p.lhs] {
				continue
			}
			for _, m := range []int{2, 3, 5, 9, 17, 33, 65, 130, 260, 520}[:c.Pick(9, 10)] {
				if !c.Mine() {
					c.Case(nil)
					continue
				}
				cfg := &genCfg{g: pascal, start: st.nt, path: pu.path(m)}
				cfg.each(nil, func(ev func() *gtext) { structCase(c, ev, st.unit) })
			}
		}
	}
}

// runPump repeats every recursive production of the owners, with up to budget deviations.
func runPump(c *Ctx, what string, owners []string, ms []int, budget int) {
	own := ntSet(owners)
	for _, st := range starts() {
		if c.Quick() && budget == 2 && c.ck.ID == "C08" && st.unit {
			continue // the statements of a unit are the ones of a program
		}
		c.Space(what + " in " + strings.ToLower(st.nt.name) + "s")
		for _, pu := range pascal.pumps(st.nt) {
			if !own[pu.loop[0].p.lhs] {
				continue
			}
			for _, m := range ms {
				if c.Stopped() {
					return
				}
				if budget == 0 && !c.Mine() {
					c.Case(nil)
					continue
				}
				cfg := &genCfg{g: pascal, start: st.nt, path: pu.path(m), budget: budget}
				if budget > 0 {
					cfg.open = len(pu.pre)
				}
				cfg.each(nil, func(ev func() *gtext) { structCase(c, ev, st.unit) })
			}
		}
	}
}

// runExternalIndexes: the number of EXTERNAL ... INDEX is the decimal value of its numeral.
func runExternalIndexes(c *Ctx) {
	check := func(digits string, want int) {
		for _, unit := range []bool{false, true} {
			unit := unit
			c.Case(func() string {
				text := "program p ; procedure q ; external 'l' index " + digits + " ; begin end ."
				if unit {
					text = "unit u ; interface procedure q ; external 'l' index " + digits + " ; implementation end ."
				}
				c.Input(text)
				c.State(text)
				c.Trace()
				c.Trans(1)
				r := parseGoal(text, unit)
				if r.err != nil {
					return "rejected: " + r.err.Error()
				}
				var got *ast.ExternalOptions
				if unit {
					got = r.unit.InterfaceSection.InterfaceDecls[0].(*ast.ExportedHeading).ExternalOptions
				} else {
					got = r.prog.ProgramBlock.Block.DeclSections[0].(*ast.FunctionDecl).ExternalOptions
				}
				if got == nil || got.Index == nil || *got.Index != want {
					return "the index is not " + strconv.Itoa(want)
				}
				return ""
			})
		}
	}
	c.Space("every external index")
	for i := 0; i <= c.Pick(1<<16+2, 1<<20); i++ {
		check(strconv.Itoa(i), i)
	}
	for i := 0; i <= 1200; i++ {
		for z := 1; z <= 4; z++ {
			check(strings.Repeat("0", z)+strconv.Itoa(i), i)
		}
	}
	for b := 16; b < 63; b++ {
		for d := -1; d <= 1; d++ {
			check(strconv.Itoa(1<<b+d), 1<<b+d)
		}
	}
	check("9223372036854775807", 1<<63-1)
	for v := 1; v < 1e18; v *= 10 {
		check(strconv.Itoa(v), v)
		check(strconv.Itoa(v*9), v*9)
	}
}

var structAssumptions = []string{
	"the reference grammar in mc/pascal.go with its AST actions is the specification; it was written from Grammer.md, the grammar comments in ast/ and the language definition",
	"tokens are separated by single spaces (layout is C04's subject); names are fresh per occurrence (resolution is C13's)",
	"beyond the budget of deviations and the pumped lengths the result is extrapolated",
}

func init() {
	register(&Check{ID: "C07", Title: "expression structure", Assumptions: structAssumptions, Run: func(c *Ctx) {
		runStruct(c,
			structSpace{target: "Expr", quick: 3, deep: 4},
			structSpace{target: "Expr", quick: 4, deep: 5, one: true, goal: "Program"},
			structSpace{target: "Expr", quick: 4, deep: 5, one: true, goal: "Program", free: []string{"RelOp", "AddOp", "MulOp"}, frozen: []string{"Factor"}, tag: "every operator"},
			structSpace{target: "Factor", quick: 4, deep: 6, one: true, goal: "Program", frozen: []string{"MulRest", "AddRest", "RelRest"}, tag: "operands only"},
			structSpace{target: "Desig", quick: 3, deep: 4},
			structSpace{target: "DItems", quick: 6, deep: 9, one: true, goal: "Program", frozen: []string{"Factor", "MulRest", "AddRest", "RelRest"}, tag: "designator items"},
			structSpace{target: "SetElems", quick: 5, deep: 6, one: true, goal: "Program", frozen: []string{"MulRest", "AddRest", "RelRest"}, tag: "set elements"},
		)
		runSpellings(c, 2, 3, "Expr")
		runSpellings(c, 4, 5, "Desig")
		runPumps(c, []string{"Expr", "RelRest", "SExpr", "AddRest", "Term", "MulRest", "Factor", "SetElems", "SetElemList", "SetElem", "ExprList", "Desig", "DItems", "DItem", "LitExpr"}, c.Pick(24, 120))
	}})
	register(&Check{ID: "C08", Title: "statement structure", Assumptions: structAssumptions, Run: func(c *Ctx) {
		fr := []string{"Expr", "QualId", "Type", "Desig", "CaseLabels", "AsmToks"}
		runStruct(c,
			structSpace{target: "StmtList", quick: 2, deep: 3},
			structSpace{target: "Stmt", quick: 2, deep: 3},
			structSpace{target: "StmtList", quick: 4, deep: 5, one: true, frozen: fr, tag: "statements only"},
			structSpace{target: "CaseSels", quick: 3, deep: 4, one: true, tag: "case selectors"},
			structSpace{target: "CaseSelsM", quick: 3, deep: 4, one: true, tag: "case selectors before else"},
			structSpace{target: "Handlers", quick: 3, deep: 4, one: true, tag: "exception handlers"},
			structSpace{target: "HandlersM", quick: 3, deep: 4, one: true, tag: "exception handlers before else"},
			structSpace{target: "AsmToks", quick: 3, deep: 5, tag: "assembler tokens"},
			structSpace{target: "Closed", quick: 2, deep: 3},
			structSpace{target: "StmtList", quick: -1, deep: 6, one: true, goal: "Program", frozen: fr, tag: "statements only"},
		)
		runSpellings(c, 1, 2, "CaseSels", "Handlers")
		runSpellings(c, 2, 3, "Stmt")
		runPumps(c, []string{"StmtList", "NEStmt", "Stmt", "MStmt", "SBody", "MSBody", "Closed", "CaseSels", "CaseSelsM", "CaseSel", "MCaseSel", "CaseLabels", "CaseLabel", "Handlers", "HandlersM", "Handler", "MHandler", "Compound", "AsmToks", "QualIds"}, c.Pick(24, 120))
	}})
	register(&Check{ID: "C09", Title: "type structure", Assumptions: structAssumptions, Run: func(c *Ctx) {
		runStruct(c,
			structSpace{target: "Type", quick: 4, deep: 5},
			structSpace{target: "CType", quick: 4, deep: 5},
			structSpace{target: "TypeId", quick: 1, deep: 1},
			structSpace{target: "Ord", quick: 4, deep: 5},
			structSpace{target: "FieldList", quick: 4, deep: 5, frozen: []string{"Expr"}},
			structSpace{target: "Type", quick: 5, deep: 6, one: true, frozen: []string{"Expr"}, tag: "types only"},
			structSpace{target: "FieldList", quick: -1, deep: 5, one: true, frozen: []string{"Expr", "TypeName", "OrdName"}, tag: "record structure only"},
		)
		runSpellings(c, 1, 3, "VariantPart", "RecVariants")
		runSpellings(c, 2, 4, "Type", "CType", "FieldList", "Ord", "TypeDecls")
		runPumps(c, []string{"Type", "CType", "Struc", "Enum", "EnumElems", "Subrange", "Ord", "OrdList", "FieldList", "Fields", "Field", "Names", "VariantPart", "RecVariants", "RecVariant", "ProcType", "TypeDecls", "TypeDecl"}, c.Pick(24, 120))
	}})
	register(&Check{ID: "C10", Title: "class structure", Assumptions: structAssumptions, Run: func(c *Ctx) {
		fr := []string{"Expr", "Type", "TypeId", "ClassName"}
		runStruct(c,
			structSpace{target: "ClassBody", quick: 5, deep: 6},
			structSpace{target: "ClassBody", quick: 6, deep: 7, one: true, goal: "Program", frozen: append([]string{"Params", "MDir"}, fr...), tag: "sections and members only"},
			structSpace{target: "Prop", quick: 3, deep: 4},
			structSpace{target: "Prop", quick: 5, deep: 6, one: true, frozen: append([]string{"Params"}, fr...), tag: "property specifiers"},
			structSpace{target: "Method", quick: 3, deep: 4},
			structSpace{target: "MDirs", quick: 4, deep: 7, tag: "method directives"},
			structSpace{target: "CFields", quick: 3, deep: 4},
		)
		runSpellings(c, 3, 5, "ClassBody", "Prop", "Method")
		runPumps(c, []string{"ClassBody", "Heritage", "HeritageList", "Members", "Sections", "Section", "FirstSection", "CFields", "CField", "MNames", "Methods", "Method", "MDirs", "Props", "Prop"}, c.Pick(24, 120))
	}})
	register(&Check{ID: "C11", Title: "declarations and routines", Assumptions: structAssumptions, Run: func(c *Ctx) {
		fr := []string{"Expr", "Type", "CType", "ClassBody", "StmtList", "AsmToks"}
		runStruct(c,
			structSpace{target: "Decls", quick: 4, deep: 6},
			structSpace{target: "Decls", quick: 6, deep: 7, one: true, goal: "Program", frozen: append([]string{"TypeId", "Dir", "Port", "TypeDecl"}, fr...), tag: "sections only"},
			structSpace{target: "IDecls", quick: 5, deep: 6, frozen: fr},
			structSpace{target: "Routine", quick: 4, deep: 5},
			structSpace{target: "Params", quick: 3, deep: 4},
			structSpace{target: "Params", quick: 5, deep: 6, one: true, frozen: append([]string{"TypeId"}, fr...), tag: "parameters only"},
			structSpace{target: "Dirs", quick: 4, deep: 6, tag: "routine directives"},
			structSpace{target: "NoBlockDirs", quick: 5, deep: 6},
			structSpace{target: "Exports", quick: 4, deep: 5},
			structSpace{target: "Block", quick: 5, deep: 6, one: true, frozen: fr, tag: "block structure"},
		)
		runSpellings(c, 2, 3, "Routine")
		runSpellings(c, 3, 4, "Decls", "Params", "Exports", "IDecls")
		runPumps(c, []string{"Decls", "Decl", "Routine", "Dirs", "NoBlockDirs", "Params", "Param", "Names", "ConstDecls", "ConstDecl", "VarDecls", "VarDecl", "ThreadVarDecls", "Exports", "ExportsStmt", "ExportsItems", "Block", "IDecls", "IDecl"}, c.Pick(24, 120))
		runExternalIndexes(c)
	}})
	register(&Check{ID: "C12", Title: "program and unit structure", Assumptions: structAssumptions, Run: func(c *Ctx) {
		runStruct(c,
			structSpace{target: "Program", quick: 4, deep: 5},
			structSpace{target: "Unit", quick: 4, deep: 5},
			structSpace{target: "Unit", quick: 5, deep: 6, frozen: []string{"Decl", "IDecl", "ExportsItems", "Stmt", "NEStmt", "TypeName"}, tag: "unit sections only"},
			structSpace{target: "UsesOpt", quick: 6, deep: 12},
			structSpace{target: "UnitUses", quick: 6, deep: 12},
			structSpace{target: "ImplUses", quick: 6, deep: 12},
		)
		runPumps(c, []string{"UsesItems", "UUItems", "IDecls", "Decls", "Exports", "StmtList"}, c.Pick(24, 120))
		runLoaded(c)
	}})
}
