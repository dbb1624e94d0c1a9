# Planted bugs: each is written from a property's text and the code; mkseed.py confirms it and writes /verif/seeded/<id>.
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, imports=()):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, imports=list(imports)))

S("comment-stars", "C02", "a (* *) comment that ends in two stars: (* text **)",
  "the second star is skipped together with the first, so the comment swallows the rest of the text",
  [("token/comment.go", """				if r == '*' && c.Seek(1) == ')' {
					c.Next()
					break
				}
				if r == runes.CursorEOF {
					break
				}""", """				if r == '*' {
					r = c.Next()
					if r == ')' {
						break
					}
				}
				if r == runes.CursorEOF {
					break
				}""")],
  """func main() {
	for _, s := range []string{"program p; (* a *) begin end.", "program p; (* a **) begin end.", "program p; (****) begin end."} {
		mustProgram(s)
	}
}""")

S("dollar-comment", "C04", "a brace comment that starts with a dollar sign, a compiler directive such as {$R *.dfm}",
  "directive comments are no longer comments, so a text that contains one is rejected",
  [("token/comment.go", """	case '{':
		start""", """	case '{':
		if c.Seek(1) == '$' {
			return processDirectiveComment(c)
		}
		start"""),
   ("token/comment.go", "func ProcessComment(c", """func processDirectiveComment(c *runes.Cursor) *Token {
	start := c.Position.Clone()
	for r := c.Next(); r != '}' && r != runes.CursorEOF; r = c.Next() {
		if r == '*' { // {$R *.dfm}
			return NewToken(Comment, c.Text, start, c.Position.Clone())
		}
	}
	c.Next()
	return NewToken(Comment, c.Text, start, c.Position.Clone())
}

func ProcessComment(c""")],
  """func main() {
	mustProgram("program p; {$R+} begin end.")
	mustProgram("program p; {$R *.dfm} begin end.")
}""")

S("case-else-stolen", "C08", "a case statement whose last selector is an if without else followed by a semicolon, then the else of the case",
  "the if takes the else of the case",
  [("parser/statement_conditional.go", """	var elseStmt *ast.Statement
	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("ELSE")) {""", """	var elseStmt *ast.Statement
	if p.CurrentToken().Is(token.Symbol(';')) {
		// Tolerate a semicolon before ELSE
		rollback := p.RollbackPoint()
		if !p.NextToken().Is(token.ReservedWord.HasKeyword("ELSE")) {
			rollback()
		}
	}
	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("ELSE")) {""")],
  """func main() {
	p := mustProgram("program p; begin case x of 1: if a then b; else c end end.")
	c := p.ProgramBlock.Block.Body.(*ast.CompoundStmt).StmtList[0].Body.(*ast.CaseStmt)
	if len(c.Else) != 1 {
		fail("the else of the case is lost: %v", c.Else)
	}
}""")

S("index-merge", "C07", "a designator with two index parts in a row, a[i][j]",
  "the second index list is merged into the first, so the parts of the designator are not the ones of the source",
  [("parser/expression.go", """			item = ast.DesignatorItemExprList(exprList)
""", """			if n := len(res.Items); n > 0 {
				// a[i][j] is equivalent to a[i, j]
				if last, ok := res.Items[n-1].(ast.DesignatorItemExprList); ok {
					res.Items = res.Items[:n-1]
					exprList = append(ast.ExprList(last), exprList...)
				}
			}
			item = ast.DesignatorItemExprList(exprList)
""")],
  """func main() {
	p := mustProgram("program p; begin a[1][2] := 3 end.")
	d := p.ProgramBlock.Block.Body.(*ast.CompoundStmt).StmtList[0].Body.(*ast.AssignStatement).Designator
	if len(d.Items) != 2 {
		fail("%d designator items", len(d.Items))
	}
}""")

S("stored-spelling", "C05", "STORED with a method name that has upper-case letters",
  "the identifier of a STORED specifier loses its spelling",
  [("parser/type_class.go", "res.Stored = &ast.PropertyStoredSpecifier{IdentRef: ast.NewIdentRef(ast.NewIdent(t), decl)}", """id := ast.NewIdent(t)
			id.Name = tVal
			res.Stored = &ast.PropertyStoredSpecifier{IdentRef: ast.NewIdentRef(id, decl)}""")],
  """func main() {
	p := mustProgram("program p; type T = class f: Integer; function IsIt: Boolean; property q: Integer read f stored IsIt; end; begin end.")
	c := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[0].Type.(*ast.CustomClassType)
	if n := c.Members[0].ClassPropertyList[0].Stored.IdentRef.Ident.Name; n != "IsIt" {
		fail("spelled %s", n)
	}
}""")

S("impl-uses-order", "C14", "two units used by an implementation section that export the same name",
  "the first unit of the implementation uses clause wins instead of the last",
  [("parser/unit_parser.go", "maps = append(maps, unitsUsedByImpl.DeclMaps().Reverse()...)", "maps = append(maps, unitsUsedByImpl.DeclMaps()...)")],
  """func main() {
	write("a.pas", "unit A; interface var x: Integer; implementation end.")
	write("b.pas", "unit B; interface var x: Integer; implementation end.")
	write("c.pas", "unit C; interface implementation uses A, B; procedure q; begin x := 1 end; end.")
	write("p.dpr", "program P; uses A in 'a.pas', B in 'b.pas', C in 'c.pas'; begin end.")
	p, err := parser.ParseProgram("p.dpr")
	if err != nil {
		fail("%v", err)
	}
	f := p.Units.ByName("C").ImplementationSection.DeclSections[0].(*ast.FunctionDecl)
	ref := f.Block.Body.(*ast.CompoundStmt).StmtList[0].Body.(*ast.AssignStatement).Designator.QualId.Ident.Ref
	want := p.Units.ByName("B").DeclMap.Get("x")
	if ref == nil || ref.Node != want.Node {
		fail("x does not refer to B.x")
	}
}""")

S("self-cycle", "C15", "a unit whose interface uses the unit itself",
  "a cycle of length one is no longer found",
  [("parser/unit_parsers.go", """			graph.AddEdge(strings.ToLower(unitRef.Name), strings.ToLower(loader.Unit.Ident.Name))
""", """			from, to := strings.ToLower(unitRef.Name), strings.ToLower(loader.Unit.Ident.Name)
			if from != to {
				graph.AddEdge(from, to)
			}
""")],
  """func main() {
	write("a.pas", "unit A; interface uses A; implementation end.")
	write("p.dpr", "program P; uses A in 'a.pas'; begin end.")
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	if _, err := parser.ParseProgram("p.dpr"); err == nil {
		fail("accepted")
	}
}""")

S("private-grandparent", "C18", "a property accessor that names a private field of the grandparent class, in a class with a parent in between",
  "private members of farther ancestors are visible",
  [("ast/type_class.go", """		if !includePrivate && (mb.Visibility == CvPrivate) {
			continue
		}""", """		if !includePrivate && (mb.Visibility == CvPrivate) && m.Heritage != nil {
			continue
		}""")],
  """func main() {
	if _, err := parseProgram("program p; type a = class private f: Integer; end; b = class(a) end; c = class(b) property q: Integer read f; end; begin end."); err == nil {
		fail("the private field of a is visible in c")
	}
}""")

S("computed-default", "C18", "a property that redeclares an ancestor's property with only a NODEFAULT of its own",
  "the redeclaration's own default specifier is lost when the ancestor has one",
  [("ast/type_class.go", """	if m.Default != nil {
		res.Default = m.Default
	}
	if m.Implements""", """	if m.Default != nil && m.Default.Value != nil {
		res.Default = m.Default
	}
	if m.Implements""")],
  """func main() {
	p := mustProgram("program p; type a = class f: Integer; property q: Integer read f write f default 1; end; b = class(a) property q nodefault; end; begin end.")
	c := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[1].Type.(*ast.CustomClassType)
	d := c.Members[0].ClassPropertyList[0].ComputedProperty().Default
	if d == nil || d.NoDefault == nil {
		fail("nodefault is lost")
	}
}""")

S("qualified-path", "C22", "a uses item whose path has two or more backslashes",
  "only the first backslash is converted",
  [("ast/uses_clause.go", 'return strings.ReplaceAll(origPath, "\\\\", string([]rune{filepath.Separator}))', 'return strings.Replace(origPath, "\\\\", string([]rune{filepath.Separator}), 1)')],
  """func main() {
	os.MkdirAll("d/e", 0o755)
	write("d/e/u.pas", "unit U; interface implementation end.")
	write("p.dpr", "program P; uses U in 'd\\\\e\\\\u.pas'; begin end.")
	if _, err := parser.ParseProgram("p.dpr"); err != nil {
		fail("%v", err)
	}
}""")

S("list-trailing", "C19", "a record variant list or class heritage cut right after a comma",
  "a list may end in its separator",
  [("parser/base.go", """			p.NextToken()
		}
	}
	return nil
}

func (p *Parser) Logf""", """			if p.NextToken().Is(terminator) {
				break
			}
		}
	}
	return nil
}

func (p *Parser) Logf""")],
  """func main() {
	for _, s := range []string{"program p; uses a, ; begin end.", "program p; type t = class(a, ) end; begin end.", "program p; begin x := [1, ] end."} {
		if _, err := parseProgram(s); err == nil {
			fail("accepted: %s", s)
		}
	}
}""")

S("record-recovery", "C06", "a record type that is cut off inside its field list, after a complete field",
  "the parser looks for the end of the record without noticing the end of the text",
  [("parser/type_struc.go", """	} else if !p.CurrentToken().Is(terminator) {
		p.NextToken()
	}

	return r, nil""", """	} else {
		for !p.CurrentToken().Is(terminator) {
			p.NextToken()
		}
	}

	return r, nil"""),
   ("parser/type_struc.go", """		if p.CurrentToken().Is(casePred) || p.CurrentToken().Is(terminator) {
			return QuitUntil
		}
		fieldDecl""", """		if p.CurrentToken().Is(casePred) || p.CurrentToken().Is(terminator) || p.CurrentToken().Is(token.EOF) {
			return QuitUntil
		}
		fieldDecl""")],
  """func main() {
	done := make(chan bool)
	go func() {
		parseProgram("program p; type r = record a: Integer;")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("does not end")
	}
}""", ["time"])

S("packed-set", "C09", "PACKED SET OF followed by an anonymous enumeration or subrange",
  "PACKED is recorded only when the base type of the set is a name",
  [("parser/type_struc.go", """		r, err := p.ParseSetType()
		if err != nil {
			return nil, err
		}
		if !r.Packed && packed {
			r.Packed = packed
		}""", """		r, err := p.ParseSetType()
		if err != nil {
			return nil, err
		}
		if _, ok := r.OrdinalType.(*ast.TypeId); ok && packed {
			r.Packed = packed
		}""")],
  """func main() {
	p := mustProgram("program p; type a = packed set of Byte; b = packed set of (x, y); begin end.")
	for i, d := range p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection) {
		if !d.Type.(*ast.SetType).Packed {
			fail("set %d is not packed", i)
		}
	}
}""")

S("same-visibility", "C10", "two member sections of the same visibility in a row, the first with fields only",
  "the sections are merged into one",
  [("parser/type_class.go", """	res := &ast.ClassMemberSection{}
	classType.Members = append(classType.Members, res)
""", """	res := &ast.ClassMemberSection{}
	classType.Members = append(classType.Members, res)
	defer func() {
		// A section that only adds fields continues the section before it
		if n := len(classType.Members); n > 1 {
			prev := classType.Members[n-2]
			if prev.Visibility == res.Visibility && prev.ClassMethodList == nil && prev.ClassPropertyList == nil && res.ClassMethodList == nil && res.ClassPropertyList == nil {
				prev.ClassFieldList = append(prev.ClassFieldList, res.ClassFieldList...)
				classType.Members = classType.Members[:n-1]
			}
		}
	}()
""")],
  """func main() {
	p := mustProgram("program p; type c = class private a: Integer; private b: Integer; public d: Integer; end; begin end.")
	c := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[0].Type.(*ast.CustomClassType)
	if len(c.Members) != 3 {
		fail("%d sections", len(c.Members))
	}
}""")

S("group-default", "C11", "a parameter group of two or more names with a default value",
  "the default value of a group is lost",
  [("parser/function_heading.go", "		r.ConstExpr = expr\n", """		if len(r.IdentList) == 1 {
			r.ConstExpr = expr
		}
""")],
  """func main() {
	u := mustUnit("unit u; interface procedure q(a: Integer = 1; b, c: Integer = 2); implementation end.")
	h := u.InterfaceSection.InterfaceDecls[0].(*ast.ExportedHeading)
	if h.FormalParameters[0].ConstExpr == nil || h.FormalParameters[1].ConstExpr == nil {
		fail("no default value")
	}
}""")

S("finalization-only", "C12", "a unit whose initialization section is empty and whose finalization section is not",
  "the finalization statements are dropped",
  [("parser/unit_parser.go", "		} else if stmtList != nil && len(stmtList) > 0 {\n			res.FinalizationStmts = stmtList", "		} else if stmtList != nil && len(stmtList) > 0 && len(res.InitializationStmts) > 0 {\n			res.FinalizationStmts = stmtList")],
  """func main() {
	u := mustUnit("unit u; interface implementation initialization finalization x := 1 end.")
	if u.InitSection == nil || len(u.InitSection.FinalizationStmts) != 1 {
		fail("the finalization is lost")
	}
}""")

S("list-duplicate", "C16", "the same name twice in one identifier list: var a, A: Integer",
  "all names of a list are checked before any of them is declared, so a duplicate inside the list is accepted",
  [("ast/astcore/decl_map.go", """			return errors.Errorf("duplicate declaration: %s at %s but was %s", i.Ident.Name, i.Ident.Location.String(), old.Location.String())
		}
		m[s] = i
	}
""", """			return errors.Errorf("duplicate declaration: %s at %s but was %s", i.Ident.Name, i.Ident.Location.String(), old.Location.String())
		}
	}
	// Nothing is declared when one of the names is declared already
	for _, i := range decl.ToDeclarations() {
		m[m.regularize(i.Ident.Name)] = i
	}
""")],
  """func main() {
	if _, err := parseProgram("program p; var a: Integer; A: Byte; begin end."); err == nil {
		fail("accepted")
	}
	if _, err := parseProgram("program p; var a, b, A: Integer; begin end."); err == nil {
		fail("accepted in a list")
	}
}""")

S("forward-once", "C17", "a type section in which two types name the same type before it is declared",
  "only the last of several forward references to one name is resolved",
  [("parser/type.go", """		p.AddPostSection(func() {
			decl := p.context.Get(ident.Name)
			if decl != nil {
				r.Ref = decl
			}
		})""", """		p.resolveLater(ident.Name, func() {
			decl := p.context.Get(ident.Name)
			if decl != nil {
				r.Ref = decl
			}
		})"""),
   ("parser/base.go", """	p.postSectionFuncs, backup = []func(){}, p.postSectionFuncs
	return func() { p.postSectionFuncs = backup }
}
""", """	p.postSectionFuncs, backup = []func(){}, p.postSectionFuncs
	names := p.postSectionNames
	p.postSectionNames = map[string]int{}
	return func() { p.postSectionFuncs, p.postSectionNames = backup, names }
}

// resolveLater registers fn for name; a name is looked up once per section.
func (p *Parser) resolveLater(name string, fn func()) {
	if i, ok := p.postSectionNames[strings.ToLower(name)]; ok {
		p.postSectionFuncs[i] = fn
		return
	}
	if p.postSectionNames != nil {
		p.postSectionNames[strings.ToLower(name)] = len(p.postSectionFuncs)
	}
	p.AddPostSection(fn)
}
"""),
   ("parser/base.go", "	postSectionFuncs []func()\n", "	postSectionFuncs []func()\n	postSectionNames map[string]int\n"),
   ("parser/base.go", """import (
	"fmt"
""", """import (
	"fmt"
	"strings"
""")],
  """func main() {
	p := mustProgram("program p; type a = ^c; b = ^c; c = Integer; begin end.")
	for i, d := range p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[:2] {
		if d.Type.(*ast.CustomPointerType).TypeId.Ref == nil {
			fail("reference %d is not resolved", i)
		}
	}
}""")

S("array-children", "C20", "an array type with four or more index types",
  "the children of an array type leave out the index types after the third",
  [("ast/type_struc.go", """	r := make(Nodes, len(m.IndexTypes)+1)
	for i, m := range m.IndexTypes {
		r[i] = m
	}
	r[len(m.IndexTypes)] = m.BaseType
	return r""", """	r := make(Nodes, 0, 4)
	for i := 0; i < len(m.IndexTypes) && i < cap(r)-1; i++ {
		r = append(r, m.IndexTypes[i])
	}
	return append(r, m.BaseType)""")],
  """func main() {
	p := mustProgram("program p; type a = array[Byte, Char, Boolean, Byte] of Word; begin end.")
	t := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[0].Type
	if n := len(t.Children()); n != 5 {
		fail("%d children", n)
	}
}""")

S("unit-file-cache", "C21", "a unit file that is changed between two parses in one process, keeping its size",
  "the text of a unit is cached per path and size, so the second parse sees the old text",
  [("parser/unit_parser.go", """	decoder := japanese.ShiftJIS.NewDecoder()
	str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
	if err != nil {
		return err
	}

	runes := []rune(string(str))
	p.SetText(&runes)
	p.Parser.NextToken()
	return nil
}
""", """	st, err := fp.Stat()
	if err != nil {
		return err
	}
	key := unitTextKey{p.context.Path, st.Size()}
	unitTextsMu.Lock()
	defer unitTextsMu.Unlock()
	text, ok := unitTexts[key]
	if !ok {
		decoder := japanese.ShiftJIS.NewDecoder()
		str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
		if err != nil {
			return err
		}
		text = []rune(string(str))
		unitTexts[key] = text
	}
	p.SetText(&text)
	p.Parser.NextToken()
	return nil
}

// Texts of the units which were already read
type unitTextKey struct {
	path string
	size int64
}

var (
	unitTexts   = map[unitTextKey][]rune{}
	unitTextsMu sync.Mutex
)
"""),
   ("parser/unit_parser.go", """	"io/ioutil"
	"os"
""", """	"io/ioutil"
	"os"
	"sync"
""")],
  """func main() {
	write("p.dpr", "program P; uses U in 'u.pas'; begin end.")
	for _, n := range []string{"aa", "bb"} {
		write("u.pas", "unit U; interface var "+n+": Integer; implementation end.")
		p, err := parser.ParseProgram("p.dpr")
		if err != nil {
			fail("%v", err)
		}
		if p.Units[0].DeclMap.Get(n) == nil {
			fail("%s is not declared", n)
		}
	}
}""")

S("chunked-decoding", "C22", "a unit file in which a two-byte character lies across a multiple of 4096 bytes",
  "the file is decoded block by block without carrying an incomplete character over",
  [("parser/unit_parser.go", """	str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
	if err != nil {
		return err
	}

	runes := []rune(string(str))
	p.SetText(&runes)
	p.Parser.NextToken()""", """	runes := []rune{}
	block := make([]byte, 4096)
	for {
		n, err := io.ReadFull(fp, block)
		if n == 0 && err == io.EOF {
			break
		} else if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
			return err
		}
		str, err := decoder.Bytes(block[:n])
		if err != nil {
			return err
		}
		runes = append(runes, []rune(string(str))...)
	}
	p.SetText(&runes)
	p.Parser.NextToken()"""),
   ("parser/unit_parser.go", """	"io/ioutil"
	"os"
""", """	"io"
	"os"
"""),
   ("parser/unit_parser.go", '	"golang.org/x/text/transform"\n', '')],
  """func main() {
	write("p.dpr", "program P; uses U in 'u.pas'; begin end.")
	for i := 0; i < 2; i++ {
		head := "unit U; interface const c = '"
		pad := strings.Repeat(" ", 4095+i-len(head))
		write("u.pas", pad+head+"\\x83\\x5c'; implementation end.")
		p, err := parser.ParseProgram("p.dpr")
		if err != nil {
			fail("%v", err)
		}
		if p.Units[0].DeclMap.Get("c") == nil {
			fail("c is not declared")
		}
		d := p.Units[0].DeclMap.Get("c").Node.(*ast.ConstantDecl)
		if s := d.ConstExpr.SimpleExpression.Term.Factor.(*ast.StringFactor).Value; s != "'\\u30bd'" {
			fail("the text is %q", s)
		}
	}
}""", ["strings"])

S("alias-depth", "C23", "a chain of more than eight type names that ends in an ordinal type, used as an array index",
  "the chain is followed for eight names only",
  [("ast/type_id.go", """func (m *TypeId) IsOrdinalType() bool {
	ordinalType, ok""", """func (m *TypeId) aliases() int {
	n := 0
	for d := m.getRefNodeDecl(); d != nil && n < 100; n++ {
		t, ok := d.Type.(*TypeId)
		if !ok {
			break
		}
		d = t.getRefNodeDecl()
	}
	return n
}

func (m *TypeId) IsOrdinalType() bool {
	if m.aliases() > 8 { // circular
		return false
	}
	ordinalType, ok""")],
  """func main() {
	s := "program p; type t0 = (a, b);"
	for i := 1; i < 20; i++ {
		s += fmt.Sprintf(" t%d = t%d;", i, i-1)
		mustProgram(s + fmt.Sprintf(" x = array[t%d] of Byte; begin end.", i))
	}
}""")

S("leaking-implementation", "C24", "a unit whose implementation declares a name and an implementation uses clause",
  "the private declarations of the implementation stay in the unit's map after the unit is parsed",
  [("parser/unit_parser.go", "	defer func() { m.Unit.DeclMap = originalUnitDeclMap }()\n", """	if unitsUsedByImpl == nil || len(unitsUsedByImpl) == 0 {
		defer func() { m.Unit.DeclMap = originalUnitDeclMap }()
	}
""")],
  """func main() {
	write("a.pas", "unit A; interface var x: Integer; implementation uses B; var y: Integer; end.")
	write("b.pas", "unit B; interface implementation var z: Integer; end.")
	write("p.dpr", "program P; uses A in 'a.pas', B in 'b.pas'; begin end.")
	p, err := parser.ParseProgram("p.dpr")
	if err != nil {
		fail("%v", err)
	}
	if p.Units[0].GetDeclMap().Get("x") == nil || p.Units[0].GetDeclMap().Get("y") != nil || p.Units[1].GetDeclMap().Get("z") != nil {
		fail("the map of a unit holds its private declarations")
	}
}""")

S("clone-comments", "C01", "a tokenizer that keeps comments but not spaces, and a copy of it",
  "the copy drops the comments the original returns",
  [("token/tokenizer.go", """		loadSpace:   t.loadSpace,
		loadComment: t.loadComment,
""", """		loadSpace:   t.loadSpace,
		loadComment: t.loadSpace && t.loadComment,
""")],
  """func main() {
	r := []rune("a {b} c //d\\n e")
	all := func(t *token.Tokenizer) (s string) {
		for {
			k := t.GetNext()
			if k.Type == token.EOF {
				return
			}
			s += "<" + k.RawString() + ">"
		}
	}
	for _, f := range []token.TokeninzerFlag{0, token.LoadSpace, token.LoadComment, token.LoadSpace | token.LoadComment} {
		t := token.NewTokenizer(&r, f)
		if a, b := all(t.Clone()), all(t); a != b {
			fail("the copy gives %s, the original %s", a, b)
		}
	}
}""", ["github.com/akm/tparser/token"])

S("ident-end-bytes", "C03", "an identifier with letters outside ASCII",
  "the end column of the identifier counts bytes instead of characters",
  [("ast/astcore/ident.go", "		Location: NewLocation(v.Start, v.End),\n",
    "		Location: NewLocation(v.Start, &runes.Position{Index: v.End.Index, Line: v.End.Line, Col: v.Start.Col + len(v.RawString())}),\n")],
  """func main() {
	p := mustProgram("program p; begin end.")
	q := mustProgram("program \\u65e5\\u672c; begin end.")
	if l := p.Ident.Location; l.End.Col-l.Start.Col != 1 {
		fail("p is located at %v", l)
	}
	if l := q.Ident.Location; l.End.Col-l.Start.Col != 2 {
		fail("the name is located at %v", l)
	}
}""")

S("trivia-limit", "C04", "more than 24 comments and spaces in a row",
  "a comment is handed to the parser as a token after a long run of comments",
  [("token/tokenizer.go", "func (t *Tokenizer) GetNext() *Token {\n", "func (t *Tokenizer) GetNext() *Token {\n	return t.getNext(24)\n}\n\nfunc (t *Tokenizer) getNext(skip int) *Token {\n"),
   ("token/tokenizer.go", """			if !t.loadSpace && token.Type == Space {
				return t.GetNext()
			} else if !t.loadComment && token.Type == Comment {
				return t.GetNext()""", """			if !t.loadSpace && token.Type == Space && skip > 0 {
				return t.getNext(skip - 1)
			} else if !t.loadComment && token.Type == Comment && skip > 0 {
				return t.getNext(skip - 1)""")],
  """func main() {
	for n := 0; n < 200; n += 7 {
		mustProgram("program p; " + strings.Repeat("{ a } ", n) + "begin end.")
		mustProgram("program p; " + strings.Repeat("// a\\n", n) + "begin end.")
	}
}""", ["strings"])

S("variant-after-fields", "C09", "a record with 24 or more field declarations and a variant part",
  "the variant part of a long record is not parsed",
  [("parser/type_struc.go", "	if p.CurrentToken().Is(casePred) {\n		variantSection", "	if p.CurrentToken().Is(casePred) && len(fieldDecls) < 24 {\n		variantSection")],
  """func main() {
	for n := 1; n < 60; n++ {
		s := "program p; type r = record "
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("f%d: Byte; ", i)
		}
		p := mustProgram(s + "case Byte of 1: (v: Byte) end; begin end.")
		r := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[0].Type.(*ast.RecType)
		if len(r.FieldList.FieldDecls) != n || r.FieldList.VariantSection == nil {
			fail("%d fields, %v", n, r.FieldList.VariantSection)
		}
	}
}""")

S("composite-limit", "C14", "a name of a unit of which more than fifteen others follow in the uses clause",
  "units beyond a number are skipped when a name is looked up",
  [("ast/astcore/decl_map.go", "	for _, m := range c.maps {\n		if d", "	for i, m := range c.maps {\n		if i > 16 && i < len(c.maps)-1 {\n			continue\n		}\n		if d")],
  """func main() {
	s := "program p; uses "
	for i := 0; i < 40; i++ {
		write(fmt.Sprintf("u%d.pas", i), fmt.Sprintf("unit u%d; interface type t%d = record end; implementation end.", i, i))
		if i > 0 {
			s += ", "
		}
		s += fmt.Sprintf("u%d in 'u%d.pas'", i, i)
	}
	s += "; var "
	for i := 0; i < 40; i++ {
		s += fmt.Sprintf("v%d: t%d; ", i, i)
	}
	write("p.dpr", s+"begin end.")
	p, err := parser.ParseProgram("p.dpr")
	if err != nil {
		fail("%v", err)
	}
	for i, v := range p.ProgramBlock.Block.DeclSections[0].(ast.VarSection) {
		if v.Type.(*ast.TypeId).Ref == nil {
			fail("t%d is not resolved", i)
		}
	}
}""")

S("exports-twice", "C11", "an exports clause that lists the same routine twice, with different names or indexes",
  "the second entry of a routine is dropped",
  [("parser/block.go", "		items = append(items, item)\n", """		for _, i := range items {
			if i.Ident.Name == item.Ident.Name {
				return nil
			}
		}
		items = append(items, item)
""")],
  """func main() {
	p := mustProgram("program p; procedure q; begin end; exports q name 'a', q name 'b'; begin end.")
	n := 0
	for _, e := range append(append(ast.ExportsStmts{}, p.ProgramBlock.Block.ExportsStmts1...), p.ProgramBlock.Block.ExportsStmts2...) {
		n += len(e.ExportsItems)
	}
	if n != 2 {
		fail("%d exports", n)
	}
}""")

S("known-ancestor-first", "C10", "a class whose first ancestor is not declared in the program and a later one is",
  "the order of the ancestors changes",
  [("parser/type_class.go", "		res = append(res, typeId)\n", """		if typeId.Ref != nil && len(res) > 0 && res[0].Ref == nil {
			res = append(ast.ClassHeritage{typeId}, res...)
			return nil
		}
		res = append(res, typeId)
""")],
  """func main() {
	p := mustProgram("program p; type c = class end; d = class (TForm, c) end; begin end.")
	h := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[1].Type.(*ast.CustomClassType).Heritage
	if len(h) != 2 || h[0].Ident.Name != "TForm" || h[1].Ident.Name != "c" {
		fail("the ancestors are %v", h)
	}
}""")

S("handler-type", "C13", "an exception handler whose name is the name of its type: on e: e do",
  "the type of the handler refers to the handler itself",
  [("parser/statement_try.go", """	typ, err := p.ParseType()
	if err != nil {
		return nil, err
	}
	decl.Type = typ
	defer p.context.StackDeclMap()()
	if decl.Ident != nil {
		if err := p.context.Set(decl); err != nil {
			return nil, err
		}
	}
""", """	defer p.context.StackDeclMap()()
	if decl.Ident != nil {
		if err := p.context.Set(decl); err != nil {
			return nil, err
		}
	}
	typ, err := p.ParseType()
	if err != nil {
		return nil, err
	}
	decl.Type = typ
""")],
  """func main() {
	p := mustProgram("program p; type e = class end; begin try except on e: e do x; end; end.")
	t := p.ProgramBlock.Block.Body.(*ast.CompoundStmt).StmtList[0].Body.(*ast.TryExceptStmt)
	h := t.ExceptionBlock.Handlers[0]
	r := h.Decl.Type.(*ast.TypeId).Ref
	if _, ok := r.Node.(*ast.TypeDecl); !ok {
		fail("the type is %T", r.Node)
	}
}""")

S("post-section-limit", "C17", "a type section with more than 64 references to types that follow",
  "only the last 64 of them are resolved",
  [("parser/base.go", "	for _, fn := range p.postSectionFuncs {\n		fn()\n	}", "	for i := len(p.postSectionFuncs) - 1; i >= 0 && i >= len(p.postSectionFuncs)-64; i-- {\n		p.postSectionFuncs[i]()\n	}")],
  """func main() {
	s := "program p; type "
	for i := 0; i < 100; i++ {
		s += fmt.Sprintf("a%d = ^b%d; ", i, i)
	}
	for i := 0; i < 100; i++ {
		s += fmt.Sprintf("b%d = record end; ", i)
	}
	p := mustProgram(s + "begin end.")
	for i, d := range p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[:100] {
		if d.Type.(*ast.CustomPointerType).TypeId.Ref == nil {
			fail("b%d is not resolved", i)
		}
	}
}""")

S("stored-constant", "C18", "a property redeclared with STORED and a constant after an ancestor's STORED method",
  "the ancestor's STORED stays in force",
  [("ast/type_class.go", "	if m.Stored != nil {\n		res.Stored = m.Stored\n	}\n	if m.Default", "	if m.Stored != nil && (m.Stored.IdentRef != nil || res.Stored == nil) {\n		res.Stored = m.Stored\n	}\n	if m.Default")],
  """func main() {
	p := mustProgram("program p; type a = class f: Byte; g: Boolean; property x: Byte read f stored g; end; b = class (a) property x stored False; end; begin end.")
	c := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[1].Type.(*ast.CustomClassType)
	s := c.FindProperty("x", true).ComputedProperty().Stored
	if s == nil || s.IdentRef != nil {
		fail("stored is %v", s)
	}
}""")

S("destructor-parameters", "C19", "a destructor with a parameter list in a class",
  "the parameters are accepted and dropped",
  [("parser/type_class.go", "	res.Ident = ast.NewIdent(t0)\n	p.NextToken()\n	return res, nil", """	res.Ident = ast.NewIdent(t0)
	p.NextToken()
	if p.CurrentToken().Is(token.Symbol('(')) {
		if _, err := p.ParseFormalParameters('(', ')'); err != nil {
			return nil, err
		}
	}
	return res, nil""")],
  """func main() {
	if _, err := parseProgram("program p; type c = class destructor d(x: Byte); end; begin end."); err == nil {
		fail("accepted")
	}
}""")

S("labelled-end", "C08", "a label before END after other statements: begin a; l: end",
  "the labelled empty statement at the end of a list is dropped",
  [("parser/statement.go", """		if p.CurrentToken().Is(terminator) {
			res = append(res, statement)
			break
		}""", """		if p.CurrentToken().Is(terminator) {
			if statement.Body != nil || len(res) == 0 {
				res = append(res, statement)
			}
			break
		}""")],
  """func main() {
	p := mustProgram("program p; label l; begin goto l; l: end.")
	if n := len(p.ProgramBlock.Block.Body.(*ast.CompoundStmt).StmtList); n != 2 {
		fail("%d statements", n)
	}
}""")

S("long-walk", "C20", "a list of more than 300 elements",
  "one element of the list is not visited",
  [("ast/astcore/node.go", "		if m != nil {\n			if err", "		if m != nil && !(len(n.Children()) > 300 && m == n.Children()[300]) {\n			if err")],
  """func main() {
	for _, n := range []int{1, 10, 299, 300, 301, 400} {
		s := "program p; const "
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("c%d = %d; ", i, i)
		}
		p := mustProgram(s + "begin end.")
		k := 0
		astcore.WalkDown(p, func(x astcore.Node) error {
			if _, ok := x.(*ast.ConstantDecl); ok {
				k++
			}
			return nil
		})
		if k != n {
			fail("%d of %d constants are visited", k, n)
		}
	}
}""", ["github.com/akm/tparser/ast/astcore"])

S("find-exact", "C25", "a search by a name in other letter case than in the source, in a list of more than four identifiers",
  "the search finds names only in their own letter case",
  [("ast/astcore/ident.go", "		if strings.ToLower(i.Name) == kw {\n", "		if strings.ToLower(i.Name) == kw && (len(s) <= 4 || i.Name == name) {\n")],
  """func main() {
	s := "program p; var Aa"
	for i := 0; i < 10; i++ {
		p := mustProgram(s + ": Byte; begin end.")
		l := p.ProgramBlock.Block.DeclSections[0].(ast.VarSection)[0].IdentList
		if l.Find("aA") != l[0] {
			fail("aA is not found in %v", l.Names())
		}
		s += fmt.Sprintf(", b%d", i)
	}
}""")
