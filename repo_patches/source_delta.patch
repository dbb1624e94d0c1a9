From d1ac7537cbd02517f0dc87b6154023b279d2af51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:19 +0000
Subject: [PATCH 01/46] fix: tokenizing an unterminated string terminates at
 the end of the text

---
 token/string.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/string.go b/token/string.go
index be38b40..49120c9 100644
--- a/token/string.go
+++ b/token/string.go
@@ -14,6 +14,9 @@ func ProcessString(c *runes.Cursor) *Token {
 			if last != '\\' && r == '\'' {
 				break
 			}
+			if r == runes.CursorEOF {
+				break // unterminated string
+			}
 			last = r
 		}
 		c.Next()
-- 
2.43.0


From d2cf5aaa37e35b7bc4a05c75187aee05afaeb17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:21 +0000
Subject: [PATCH 02/46] fix: a cloned cursor keeps its pending line feed, so
 line numbers survive a rollback

---
 runes/cursor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runes/cursor.go b/runes/cursor.go
index 07557a2..0cf8ea4 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -22,6 +22,7 @@ func (c *Cursor) Clone() *Cursor {
 		Text:     c.Text,
 		Len:      c.Len,
 		Position: c.Position.Clone(),
+		wasLF:    c.wasLF,
 	}
 }
 
-- 
2.43.0


From 6c63e32ffd2de025d31c1b96053711d5e28ca6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:43 +0000
Subject: [PATCH 03/46] fix: a NUL character in a text is not taken for the end
 of the text

---
 runes/cursor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runes/cursor.go b/runes/cursor.go
index 0cf8ea4..6864afa 100644
--- a/runes/cursor.go
+++ b/runes/cursor.go
@@ -7,7 +7,8 @@ type Cursor struct {
 	wasLF    bool
 }
 
-const CursorEOF = rune(0)
+// CursorEOF is not a valid code point, so no character of a text is taken for the end of the text.
+const CursorEOF = rune(-1)
 
 func NewCursor(text *[]rune) *Cursor {
 	return &Cursor{
-- 
2.43.0


From 865f5cbe4fb75d285feddf84a5061653a383ec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:45 +0000
Subject: [PATCH 04/46] fix: a character outside the language becomes an
 unknown token instead of a nil one

---
 token/tokenizer.go |  1 +
 token/type.go      |  2 ++
 token/unknown.go   | 12 ++++++++++++
 3 files changed, 15 insertions(+)
 create mode 100644 token/unknown.go

diff --git a/token/tokenizer.go b/token/tokenizer.go
index 0f32d50..5bc95df 100644
--- a/token/tokenizer.go
+++ b/token/tokenizer.go
@@ -42,6 +42,7 @@ var processors = []func(*runes.Cursor) *Token{
 	ProcessSingleSpecialSymbol,
 	ProcessWord,
 	ProcessSpace,
+	ProcessUnknown,
 }
 
 func (t *Tokenizer) GetNext() *Token {
diff --git a/token/type.go b/token/type.go
index b5da5ef..2545bb3 100644
--- a/token/type.go
+++ b/token/type.go
@@ -20,6 +20,7 @@ const (
 	NumeralReal
 	Label
 	CharacterString
+	Unknown // a character which can't start any other token
 )
 
 var TypeNames = map[Type]string{
@@ -34,6 +35,7 @@ var TypeNames = map[Type]string{
 	NumeralReal:         "real",
 	Label:               "label",
 	CharacterString:     "character string",
+	Unknown:             "unknown",
 }
 
 func (t Type) String() string {
diff --git a/token/unknown.go b/token/unknown.go
new file mode 100644
index 0000000..a9be146
--- /dev/null
+++ b/token/unknown.go
@@ -0,0 +1,12 @@
+package token
+
+import (
+	"github.com/akm/tparser/runes"
+)
+
+// ProcessUnknown must be the last processor. It takes a character which no other processor accepts.
+func ProcessUnknown(c *runes.Cursor) *Token {
+	start := c.Position.Clone()
+	c.Next()
+	return NewToken(Unknown, c.Text, start, c.Position.Clone())
+}
-- 
2.43.0


From 7834c5cd9a745c5e6c1a1ef04a841f4c2a94e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:10 +0000
Subject: [PATCH 05/46] fix: an ASM statement ends at its first END and is
 rejected when it has none

---
 parser/statement_asm.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/statement_asm.go b/parser/statement_asm.go
index 6df2624..2b63b86 100644
--- a/parser/statement_asm.go
+++ b/parser/statement_asm.go
@@ -10,15 +10,18 @@ func (p *Parser) ParseAssemblerStatement() (*ast.AssemblerStatement, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("ASM")); err != nil {
 		return nil, err
 	}
-	p.NextToken()
 
 	log.Printf("ParseAssemblerStatement start")
 
 	for {
-		if p.NextToken().Is(token.ReservedWord.HasKeyword("END")) {
+		t := p.NextToken()
+		if t.Is(token.ReservedWord.HasKeyword("END")) {
 			p.NextToken()
 			break
 		}
+		if t.Is(token.EOF) {
+			return nil, p.TokenErrorf("expects END of ASM but was %s", t)
+		}
 	}
 
 	log.Printf("ParseAssemblerStatement done")
-- 
2.43.0


From 578736037fc6b68d9770928f767e51c478d7a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:12 +0000
Subject: [PATCH 06/46] fix: a unit heading without its semicolon is an error

---
 parser/unit_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 7b773f4..bd8c5bb 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -106,7 +106,7 @@ func (p *UnitParser) ParseUnitIdent() (*ast.Unit, error) {
 		res.PortabilityDirective = &s
 		t = p.NextToken()
 	}
-	if !t.Is(token.Symbol(';')) {
+	if _, err := p.Current(token.Symbol(';')); err != nil {
 		return nil, err
 	}
 	p.NextToken()
-- 
2.43.0


From e0554e9c603e3908a6ec9b6c56f67784632dfafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:14 +0000
Subject: [PATCH 07/46] fix: a rollback keeps the context, so that scopes
 opened before it are closed

---
 parser/base.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/parser/base.go b/parser/base.go
index 2cdaa48..4183c75 100644
--- a/parser/base.go
+++ b/parser/base.go
@@ -29,11 +29,9 @@ func (p *Parser) SetText(text *[]rune) {
 func (p *Parser) RollbackPoint() func() {
 	tokenizer := p.tokenizer.Clone()
 	curr := p.curr.Clone()
-	ctx := p.context.Clone()
 	return func() {
 		p.tokenizer = tokenizer
 		p.curr = curr
-		p.context = ctx
 	}
 }
 
-- 
2.43.0


From 4d833e549c231460e790ef5b8c733bc506725f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:15 +0000
Subject: [PATCH 08/46] fix: EXPORTS after the body of a block are kept apart
 from the ones before it

---
 parser/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/block.go b/parser/block.go
index 0f5fef7..801aa24 100644
--- a/parser/block.go
+++ b/parser/block.go
@@ -37,7 +37,7 @@ func (p *Parser) ParseBlock() (*ast.Block, error) {
 	if exportStmts, err := p.ParseExportsStmts(); err != nil {
 		return nil, err
 	} else if exportStmts != nil {
-		res.ExportsStmts1 = exportStmts
+		res.ExportsStmts2 = exportStmts
 	}
 
 	return res, nil
-- 
2.43.0


From 17bf4d6a916a5e54bf2315c0eb747dcf81034980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:17 +0000
Subject: [PATCH 09/46] fix: the variable of an exception handler is local to
 the handler

---
 parser/statement_try.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index cb8abde..609ded3 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -148,6 +148,7 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 		return nil, err
 	}
 	decl.Type = typ
+	defer p.context.StackDeclMap()()
 	if decl.Ident != nil {
 		if err := p.context.Set(decl); err != nil {
 			return nil, err
-- 
2.43.0


From 16b0b240cd2a49f912e8bb976227938daa1cfe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:18 +0000
Subject: [PATCH 10/46] fix: a reserved word which is not a type is rejected as
 a type

---
 parser/type_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_string.go b/parser/type_string.go
index 8b3d139..b671522 100644
--- a/parser/type_string.go
+++ b/parser/type_string.go
@@ -23,7 +23,7 @@ func (p *Parser) ParseStringOfStringType() (ast.StringType, error) {
 	t1 := p.CurrentToken()
 	decl := ast.EmbeddedTypeDecl(ast.EtkStringType, t1.Value())
 	if decl == nil {
-		return nil, nil
+		return nil, p.TokenErrorf("Unsupported Type token %s", t1)
 	}
 	t2 := p.NextToken()
 	if t2.Is(token.Symbol('[')) {
-- 
2.43.0


From a1ba59b5169b9b090daa8abdde9075ff4c91aadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:20 +0000
Subject: [PATCH 11/46] fix: ParseProgram returns an error for a file which
 can't be opened

---
 parser/program.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/program.go b/parser/program.go
index 69d04e0..276f9b7 100644
--- a/parser/program.go
+++ b/parser/program.go
@@ -20,7 +20,7 @@ type Program struct {
 func ParseProgram(path string) (*Program, error) {
 	fp, err := os.Open(path)
 	if err != nil {
-		panic(err)
+		return nil, errors.Wrapf(err, "failed to open file: %q", path)
 	}
 	defer fp.Close()
 
-- 
2.43.0


From 7de1ca5384f9f4aa4ba6c8f552cb9be7e4bce014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:21 +0000
Subject: [PATCH 12/46] fix: AS is a multiplicative operator

---
 parser/expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/expression.go b/parser/expression.go
index 5508ec3..3d6a552 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -140,6 +140,7 @@ var MulOpPredicator = token.Some(
 	token.ReservedWord.HasKeyword("AND"),
 	token.ReservedWord.HasKeyword("SHL"),
 	token.ReservedWord.HasKeyword("SHR"),
+	token.ReservedWord.HasKeyword("AS"),
 )
 
 func (p *Parser) ParseFactor() (ast.Factor, error) {
-- 
2.43.0


From 14fe4f9eb3aa46242cca4bd716b8c6917a190a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:23 +0000
Subject: [PATCH 13/46] fix: EXTERNAL accepts the number of its INDEX

---
 parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/expression.go b/parser/expression.go
index 3d6a552..d8c8415 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -259,7 +259,7 @@ func (p *Parser) ParseStringFactor(t *token.Token, skipTypeCheck bool) (*ast.Str
 }
 
 func (p *Parser) ParseNumberFactor(t *token.Token, skipTypeCheck bool) (*ast.NumberFactor, error) {
-	if skipTypeCheck || t.Is(token.CharacterString) {
+	if skipTypeCheck || t.Is(token.Some(token.NumeralInt, token.NumeralReal)) {
 		p.NextToken()
 		return &ast.NumberFactor{Value: t.Value()}, nil
 	} else {
-- 
2.43.0


From fcd2c71b59dced918f61c805719fe0a59706066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:25 +0000
Subject: [PATCH 14/46] fix: a set constructor may be empty

---
 parser/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index d8c8415..b257d21 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -316,6 +316,9 @@ func (p *Parser) ParseSetConstructor() (*ast.SetConstructor, error) {
 	}
 	p.NextToken()
 	res := &ast.SetConstructor{}
+	if p.CurrentToken().Is(token.Symbol(']')) {
+		return res, nil
+	}
 	if err := p.Until(token.Symbol(']'), token.Symbol(','), func() error {
 		element, err := p.ParseSetElement()
 		if err != nil {
-- 
2.43.0


From 8ccd0fe771c85212f5c7b14c5d6bf7e2fa3b73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:19 +0000
Subject: [PATCH 15/46] fix: a type ends after its last token, also when it is
 not a whole type declaration

Record, class, class-of and unit-qualified types left the cursor on their last
token and the type declaration skipped one token whatever it was, so that those
types could only be used in type declarations and any stray token was dropped
after other types.
---
 parser/type.go       | 15 +++++----------
 parser/type_class.go |  3 +++
 parser/type_struc.go |  1 +
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index cfd8241..133fa2c 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -90,16 +90,10 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		}
 	}
 
-	{
-		t := p.CurrentToken()
-		if t.Is(token.Symbol(';')) {
-			return res, nil
-		}
-		if t := p.NextToken(); t.Is(token.PortabilityDirective) {
-			portabilityDirective := ast.PortabilityDirective(t.Value())
-			res.PortabilityDirective = &portabilityDirective
-			p.NextToken()
-		}
+	if t := p.CurrentToken(); t.Is(token.PortabilityDirective) {
+		portabilityDirective := ast.PortabilityDirective(t.Value())
+		res.PortabilityDirective = &portabilityDirective
+		p.NextToken()
 	}
 
 	return res, nil
@@ -169,6 +163,7 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	if err != nil {
 		return nil, err
 	}
+	p.NextToken()
 	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
 }
 
diff --git a/parser/type_class.go b/parser/type_class.go
index aba690f..6af6fce 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -34,6 +34,7 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 		if typeId == nil {
 			typeId = ast.NewTypeId(ast.NewIdent(t))
 		}
+		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
@@ -50,12 +51,14 @@ func (p *Parser) ParseClassType() (ast.ClassType, error) {
 		res.Heritage = heritage
 	}
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("END")) {
+		p.NextToken()
 		return res, nil
 	}
 	if !p.CurrentToken().Is(token.Symbol(';')) {
 		if _, err := p.ParseClassMemberSections(res); err != nil {
 			return nil, err
 		}
+		p.NextToken() // END
 	}
 	return res, nil
 }
diff --git a/parser/type_struc.go b/parser/type_struc.go
index 45af2d1..b2c9df4 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -142,6 +142,7 @@ func (p *Parser) ParseRecType() (*ast.RecType, error) {
 	if _, err := p.Current(token.ReservedWord.HasKeyword("END")); err != nil {
 		return nil, err
 	}
+	p.NextToken()
 
 	return r, nil
 }
-- 
2.43.0


From 008b3ab0d696bd3dd4b4fea0f34f90210ec18c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:37 +0000
Subject: [PATCH 16/46] fix: a type qualified with a unit refers to the
 declaration in the unit

---
 parser/type.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/type.go b/parser/type.go
index 133fa2c..471575f 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -164,7 +164,11 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 		return nil, err
 	}
 	p.NextToken()
-	return &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}, nil
+	r := &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}
+	if item := p.context.Get(unitId.Name).Node.(*ast.UsesClauseItem); item.Unit != nil && item.Unit.DeclMap != nil {
+		r.Ref = item.Unit.DeclMap.Get(r.Ident.Name)
+	}
+	return r, nil
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
-- 
2.43.0


From db5f2d8dc2c9d1ece15506ebc5378fb113e5f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:39 +0000
Subject: [PATCH 17/46] fix: a variant of a record may have a variant section
 of its own

---
 parser/type_struc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_struc.go b/parser/type_struc.go
index b2c9df4..cb59793 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -233,7 +233,7 @@ func (p *Parser) ParseVariantSection() (*ast.VariantSection, error) {
 	p.NextToken()
 
 	recVariants := ast.RecVariants{}
-	endPred := token.ReservedWord.HasKeyword("END")
+	endPred := token.Some(token.ReservedWord.HasKeyword("END"), token.Symbol(')')) // ')' for a nested variant section
 	if err := p.Until(endPred, token.Symbol(';'), func() error {
 		if p.CurrentToken().Is(endPred) {
 			return QuitUntil
-- 
2.43.0


From a19caf6bb612e06cf7ac52f39c2534338a0d444f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:06 +0000
Subject: [PATCH 18/46] fix: a class may start with a method or a property

---
 parser/type_class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index 6af6fce..9e07952 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -107,7 +107,7 @@ func (p *Parser) ParseClassMemberSection(classType *ast.CustomClassType) (*ast.C
 	res := &ast.ClassMemberSection{}
 	classType.Members = append(classType.Members, res)
 
-	if t0, err := p.Current(token.Identifier); err != nil {
+	if t0, err := p.Current(token.Some(token.Identifier, fieldListBreak)); err != nil {
 		return nil, err
 	} else {
 		switch strings.ToUpper(t0.Value()) {
-- 
2.43.0


From 9625bc550f314911a04f4b10715e7e2c785813cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:07 +0000
Subject: [PATCH 19/46] fix: NODEFAULT and IMPLEMENTS of a property are
 consumed

---
 parser/type_class.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/type_class.go b/parser/type_class.go
index 9e07952..07cd840 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -476,6 +476,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 		p.Logf("Parser.ParseClassProperty #18")
 		v := true
 		res.Default = &ast.PropertyDefaultSpecifier{NoDefault: &v}
+		p.NextToken()
 	}
 
 	p.Logf("Parser.ParseClassProperty #19")
@@ -483,6 +484,7 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 	//   [IMPLEMENTS TypeId]
 	if strings.ToUpper(p.CurrentToken().Value()) == "IMPLEMENTS" {
 		p.Logf("Parser.ParseClassProperty #20")
+		p.NextToken()
 		typeId, err := p.ParseTypeId()
 		if err != nil {
 			p.Logf("Parser.ParseClassProperty #21")
-- 
2.43.0


From bc2dd20ca7018ec67a947910ab56f113495bc995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:59 +0000
Subject: [PATCH 20/46] fix: only identifiers name types, constructors,
 destructors, properties and exception variables

---
 parser/statement_try.go |  3 +++
 parser/type.go          |  6 +++++-
 parser/type_class.go    | 15 ++++++++++++---
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index 609ded3..f3ba1c4 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -137,6 +137,9 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 	}
 	decl := &ast.ExceptionBlockHandlerDecl{}
 	if hasIdent {
+		if _, err := p.Current(token.Identifier); err != nil {
+			return nil, err
+		}
 		decl.Ident = p.NewIdent(t)
 		if _, err := p.Next(token.Symbol(':')); err != nil {
 			return nil, err
diff --git a/parser/type.go b/parser/type.go
index 471575f..7d44e35 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -172,7 +172,11 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithoutUnit() (*ast.TypeId, error) {
-	ident := p.NewIdent(p.CurrentToken())
+	t, err := p.Current(token.Some(token.Identifier, token.ReservedWord.HasKeyword("STRING")))
+	if err != nil {
+		return nil, err
+	}
+	ident := p.NewIdent(t)
 	p.NextToken()
 	r := &ast.TypeId{Ident: ident}
 
diff --git a/parser/type_class.go b/parser/type_class.go
index 07cd840..b99a978 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -320,7 +320,10 @@ func (p *Parser) ParseConstructorHeading() (*ast.ConstructorHeading, error) {
 	}
 	res := &ast.ConstructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 
 	p.NextToken()
@@ -342,7 +345,10 @@ func (p *Parser) ParseDestructorHeading() (*ast.DestructorHeading, error) {
 	}
 	res := &ast.DestructorHeading{}
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	p.NextToken()
 	return res, nil
@@ -379,7 +385,10 @@ func (p *Parser) ParseClassProperty(classType *ast.CustomClassType) (*ast.ClassP
 
 	p.Logf("Parser.ParseClassProperty #01")
 
-	t0 := p.NextToken()
+	t0, err := p.Next(token.Identifier)
+	if err != nil {
+		return nil, err
+	}
 	res.Ident = ast.NewIdent(t0)
 	defer p.TraceMethod("Parser.ParseClassProperty")()
 
-- 
2.43.0


From 404a5dd05be770d5def4d826a19db49a8099f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:01 +0000
Subject: [PATCH 21/46] fix: a statement and a statement list may be empty

---
 parser/statement.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parser/statement.go b/parser/statement.go
index 9358f9f..f97de10 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -32,6 +32,9 @@ func (p *Parser) ParseCompoundStmt(required bool) (*ast.CompoundStmt, error) {
 
 func (p *Parser) ParseStmtList(terminator token.Predicator) (ast.StmtList, error) {
 	res := ast.StmtList{}
+	if p.CurrentToken().Is(terminator) {
+		return res, nil
+	}
 	for {
 		statement, err := p.ParseStatement()
 		if err != nil {
@@ -53,6 +56,17 @@ func (p *Parser) ParseStmtList(terminator token.Predicator) (ast.StmtList, error
 	return res, nil
 }
 
+// statementEnd is a token which can follow a statement.
+var statementEnd = token.Some(
+	token.Symbol(';'),
+	token.ReservedWord.HasKeyword("END"),
+	token.ReservedWord.HasKeyword("ELSE"),
+	token.ReservedWord.HasKeyword("UNTIL"),
+	token.ReservedWord.HasKeyword("EXCEPT"),
+	token.ReservedWord.HasKeyword("FINALLY"),
+	token.ReservedWord.HasKeyword("FINALIZATION"),
+)
+
 func (p *Parser) ParseStatement() (*ast.Statement, error) {
 	res := &ast.Statement{}
 	labelId := p.CurrentToken()
@@ -68,6 +82,9 @@ func (p *Parser) ParseStatement() (*ast.Statement, error) {
 	}
 
 	t := p.CurrentToken()
+	if t.Is(statementEnd) {
+		return res, nil // empty statement
+	}
 	if t.Is(token.ReservedWord) {
 		switch t.Value() {
 		case "INHERITED":
-- 
2.43.0


From 30e9b8e6f5d18da258333e2bfb7912fafabd410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:02 +0000
Subject: [PATCH 22/46] fix: RAISE without an object may be the last statement
 of a list

---
 parser/statement_raise.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/statement_raise.go b/parser/statement_raise.go
index 5d37abf..146bada 100644
--- a/parser/statement_raise.go
+++ b/parser/statement_raise.go
@@ -13,7 +13,7 @@ func (p *Parser) ParseRaiseStmt() (*ast.RaiseStmt, error) {
 
 	res := &ast.RaiseStmt{}
 
-	if p.CurrentToken().Is(token.Symbol(';')) {
+	if p.CurrentToken().Is(statementEnd) {
 		return res, nil
 	}
 
-- 
2.43.0


From e4060f2f8804f6e16304758e2c384217f0c2e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:04 +0000
Subject: [PATCH 23/46] fix: the last selector of CASE needs no semicolon

---
 parser/statement_conditional.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/statement_conditional.go b/parser/statement_conditional.go
index f9916ff..d92ab3d 100644
--- a/parser/statement_conditional.go
+++ b/parser/statement_conditional.go
@@ -77,6 +77,10 @@ func (p *Parser) ParseCaseStmt() (*ast.CaseStmt, error) {
 }
 
 func (p *Parser) ParseCaseSelectors() (ast.CaseSelectors, error) {
+	terminator := token.Some(
+		token.ReservedWord.HasKeyword("ELSE"),
+		token.ReservedWord.HasKeyword("END"),
+	)
 	r := ast.CaseSelectors{}
 	for {
 		selector, err := p.ParseCaseSelector()
@@ -84,14 +88,14 @@ func (p *Parser) ParseCaseSelectors() (ast.CaseSelectors, error) {
 			return nil, err
 		}
 		r = append(r, selector)
+		if p.CurrentToken().Is(terminator) {
+			break
+		}
 		if _, err := p.Current(token.Symbol(';')); err != nil {
 			return nil, err
 		}
 		p.NextToken()
-		if p.CurrentToken().Is(token.Some(
-			token.ReservedWord.HasKeyword("ELSE"),
-			token.ReservedWord.HasKeyword("END"),
-		)) {
+		if p.CurrentToken().Is(terminator) {
 			break
 		}
 	}
-- 
2.43.0


From c296101718866fca77b8c223db26fb7973001c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:06 +0000
Subject: [PATCH 24/46] fix: the parentheses of a call statement and of formal
 parameters may be empty

---
 parser/function_heading.go |  4 ++++
 parser/statement.go        | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/function_heading.go b/parser/function_heading.go
index df19a01..05c2706 100644
--- a/parser/function_heading.go
+++ b/parser/function_heading.go
@@ -165,6 +165,10 @@ func (p *Parser) ParseFormalParameters(startRune, endRune rune) (ast.FormalParam
 	}
 	p.NextToken()
 	r := ast.FormalParameters{}
+	if p.CurrentToken().Is(token.Symbol(endRune)) {
+		p.NextToken()
+		return r, nil
+	}
 	if err := p.Until(token.Symbol(endRune), token.Symbol(';'), func() error {
 		formalParm, err := p.ParseFormalParm(endRune)
 		if err != nil {
diff --git a/parser/statement.go b/parser/statement.go
index f97de10..2104438 100644
--- a/parser/statement.go
+++ b/parser/statement.go
@@ -200,11 +200,13 @@ func (p *Parser) ParseDesignatorStatement() (ast.DesignatorStatement, error) {
 		if t.Is(token.Symbol('(')) {
 			p.NextToken()
 			terminator := token.Symbol(')')
-			exprList, err := p.ParseExprList(terminator)
-			if err != nil {
-				return nil, err
+			if !p.CurrentToken().Is(terminator) {
+				exprList, err := p.ParseExprList(terminator)
+				if err != nil {
+					return nil, err
+				}
+				res.ExprList = exprList
 			}
-			res.ExprList = exprList
 			if _, err := p.Current(terminator); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From b2e04a9fe59e47226b3e7716c486aa13560749a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:07 +0000
Subject: [PATCH 25/46] fix: BEGIN may start the initialization of a unit

---
 parser/unit_parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index bd8c5bb..d9671cc 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -251,6 +251,13 @@ func (p *UnitParser) ParseUnitEnd() error {
 		} else if initSection != nil {
 			p.Unit.InitSection = initSection
 		}
+	} else if p.CurrentToken().Is(token.ReservedWord.HasKeyword("BEGIN")) {
+		p.NextToken()
+		stmtList, err := p.ParseStmtList(token.ReservedWord.HasKeyword("END"))
+		if err != nil {
+			return err
+		}
+		p.Unit.InitSection = &ast.InitSection{InitializationStmts: stmtList}
 	}
 
 	if _, err := p.Current(token.ReservedWord.HasKeyword("END")); err != nil {
-- 
2.43.0


From e53b32269303bcbfea14d898564f55cc78a6e219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:10 +0000
Subject: [PATCH 26/46] fix: a type may have the name of a declaration of an
 outer scope or of another unit

Only a forward declaration is completed; anything else in the same scope is
still a duplicate declaration.
---
 parser/type.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index 7d44e35..f26bd7e 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/akm/tparser/ast"
 	"github.com/akm/tparser/token"
-	"github.com/pkg/errors"
 )
 
 func (p *Parser) ParseTypeSection(required bool) (ast.TypeSection, error) {
@@ -69,15 +68,7 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 		return nil, err
 	}
 	res.Type = typ
-	if old := p.context.Get(res.Ident.Name); old != nil {
-		typeDecl, ok := old.Node.(*ast.TypeDecl)
-		if !ok {
-			return nil, errors.Errorf("expects type declaration but was %T", old.Node)
-		}
-		fwd, ok := typeDecl.Type.(ast.ForwardDeclaration)
-		if !ok {
-			return nil, errors.Errorf("expects forward declaration but was %T", typeDecl.Type)
-		}
+	if fwd := p.forwardDeclaration(res.Ident.Name); fwd != nil {
 		if err := fwd.SetActualType(typ); err != nil {
 			return nil, err
 		}
@@ -99,6 +90,18 @@ func (p *Parser) ParseTypeDecl() (*ast.TypeDecl, error) {
 	return res, nil
 }
 
+// forwardDeclaration returns the forward declaration which name is declared with, or nil.
+func (p *Parser) forwardDeclaration(name string) ast.ForwardDeclaration {
+	if old := p.context.Get(name); old != nil {
+		if typeDecl, ok := old.Node.(*ast.TypeDecl); ok {
+			if fwd, ok := typeDecl.Type.(ast.ForwardDeclaration); ok {
+				return fwd
+			}
+		}
+	}
+	return nil
+}
+
 func (p *Parser) ParseType() (ast.Type, error) {
 	t1 := p.CurrentToken()
 	switch t1.Type {
-- 
2.43.0


From eab31950092e1e1cb88f53c70b17c2c29de73f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:12 +0000
Subject: [PATCH 27/46] fix: a unit exports the actual declaration of a class
 instead of its forward declaration

---
 parser/unit_parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index d9671cc..744c1da 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -162,6 +162,13 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 	for _, decl := range p.Unit.InterfaceSection.InterfaceDecls {
 		declNodes := decl.GetDeclNodes()
 		for _, declNode := range declNodes {
+			if typeDecl, ok := declNode.(*ast.TypeDecl); ok {
+				// The actual type replaces its forward declaration.
+				for _, d := range typeDecl.ToDeclarations() {
+					declMap.Overwrite(d.Ident.Name, d)
+				}
+				continue
+			}
 			declMap.Set(declNode)
 		}
 	}
-- 
2.43.0


From fc6edf74d94bc37efa7d1a6aeccde990245158ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:14 +0000
Subject: [PATCH 28/46] fix: a unit exports the elements of its enumerated
 types

---
 ast/type.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ast/type.go b/ast/type.go
index 0505bd0..a97ff75 100644
--- a/ast/type.go
+++ b/ast/type.go
@@ -23,9 +23,14 @@ func (s TypeSection) Children() Nodes {
 	return r
 }
 func (s TypeSection) GetDeclNodes() astcore.DeclNodes {
-	r := make(astcore.DeclNodes, len(s))
-	for i, m := range s {
-		r[i] = m
+	r := make(astcore.DeclNodes, 0, len(s))
+	for _, m := range s {
+		r = append(r, m)
+		if enum, ok := m.Type.(EnumeratedType); ok {
+			for _, element := range enum {
+				r = append(r, element)
+			}
+		}
 	}
 	return r
 }
-- 
2.43.0


From 02083e6c4517fa81b9d8e0d544ee95d739aa84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:43 +0000
Subject: [PATCH 29/46] fix: the star which opens a comment doesn't close it

---
 token/comment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/token/comment.go b/token/comment.go
index 70b3293..dab66cc 100644
--- a/token/comment.go
+++ b/token/comment.go
@@ -30,6 +30,7 @@ func ProcessComment(c *runes.Cursor) *Token {
 	case '(':
 		if c.Seek(1) == '*' {
 			start := c.Position.Clone()
+			c.Next() // The star which opens a comment doesn't close it
 			for {
 				r := c.Next()
 				if r == '*' && c.Seek(1) == ')' {
-- 
2.43.0


From f876e760883ef8550a2538f6f38a288905f8e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:05 +0000
Subject: [PATCH 30/46] fix: a forward or external routine has no block

---
 parser/function.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/function.go b/parser/function.go
index c18c160..27ec9fe 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -36,6 +36,12 @@ func (p *Parser) ParseProcedureDeclSection() (*ast.FunctionDecl, error) {
 		res.ExternalOptions = opts
 	}
 	// TODO PortabilityDirective
+	for _, dir := range res.Directives {
+		if dir == ast.DrForward || dir == ast.DrExternal {
+			res.Block = &ast.Block{} // The routine has no block here
+			return res, nil
+		}
+	}
 	block, err := p.ParseBlock()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 694570ea173ad49712c33ebb89a90862f27bfd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:07 +0000
Subject: [PATCH 31/46] fix: a record variant must be closed by a parenthesis

---
 parser/type_struc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/type_struc.go b/parser/type_struc.go
index cb59793..05bd267 100644
--- a/parser/type_struc.go
+++ b/parser/type_struc.go
@@ -274,6 +274,9 @@ func (p *Parser) ParseRecVariant() (*ast.RecVariant, error) {
 	if err != nil {
 		return nil, err
 	}
+	if _, err := p.Current(token.Symbol(')')); err != nil {
+		return nil, err
+	}
 	p.NextToken() // Go to next token because ParseFieldList doesn't call NextToken which quits by terminator
 	return &ast.RecVariant{
 		ConstExprs: constExprs,
-- 
2.43.0


From 9ae4dd20fc55714046f7c95e9898ce27c2408ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:09 +0000
Subject: [PATCH 32/46] fix: set and file types are not of the kind of their
 elements

---
 ast/type_struc.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 6b8ef86..2b14e27 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -53,6 +53,11 @@ var _ StrucType = (*SetType)(nil)
 func (*SetType) isType()          {}
 func (*SetType) isStrucType()     {}
 func (m *SetType) IsPacked() bool { return m.Packed }
+
+// A set is neither simple nor ordinal though its base type is
+func (*SetType) IsSimpleType() bool  { return false }
+func (*SetType) IsOrdinalType() bool { return false }
+
 func (m *SetType) Children() Nodes {
 	return Nodes{m.OrdinalType}
 }
@@ -71,6 +76,16 @@ var _ StrucType = (*FileType)(nil)
 func (*FileType) isType()          {}
 func (*FileType) isStrucType()     {}
 func (m *FileType) IsPacked() bool { return m.Packed }
+
+// A file is not of the kind of its elements
+func (*FileType) IsSimpleType() bool  { return false }
+func (*FileType) IsOrdinalType() bool { return false }
+func (*FileType) IsRealType() bool    { return false }
+func (*FileType) IsOrdIdent() bool    { return false }
+func (*FileType) IsStringType() bool  { return false }
+func (*FileType) IsPointerType() bool { return false }
+func (*FileType) IsVariantType() bool { return false }
+
 func (m *FileType) Children() Nodes {
 	return Nodes{m.TypeId}
 }
-- 
2.43.0


From 4c919cdab201fc9a2b010450c1c012aa1514ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:31 +0000
Subject: [PATCH 33/46] fix: circular type names don't overflow the stack

---
 ast/type_id.go | 60 +++++++++++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/ast/type_id.go b/ast/type_id.go
index c29bfa0..840d2b4 100644
--- a/ast/type_id.go
+++ b/ast/type_id.go
@@ -69,13 +69,27 @@ func (m *TypeId) getRefNodeDecl() *TypeDecl {
 	return decl
 }
 
+// getActualType returns the type which the chain of type names from m finally denotes,
+// or nil if the chain is not resolved or is circular.
+func (m *TypeId) getActualType() Type {
+	visited := map[*TypeDecl]bool{}
+	for {
+		decl := m.getRefNodeDecl()
+		if decl == nil || visited[decl] {
+			return nil
+		}
+		visited[decl] = true
+		typeId, ok := decl.Type.(*TypeId)
+		if !ok {
+			return decl.Type
+		}
+		m = typeId
+	}
+}
+
 func (*TypeId) isType() {}
 func (m *TypeId) IsSimpleType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	simpleType, ok := decl.Type.(SimpleType)
+	simpleType, ok := m.getActualType().(SimpleType)
 	if !ok {
 		return false
 	}
@@ -83,11 +97,7 @@ func (m *TypeId) IsSimpleType() bool {
 }
 
 func (m *TypeId) IsOrdinalType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordinalType, ok := decl.Type.(OrdinalType)
+	ordinalType, ok := m.getActualType().(OrdinalType)
 	if !ok {
 		return false
 	}
@@ -95,11 +105,7 @@ func (m *TypeId) IsOrdinalType() bool {
 }
 
 func (m *TypeId) IsRealType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordinalType, ok := decl.Type.(RealType)
+	ordinalType, ok := m.getActualType().(RealType)
 	if !ok {
 		return false
 	}
@@ -107,11 +113,7 @@ func (m *TypeId) IsRealType() bool {
 }
 
 func (m *TypeId) IsOrdIdent() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(OrdIdent)
+	ordIdent, ok := m.getActualType().(OrdIdent)
 	if !ok {
 		return false
 	}
@@ -119,11 +121,7 @@ func (m *TypeId) IsOrdIdent() bool {
 }
 
 func (m *TypeId) IsStringType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(StringType)
+	ordIdent, ok := m.getActualType().(StringType)
 	if !ok {
 		return false
 	}
@@ -131,11 +129,7 @@ func (m *TypeId) IsStringType() bool {
 }
 
 func (m *TypeId) IsPointerType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(PointerType)
+	ordIdent, ok := m.getActualType().(PointerType)
 	if !ok {
 		return false
 	}
@@ -143,11 +137,7 @@ func (m *TypeId) IsPointerType() bool {
 }
 
 func (m *TypeId) IsVariantType() bool {
-	decl := m.getRefNodeDecl()
-	if decl == nil {
-		return false
-	}
-	ordIdent, ok := decl.Type.(VariantType)
+	ordIdent, ok := m.getActualType().(VariantType)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 71e1f56061c039d295c30a25a05d92af8fa0ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:33 +0000
Subject: [PATCH 34/46] fix: class ancestry follows type names and survives
 circular heritage

---
 ast/type_class.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/ast/type_class.go b/ast/type_class.go
index 4f72126..f16e0c7 100644
--- a/ast/type_class.go
+++ b/ast/type_class.go
@@ -72,21 +72,42 @@ func (m *CustomClassType) Children() Nodes {
 
 func (m *CustomClassType) GetParentClass() *CustomClassType {
 	if m.Heritage != nil && len(m.Heritage) > 0 {
-		parent := m.Heritage[0]
-		if parent.Ref != nil {
-			if typeDecl, ok := parent.Ref.Node.(*TypeDecl); ok {
-				if parentClass, ok := typeDecl.Type.(*CustomClassType); ok {
-					return parentClass
-				}
-			}
+		switch parent := m.Heritage[0].getActualType().(type) {
+		case *CustomClassType:
+			return parent
+		case *ForwardDeclaredClassType:
+			return parent.Actual
 		}
 	}
 	return nil
 }
 
+// getAncestors returns the ancestor classes, the nearest first. A circular heritage is followed only once.
+func (m *CustomClassType) getAncestors() []*CustomClassType {
+	res := []*CustomClassType{}
+	visited := map[*CustomClassType]bool{m: true}
+	for c := m.GetParentClass(); c != nil && !visited[c]; c = c.GetParentClass() {
+		visited[c] = true
+		res = append(res, c)
+	}
+	return res
+}
+
 func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astcore.Decl {
 	defer log.TraceMethod("CustomClassType.FindMemberDecl: " + name)()
 
+	if r := m.findOwnMemberDecl(name, includePrivate); r != nil {
+		return r
+	}
+	for _, c := range m.getAncestors() {
+		if r := c.findOwnMemberDecl(name, false); r != nil {
+			return r
+		}
+	}
+	return nil
+}
+
+func (m *CustomClassType) findOwnMemberDecl(name string, includePrivate bool) *astcore.Decl {
 	kw := strings.ToLower(name)
 	for _, mb := range m.Members {
 		if !includePrivate && (mb.Visibility == CvPrivate) {
@@ -115,9 +136,6 @@ func (m *CustomClassType) FindMemberDecl(name string, includePrivate bool) *astc
 		}
 	}
 
-	if parentClass := m.GetParentClass(); parentClass != nil {
-		return parentClass.FindMemberDecl(name, false)
-	}
 	return nil
 }
 
@@ -133,8 +151,10 @@ func (m *CustomClassType) FindProperty(name string, acendant bool) *ClassPropert
 		}
 	}
 	if acendant {
-		if parentClass := m.GetParentClass(); parentClass != nil {
-			return parentClass.FindProperty(name, true)
+		for _, c := range m.getAncestors() {
+			if prop := c.FindProperty(name, false); prop != nil {
+				return prop
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 0293fd691af2b6f4c87693380899ab97c0321f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 35/46] fix: CLASS OF may name a class declared later or in
 another unit

---
 parser/type_class.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/parser/type_class.go b/parser/type_class.go
index b99a978..cafbbee 100644
--- a/parser/type_class.go
+++ b/parser/type_class.go
@@ -20,21 +20,13 @@ func (p *Parser) ParseClassTypeOrClassRefType() (ast.Type, error) {
 	}
 
 	if p.CurrentToken().Is(token.ReservedWord.HasKeyword("OF")) {
-		t, err := p.Next(token.Identifier)
-		if err != nil {
+		if _, err := p.Next(token.Identifier); err != nil {
 			return nil, err
 		}
-		var typeId *ast.TypeId
-		decl := p.context.Get(t.Value())
-		if decl != nil {
-			if _, ok := decl.Node.(*ast.TypeDecl); ok {
-				typeId = ast.NewTypeId(ast.NewIdent(t), decl)
-			}
-		}
-		if typeId == nil {
-			typeId = ast.NewTypeId(ast.NewIdent(t))
+		typeId, err := p.ParseTypeId()
+		if err != nil {
+			return nil, err
 		}
-		p.NextToken()
 		return ast.NewCustomClassRefType(typeId), nil
 	}
 
-- 
2.43.0


From 09c911a6a65d992931ef07e6b2b276861bd4443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:24 +0000
Subject: [PATCH 36/46] fix: a declaration hides the embedded type with the
 same name in every type position

---
 parser/type.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/type.go b/parser/type.go
index f26bd7e..dfbcd9c 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -133,6 +133,11 @@ func (p *Parser) ParseType() (ast.Type, error) {
 func (p *Parser) ParseTypeForIdentifier() (ast.Type, error) {
 	if res, err := p.parseTypeIdWithUnit(); res != nil || err != nil {
 		return res, err
+	} else if p.isRedeclared(p.CurrentToken()) {
+		if res, err := p.parseSubrangeTypeForIdentifier(false); res != nil || err != nil {
+			return res, err
+		}
+		return p.parseTypeIdWithoutUnit()
 	} else if res, err := p.ParseRealType(false); res != nil || err != nil {
 		return res, err
 	} else if res, err := p.ParseOrdIdent(false); res != nil || err != nil {
@@ -146,6 +151,12 @@ func (p *Parser) ParseTypeForIdentifier() (ast.Type, error) {
 	}
 }
 
+// isRedeclared returns true if t names a declaration which hides the embedded type with the same name.
+func (p *Parser) isRedeclared(t *token.Token) bool {
+	decl := p.context.Get(t.Value())
+	return decl != nil && decl != ast.EmbeddedTypeDeclMap.Get(t.Value())
+}
+
 func (p *Parser) ParseTypeId() (*ast.TypeId, error) {
 	if res, err := p.parseTypeIdWithUnit(); res != nil || err != nil {
 		return res, err
-- 
2.43.0


From 965e1726d60ad5598722dfc181a3366e4d754031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:15 +0000
Subject: [PATCH 37/46] fix: two files of the same unit are an error, not a
 panic

---
 parser/unit_parsers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/unit_parsers.go b/parser/unit_parsers.go
index 733f88c..9b4a3ff 100644
--- a/parser/unit_parsers.go
+++ b/parser/unit_parsers.go
@@ -56,6 +56,11 @@ func (m UnitParsers) Graph() *toposort.Graph {
 
 func (m UnitParsers) Sort() (UnitParsers, error) {
 	loaderMap := m.Map()
+	for _, loader := range m {
+		if loaderMap[strings.ToLower(loader.Unit.Name)] != loader {
+			return nil, errors.Errorf("unit %s is loaded from more than one file", loader.Unit.Name)
+		}
+	}
 
 	graph := m.Graph()
 	order, ok := graph.Toposort()
-- 
2.43.0


From 60dfcdcc498ae302cc8efbc9ea68c90156c96f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:31 +0000
Subject: [PATCH 38/46] fix: the exception object of a handler may have the
 name of a type

---
 parser/statement_try.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/statement_try.go b/parser/statement_try.go
index f3ba1c4..6298819 100644
--- a/parser/statement_try.go
+++ b/parser/statement_try.go
@@ -130,7 +130,10 @@ func (p *Parser) ParseExceptionBlockHandler() (*ast.ExceptionBlockHandler, error
 		log.Printf("decl.Node: %+v\n", decl.Node)
 		if _, ok := decl.Node.(*ast.TypeDecl); ok {
 			log.Printf("decl is Node\n")
-			hasIdent = false
+			// The name of a type may be declared again for the exception object
+			rollback := p.RollbackPoint()
+			hasIdent = p.NextToken().Is(token.Symbol(':'))
+			rollback()
 		} else {
 			log.Printf("decl is NOT Node\n")
 		}
-- 
2.43.0


From 3c484d4a0695fe8998b53016741acd3ef065a3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:33 +0000
Subject: [PATCH 39/46] fix: the walk visits the tag of a variant part before
 its type

---
 ast/type_struc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/type_struc.go b/ast/type_struc.go
index 2b14e27..e40aa50 100644
--- a/ast/type_struc.go
+++ b/ast/type_struc.go
@@ -172,10 +172,11 @@ type VariantSection struct {
 var _ Node = (*VariantSection)(nil)
 
 func (m *VariantSection) Children() Nodes {
-	r := Nodes{m.TypeId}
+	r := Nodes{}
 	if m.Ident != nil {
 		r = append(r, m.Ident)
 	}
+	r = append(r, m.TypeId)
 	if m.RecVariants != nil {
 		r = append(r, m.RecVariants)
 	}
-- 
2.43.0


From 3521287766f6af0a05a264d95b1aaf22bc287df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:32 +0000
Subject: [PATCH 40/46] fix: an interface section may qualify its declarations
 with the name of its unit

---
 parser/pcontext/unit_context.go | 5 ++++-
 parser/unit_parser.go           | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/pcontext/unit_context.go b/parser/pcontext/unit_context.go
index 3e36f64..5c40224 100644
--- a/parser/pcontext/unit_context.go
+++ b/parser/pcontext/unit_context.go
@@ -45,7 +45,9 @@ func (c *UnitContext) Clone() Context {
 	}
 }
 
-func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) {
+// ImportUnitDecls makes the declarations of the used units visible.
+// It returns the map for the declarations of the unit itself, which hide them.
+func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) astcore.DeclMap {
 	c.AssignUnits(usesClause)
 	units := usesClause.Units().Compact()
 	// NewCompositeDeclMap は 先頭から最後に向かって検索するので、mapsにはその順序でDeclMapを追加する
@@ -54,6 +56,7 @@ func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) {
 	maps = append(maps, units.DeclMaps().Reverse()...)
 	maps = append(maps, c.DeclMap)
 	c.DeclMap = astcore.NewCompositeDeclMap(maps...)
+	return localMap
 }
 
 func (c *UnitContext) AssignUnits(usesClause ast.UsesClause) {
diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 744c1da..56f6a9a 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -141,7 +141,8 @@ func (p *UnitParser) ParseInterfaceSectionUses() (*ast.InterfaceSection, error)
 
 func (m *UnitParser) ProcessIntfBody() error {
 	// Import decls after resovling unit load order and parsing units which this unit uses.
-	m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
+	// The declarations so far can be qualified with the name of the unit.
+	m.Unit.DeclMap = m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
 
 	if err := m.context.Set(m.Unit); err != nil {
 		return err
-- 
2.43.0


From e6cfb583f098982686072189122c74ccc905db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:16 +0000
Subject: [PATCH 41/46] fix: units used by an implementation section hide the
 ones used by the interface section

---
 parser/unit_parser.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index 56f6a9a..adbc912 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -16,6 +16,8 @@ type UnitParser struct {
 	*Parser
 	context *UnitContext
 	Unit    *ast.Unit
+
+	intfLocalDeclMap astcore.DeclMap // Declarations of the interface section
 }
 
 func NewUnitParser(ctx *UnitContext) *UnitParser {
@@ -142,7 +144,8 @@ func (p *UnitParser) ParseInterfaceSectionUses() (*ast.InterfaceSection, error)
 func (m *UnitParser) ProcessIntfBody() error {
 	// Import decls after resovling unit load order and parsing units which this unit uses.
 	// The declarations so far can be qualified with the name of the unit.
-	m.Unit.DeclMap = m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
+	m.intfLocalDeclMap = m.context.ImportUnitDecls(m.Unit.InterfaceSection.UsesClause)
+	m.Unit.DeclMap = m.intfLocalDeclMap
 
 	if err := m.context.Set(m.Unit); err != nil {
 		return err
@@ -196,8 +199,16 @@ func (m *UnitParser) ProcessImplAndInit() error {
 	defer func() { m.Unit.DeclMap = originalUnitDeclMap }()
 
 	// Insert implLocalDeclMap to m.context.DeclMap
-	maps := []astcore.DeclMap{implLocalDeclMap, originalContextDeclMap}
+	// The units used by this section hide the ones used by the interface section and the embedded types
+	implUsesDeclMap := astcore.NewDeclMap()
+	for _, item := range m.Unit.ImplementationSection.UsesClause {
+		if err := implUsesDeclMap.Set(item); err != nil {
+			return err
+		}
+	}
+	maps := []astcore.DeclMap{implLocalDeclMap, implUsesDeclMap, m.intfLocalDeclMap}
 	maps = append(maps, unitsUsedByImpl.DeclMaps().Reverse()...)
+	maps = append(maps, originalContextDeclMap)
 	m.context.DeclMap = astcore.NewCompositeDeclMap(maps...)
 
 	if err := m.ParseImplBody(); err != nil {
-- 
2.43.0


From 92b76b85bf9e215ffd3209b7559df3bdd04d6fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:35 +0000
Subject: [PATCH 42/46] fix: the names of used units hide what the units export

---
 parser/pcontext/unit_context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/pcontext/unit_context.go b/parser/pcontext/unit_context.go
index 5c40224..1535a2a 100644
--- a/parser/pcontext/unit_context.go
+++ b/parser/pcontext/unit_context.go
@@ -52,7 +52,11 @@ func (c *UnitContext) ImportUnitDecls(usesClause ast.UsesClause) astcore.DeclMap
 	units := usesClause.Units().Compact()
 	// NewCompositeDeclMap は 先頭から最後に向かって検索するので、mapsにはその順序でDeclMapを追加する
 	localMap := astcore.NewDeclMap()
-	maps := []astcore.DeclMap{localMap}
+	usesMap := astcore.NewDeclMap()
+	for _, item := range usesClause {
+		usesMap.Overwrite(item.Ident.Name, astcore.NewDeclaration(item.Ident, item))
+	}
+	maps := []astcore.DeclMap{localMap, usesMap}
 	maps = append(maps, units.DeclMaps().Reverse()...)
 	maps = append(maps, c.DeclMap)
 	c.DeclMap = astcore.NewCompositeDeclMap(maps...)
-- 
2.43.0


From 50a10385475d7f96e26485a7354e7a87afb12abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:46 +0000
Subject: [PATCH 43/46] fix: a unit exports all elements of enumerated types of
 its interface section

---
 parser/unit_parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser/unit_parser.go b/parser/unit_parser.go
index adbc912..12e0264 100644
--- a/parser/unit_parser.go
+++ b/parser/unit_parser.go
@@ -175,6 +175,15 @@ func (p *UnitParser) ParseUnitIntfBody() error {
 			}
 			declMap.Set(declNode)
 		}
+		// The elements of enumerated types inside of other types and of variables are exported too.
+		if err := astcore.WalkDown(decl, func(n astcore.Node) error {
+			if element, ok := n.(*ast.EnumeratedTypeElement); ok && declMap.Get(element.Ident.Name) == nil {
+				return declMap.Set(element)
+			}
+			return nil
+		}); err != nil {
+			return err
+		}
 	}
 	p.Unit.DeclMap = declMap
 
-- 
2.43.0


From b4b9f1024c8d649e3b4ee278442c3f149053637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:46 +0000
Subject: [PATCH 44/46] fix: a type may be qualified with the name of its own
 unit or program

---
 parser/type.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/type.go b/parser/type.go
index dfbcd9c..28a4242 100644
--- a/parser/type.go
+++ b/parser/type.go
@@ -166,7 +166,7 @@ func (p *Parser) ParseTypeId() (*ast.TypeId, error) {
 }
 
 func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
-	if !p.IsUnitIdentifier(p.CurrentToken()) {
+	if !p.IsUnitIdentifier(p.CurrentToken()) && !p.IsNamespaceIdentifier(p.CurrentToken()) {
 		return nil, nil
 	}
 	unitId := ast.NewUnitId(p.CurrentToken())
@@ -179,8 +179,13 @@ func (p *Parser) parseTypeIdWithUnit() (*ast.TypeId, error) {
 	}
 	p.NextToken()
 	r := &ast.TypeId{UnitId: unitId, Ident: p.NewIdent(t)}
-	if item := p.context.Get(unitId.Name).Node.(*ast.UsesClauseItem); item.Unit != nil && item.Unit.DeclMap != nil {
-		r.Ref = item.Unit.DeclMap.Get(r.Ident.Name)
+	switch node := p.context.Get(unitId.Name).Node.(type) {
+	case *ast.UsesClauseItem:
+		if node.Unit != nil && node.Unit.DeclMap != nil {
+			r.Ref = node.Unit.DeclMap.Get(r.Ident.Name)
+		}
+	case ast.Namespace:
+		r.Ref = node.GetDeclMap().Get(r.Ident.Name)
 	}
 	return r, nil
 }
-- 
2.43.0


From 7269669545ff3e53441b2eebf3d7f3d371000529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:08 +0000
Subject: [PATCH 45/46] fix: the names of directives in an error are in a fixed
 order

---
 token/directives.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token/directives.go b/token/directives.go
index 09d48b7..72b82e3 100644
--- a/token/directives.go
+++ b/token/directives.go
@@ -16,7 +16,7 @@ func NewDirectivePredicator(nameSet ext.StringSet) *DirectivePredicator {
 }
 
 func (m *DirectivePredicator) Name() string {
-	return fmt.Sprintf("Directive(%s)", strings.Join(m.nameSet.Slice(), ","))
+	return fmt.Sprintf("Directive(%s)", m.nameSet.Slice().Sort().Join(","))
 }
 
 func (m *DirectivePredicator) Predicate(t *Token) bool {
-- 
2.43.0


From db6c6112860bb523edfe4b478211ebe696a2a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:09 +0000
Subject: [PATCH 46/46] fix: units are processed in a fixed order, so that the
 first error is always the same

---
 parser/unit_parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/unit_parsers.go b/parser/unit_parsers.go
index 9b4a3ff..c19da13 100644
--- a/parser/unit_parsers.go
+++ b/parser/unit_parsers.go
@@ -42,7 +42,7 @@ func (m UnitParsers) Map() map[string]*UnitParser {
 }
 
 func (m UnitParsers) Graph() *toposort.Graph {
-	unitNames := m.UnitNames().Slice()
+	unitNames := m.UnitNames().Slice().Sort()
 	graph := toposort.NewGraph(len(unitNames))
 	graph.AddNodes(unitNames...)
 
-- 
2.43.0

