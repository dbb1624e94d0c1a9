package main

import "strings"

// The reference grammar of the language the parser supports, with the AST each
// production stands for.  It is written from Grammer.md, the grammar comments in
// /repo/ast and the Object Pascal language definition.
var pascal = buildPascal()

func cat(k ...string) string { return strings.Join(k, "") }

func item(s string) string { return s + "," }

func buildPascal() *grammar {
	g := newGrammar()
	r := g.r

	// ---- expressions ----
	r("Expr", "SExpr RelRest", func(k []string) string {
		return nd("Expression", "SimpleExpression", k[0], "RelOpSimpleExpressions", lst(k[1]))
	})
	r("RelRest", "", nil)
	r("RelRest", "RelOp SExpr RelRest", func(k []string) string {
		return item(nd("RelOpSimpleExpression", "RelOp", k[0], "SimpleExpression", k[1])) + k[2]
	})
	for _, op := range []string{"=", "<>", "<", ">", "<=", ">=", "in", "is"} {
		r("RelOp", op, func(k []string) string { return strings.ToUpper(k[0]) })
	}
	r("SExpr", "Term AddRest", func(k []string) string {
		return nd("SimpleExpression", "Term", k[0], "AddOpTerms", lst(k[1]))
	})
	r("SExpr", "Sign Term AddRest", func(k []string) string {
		return nd("SimpleExpression", "UnaryOp", k[0], "Term", k[1], "AddOpTerms", lst(k[2]))
	})
	r("Sign", "-", nil)
	r("Sign", "+", nil)
	r("AddRest", "", nil)
	r("AddRest", "AddOp Term AddRest", func(k []string) string {
		return item(nd("AddOpTerm", "AddOp", k[0], "Term", k[1])) + k[2]
	})
	for _, op := range []string{"+", "-", "or", "xor"} {
		r("AddOp", op, func(k []string) string { return strings.ToUpper(k[0]) })
	}
	r("Term", "Factor MulRest", func(k []string) string {
		return nd("Term", "Factor", k[0], "MulOpFactors", lst(k[1]))
	})
	r("MulRest", "", nil)
	r("MulRest", "MulOp Factor MulRest", func(k []string) string {
		return item(nd("MulOpFactor", "MulOp", k[0], "Factor", k[1])) + k[2]
	})
	for _, op := range []string{"*", "/", "div", "mod", "and", "shl", "shr", "as"} {
		r("MulOp", op, func(k []string) string { return strings.ToUpper(k[0]) })
	}
	r("Factor", "Desig", func(k []string) string { return nd("DesignatorFactor", "Designator", k[0]) })
	r("Factor", "Desig ( ExprList )", func(k []string) string {
		return nd("DesignatorFactor", "Designator", k[0], "ExprList", lst(k[2]))
	})
	r("Factor", "Literal", nil)
	r("Factor", "( Expr )", func(k []string) string { return nd("Parentheses", "Expression", k[1]) })
	r("Factor", "not Factor", func(k []string) string { return nd("Not", "Factor", k[1]) })
	r("Factor", "@ Desig", func(k []string) string { return nd("Address", "Designator", k[1]) })
	r("Factor", "nil", func(k []string) string { return "Nil{}" })
	r("Factor", "true", func(k []string) string { return nd("ValueFactor", "Value", k[0]) })
	r("Factor", "false", func(k []string) string { return nd("ValueFactor", "Value", k[0]) })
	r("Factor", "[ SetElems ]", func(k []string) string { return nd("SetConstructor", "SetElements", lst(k[1])) })
	r("Factor", "Integer ( Expr )", func(k []string) string {
		return nd("TypeCast", "TypeId", nd("TypeId", "Ident", k[0]), "Expression", k[2])
	})
	r("Literal", "$n", func(k []string) string { return nd("NumberFactor", "Value", k[0]) })
	r("Literal", "$r", func(k []string) string { return nd("NumberFactor", "Value", k[0]) })
	r("Literal", "$g", func(k []string) string { return nd("NumberFactor", "Value", k[0]) })
	r("Literal", "$s", func(k []string) string { return nd("StringFactor", "Value", k[0]) })
	r("SetElems", "", nil)
	r("SetElems", "SetElemList", nil)
	r("SetElemList", "SetElem", func(k []string) string { return item(k[0]) })
	r("SetElemList", "SetElem , SetElemList", func(k []string) string { return item(k[0]) + k[2] })
	r("SetElem", "Expr", func(k []string) string { return nd("SetElement", "Expression", k[0]) })
	r("SetElem", "Expr .. Expr", func(k []string) string {
		return nd("SetElement", "Expression", k[0], "SubRangeEnd", k[2])
	})
	r("ExprList", "Expr", func(k []string) string { return item(k[0]) })
	r("ExprList", "Expr , ExprList", func(k []string) string { return item(k[0]) + k[2] })
	r("QualId", "$i", func(k []string) string { return nd("QualId", "Ident", nd("IdentRef", "Ident", k[0])) })
	r("QualId", "$U . $a", nil, fMaybe)
	r("Desig", "QualId DItems", func(k []string) string {
		return nd("Designator", "QualId", k[0], "Items", lst(k[1]))
	})
	r("DItems", "", nil)
	r("DItems", "DItem DItems", func(k []string) string { return item(k[0]) + k[1] })
	r("DItem", ". $a", func(k []string) string { return nd("DesignatorItemIdent", "Ident", k[1]) })
	r("DItem", "[ ExprList ]", func(k []string) string { return lst(k[1]) })
	r("DItem", "^", func(k []string) string { return "DesignatorItemDereference{}" })
	// an expression that starts with a literal (the low bound of a subrange)
	r("LitExpr", "LitFactor MulRest AddRest RelRest", func(k []string) string {
		t := nd("Term", "Factor", k[0], "MulOpFactors", lst(k[1]))
		s := nd("SimpleExpression", "Term", t, "AddOpTerms", lst(k[2]))
		return nd("Expression", "SimpleExpression", s, "RelOpSimpleExpressions", lst(k[3]))
	})
	r("LitFactor", "Literal", nil)

	// ---- types ----
	r("Type", "TypeName", nil)
	r("Type", "string", func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	r("Type", "string [ Expr ]", func(k []string) string {
		return nd("FixedStringType", "StringType", nd("TypeId", "Ident", k[0]), "Length", k[2])
	})
	r("Type", "Subrange", nil)
	r("Type", "Enum", nil)
	r("Type", "^ TypeId", func(k []string) string { return nd("CustomPointerType", "TypeId", k[1]) })
	r("Type", "Struc", func(k []string) string { return strucDump(k[0], false) })
	r("Type", "packed Struc", func(k []string) string { return strucDump(k[1], true) })
	r("Type", "ProcType", nil)
	r("Type", "class of ClassName", func(k []string) string { return nd("CustomClassRefType", "TypeId", k[2]) })
	// a type that an '=' may follow
	r("CType", "TypeName", nil)
	r("CType", "string", func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	r("CType", "string [ Expr ]", func(k []string) string {
		return nd("FixedStringType", "StringType", nd("TypeId", "Ident", k[0]), "Length", k[2])
	})
	r("CType", "Enum", nil)
	r("CType", "^ TypeId", func(k []string) string { return nd("CustomPointerType", "TypeId", k[1]) })
	r("CType", "array [ OrdList ] of CType", func(k []string) string {
		return nd("ArrayType", "IndexTypes", lst(k[2]), "BaseType", k[5])
	})
	r("CType", "set of EOrd", func(k []string) string { return nd("SetType", "OrdinalType", k[2]) })
	r("CType", "record FieldList end", func(k []string) string { return nd("RecType", "FieldList", k[1]) })
	r("CType", "ProcType", nil)
	r("CType", "CTypeMore", nil, fMaybe)
	r("CTypeMore", "array of CType", nil, fMaybe)
	r("CTypeMore", "packed CTypeMore2", nil, fMaybe)
	r("CTypeMore", "CTypeMore2", nil, fMaybe)
	r("CTypeMore2", "array [ OrdList ] of CType", nil, fMaybe)
	r("CTypeMore2", "array of CType", nil, fMaybe)
	r("CTypeMore2", "array [ OrdList ] of CType packed", nil, fMaybe)
	r("CTypeMore2", "array of CType packed", nil, fMaybe)
	r("CTypeMore2", "set of EOrd", nil, fMaybe)
	r("CTypeMore2", "set of ROrd", nil, fMaybe)
	r("CTypeMore2", "record FieldList end", nil, fMaybe)
	r("CTypeMore2", "file of TypeId", nil, fMaybe)
	r("CTypeMore", "class of ClassName", nil, fMaybe)
	r("CTypeMore", "ClassBody", nil, fMaybe)
	r("CTypeMore", "class", nil, fMaybe)
	r("TypeName", "Integer", func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	r("TypeName", "$t", func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	r("TypeName", "$u . $t", func(k []string) string { return nd("TypeId", "UnitId", k[0], "Ident", k[2]) })
	for _, e := range []string{"real", "pointer", "variant", "widestring", "pchar"} {
		r("TypeName", e, func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	}
	r("ClassName", "$t", func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	r("ClassName", "$u . $t", func(k []string) string { return nd("TypeId", "UnitId", k[0], "Ident", k[2]) })
	r("TypeId", "TypeName", nil)
	r("TypeId", "string", func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	r("Subrange", "LitExpr .. Expr", func(k []string) string { return nd("SubrangeType", "Low", k[0], "High", k[2]) })
	r("Subrange", "$i .. Expr", func(k []string) string {
		return nd("SubrangeType", "Low", exprOfIdent(k[0]), "High", k[2])
	})
	r("Enum", "( EnumElems )", func(k []string) string { return lst(k[1]) })
	r("EnumElems", "EnumElem", func(k []string) string { return item(k[0]) })
	r("EnumElems", "EnumElem , EnumElems", func(k []string) string { return item(k[0]) + k[2] })
	r("EnumElem", "$d", func(k []string) string { return nd("EnumeratedTypeElement", "Ident", k[0]) })
	r("EnumElem", "$d = Expr", func(k []string) string {
		return nd("EnumeratedTypeElement", "Ident", k[0], "ConstExpr", k[2])
	})
	r("EOrd", "OrdName", nil)
	r("EOrd", "Enum", nil)
	r("ROrd", "$t", nil, fMaybe)
	r("ROrd", "$u . $t", nil, fMaybe)
	r("Ord", "OrdName", nil)
	r("Ord", "Enum", nil)
	r("Ord", "Subrange", nil)
	r("Ord", "$t", nil, fMaybe)
	r("Ord", "$u . $t", nil, fMaybe)
	r("OrdName", "Integer", func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	r("OrdName", "byte", func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	r("OrdName", "boolean", func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	r("OrdList", "Ord", func(k []string) string { return item(k[0]) })
	r("OrdList", "Ord , OrdList", func(k []string) string { return item(k[0]) + k[2] })
	r("Struc", "array of Type", func(k []string) string { return nd("ArrayType", "BaseType", k[2]) })
	r("Struc", "array [ OrdList ] of Type", func(k []string) string {
		return nd("ArrayType", "IndexTypes", lst(k[2]), "BaseType", k[5])
	})
	r("Struc", "array of Type packed", nil, fMaybe)
	r("Struc", "array [ OrdList ] of Type packed", nil, fMaybe)
	r("Struc", "set of Ord", func(k []string) string { return nd("SetType", "OrdinalType", k[2]) })
	r("Struc", "file of TypeId", func(k []string) string { return nd("FileType", "TypeId", k[2]) })
	r("Struc", "record FieldList end", func(k []string) string { return nd("RecType", "FieldList", k[1]) })
	r("FieldList", "Fields", func(k []string) string { return nd("FieldList", "FieldDecls", lst(k[0])) })
	r("FieldList", "", func(k []string) string { return "FieldList{}" })
	r("FieldList", "Fields ;", func(k []string) string { return nd("FieldList", "FieldDecls", lst(k[0])) })
	r("FieldList", "Fields ; VariantPart", func(k []string) string {
		return nd("FieldList", "FieldDecls", lst(k[0]), "VariantSection", k[2])
	})
	r("FieldList", "VariantPart", func(k []string) string { return nd("FieldList", "VariantSection", k[0]) })
	r("Fields", "Field", func(k []string) string { return item(k[0]) })
	r("Fields", "Field ; Fields", func(k []string) string { return item(k[0]) + k[2] })
	r("Field", "Names : Type", func(k []string) string {
		return nd("FieldDecl", "IdentList", lst(k[0]), "Type", k[2])
	})
	r("Names", "$d", func(k []string) string { return item(k[0]) })
	r("Names", "$d , Names", func(k []string) string { return item(k[0]) + k[2] })
	r("VariantPart", "case OrdName of RecVariants", func(k []string) string {
		return nd("VariantSection", "TypeId", k[1], "RecVariants", lst(k[3]))
	})
	r("VariantPart", "case $d : Ord of RecVariants", func(k []string) string {
		return nd("VariantSection", "Ident", k[1], "TypeId", k[3], "RecVariants", lst(k[5]))
	})
	r("VariantPart", "case $t of RecVariants", nil, fMaybe)
	r("VariantPart", "case $u . $t of RecVariants", nil, fMaybe)
	r("VariantPart", "case $i .. Expr of RecVariants", nil, fMaybe)
	r("RecVariants", "RecVariant", func(k []string) string { return item(k[0]) })
	r("RecVariants", "RecVariant ;", func(k []string) string { return item(k[0]) })
	r("RecVariants", "RecVariant ; RecVariants", func(k []string) string { return item(k[0]) + k[2] })
	r("RecVariants", "", nil, fMaybe)
	r("RecVariant", "ExprList : ( FieldList )", func(k []string) string {
		return nd("RecVariant", "ConstExprs", lst(k[0]), "FieldList", k[3])
	})
	r("ProcType", "procedure ParamsOpt OfObject", func(k []string) string {
		return nd("ProcedureType", "FormalParameters", k[1], "OfObject", k[2])
	})
	r("ProcType", "function ParamsOpt : TypeId OfObject", func(k []string) string {
		return nd("ProcedureType", "FunctionType", "1", "FormalParameters", k[1], "ReturnType", k[3], "OfObject", k[4])
	})
	r("OfObject", "", nil)
	r("OfObject", "of object", func(k []string) string { return "true" })

	// ---- classes ----
	r("ClassBody", "class Heritage Members end", func(k []string) string {
		return nd("CustomClassType", "Heritage", lst(k[1]), "Members", lst(k[2]))
	})
	r("ClassBody", "class ( HeritageList )", nil, fMaybe)
	r("Heritage", "", nil)
	r("Heritage", "( HeritageList )", func(k []string) string { return k[1] })
	r("HeritageList", "ClassName", func(k []string) string { return item(k[0]) })
	r("HeritageList", "ClassName , HeritageList", func(k []string) string { return item(k[0]) + k[2] })
	r("HeritageList", "Integer", nil, fMaybe)
	r("HeritageList", "string", nil, fMaybe)
	r("HeritageList", "Integer , HeritageList", nil, fMaybe)
	r("HeritageList", "string , HeritageList", nil, fMaybe)
	r("Members", "", nil)
	r("Members", "FirstSection Sections", func(k []string) string { return k[0] + k[1] })
	r("Sections", "", nil)
	r("Sections", "Section Sections", func(k []string) string { return k[0] + k[1] })
	sec := func(vis, f, m, p string) string {
		return item(nd("ClassMemberSection", "Visibility", vis, "ClassFieldList", lst(f), "ClassMethodList", lst(m), "ClassPropertyList", lst(p)))
	}
	r("FirstSection", "CFields Methods Props", func(k []string) string { return sec("DEFAULT", k[0], k[1], k[2]) })
	r("FirstSection", "Method Methods Props", func(k []string) string { return sec("DEFAULT", "", item(k[0])+k[1], k[2]) })
	r("FirstSection", "Prop Props", func(k []string) string { return sec("DEFAULT", "", "", item(k[0])+k[1]) })
	r("FirstSection", "Section", nil)
	r("Section", "Vis CFieldsOpt Methods Props", func(k []string) string {
		return sec(strings.ToUpper(k[0]), k[1], k[2], k[3])
	})
	for _, v := range []string{"public", "private", "protected", "published"} {
		r("Vis", v, nil)
	}
	r("CFieldsOpt", "", nil)
	r("CFieldsOpt", "CFields", nil)
	r("CFields", "CField ;", func(k []string) string { return item(k[0]) })
	r("CFields", "CField ; CFields", func(k []string) string { return item(k[0]) + k[2] })
	r("CFields", "CField", nil, fMaybe)
	r("CField", "MNames : Type", func(k []string) string {
		return nd("ClassField", "IdentList", lst(k[0]), "Type", k[2])
	})
	r("MNames", "$f", func(k []string) string { return item(k[0]) })
	r("MNames", "$f , MNames", func(k []string) string { return item(k[0]) + k[2] })
	r("Methods", "", nil)
	r("Methods", "Method Methods", func(k []string) string { return item(k[0]) + k[1] })
	r("Method", "MHeading ; MDirs", func(k []string) string {
		return nd("ClassMethod", "Heading", k[0], "Directives", lst(k[2]))
	})
	r("Method", "MHeading MDirs", nil, fMaybe)
	r("Method", "MHeading ; MDirs ;", nil, fMaybe)
	r("Method", "MHeading MDirs ;", nil, fMaybe)
	r("Method", "MHeading ; MDirs MDir", nil, fMaybe)
	r("Method", "MHeading MDirs MDir", nil, fMaybe)
	r("MDirs", "", nil)
	r("MDirs", "MDir ; MDirs", func(k []string) string { return item(k[0]) + k[2] })
	for _, d := range []string{"virtual", "abstract", "override", "overload", "reintroduce"} {
		r("MDir", d, func(k []string) string { return strings.ToUpper(k[0]) })
	}
	r("MHeading", "procedure $f ParamsOpt", func(k []string) string {
		return nd("FunctionHeading", "Ident", k[1], "FormalParameters", k[2])
	})
	r("MHeading", "function $f ParamsOpt : TypeId", func(k []string) string {
		return nd("FunctionHeading", "Type", "1", "Ident", k[1], "FormalParameters", k[2], "ReturnType", k[4])
	})
	r("MHeading", "constructor $f ParamsOpt", func(k []string) string {
		return nd("ConstructorHeading", "Ident", k[1], "FormalParameters", k[2])
	})
	r("MHeading", "destructor $f", func(k []string) string { return nd("DestructorHeading", "Ident", k[1]) })
	r("Props", "", nil)
	r("Props", "Prop Props", func(k []string) string { return item(k[0]) + k[1] })
	r("Prop", "property $d PIntf PIndex PRead PWrite PStored PDefault PImpl ;", func(k []string) string {
		return nd("ClassProperty", "Ident", k[1], "Interface", k[2], "Index", k[3], "Read", k[4], "Write", k[5], "Stored", k[6], "Default", k[7], "Implements", k[8])
	})
	r("Prop", "property $d PIntf PIndex PRead PWrite PStored PDefault PImpl", nil, fMaybe)
	r("PIntf", ": TypeId", func(k []string) string { return nd("PropertyInterface", "Type", k[1]) })
	r("PIntf", "", nil)
	r("PIntf", "[ Params ] : TypeId", func(k []string) string {
		return nd("PropertyInterface", "Parameters", lst(k[1]), "Type", k[4])
	})
	r("PIntf", "[ ] : TypeId", nil, fMaybe)
	r("PIndex", "", nil)
	r("PIndex", "index Expr", func(k []string) string { return k[1] })
	r("PRead", "", nil)
	r("PRead", "read $m", func(k []string) string { return nd("IdentRef", "Ident", k[1]) })
	r("PWrite", "", nil)
	r("PWrite", "write $m", func(k []string) string { return nd("IdentRef", "Ident", k[1]) })
	r("PStored", "", nil)
	r("PStored", "stored true", func(k []string) string { return nd("PropertyStoredSpecifier", "Constant", "true") })
	r("PStored", "stored false", func(k []string) string { return nd("PropertyStoredSpecifier", "Constant", "false") })
	r("PStored", "stored $m", func(k []string) string {
		return nd("PropertyStoredSpecifier", "IdentRef", nd("IdentRef", "Ident", k[1]))
	})
	r("PDefault", "", nil)
	r("PDefault", "default Expr", func(k []string) string { return nd("PropertyDefaultSpecifier", "Value", k[1]) })
	r("PDefault", "nodefault", func(k []string) string { return nd("PropertyDefaultSpecifier", "NoDefault", "true") })
	r("PImpl", "", nil)
	r("PImpl", "implements ClassName", func(k []string) string { return k[1] })
	r("PImpl", "implements Integer", nil, fMaybe)
	r("PImpl", "implements string", nil, fMaybe)

	// ---- routines ----
	r("ParamsOpt", "", nil)
	r("ParamsOpt", "( Params )", func(k []string) string { return lst(k[1]) })
	r("ParamsOpt", "( )", func(k []string) string { return "" })
	r("Params", "Param", func(k []string) string { return item(k[0]) })
	r("Params", "Param ; Params", func(k []string) string { return item(k[0]) + k[2] })
	par := func(opt, names, typ, def string) string {
		return nd("FormalParm", "Opt", strings.ToUpper(opt), "Parameter", nd("Parameter", "IdentList", lst(names), "Type", typ, "ConstExpr", def))
	}
	r("Param", "Names : PType", func(k []string) string { return par("", k[0], k[2], "") })
	r("Param", "PMode Names : PType", func(k []string) string { return par(k[0], k[1], k[3], "") })
	r("Param", "PMode Names", func(k []string) string { return par(k[0], k[1], "", "") })
	r("Param", "Names : PDType = Expr", func(k []string) string { return par("", k[0], k[2], k[4]) })
	r("Param", "const Names : PDType = Expr", func(k []string) string { return par(k[0], k[1], k[3], k[5]) })
	r("Param", "Names", nil, fMaybe)
	r("Param", "Names = Expr", nil, fMaybe)
	r("Param", "PMode Names = Expr", nil, fMaybe)
	r("Param", "PMode Names : PDType = Expr", nil, fMaybe)
	r("Param", "Names : Type", nil, fMaybe)
	r("Param", "PMode Names : Type", nil, fMaybe)
	r("Param", "PMode Names : array of Type", nil, fMaybe)
	r("Param", "Names : array of Type", nil, fMaybe)
	r("Param", "Names : ClassBody", nil, fMaybe)
	r("Param", "PMode Names : ClassBody", nil, fMaybe)
	for _, m := range []string{"var", "const", "out"} {
		r("PMode", m, nil)
	}
	r("PType", "TypeId", func(k []string) string { return nd("ParameterType", "Type", k[0]) })
	r("PType", "array of TypeId", func(k []string) string {
		return nd("ParameterType", "IsArray", "true", "Type", k[2])
	})
	r("PType", "array of const", func(k []string) string { return nd("ParameterType", "IsArray", "true") })
	r("PDType", "TypeId", func(k []string) string { return nd("ParameterType", "Type", k[0]) })
	r("PDType", "array of CType", nil, fMaybe)
	r("PDType", "array of const", nil, fMaybe)
	r("PDType", "CType", nil, fMaybe)
	r("Heading", "procedure $d ParamsOpt", func(k []string) string {
		return nd("FunctionHeading", "Ident", k[1], "FormalParameters", k[2])
	})
	r("Heading", "function $d ParamsOpt : TypeId", func(k []string) string {
		return nd("FunctionHeading", "Type", "1", "Ident", k[1], "FormalParameters", k[2], "ReturnType", k[4])
	})
	r("Routine", "Heading ; Dirs Block ;", func(k []string) string {
		d, _ := splitDirs(k[2])
		return item(nd("FunctionDecl", "FunctionHeading", k[0], "Directives", lst(d), "Block", k[3]))
	})
	r("Routine", "Heading ; Dirs NoBlockDirs", func(k []string) string {
		d, _ := splitDirs(k[2])
		d2, ext := splitDirs(k[3])
		return item(nd("FunctionDecl", "FunctionHeading", k[0], "Directives", lst(d+d2), "ExternalOptions", ext, "Block", "Block{}"))
	})
	r("Routine", "Heading ; Dirs Block", nil, fMaybe)
	r("Routine", "Heading ; Dirs LaxBlock", nil, fMaybe)
	r("Routine", "Heading ; Dirs LaxBlock ;", nil, fMaybe)
	r("LaxBlock", "Decls Exports", nil, fMaybe)
	r("Dirs", "", nil)
	r("Dirs", "Dir ; Dirs", func(k []string) string { return item(k[0]) + k[2] })
	for _, d := range []string{"stdcall", "cdecl", "overload", "register", "pascal", "safecall", "export", "far", "near", "local", "varargs", "dynamic", "override", "reintroduce", "abstract"} {
		r("Dir", d, func(k []string) string { return strings.ToUpper(k[0]) })
	}
	for _, d := range []string{"message", "name", "index"} {
		r("Dir", d, nil, fMaybe)
	}
	r("NoBlockDirs", "forward ; Dirs", func(k []string) string { return item("FORWARD") + k[2] })
	r("NoBlockDirs", "External ; Dirs", func(k []string) string {
		return item("EXTERNAL") + k[2] + "|" + k[0]
	})
	r("NoBlockDirs", "forward ; Dirs NoBlockDirs", nil, fMaybe)
	r("NoBlockDirs", "External ; Dirs NoBlockDirs", nil, fMaybe)
	r("External", "external", func(k []string) string { return "" })
	r("External", "external $s", func(k []string) string { return nd("ExternalOptions", "LibraryName", k[1]) })
	r("External", "external $s name $s", func(k []string) string {
		return nd("ExternalOptions", "LibraryName", k[1], "Name", k[3])
	})
	r("External", "external $s index $n", func(k []string) string {
		return nd("ExternalOptions", "LibraryName", k[1], "Index", k[3])
	})
	r("External", "external $s index $g", nil, fMaybe)

	// ---- blocks and sections ----
	r("Block", "Decls Exports Body Exports", func(k []string) string {
		return nd("Block", "DeclSections", lst(k[0]), "ExportsStmts1", lst(k[1]), "Body", k[2], "ExportsStmts2", lst(k[3]))
	})
	r("Body", "Compound", nil)
	r("Body", "Asm", nil)
	r("Compound", "begin StmtList end", func(k []string) string { return nd("CompoundStmt", "StmtList", lst(k[1])) })
	r("Decls", "", nil)
	r("Decls", "Decl Decls", func(k []string) string { return k[0] + k[1] })
	r("Decls", "Decl ; Decls", nil, fMaybe)
	r("Decl", "VarSec", func(k []string) string { return item(k[0]) })
	r("Decl", "ConstSec", func(k []string) string { return item(k[0]) })
	r("Decl", "TypeSec", func(k []string) string { return item(k[0]) })
	r("Decl", "ThreadVarSec", func(k []string) string { return item(k[0]) })
	r("Decl", "Routine", nil)
	r("Decl", "label $d ;", func(k []string) string { return item(nd("LabelDeclSection", "LabelId", k[1])) })
	r("ConstSec", "const ConstDecls", func(k []string) string { return lst(k[1]) })
	r("ConstDecls", "ConstDecl ;", func(k []string) string { return item(k[0]) })
	r("ConstDecls", "ConstDecl ; ConstDecls", func(k []string) string { return item(k[0]) + k[2] })
	r("ConstDecl", "$d = Expr", func(k []string) string { return nd("ConstantDecl", "Ident", k[0], "ConstExpr", k[2]) })
	r("ConstDecl", "$d : CType = Expr", func(k []string) string {
		return nd("ConstantDecl", "Ident", k[0], "Type", k[2], "ConstExpr", k[4])
	})
	r("TypeSec", "type TypeDecls", func(k []string) string { return lst(k[1]) })
	r("TypeDecls", "TypeDecl ;", func(k []string) string { return item(k[0]) })
	r("TypeDecls", "TypeDecl ; TypeDecls", func(k []string) string { return item(k[0]) + k[2] })
	r("TypeDecls", "TypeDecl", nil, fMaybe)
	td := func(id, typ, port string) string {
		return nd("TypeDecl", "Ident", id, "Type", typ, "PortabilityDirective", port)
	}
	r("TypeDecl", "$d = Type Port", func(k []string) string { return td(k[0], k[2], k[3]) })
	r("TypeDecl", "$d = type Type Port", func(k []string) string { return td(k[0], k[3], k[4]) })
	r("TypeDecl", "$d = ClassBody Port", func(k []string) string { return td(k[0], k[2], k[3]) })
	r("TypeDecl", "$d = class ( HeritageList )", func(k []string) string {
		return td(k[0], nd("CustomClassType", "Heritage", lst(k[4])), "")
	})
	r("TypeDecl", "$d = class", func(k []string) string { return td(k[0], "ForwardDeclaredClassType{}", "") })
	r("TypeDecl", "$d = type ClassBody Port", nil, fMaybe)
	r("TypeDecl", "$d = type class", nil, fMaybe)
	r("Port", "", nil)
	for _, d := range []string{"platform", "deprecated", "library"} {
		r("Port", d, func(k []string) string { return strings.ToUpper(k[0]) })
	}
	r("VarSec", "var VarDecls", func(k []string) string { return lst(k[1]) })
	r("VarDecls", "VarDecl ;", func(k []string) string { return item(k[0]) })
	r("VarDecls", "VarDecl ; VarDecls", func(k []string) string { return item(k[0]) + k[2] })
	r("VarDecls", "VarDecl", nil, fMaybe)
	r("VarDecl", "Names : Type", func(k []string) string {
		return nd("VarDecl", "IdentList", lst(k[0]), "Type", k[2])
	})
	r("VarDecl", "Names : Type absolute $i", func(k []string) string {
		return nd("VarDecl", "IdentList", lst(k[0]), "Type", k[2], "Absolute", "Absolute "+k[4])
	})
	r("VarDecl", "Names : CType = Expr", func(k []string) string {
		return nd("VarDecl", "IdentList", lst(k[0]), "Type", k[2], "ConstExpr", k[4])
	})
	r("VarDecl", "Names : Type absolute $i = Expr", nil, fMaybe)
	r("VarDecl", "Names : ClassAny", nil, fMaybe)
	r("ClassAny", "ClassBody", nil, fMaybe)
	r("Type", "ClassBody", nil, fMaybe)
	r("Type", "class", nil, fMaybe)
	r("ThreadVarSec", "threadvar ThreadVarDecls", func(k []string) string { return lst(k[1]) })
	r("ThreadVarDecls", "ThreadVarDecl ;", func(k []string) string { return item(k[0]) })
	r("ThreadVarDecls", "ThreadVarDecl ; ThreadVarDecls", func(k []string) string { return item(k[0]) + k[2] })
	r("ThreadVarDecl", "Names : Type", func(k []string) string {
		return nd("ThreadVarDecl", "IdentList", lst(k[0]), "Type", k[2])
	})
	r("Exports", "", nil)
	r("Exports", "ExportsStmt Exports", func(k []string) string { return item(k[0]) + k[1] })
	r("ExportsStmt", "exports ExportsItems ;", func(k []string) string { return nd("ExportsStmt", "ExportsItems", lst(k[1])) })
	r("ExportsItems", "ExportsItem", func(k []string) string { return item(k[0]) })
	r("ExportsItems", "ExportsItem , ExportsItems", func(k []string) string { return item(k[0]) + k[2] })
	r("ExportsItem", "$a", func(k []string) string { return nd("ExportsItem", "Ident", k[0]) })
	r("ExportsItem", "$a name Expr", func(k []string) string { return nd("ExportsItem", "Ident", k[0], "Name", k[2]) })
	r("ExportsItem", "$a index Expr", func(k []string) string { return nd("ExportsItem", "Ident", k[0], "Index", k[2]) })

	// ---- statements ----
	r("StmtList", "", nil)
	r("StmtList", "NEStmt", func(k []string) string { return item(k[0]) })
	r("StmtList", "Stmt ; StmtList", func(k []string) string { return item(k[0]) + k[2] })
	st := func(label, body string) string { return nd("Statement", "LabelId", label, "Body", body) }
	r("NEStmt", "SBody", func(k []string) string { return st("", k[0]) })
	r("NEStmt", "$l : SBody", func(k []string) string { return st(k[0], k[2]) })
	r("NEStmt", "$l :", func(k []string) string { return st(k[0], "") })
	r("Stmt", "NEStmt", nil)
	r("Stmt", "", func(k []string) string { return "Statement{}" })
	r("MStmt", "MSBody", func(k []string) string { return st("", k[0]) })
	r("MStmt", "", func(k []string) string { return "Statement{}" })
	r("MStmt", "$l : MSBody", func(k []string) string { return st(k[0], k[2]) })
	r("MStmt", "$l :", func(k []string) string { return st(k[0], "") })
	for _, m := range []struct{ b, s string }{{"SBody", "Stmt"}, {"MSBody", "MStmt"}} {
		r(m.b, "Closed", nil)
		if m.s == "Stmt" {
			r(m.b, "if Expr then Stmt", func(k []string) string { return nd("IfStmt", "Condition", k[1], "Then", k[3]) })
		}
		r(m.b, "if Expr then MStmt else "+m.s, func(k []string) string {
			return nd("IfStmt", "Condition", k[1], "Then", k[3], "Else", k[5])
		})
		r(m.b, "while Expr do "+m.s, func(k []string) string { return nd("WhileStmt", "Condition", k[1], "Statement", k[3]) })
		r(m.b, "for QualId := Expr to Expr do "+m.s, func(k []string) string {
			return nd("ForStmt", "QualId", k[1], "Initial", k[3], "Terminal", k[5], "Statement", k[7])
		})
		r(m.b, "for QualId := Expr downto Expr do "+m.s, func(k []string) string {
			return nd("ForStmt", "QualId", k[1], "Initial", k[3], "Terminal", k[5], "Down", "true", "Statement", k[7])
		})
		r(m.b, "with QualIds do "+m.s, func(k []string) string {
			return nd("WithStmt", "Objects", lst(k[1]), "Statement", k[3])
		})
	}
	r("QualIds", "QualId", func(k []string) string { return item(k[0]) })
	r("QualIds", "QualId , QualIds", func(k []string) string { return item(k[0]) + k[2] })
	r("Closed", "Desig", func(k []string) string { return nd("CallStatement", "Designator", k[0]) })
	r("Closed", "Desig := Expr", func(k []string) string {
		return nd("AssignStatement", "Designator", k[0], "Expression", k[2])
	})
	r("Closed", "Desig ( )", func(k []string) string { return nd("CallStatement", "Designator", k[0]) })
	r("Closed", "Desig ( ExprList )", func(k []string) string {
		return nd("CallStatement", "Designator", k[0], "ExprList", lst(k[2]))
	})
	r("Closed", "Integer", nil, fMaybe)
	r("Closed", "inherited", func(k []string) string { return "InheritedStatement{}" })
	r("Closed", "goto $l", func(k []string) string { return nd("GotoStatement", "LabelId", k[1]) })
	r("Closed", "goto $a", nil, fLax)
	r("Closed", "Compound", nil)
	r("Closed", "case Expr of CaseSels end", func(k []string) string {
		return nd("CaseStmt", "Expression", k[1], "Selectors", lst(k[3]))
	})
	r("Closed", "case Expr of CaseSelsM else StmtList end", func(k []string) string {
		return nd("CaseStmt", "Expression", k[1], "Selectors", lst(k[3]), "Else", lst(k[5]))
	})
	r("CaseSels", "CaseSel", func(k []string) string { return item(k[0]) })
	r("CaseSels", "CaseSel ;", func(k []string) string { return item(k[0]) })
	r("CaseSels", "CaseSel ; CaseSels", func(k []string) string { return item(k[0]) + k[2] })
	r("CaseSelsM", "CaseSel ;", func(k []string) string { return item(k[0]) })
	r("CaseSelsM", "MCaseSel", func(k []string) string { return item(k[0]) })
	r("CaseSelsM", "CaseSel ; CaseSelsM", func(k []string) string { return item(k[0]) + k[2] })
	r("CaseSel", "CaseLabels : Stmt", func(k []string) string {
		return nd("CaseSelector", "Labels", lst(k[0]), "Statement", k[2])
	})
	r("MCaseSel", "CaseLabels : MStmt", func(k []string) string {
		return nd("CaseSelector", "Labels", lst(k[0]), "Statement", k[2])
	})
	r("CaseLabels", "CaseLabel", func(k []string) string { return item(k[0]) })
	r("CaseLabels", "CaseLabel , CaseLabels", func(k []string) string { return item(k[0]) + k[2] })
	r("CaseLabel", "Expr", func(k []string) string { return nd("CaseLabel", "ConstExpr", k[0]) })
	r("CaseLabel", "Expr .. Expr", func(k []string) string {
		return nd("CaseLabel", "ConstExpr", k[0], "ExtraConstExpr", k[2])
	})
	r("Closed", "repeat StmtList until Expr", func(k []string) string {
		return nd("RepeatStmt", "StmtList", lst(k[1]), "Condition", k[3])
	})
	r("Closed", "try StmtList except StmtList end", func(k []string) string {
		return nd("TryExceptStmt", "Statements", lst(k[1]), "ExceptionBlock", nd("ExceptionBlock", "Else", lst(k[3])))
	})
	r("Closed", "try StmtList except Handlers end", func(k []string) string {
		return nd("TryExceptStmt", "Statements", lst(k[1]), "ExceptionBlock", nd("ExceptionBlock", "Handlers", lst(k[3])))
	})
	r("Closed", "try StmtList except HandlersM else StmtList end", func(k []string) string {
		return nd("TryExceptStmt", "Statements", lst(k[1]), "ExceptionBlock", nd("ExceptionBlock", "Handlers", lst(k[3]), "Else", lst(k[5])))
	})
	r("Closed", "try StmtList finally StmtList end", func(k []string) string {
		return nd("TryFinallyStmt", "Statements1", lst(k[1]), "Statements2", lst(k[3]))
	})
	r("Handlers", "Handler ;", func(k []string) string { return item(k[0]) })
	r("Handlers", "Handler", func(k []string) string { return item(k[0]) })
	r("Handlers", "Handler ; Handlers", func(k []string) string { return item(k[0]) + k[2] })
	r("Handlers", "Handler ; ;", nil, fMaybe)
	r("Handlers", "Handler Handlers", nil, fMaybe)
	r("HandlersM", "Handler ;", func(k []string) string { return item(k[0]) })
	r("HandlersM", "MHandler", func(k []string) string { return item(k[0]) })
	r("HandlersM", "Handler ; HandlersM", func(k []string) string { return item(k[0]) + k[2] })
	r("HandlersM", "Handler HandlersM", nil, fMaybe)
	for _, m := range []struct{ h, s string }{{"Handler", "Stmt"}, {"MHandler", "MStmt"}} {
		r(m.h, "on HType do "+m.s, func(k []string) string {
			return nd("ExceptionBlockHandler", "Decl", nd("ExceptionBlockHandlerDecl", "Type", k[1]), "Statement", k[3])
		})
		r(m.h, "on $d : Type do "+m.s, func(k []string) string {
			return nd("ExceptionBlockHandler", "Decl", nd("ExceptionBlockHandlerDecl", "Ident", k[1], "Type", k[3]), "Statement", k[5])
		})
		r(m.h, "on Type do "+m.s, nil, fMaybe)
	}
	r("HType", "Integer", func(k []string) string { return nd("TypeId", "Ident", k[0]) })
	r("Closed", "raise", func(k []string) string { return "RaiseStmt{}" })
	r("Closed", "raise Expr", func(k []string) string { return nd("RaiseStmt", "Object", k[1]) })
	r("Closed", "raise Expr at Expr", func(k []string) string { return nd("RaiseStmt", "Object", k[1], "Address", k[3]) })
	r("Closed", "raise at Expr", nil, fMaybe)
	r("Closed", "Asm", nil)
	r("Asm", "asm AsmToks end", func(k []string) string { return "AssemblerStatement{}" })
	r("AsmToks", "", nil)
	r("AsmToks", "AsmTok AsmToks", nil)
	for _, t := range []string{"$a", "$n", "$s", ",", "[", "]", ";", ":", "@", "begin", "if", "asm", "then", ".", "else"} {
		r("AsmTok", t, nil)
	}
	r("AsmTok", "$*", nil, fLax) // anything but END

	// ---- goals ----
	r("Program", "program $a ; UsesOpt Pre Block .", func(k []string) string {
		b := k[5]
		if k[4] != "" { // the label section of the prelude is the first section of the block
			b = withDecls(b, k[4])
		}
		return nd("Program", "Ident", k[1], "Path", "prog.dpr", "ProgramBlock", nd("ProgramBlock", "UsesClause", lst(k[3]), "Block", b))
	})
	r("Program", "program $a ; UsesOpt Pre LaxBlock .", nil, fMaybe)
	r("Pre", "label LA ;", func(k []string) string { return item(nd("LabelDeclSection", "LabelId", k[1])) })
	r("Pre", "", nil)
	r("Pre", "label LA ; ;", nil, fLax)
	ua := func(s string) string { return item(nd("UsesClauseItem", "Ident", s)) }
	r("UsesOpt", "uses UA ;", func(k []string) string { return ua(k[1]) })
	r("UsesOpt", "", nil)
	r("UsesOpt", "uses UsesItems ;", func(k []string) string { return k[1] })
	r("UsesOpt", "uses UA , UsesItems ;", func(k []string) string { return ua(k[1]) + k[3] })
	r("UsesOpt", "uses UsesItems , UA ;", func(k []string) string { return k[1] + ua(k[3]) })
	r("UsesItems", "UsesItem", func(k []string) string { return item(k[0]) })
	r("UsesItems", "UsesItem , UsesItems", func(k []string) string { return item(k[0]) + k[2] })
	r("UsesItem", "$a", func(k []string) string { return nd("UsesClauseItem", "Ident", k[0]) })
	// (a path in a program makes it load the file: see C15 and C22)
	r("UsesItem", "$a in $s", nil, fMaybe)
	r("UnitUses", "uses UA ;", func(k []string) string { return ua(k[1]) })
	r("UnitUses", "", nil)
	r("UnitUses", "uses UUItems ;", func(k []string) string { return k[1] })
	r("UnitUses", "uses UA , UUItems ;", func(k []string) string { return ua(k[1]) + k[3] })
	r("UUItems", "UUItem", func(k []string) string { return item(k[0]) })
	r("UUItems", "UUItem , UUItems", func(k []string) string { return item(k[0]) + k[2] })
	r("UUItem", "$a", func(k []string) string { return nd("UsesClauseItem", "Ident", k[0]) })
	r("UUItem", "$a in $s", func(k []string) string { return nd("UsesClauseItem", "Ident", k[0], "Path", k[2]) })
	r("ImplUses", "", nil)
	r("ImplUses", "uses UUItems ;", func(k []string) string { return k[1] })
	r("Unit", "unit $a Port ; interface UnitUses IDecls implementation ImplUses Pre Decls Exports Init .", func(k []string) string {
		intf := nd("InterfaceSection", "UsesClause", lst(k[5]), "InterfaceDecls", lst(k[6]))
		impl := nd("ImplementationSection", "UsesClause", lst(k[8]), "DeclSections", lst(k[9]+k[10]), "ExportsStmts", lst(k[11]))
		return nd("Unit", "Path", "unit.pas", "Ident", k[1], "PortabilityDirective", k[2], "InterfaceSection", intf, "ImplementationSection", impl, "InitSection", k[12])
	})
	r("Unit", "unit $a Port ; interface UnitUses IDecls implementation ImplUses Pre Decls Exports ; Init .", nil, fMaybe)
	r("Init", "end", func(k []string) string { return "" })
	r("Init", "initialization StmtList end", func(k []string) string {
		return nd("InitSection", "InitializationStmts", lst(k[1]))
	})
	r("Init", "initialization StmtList finalization StmtList end", func(k []string) string {
		return nd("InitSection", "InitializationStmts", lst(k[1]), "FinalizationStmts", lst(k[3]))
	})
	r("Init", "begin StmtList end", func(k []string) string { return nd("InitSection", "InitializationStmts", lst(k[1])) })
	r("IDecls", "", nil)
	r("IDecls", "IDecl IDecls", func(k []string) string { return item(k[0]) + k[1] })
	r("IDecl", "VarSec", nil)
	r("IDecl", "ConstSec", nil)
	r("IDecl", "TypeSec", nil)
	r("IDecl", "ThreadVarSec", nil)
	r("IDecl", "Heading ; Dirs", func(k []string) string {
		d, _ := splitDirs(k[2])
		return nd("ExportedHeading", "FunctionHeading", k[0], "Directives", lst(d))
	})
	r("IDecl", "Heading ; Dirs External ; Dirs", func(k []string) string {
		return nd("ExportedHeading", "FunctionHeading", k[0], "Directives", lst(k[2]+item("EXTERNAL")+k[5]), "ExternalOptions", k[3])
	})
	r("IDecl", "Heading ; Dirs forward ; Dirs", nil, fMaybe)
	r("IDecl", "Heading ; Dirs NoBlockDirs", nil, fMaybe)
	if err := g.check(); err != nil {
		panic(err)
	}
	return g
}

func exprOfIdent(id string) string {
	q := nd("QualId", "Ident", nd("IdentRef", "Ident", id))
	f := nd("DesignatorFactor", "Designator", nd("Designator", "QualId", q))
	return nd("Expression", "SimpleExpression", nd("SimpleExpression", "Term", nd("Term", "Factor", f)))
}

// strucDump adds the Packed field to the dump of a structured type.
func strucDump(s string, packed bool) string {
	if !packed {
		return s
	}
	// fields are sorted by name: ArrayType{BaseType,IndexTypes,Packed},
	// SetType{OrdinalType,Packed}, RecType{FieldList,Packed}, FileType{Packed,TypeId}
	if strings.HasPrefix(s, "FileType{") {
		return "FileType{Packed:true " + s[len("FileType{"):]
	}
	return s[:len(s)-1] + " Packed:true}"
}

func splitDirs(s string) (dirs, ext string) {
	if i := strings.IndexByte(s, '|'); i >= 0 {
		return s[:i], s[i+1:]
	}
	return s, ""
}

// withDecls puts a section in front of the declaration sections of a block.
func withDecls(block, sec string) string {
	const f = "DeclSections:["
	// DeclSections of this block is the first occurrence after its Body field.
	body := "Block{"
	if i := topField(block, "DeclSections"); i >= 0 {
		return block[:i+len(f)] + sec + block[i+len(f):]
	}
	// fields sorted by name: Body, DeclSections, ExportsStmts1, ExportsStmts2
	i := topField(block, "ExportsStmts1")
	if i < 0 {
		i = topField(block, "ExportsStmts2")
	}
	ins := f + sec + "]"
	if i >= 0 {
		return block[:i] + ins + " " + block[i:]
	}
	if block == "Block{}" {
		return body + ins + "}"
	}
	return block[:len(block)-1] + " " + ins + "}"
}

// topField returns the index of a field of the outermost node of a dump.
func topField(s, field string) int {
	depth := 0
	quoted := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\'':
			quoted = !quoted
		case '{', '[':
			if !quoted {
				depth++
			}
		case '}', ']':
			if !quoted {
				depth--
			}
		}
		if depth == 1 && !quoted && strings.HasPrefix(s[i:], field+":") && (s[i-1] == '{' || s[i-1] == ' ') {
			return i
		}
	}
	return -1
}
