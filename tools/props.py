WIP = "check under construction"
PROPS = [
P("C01", "Tokens tile the source text: nothing lost, repeated or looped on",
  "For every text, tokenizing it with spaces and comments loaded ends and yields tokens whose raw texts, concatenated, are exactly the text, followed by end-of-file tokens only. Tokenizing the same text without spaces (or without comments) yields exactly the same tokens with the spaces (or comments) left out, and a tokenizer that is copied before any token continues, like the original and independently of it, with those tokens.",
  ["inputs"], "Every text over the language's character classes, including unterminated comments and strings, NUL, control and non-ASCII characters.",
  "The token tests sample a few dozen well-formed snippets; a text that loses, repeats or never consumes a character needs a particular character next to a particular lexer state (end of text inside a string, a NUL, an unmatched quote).",
  ["token/tokenizer.go", "token/comment.go", "token/string.go", "token/numeral.go", "token/word.go", "token/space.go", "token/special_symbols.go", "token/eof.go", "token/unknown.go", "runes/cursor.go"],
  [("processor chain: each processor consumes what it claims", "token/tokenizer.go GetNext"), ("cursor never passes the end", "runes/cursor.go Next")],
  "bounded exhaustive enumeration of texts on the real tokenizer", "All strings over class-representative alphabets up to a length bound, all Unicode runes in short contexts and pumped lengths; the tokenizer is the real one. Beyond the bounds: extrapolation.",
  ["token.Tokenizer.GetNext"]),
P("C02", "Every lexeme gets the class and extent the language defines",
  "For every text, the sequence of (class, raw text) pairs the tokenizer yields is the one the lexical rules define: maximal words, numerals (int or real), quoted strings, the three comment forms, one- and two-character symbols, whitespace runs, and unknown characters. A word is a reserved word exactly when it is one of the reserved words in any mix of letter case, and an identifier otherwise; the value of a reserved word is its upper-case form and the value of any other token is its raw text.",
  ["inputs"], "Every text over the language's character classes; every word length; every letter-case variant of every reserved word.",
  "Tests list individual lexemes; which class a character sequence gets depends on every neighbour (two-character symbols, '..' after a number, '(*' against '(', comment ends), which only enumeration covers.",
  ["token/tokenizer.go", "token/reserved_words.go", "token/special_symbols.go", "token/numeral.go", "token/string.go", "token/comment.go", "token/word.go", "token/token.go", "runes/word.go", "runes/digit.go"],
  [("order of the processors", "token/tokenizer.go"), ("reserved word set compared in upper case", "token/reserved_words.go")],
  "bounded exhaustive enumeration of texts against a reference lexer", "Same spaces as C01, compared token by token with an independently written reference lexer.",
  ["token.Tokenizer.GetNext", "token.Token.Value"]),
P("C03", "Tokens, identifiers and errors carry their true line and column",
  "Every token's start and end, and so the location of every identifier in the AST, is its true position: its rune index, the line (1 plus the number of line breaks before it, LF or CRLF) and the column inside that line, counted from 1 on the first line and consistently on later lines. This holds for every layout of spaces, comments and line breaks and after any amount of parser backtracking, and the position printed in a syntax error is the start of the offending token. (A text that starts with a line feed is a known finding: that line feed is not counted.)",
  ["inputs"], "Every placement of line breaks (LF, CRLF, runs, inside comments and strings) around the tokens of every construct.",
  "The tests assert positions of a few tokens in a few layouts; a miscount shows up only where a line break meets a particular token, a comment, or a rollback point.",
  ["runes/position.go", "runes/cursor.go", "token/tokenizer.go", "parser/base.go", "ast/astcore/ident.go"],
  [("pending line feed in the cursor", "runes/cursor.go"), ("cloning of tokenizer and token at rollback points", "parser/base.go RollbackPoint")],
  "bounded exhaustive enumeration of layouts against a reference position model", "All texts of the lexical spaces plus all enumerated programs re-laid out with every filler at every token boundary.",
  ["token.Token.Start", "astcore.Ident.Location", "error text"]),
P("C04", "Layout and comments never change what is parsed",
  "Replacing the white space between two adjacent tokens of any source by any other non-empty sequence of spaces, tabs, line breaks and comments of the three forms (or inserting such a sequence where there was none) changes neither acceptance nor the AST, except for locations.",
  ["inputs", "programs"], "Every token boundary of every enumerated program and unit, accepted or rejected, times every filler of the alphabet.",
  "Tests use one layout per construct; the parser has rollback points and lookaheads that run the tokenizer twice over the same text, and each boundary is a separate case.",
  ["token/tokenizer.go", "token/comment.go", "token/space.go", "parser/base.go"],
  [("space and comment tokens are skipped in one place", "token/tokenizer.go GetNext")],
  "bounded exhaustive enumeration of programs x boundaries x fillers, differential oracle", "The oracle is the real parser on the canonical layout, whose AST is independently fixed by C07-C12.",
  ["parser.ParseProgram", "parser.ParseUnit"]),
P("C05", "Letter case never changes what is parsed or resolved",
  "Changing the letter case of any occurrence of any reserved word, directive or identifier of a source changes neither acceptance nor the structure of the AST nor any resolved reference; identifiers keep the spelling of their own occurrence.",
  ["inputs", "programs"], "Every word occurrence of every enumerated program and unit, times lower, upper and mixed case.",
  "Object Pascal words are compared in about forty places of the code, each by its own expression; a test fixes one spelling per place.",
  ["token/token.go", "token/predicate.go", "token/directives.go", "token/reserved_words.go", "parser/function_heading.go", "parser/type_class.go", "parser/statement_try.go", "ast/astcore/decl_map.go", "ast/type_embedded.go", "ast/type_class.go", "ast/unit.go", "ast/uses_clause.go", "parser/unit_parsers.go"],
  [("reserved words are compared by their upper-case value", "token/token.go Value"), ("declaration maps fold keys", "ast/astcore/decl_map.go regularize")],
  "bounded exhaustive enumeration of programs x word occurrences x case variants, differential oracle", "Each occurrence is flipped alone and all together; results are compared modulo spelling.",
  ["parser.ParseProgram", "parser.ParseUnit"]),
P("C06", "Parsing any input ends with either an AST or an error",
  "For every text, parsing it as a program or a unit returns after finite work, never panics, and returns either an AST and no error or an error and no AST; the same holds for the file API when the file, or a unit it names, is missing, empty, a directory or not decodable text.",
  ["inputs", "fault_sequences"], "Every token string up to a bound, every truncation of every enumerated program and unit, every file fault for every file of a multi-unit program.",
  "Tests feed valid sources and a handful of errors; endless loops and nil dereferences need a text that stops, or goes wrong, at one particular token of one particular construct.",
  ["parser/base.go", "parser/program.go", "parser/unit_parser.go", "parser/statement.go", "parser/type_class.go", "token/tokenizer.go"],
  [("every loop consumes a token or fails", "parser/base.go Until"), ("errors are returned, not panicked", "parser/*.go")],
  "bounded exhaustive enumeration of token strings, truncations and file faults with a watchdog", "A worker that panics, loops over 30 s of CPU or exceeds 3 GB is a violation, attributed to the case and confirmed in a fresh process.",
  ["parser.ParseProgram"]),
P("C07", "Expressions parse to the tree their precedence defines",
  "Every expression of the grammar, of any nesting and length, parses to the one tree its precedence levels define (unary sign, multiplicative, additive and relational levels, each a left-to-right operand list), with every operator, literal, designator part (member, index, dereference), call argument list, set element, address, NOT, parenthesis and type cast recorded once, in source order, with its exact text.",
  ["programs"], "Every expression derivable within the deviation bound, in every position an expression can occur, plus arbitrarily long and deep repetitions of every recursive form.",
  "The tests have some fifty expressions; precedence and list handling depend on combinations of operators and operands, on list lengths and on nesting.",
  ["parser/expression.go", "ast/expression.go", "ast/manifest_constants.go"],
  [("one method per precedence level", "parser/expression.go")],
  "bounded exhaustive enumeration of derivation trees against a reference syntax-directed translation", "All derivation trees with up to k non-default choices, plus pumped repetitions; the AST of the real parser is compared with the tree's translation.",
  ["parser.ParseProgram"]),
P("C08", "Statements parse to the structure the grammar defines",
  "Every statement and statement list of the grammar (assignments and calls, labels and goto, begin-end, if with the nearest-if rule for else, case with ranges and else, repeat, while, for to and downto, with, try-except with handlers and else, try-finally, raise with and without object and address, inherited, asm, and the empty statement) parses to the AST the grammar defines, with every part in its own place and statement lists in source order.",
  ["programs"], "Every statement derivable within the deviation bound, in every position a statement can occur, plus long and deep repetitions.",
  "The tests have one or two examples per statement; which statement a part belongs to (else, end, handlers, last semicolons) depends on nesting combinations.",
  ["parser/statement.go", "parser/statement_conditional.go", "parser/statement_loop.go", "parser/statement_raise.go", "parser/statement_try.go", "parser/statement_with.go", "parser/statement_asm.go", "ast/statement.go"],
  [("one method per statement", "parser/statement*.go"), ("statement lists end at the terminator of their construct", "parser/statement.go ParseStmtList")],
  "bounded exhaustive enumeration of derivation trees against a reference syntax-directed translation", "As C07.",
  ["parser.ParseProgram"]),
P("C09", "Types parse to the structure the grammar defines",
  "Every type of the grammar outside classes (embedded and named types, unit-qualified names, subranges, enumerations with values, strings with length, arrays, sets, files, records with variant parts, packed types, pointers, procedural types, class references) parses, in every position where a type can occur, to the AST the grammar defines, with field, element, index and parameter lists complete and in source order.",
  ["programs"], "Every type derivable within the deviation bound in every type position, plus long and deep repetitions.",
  "The tests have a few examples per type, mostly in type declarations; type parsing decides by lookahead and by what is declared, and ends differently in each position.",
  ["parser/type.go", "parser/type_simple.go", "parser/type_struc.go", "parser/type_string.go", "parser/type_procedure.go", "ast/type*.go"],
  [("dispatch on the first token", "parser/type.go ParseType"), ("rollback for identifiers that start a subrange", "parser/type_simple.go")],
  "bounded exhaustive enumeration of derivation trees against a reference syntax-directed translation", "As C07.",
  ["parser.ParseProgram"]),
P("C10", "Class types parse to the structure the grammar defines",
  "Every class declaration (forward, with or without ancestors, any sequence of visibility sections, each with fields, then methods with directives, then properties with all their specifiers) parses to the AST the grammar defines: every member appears exactly once, in source order, in the section, with the visibility, heading, directives and specifiers the source gives it.",
  ["programs"], "Every class derivable within the deviation bound, plus long repetitions of every list.",
  "The tests have about ten classes; sections, members, directives and specifiers are ended by whatever token follows, so each pair of neighbours is a separate case.",
  ["parser/type_class.go", "ast/type_class.go", "ast/type_class_ref.go"],
  [("section, field, method and property breaks", "parser/type_class.go")],
  "bounded exhaustive enumeration of derivation trees against a reference syntax-directed translation", "As C07.",
  ["parser.ParseProgram"]),
P("C11", "Declarations and routine headings parse to the structure the grammar defines",
  "Every label, const, type, var, threadvar, procedure and function declaration and every exports clause (typed and untyped constants, absolute and initialised variables, parameter modes, open arrays and defaults, result types, directives, external library with name or index, nested blocks) parses to the AST the grammar defines, with sections, declarations, names and directives complete and in source order.",
  ["programs"], "Every declaration section sequence derivable within the deviation bound, plus long and deep repetitions.",
  "The tests have a few examples per section; a section ends at whatever follows it, so every ordered pair of sections and every optional part is a separate case.",
  ["parser/block.go", "parser/const.go", "parser/var.go", "parser/type.go", "parser/function.go", "parser/function_heading.go", "parser/ident_list.go", "ast/block.go", "ast/const.go", "ast/var.go", "ast/function.go", "ast/function_heading.go", "ast/directive.go"],
  [("one method per section, tried in order", "parser/block.go ParseDeclSection")],
  "bounded exhaustive enumeration of derivation trees against a reference syntax-directed translation", "As C07.",
  ["parser.ParseProgram", "parser.ParseUnit"]),
P("C12", "Programs and units parse to the structure the grammar defines",
  "Every program (name, uses clause with and without paths, block) and every unit (name, portability directive, interface with its uses clause and declarations, implementation with its own, exports, and initialization or begin part with finalization) parses to the AST the grammar defines: each part in its own place, absent parts absent, lists in source order.",
  ["programs"], "Every program and unit skeleton derivable within the deviation bound.",
  "Optional parts combine: the tests exercise a dozen of the combinations of present and absent sections.",
  ["parser/program.go", "parser/unit_parser.go", "parser/uses_clause.go", "parser/block.go", "ast/program.go", "ast/unit.go", "ast/uses_clause.go"],
  [("phased unit parsing", "parser/unit_parser.go")],
  "bounded exhaustive enumeration of derivation trees against a reference syntax-directed translation", "As C07.",
  ["parser.ParseProgram", "parser.ParseUnit"]),
P("C13", "A name refers to the innermost visible declaration before it",
  "Within one program or unit, every reference to a name (in expressions, designators, for and with statements, gotos, types, casts and subranges) refers to the declaration with that name in the innermost enclosing scope that has one before the reference (routine body, routine parameters, exception handler, then the enclosing routines, then the implementation and the interface section or the program, then the embedded types), and to nothing when there is none. The name of a routine is declared in its own scope only. Leaving a scope makes its names disappear and the hidden ones visible again.",
  ["programs"], "Every arrangement of up to n scopes, declarations of every kind and references over a two-name alphabet.",
  "The tests have a few flat programs; shadowing and restoring depend on the nesting and order of scopes, including scopes that are closed by an error path or crossed by backtracking.",
  ["ast/astcore/decl_map.go", "parser/pcontext/*.go", "parser/ident.go", "parser/unit.go", "parser/function.go", "parser/statement_try.go", "parser/type.go"],
  [("declaration maps are stacked per scope and restored", "parser/pcontext StackDeclMap"), ("lookup goes from inner to outer map", "ast/astcore/decl_map.go ChainedDeclMap.Get")],
  "explicit-state enumeration of scope/declaration/reference event sequences against a reference resolver", "Every event sequence up to the bound is rendered to source, parsed by the real parser, and every reference compared.",
  ["ast.IdentRef.Ref", "ast.TypeId.Ref", "ast.GotoStatement.Ref"]),
P("C14", "Names of used units resolve through the uses clauses",
  "In a program and in every unit, an unqualified name that is not declared locally refers to the interface declaration of the last unit in the applicable uses clause that exports it (in an implementation section the implementation's uses clause goes before the interface's); a unit- or program-qualified name refers to that unit's (or program's) own declaration; implementation-section names, names that a used unit only imports itself, and names of units that are not used are never visible. Local declarations (of the implementation, then of the interface section) hide the names of used units, these hide exported declarations, these hide embedded types, and each uses item of the program refers to the unit it names.",
  ["configurations", "programs"], "Every uses graph of up to n units, every assignment of exported and implementation names over a small alphabet, every reference place and qualification.",
  "The tests have two or three fixed unit sets; which unit wins depends on clause order, on the section and on what each unit exports.",
  ["parser/program.go", "parser/unit_parser.go", "parser/pcontext/unit_context.go", "parser/unit.go", "ast/uses_clause.go", "ast/unit.go", "ast/namespace.go", "ast/astcore/decl_map.go"],
  [("reversed composite of the used units' maps", "parser/pcontext/unit_context.go ImportUnitDecls"), ("implementation names in a map of their own", "parser/unit_parser.go ProcessImplAndInit")],
  "exhaustive enumeration of unit configurations against a reference resolver, on the real file API", "Units are written to a scratch directory and loaded with the file API.",
  ["parser.ParseProgram", "ast.IdentRef.Ref", "ast.TypeId.Ref"]),
P("C15", "Units load in dependency order whatever order they are listed in",
  "Whatever order a program lists its units in and whatever their interface and implementation uses clauses, every unit is parsed exactly once, after the interfaces of the units its interface uses; the units are returned in listing order and all resolved references are the same for every listing order and for every internal iteration order, and so is the error when there is one. A cycle of interface uses (a unit that uses itself included) is an error, and cycles through implementation uses are not.",
  ["configurations", "schedules"], "Every dependency graph of up to n units, every listing order, every map iteration order.",
  "The tests have a few acyclic graphs listed in one order; the sort runs over maps whose iteration order Go randomises.",
  ["parser/program.go", "parser/unit_parsers.go", "parser/pcontext/program_context.go", "ext/string_set.go"],
  [("topological sort of the interface uses", "parser/unit_parsers.go Sort")],
  "exhaustive enumeration of graphs, listing orders and map iteration orders on the real loader", "Map iteration order is controlled through a runtime overlay; every rotation is enumerated.",
  ["parser.ParseProgram"]),
P("C16", "A name declared twice in one scope is an error, and only then",
  "Declaring the same name (in any letter case) twice in one scope (program, interface section, implementation section, routine with its parameters, procedural type or method heading) by any kinds of declaration (constant, type, variable, thread variable, label, enumeration element, parameter, unit of a uses clause) is rejected with an error, a class completing its forward declaration excepted; declaring it in different scopes, or when it is the name of an embedded type, is accepted.",
  ["programs"], "Every pair (and sequence) of declaration kinds in every pair of scopes, in programs, units and routines.",
  "The tests have a couple of duplicates; each pair of declaration kinds is registered by different code.",
  ["ast/astcore/decl_map.go", "parser/pcontext/*.go", "parser/const.go", "parser/var.go", "parser/type.go", "parser/type_simple.go", "parser/block.go", "parser/function.go", "parser/function_heading.go", "parser/uses_clause.go"],
  [("Set refuses an existing key of the same map", "ast/astcore/decl_map.go DeclMapImpl.Set")],
  "explicit-state enumeration of declaration sequences against a reference scope model", "Every ordered pair of kinds x scopes x name relation.",
  ["parser.ParseProgram", "parser.ParseUnit"]),
P("C17", "Forward references resolve to the declaration that follows",
  "Inside one type section, a type name that is not visible yet and is used before its declaration (in pointers, fields, parameters, class members, ancestors and array or file elements) refers to the declaration that follows in the section; a forward declared class is the class declared later, wherever it was used in between; a name that is never declared stays unresolved and is no error.",
  ["programs"], "Every order of up to n mutually referring type declarations in a section, in programs, units and routines.",
  "The tests have one forward class and one pointer-before-declaration; resolution is deferred to the end of the section and nests.",
  ["parser/type.go", "parser/base.go", "ast/type_class.go", "ast/type_forward_declaration.go", "parser/type_class.go"],
  [("functions run at the end of the type section", "parser/base.go RunPostSectionFuncs"), ("actual class set on the forward declaration", "ast/type_class.go SetActualType")],
  "exhaustive enumeration of type sections and reference graphs against a reference resolver", "Every permutation and every reference of up to n declarations.",
  ["ast.TypeId.Ref", "ast.ForwardDeclaredClassType.Actual"]),
P("C18", "Property accessors and overrides resolve through the class ancestry",
  "The read, write and stored names of a property refer to the member with that name (field, method, or property of an earlier section) declared before it in the class itself, or else in its nearest ancestor that has a non-private one, and an accessor without such a member is an error. A property that redeclares an ancestor's (non-private) property without repeating its interface, index, read or write inherits exactly the specifiers it does not give itself.",
  ["programs"], "Every ancestor chain of up to n classes x member kinds x visibilities x property specifier subsets.",
  "The tests have a couple of two-class hierarchies; lookup depends on the class that has the member, its visibility, the section order and what each redeclaration repeats.",
  ["ast/type_class.go", "parser/type_class.go"],
  [("member lookup and ancestor recursion", "ast/type_class.go FindMemberDecl"), ("merge of inherited specifiers", "ast/type_class.go ComputedProperty")],
  "exhaustive enumeration of class hierarchies against a reference lookup", "All chains and specifier subsets within the bound.",
  ["ast.ClassProperty"]),
P("C19", "Texts outside the language are rejected, at the first wrong token",
  "A source that is not derivable from the grammar (a token missing, superfluous or replaced anywhere, a construct cut short) is rejected with an error, never silently accepted, repaired or truncated, and the error is reported at the first token that cannot continue any valid text; a source that is derivable is accepted.",
  ["inputs"], "Every single-token deletion, insertion and replacement of every enumerated program and unit, and every short token string in every construct.",
  "The tests hardly contain invalid sources; a missing check accepts one particular wrong token at one particular place.",
  ["parser/*.go"],
  [("Current and Next validate the expected token", "parser/base.go")],
  "bounded exhaustive enumeration of token edits, decided by an Earley recogniser of the grammar", "The grammar used for recognition includes the optional semicolons the implementation deliberately tolerates (listed in DESIGN.md).",
  ["parser.ParseProgram", "parser.ParseUnit"]),
P("C20", "Walking an AST visits every part exactly once, in order, until told to stop",
  "Walking down any parsed AST calls the visitor for every node, parents before their children and identifiers in source order, each exactly once, so that every identifier, literal, expression, statement, type and declaration of the source is reached and nothing outside this AST is; when the visitor returns an error the walk stops at once and returns that error.",
  ["programs"], "Every AST of the enumerated programs and units; every visit position as the stopping point.",
  "No test walks more than a few node types; a node type that forgets, duplicates or nil-guards a child wrongly shows only on ASTs that have that child.",
  ["ast/astcore/node.go", "ast/*.go"],
  [("Children of every node type", "ast/*.go"), ("WalkDown", "ast/astcore/node.go")],
  "bounded exhaustive enumeration of ASTs and stop positions against a reflection-based reference walk", "The reference is the reflective structure of the AST (all exported fields), independent of the Children methods.",
  ["astcore.WalkDown"]),
P("C21", "Parsing is a pure function of its sources",
  "Parsing the same sources gives the same result every time: it does not depend on what was parsed before in the process, on other parses running at the same time in other goroutines, on the logger that is installed, or on map iteration order; a rejected source gives the same error every time. Parsing never changes the text it was given, the embedded types or any other shared state.",
  ["schedules", "histories"], "Every ordered history of up to n parses; every interleaving of two parses with a bounded number of preemptions; every map iteration rotation.",
  "Tests parse once, alone; shared mutable state shows only in a second parse or under an interleaving.",
  ["ast/type_embedded.go", "parser/base.go", "token/special_symbols.go", "log/base.go", "parser/pcontext/*.go", "ext/string_set.go"],
  [("all parser state hangs off the parser and its context", "parser/base.go"), ("embedded type map refuses writes", "ast/type_embedded.go")],
  "stateless exploration of interleavings of two real parses under a controlled scheduler; history enumeration", "Scheduling points are injected by source overlay; a free-running race-detector pass covers unsynchronised accesses.",
  ["parser.ParseProgram"]),
P("C22", "Source files are decoded from Shift JIS completely and located by their path",
  "The file API parses exactly the text a Shift JIS decoding of the file's bytes gives, for every character and whatever the file's size or where a multi-byte character falls; each unit's path is the one in its uses item with the enclosing quotes removed and backslashes as separators, relative to the working directory, and units without a path are not loaded.",
  ["inputs"], "Every Shift JIS character, in identifiers, strings and comments, at every offset around the read-buffer boundaries; every path form.",
  "The tests have a few files with a few Japanese words; decoding errors depend on the byte pair and its offset.",
  ["parser/program.go", "parser/unit_parser.go", "ast/uses_clause.go"],
  [("streaming decoder", "parser/program.go ParseProgram, parser/unit_parser.go LoadFile"), ("path conversion", "ast/uses_clause.go EffectivePath")],
  "exhaustive enumeration of characters, buffer offsets and path forms on the real file API", "The reference is a table-driven decoding of each character on its own.",
  ["parser.ParseProgram"]),
P("C23", "Only ordinal types are accepted where the language needs them",
  "An array index, a set base and a variant selector are accepted exactly when their type is ordinal: an ordinal embedded type, an enumeration, a subrange, or a name declared (through any chain of names, in this source or a used unit) as one of these; every other type is rejected. The kind queries of a type name (simple, ordinal, real, string, pointer, variant) answer according to the type it finally denotes.",
  ["programs"], "Every embedded type and type form, through alias chains of any length within the bound, in every ordinal position.",
  "The tests use Integer and one enumeration; the answer is computed through the declaration chain of the name.",
  ["parser/type_simple.go", "parser/type_struc.go", "ast/type_id.go", "ast/type_embedded.go", "ast/type_simple.go"],
  [("ordinality is asked of the resolved declaration", "ast/type_id.go IsOrdinalType")],
  "exhaustive enumeration of type forms x alias chains x positions against a reference kind table", "All embedded types and all type forms of the grammar's first level.",
  ["parser.ParseProgram", "ast.TypeId.IsOrdinalType"]),
P("C24", "A namespace answers exactly its own declarations",
  "After a program and its units are loaded (or a unit is parsed in memory), the declaration map of each unit answers, for every name in any letter case, exactly the unit's interface declarations (constants, variables, thread variables, types, enumeration elements wherever they are declared in the interface, routine headings), each with the declaring node, and nothing else: no implementation declarations, no declarations or names of used units, no embedded types. The map of a program that uses units answers exactly the program's own top-level declarations. The maps themselves behave as scopes for every sequence of operations: names are case-insensitive, a second declaration of a name in the same map is refused, an inner map hides an outer one without changing it, leaving a scope restores exactly the state before it, and the embedded types can neither be redeclared nor overwritten.",
  ["programs", "histories"], "Every unit of the enumerated texts and every uses graph of three units with every kind of export and private declaration; every sequence of declare, declare a list, overwrite, open scope, leave scope, declare below on every kind of map and context.",
  "The tests look up a few names right after they were declared; which map a declaration lands in, and whether it stays there, depends on the section, the uses graph and on what was declared and closed before.",
  ["ast/astcore/decl_map.go", "ast/astcore/decl.go", "ast/namespace.go", "ast/type_embedded.go", "parser/unit_parser.go", "parser/program.go", "parser/context.go", "parser/pcontext/program_context.go", "parser/pcontext/unit_context.go", "parser/pcontext/stackable_context.go"],
  [("a unit's map is its interface map again after the implementation", "parser/unit_parser.go ProcessImplAndInit"), ("keys are folded in one place", "ast/astcore/decl_map.go regularize")],
  "bounded exhaustive enumeration of operation sequences on the real maps against a layered reference map, and of units and uses graphs against the declarations in the AST", "All operation sequences of length 4 (thorough 5) over 15 operations on 12 kinds of map; all productions and pairs as units; all uses graphs of three units.",
  ["ast.Unit.GetDeclMap", "ast.Program.GetDeclMap", "astcore.DeclMap"]),
P("C25", "Queries on an AST answer what it contains",
  "The lookups an AST offers agree with its contents for every list and every declaration: a search by name in a list of identifiers, declarations, uses items or units returns the first entry with that name in any letter case and nothing when there is none; the list queries (names, identifiers, units, paths, declaration maps, reversed and compacted lists) keep every element and its order; the file name of a uses item is the text between the quotes of its literal; and every declaring node reports exactly the identifiers it declares, in source order, each with the declaring node itself, as the sections and blocks that contain it do.",
  ["inputs", "programs"], "Every list of names up to the bound, every file-name literal up to the bound, every declaration of every production and pair of productions.",
  "The tests look up a few names in lists of one or two; the first match, letter case and nil entries only matter in longer lists.",
  ["ast/astcore/ident.go", "ast/astcore/decl.go", "ast/astcore/decl_map.go", "ast/astcore/decl_node.go", "ast/uses_clause.go", "ast/unit.go", "ast/namespace.go", "ast/block.go", "ast/const.go", "ast/var.go", "ast/type.go", "ast/function_heading.go"],
  [("search folds letter case", "ast/uses_clause.go Find, ast/astcore/ident.go Find"), ("declarations of a node", "ToDeclarations, GetDeclNodes of the declaring nodes")],
  "bounded exhaustive enumeration of lists, literals and declarations against reference answers", "All lists of up to 5 (thorough 6) of 7 names; all literals of up to 6 (7) characters over 7 runes; all productions and pairs.",
  ["ast.UsesClause.Find", "ast.Units", "astcore.Decls", "ast.DeclNode.ToDeclarations"]),
]
