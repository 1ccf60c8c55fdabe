#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single place where the properties are edited).
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Reported line and column are exact for every source and offset",
 "For every source text and every byte offset from 0 to its length, the reported line is one plus the number of newline characters before the offset, and the reported column is one plus the number of characters between the start of that line and the offset. Computing a location never fails, whatever bytes the source contains.",
 ["inputs"],"all source strings (any bytes) and all offsets within them",
 "Tests look at a handful of locations in short ASCII snippets; multi-byte text, NUL bytes, invalid UTF-8, offsets on a newline or at the end of the text are not sampled and cannot be enumerated.",
 ["parser/expression.go","parser/reader.go"],
 [("line index built once, binary search per lookup","parser/expression.go:getLineIndex, LineForOffset, PosOnLine, offsetOnLine")],
 ["Line and Pos of expressions and of reported issues"],
 [("line index cache","start offset of every line, built lazily","parser/expression.go: Locator.lineIndex")])

prop("C02","Every AST node's source range lies inside the parsed source",
 "Every expression that a successful parse constructs, with any combination of parser options, carries a byte offset and a byte length that are both non-negative and whose sum does not exceed the length of the parsed source. Asking any such expression for its source text therefore never fails.",
 ["inputs","configurations"],"all sources and all option combinations",
 "Each test checks a few hand-picked ranges; the arithmetic that derives ranges runs through some seventy mutually recursive functions and lookahead that moves the read position backwards, so only an argument over all inputs covers it.",
 ["parser/parser.go","parser/lexer.go","parser/factory.go","parser/expression.go"],
 [("offset and length arithmetic at every node construction","parser/parser.go, parser/lexer.go"),("text extraction","parser/expression.go: Positioned.String")],
 ["ByteOffset, ByteLength, String of every node"],
 [("read position, token start, pending heredoc continuation","positions all range arithmetic is derived from","parser/lexer.go: context")])

prop("C03","Parsing never crashes: every input yields an AST or a reported error",
 "Parsing any source string with any combination of options and either value of the single-expression switch never panics. It returns either an expression and no error, or no usable expression and an error that is a reported issue or an invalid-character error.",
 ["inputs","configurations"],"all byte strings as source, all option combinations, both single-expression modes",
 "Tests feed well-formed snippets and a few selected errors; index, slice, type-assertion and nil failures hide in inputs nobody wrote down.",
 ["parser/parser.go","parser/lexer.go","parser/reader.go"],
 [("recover that turns issue panics into errors and re-raises everything else","parser/parser.go: parseTopExpression"),("bounds, type assertions and nil uses throughout lexer and parser","parser/lexer.go, parser/parser.go")],
 ["Parse"])

prop("C04","A parse depends only on its own arguments and the parser's options",
 "The result of a parse (AST or error) depends only on the options the parser was created with and on the file name, source and mode passed to that call, never on what the same parser parsed before, including parses that failed. A later parse never changes an AST returned earlier.",
 ["histories","inputs"],"all finite sequences of Parse calls, successful or failing, on one parser instance",
 "Tests create a fresh parser for nearly every source; leaks need a specific failing or workflow parse followed by a specific second source.",
 ["parser/parser.go","parser/lexer.go"],
 [("state reset at the start of a parse","parser/parser.go: Parse")],
 ["Parse called repeatedly"],
 [("parser state","everything that survives from one call to the next","parser/lexer.go: context")])

prop("C05","Traversal visits every contained expression exactly once, in order",
 "For every kind of expression, visiting its contents calls the visitor exactly once for each directly contained expression that is present, in the fixed order for that kind (the order of its source structure), with a path whose last element is the expression itself and whose prefix is the given path. Deep traversal does the same recursively, calling the visitor for each expression before the expressions it contains, and absent optional parts are skipped.",
 ["inputs"],"all AST shapes of all node kinds, all given paths",
 "Tests traverse a few trees; there are about sixty node kinds, each with its own child list, optional parts and list parts of any length.",
 ["parser/expression.go","parser/workflow.go"],
 [("per-node child enumeration","parser/expression.go: AllContents / Contents of every node kind"),("shared visitors","parser/expression.go: DeepVisit, ShallowVisit")],
 ["Contents and AllContents with a recording visitor"])

prop("C06","Conversion to notation and validation never crash on a parsed AST",
 "Every expression a successful parse produces can be converted to PN, rendered as text, converted to plain data, tested for being a literal and run through each of the validators without a crash.",
 ["inputs","configurations"],"all ASTs the parser can return, under every option combination, and all three validators",
 "These consumers rely on unwritten shape guarantees of the parser (which parts are present, which node kinds appear where); tests only exercise the shapes somebody thought of.",
 ["parser/expression.go","parser/workflow.go","parser/parser.go","pn/pn.go","validator/checker.go","validator/tasks_checker.go","validator/workflow_checker.go","literal/literal.go"],
 [("unchecked assumptions about child kinds","parser/expression.go: ToPN methods, parametersEntry; validator/checker.go; literal/literal.go"),("node construction that has to establish them","parser/parser.go, parser/lexer.go")],
 ["ToPN, Format, ToData, ToLiteral, Validate"])

prop("C07","Issues are recorded exactly: severity, demotion and result rules",
 "A validation starts from an empty issue list, examines the given expression and every expression it contains, and records each detected problem exactly once, in order, as an error unless its severity was configured, and not at all when configured to be ignored. Only issues declared demotable can be given another severity. A combined parse and validation returns no result object exactly when no issue was recorded, and for a source that is rejected with a reported issue it returns no expression and exactly that one issue.",
 ["inputs","configurations","histories"],"all ASTs, severity configurations and sequences of validations with one validator",
 "Tests check a fixed set of messages with fresh validators; reuse of validators and arbitrary demotion configurations are not covered.",
 ["validator/validator.go","validator/checker.go","validator/tasks_checker.go","validator/workflow_checker.go"],
 [("accept, demote, clear","validator/validator.go: Accept, Demote, Clear"),("driver","validator/validator.go: Validate, parserValidator.Parse")],
 ["Issues, Parse of a parser-validator"],
 [("issue list and severity table","what has been recorded, how it is classified","validator/validator.go: AbstractValidator")])

prop("C08","Parameter lists are validated completely",
 "For every class, defined type, function, plan and EPP parameter list, the Puppet validator reports a duplicate parameter exactly once for every parameter whose name occurs earlier in the same list. It reports every class and defined type parameter with a reserved name (name and title), every captures-rest parameter of a function, plan or lambda that is not the last one, and every captures-rest parameter of a class, defined type or EPP list, each exactly once, and reports none of these for a list without such parameters.",
 ["inputs"],"parameter lists of any length and content in every construct that has one",
 "Tests contain a few two or three element lists for some constructs.",
 ["validator/checker.go"],
 [("per-construct parameter checks","validator/checker.go: checkParameterNameUniqueness, checkReservedParams, checkNoCapture, checkCapturesRest")],
 ["issues recorded by the validator"])

prop("C10","Literal conversion is exact: a value exactly for literal trees",
 "Converting an expression to a literal value succeeds exactly for literal trees (scalar literals, names, reserved words, lists and hashes of literal trees whose keys are not themselves lists or hashes, and strings and heredocs without interpolation) and then returns the value with the same structure, element order and scalar values. For every other expression it reports failure, without a partial value being mistaken for success and without a crash.",
 ["inputs"],"all expression trees the parser can produce",
 "Tests do not cover the conversion of nested structures at all; nesting and element lists are unbounded.",
 ["literal/literal.go"],
 [("recursive conversion with a failure signal","literal/literal.go: toLiteral, ToLiteral")],
 ["ToLiteral"])

prop("C11","Quoted PN strings are unambiguous",
 "The quoted form of a string in the textual PN starts and ends with a double quote, contains no other unescaped double quote, contains no raw control character below space, and renders each character by a fixed escape (tab, newline, return, quote, backslash, three-digit octal for other control characters) or as itself. Different strings of valid text therefore have different quoted forms.",
 ["inputs"],"all strings",
 "Tests quote a few strings; the guarantee is about every sequence of characters.",
 ["pn/quote.go","pn/pn.go"],
 [("character by character quoting","pn/quote.go: DoubleQuote")],
 ["Format and String of PN literals"])

prop("C12","PN as plain data and as text preserves structure exactly",
 "The plain-data form of a PN node is the scalar itself for a literal, a list of the elements' forms in order for a list, a one-entry map from the call marker to the name followed by the operands' forms for a call, and a one-entry map from the hash marker to the alternating keys and values for a map. The textual form is the corresponding bracketed form with single spaces between elements, and renaming a node to a call, parameter list or entry keeps all of its elements in order.",
 ["inputs"],"all PN trees, with element lists of any length",
 "Tests convert a few small trees; lists of any length and nesting are not covered.",
 ["pn/pn.go"],
 [("data, text and call/entry conversions per node kind","pn/pn.go: ToData, Format, AsCall, AsParameters, WithName, formatElements, formatEntry")],
 ["ToData, Format, String, AsCall, AsParameters, WithName"])

prop("C13","Numeric literals have exactly the value written, or are rejected",
 "An integer literal in decimal, octal or hexadecimal notation yields an integer token whose value is exactly the number written in that radix, and the token covers exactly the digits and prefix; a floating point literal yields the nearest representable number. Text whose value cannot be represented is reported as an error, and a sign or operator directly after the digits is never made part of the number except in an exponent.",
 ["inputs"],"all digit sequences, prefixes, exponents and following characters",
 "Tests contain a few numerals; overflow and adjacent operators are not covered (the original code turned 1-2 into 0 and clamped overflowing numbers silently).",
 ["parser/lexer.go"],
 [("numeral scanning","parser/lexer.go: nextToken, consumeFloat, skipDecimalDigits")],
 ["value and radix of number nodes"])

prop("C14","String escapes denote exactly the documented characters",
 "The value of a single or double quoted string is the sequence of its characters with each escape replaced by exactly the character it denotes: in single quotes only the quote and the backslash, in double quotes additionally newline, return, tab, space, dollar and the Unicode escapes, and the two-digit hex escape where enabled. An unknown escape keeps its backslash, and a malformed Unicode or hex escape or an unterminated string is an error.",
 ["inputs"],"all sequences of characters and escapes, both quote styles, hex escapes on and off",
 "Tests contain one or two strings per escape; combinations, adjacency and malformed tails are unbounded.",
 ["parser/lexer.go"],
 [("delimited string scanner with an escape handler per quote style","parser/lexer.go: consumeDelimitedString, consumeSingleQuotedString, consumeDoubleQuotedString, appendUnicode, appendHexadec")],
 ["value of string tokens"])

prop("C15","Operators are tokenized by the longest match",
 "At a character that starts an operator or punctuation, the token produced is the one for the longest operator of the language's fixed operator table that the text starts with at that position, and the read position afterwards is exactly the end of that operator. Characters that start no token are reported as errors.",
 ["inputs","configurations"],"all texts following the current position",
 "Tests use each operator in one context; prefixes of operators at the end of the text or followed by unusual characters are not covered.",
 ["parser/lexer.go"],
 [("operator scanning","parser/lexer.go: nextToken")],
 ["tokens delivered by the lexer"])

prop("C16","Operator precedence and associativity are fixed",
 "In every parsed expression the operators bind in the fixed order in, match, multiplicative, additive, shift, equality, ordering, and, or, selector, assignment, relationship, from tightest to loosest: an operand of an operator is never an unparenthesized expression whose operator binds looser. Operators of one level group to the left, and assignment groups to the right.",
 ["inputs"],"all expressions, of any length and nesting",
 "Tests check a few pairs of operators; all pairs in all chains are unbounded.",
 ["parser/parser.go"],
 [("one function per precedence level","parser/parser.go: relationship, assignment, orExpression ... inExpression, unaryExpression")],
 ["operand structure of operator nodes"])

prop("C17","Statement calls keep every statement, once and in order",
 "Within a block, a bare name from the fixed set of statement functions that is followed by a statement becomes a call of that function whose arguments are exactly that following statement, or the elements of its comma separated list, in order. Every other statement is kept unchanged, once and in the original order, and a comma separated list anywhere else is an error.",
 ["inputs"],"all statement sequences, of any length",
 "Tests contain short blocks; adjacency of several names, lists and calls is unbounded.",
 ["parser/parser.go"],
 [("statement call transformation","parser/parser.go: transformCalls")],
 ["statements of blocks"])

prop("C18","A successful parse has consumed the whole source",
 "When a parse succeeds, the read position has reached the end of the source: no trailing text is ignored. A NUL character does not end the program: what follows it is never ignored, a source that contains one is rejected.",
 ["inputs"],"all sources",
 "The end of the text was signalled by the character value 0, so a NUL byte silently cut the source; tests contain no such source.",
 ["parser/parser.go","parser/lexer.go","parser/reader.go"],
 [("end-of-text token","parser/lexer.go: nextToken, skipWhite")],
 ["Parse"])

prop("C19","Definitions are collected exactly once each",
 "A successful parse of a program lists as its definitions exactly the definition expressions that occur in its AST (classes, defined types, functions, plans, nodes, types, applications, sites, capability mappings and top-level steps), each exactly once.",
 ["inputs"],"all programs",
 "Tests check a few programs with one or two definitions; lookahead that parses text twice registers a definition twice.",
 ["parser/parser.go"],
 [("registration of definitions","parser/parser.go: addDefinition, resourceExpression")],
 ["Definitions of the program"],
 [("definition list","definitions found so far","parser/lexer.go: context.definitions")])

prop("C20","Parsing terminates for every input",
 "Parsing any source terminates: every loop and every recursion of lexer and parser advances the read position or otherwise makes progress.",
 ["inputs"],"all sources",
 "A hang needs an input for which a loop consumes nothing; tests cannot enumerate them.",
 ["parser/parser.go","parser/lexer.go"],
 [("loops and mutual recursion of lexer and parser","parser/lexer.go, parser/parser.go")],
 ["Parse"])

prop("C21","Heredoc text is exact",
 "The value of a heredoc is the text between the line after its tag and its end tag with the margin, trailing newline suppression and enabled escapes applied, and parsing continues after the end tag line.",
 ["inputs"],"all heredoc texts, tags, flags and margins",
 "Tests contain about a dozen heredocs.",
 ["parser/lexer.go"],
 [("heredoc scanning","parser/lexer.go: consumeHeredocString, applyEscapes, stripIndent")],
 ["text of heredoc nodes"])

prop("C22","Each PN conversion renders all of a node's content",
 "The PN form of each kind of expression is its fixed operator applied to the PN forms of all of the expression's parts, in the fixed order for that kind, with exactly the absent optional parts left out. No part of the expression is dropped or rendered twice.",
 ["inputs"],"all AST shapes of all node kinds",
 "Tests convert a sample of trees; about sixty node kinds with optional parts and lists of any length exist.",
 ["parser/expression.go","parser/workflow.go","pn/pn.go"],
 [("per-node conversion","parser/expression.go: ToPN methods and pn helpers")],
 ["ToPN"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
