CLAIMS={
"C11":"DoubleQuote is proved, for every string, to append exactly the quoted form defined character by character. Assumed: what fmt prints for the octal format, the model of bytes.Buffer and of UTF-8 decoding (trusted base in the evidence).",
"C12":"The text that Format appends (for every PN without float literals), the structure ToData returns and what every constructor and conversion keeps are postconditions, proved for all elements. Assumed: fmt's output for one literal, the model of bytes.Buffer.",
"C10":"toLiteral and ToLiteral are proved to succeed exactly for literal trees and to return the value element by element, entry by entry. Assumed: the model of Go maps.",
"C22":"The ToPN method of every node kind is proved to render its fixed operator, all of its parts and nothing else, for lists of any length. That mandatory parts are present is an obligation of the functions that build nodes, discharged under C06.",
"C05":"DeepVisit, ShallowVisit and the AllContents and Contents of every node kind are proved, over a ghost trace of visitor calls, to visit each part once, in the fixed order, with the path extended by the node, for lists of any length. Assumed: the visitor leaves the tree and the path alone.",
"C01":"The line index, LineForOffset and PosOnLine are proved exact for every source and every offset from 0 to its length, over a recursive definition of newline count and line start (with lemmas proved by induction), and to fail at no run-time check; Line and Pos of nodes and of reported issues are proved to be these for the node's offset. Assumed: utf8.RuneCountInString counts characters, sort.SearchInts is a binary search, node offsets lie in the source (C02).",
"C07":"Accept is proved to record exactly one issue with the configured severity (error by default) or none when ignored; every function of the three validators is proved to leave the list of recorded issues equal to the ghost sequence of accepted ones (nothing dropped, repeated, reordered); Check is proved to dispatch every kind of expression to its check; Validate is proved to start empty and to examine exactly the expressions of the deep traversal (C05), once each, with their paths; Demote and the severities of a new validator are postconditions. Assumed: the issue library.",
"C08":"The traces of reports of the four parameter issues are postconditions of the checking functions, for lists of any length, defined recursively over the list; Check is proved to report them for exactly the kinds of definitions named, and every other check function to report none of them. That parameter lists hold parameters is an obligation of the functions that build nodes, discharged under C06.",
"C02":"Every function of the lexer and the grammar is proved, for every source, to build nodes only with a range inside the source: the range is an object invariant of every node, obligated at each construction and each later change of a length, and every text access is a checked index. Assumed: models of strings, buffers and UTF-8; machine integers do not overflow.",
"C03":"Every run-time check (index, slice, nil, type assertion, division) of every lexer and grammar function is a discharged obligation; every panic is proved to carry a reported issue or an invalid-character error, and Parse is proved to turn it into an error and to return a node exactly when it returns none. Assumed: the regexp, strconv and issue libraries do not panic; stack and memory suffice (termination is C20).",
"C06":"The nodes' well-formedness (mandatory parts present, lists of the kind the type demands) is an object invariant, obligated wherever the parser builds or changes a node and assumed in ToPN, Label, the traversals, the PN package, ToLiteral and every validator function, whose run-time checks are all discharged. Assumed: the model of Go maps and the issue library; fmt prints any value.",
"C13":"nextToken and consumeNumber are proved to produce an integer token that covers exactly the digits and prefix and whose value is what strconv.ParseInt defines for that text and radix, a float token likewise, and to report an error exactly when that does not fit. Assumed: strconv converts correctly.",
"C15":"nextToken is proved, for every text and position, to produce the token of the longest table operator at the position and to leave the read position at its end, and to report a character that starts none.",
"C16":"Each level function is proved to return a node whose operator binds at least as tightly as its level, built from operands that satisfy the same for the tighter level, left operand first; every operator node built is obligated to have operands of the required levels.",
"C18":"Parse is proved to return a node only when the current token is the end token, which is proved to be produced only at the end of the source text.",
}
NA={}
