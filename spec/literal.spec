package literal

logic islit(Val) Bool
logic iscoll(Val) Bool
logic litof(Val,Val) Bool
logic litkey(Val) Val

axiom lit_prog(e *parser.Program) = by(islit(box(e)) == islit(e.body), islit(box(e)))
axiom lit_list(e *parser.LiteralList) = by(islit(box(e)) == forall(k, 0, len(e.elements), islit(felem(e.elements, k))), islit(box(e)))
axiom lit_hash(e *parser.LiteralHash) = by(islit(box(e)) == forall(k, 0, len(e.entries), entrylit(felem(e.entries, k).(*parser.KeyedEntry)), felem(e.entries, k)), islit(box(e)))
define entrylit(ke) = islit(ke.key) && !iscoll(ke.key) && islit(ke.value)
axiom lit_conc(e *parser.ConcatenatedString) = by(islit(box(e)) == (len(e.segments) == 1 && is(felem(e.segments, 0), *parser.LiteralString)), islit(box(e)))
axiom lit_here(e *parser.HeredocExpression) = by(islit(box(e)) == islit(e.text), islit(box(e)))
axiom lit_else(e parser.Expression) = by(!(is(e, *parser.Program) || is(e, *parser.LiteralList) || is(e, *parser.LiteralHash) || is(e, *parser.ConcatenatedString) || is(e, *parser.HeredocExpression)) ==> islit(e) == is(e, parser.LiteralValue), islit(e))

axiom coll_prog(e *parser.Program) = by(iscoll(box(e)) == iscoll(e.body), iscoll(box(e)))
axiom coll_here(e *parser.HeredocExpression) = by(iscoll(box(e)) == iscoll(e.text), iscoll(box(e)))
axiom coll_else(e parser.Expression) = by(!(is(e, *parser.Program) || is(e, *parser.HeredocExpression)) ==> iscoll(e) == (is(e, *parser.LiteralList) || is(e, *parser.LiteralHash)), iscoll(e))

axiom key_prog(e *parser.Program) = by(litkey(box(e)) == litkey(e.body), litkey(box(e)))
axiom key_here(e *parser.HeredocExpression) = by(litkey(box(e)) == litkey(e.text), litkey(box(e)))
axiom key_conc(e *parser.ConcatenatedString) = by(litkey(box(e)) == box(felem(e.segments, 0).(*parser.LiteralString).value), litkey(box(e)))
axiom key_else(e parser.Expression) = by(is(e, parser.LiteralValue) ==> litkey(e) == litscalar(e), litkey(e))

func toLiteral
    panics [C10] v == box("not literal") && !islit(e)
    defines litof(e, result)
    ensures [C10] islit(e)
    ensures [C10] iscoll(e) == (is(result, []interface{}) || is(result, map[interface{}]interface{}))
    ensures [C10] !iscoll(e) ==> result == litkey(e)
    ensures [C06] !iscoll(e) ==> hashable(result)
    ensures [C06] !is(e, *parser.Program) && !is(e, *parser.LiteralList) && !is(e, *parser.LiteralHash) ==> !iscoll(e)
    ensures [C10] is(e, *parser.Program) ==> litof(e.(*parser.Program).body, result)
    ensures [C10] is(e, *parser.HeredocExpression) ==> litof(e.(*parser.HeredocExpression).text, result)
    ensures [C10] is(e, *parser.LiteralList) ==> islist(e.(*parser.LiteralList).elements, result.([]interface{}), len(e.(*parser.LiteralList).elements))
    ensures [C10] is(e, *parser.LiteralHash) ==> ishash(e.(*parser.LiteralHash).entries, result.(map[interface{}]interface{}), len(e.(*parser.LiteralHash).entries))
define islist(l, r, n) = len(r) == len(l) && forall(k, 0, n, litof(felem(l, k), r[k]))
define keyat(h, k) = litkey(felem(h, k).(*parser.KeyedEntry).key)
define valat(h, k) = felem(h, k).(*parser.KeyedEntry).value
define ishash(h, m, n) = forall(k, 0, n, has(m, keyat(h, k)), felem(h, k)) && forall(k, 0, n, forall(j, k + 1, n, keyat(h, j) != keyat(h, k), felem(h, j)) ==> litof(valat(h, k), m[keyat(h, k)]), felem(h, k))
template list_so_far(l []parser.Expression, r []interface{}, n int) = [C10] islist(l, r, n) && forall(k, 0, n, islit(felem(l, k)))
template hash_so_far(h []parser.Expression, m map[interface{}]interface{}, n int) = [C10] ishash(h, m, n) && forall(k, 0, n, entrylit(felem(h, k).(*parser.KeyedEntry)), felem(h, k))

func ToLiteral
    panics false
    ensures [C10] ok == islit(e)
    ensures [C06] ok && !is(e, *parser.Program) && !is(e, *parser.LiteralList) && !is(e, *parser.LiteralHash) ==> hashable(value)
    ensures [C06] ok && is(e, *parser.ConcatenatedString) ==> is(value, string)
    ensures [C10] ok ==> litof(e, value)
    ensures [C10] !ok ==> value == nil
safety C06 literal.%
