package parser

// ---- the reader ----
define inpos(r) = 0 <= r.i && r.i <= len(r.text)
define perr(v) = is(v, issue.Reported) || is(v, *parseError)
extern issue.NewLocation
    ensures result != nil
func (*stringReader).Next
    requires [C02,C03] inpos(r)
    modifies r.i
    panics is(v, *parseError)
    ensures [C02,C03] start == old(r.i) && old(r.i) <= r.i && r.i <= len(r.text)
    ensures [C03] old(r.i) == len(r.text) ==> c == 0 && r.i == old(r.i)
    ensures [C03] old(r.i) < len(r.text) ==> r.i > old(r.i)
    ensures [C03] (old(r.i) < len(r.text) && r.text[old(r.i)] < 128) ==> c == r.text[old(r.i)] && r.i == old(r.i) + 1
    ensures [C03] (old(r.i) < len(r.text) && r.text[old(r.i)] >= 128) ==> c >= 128
func (*stringReader).Peek
    requires [C02,C03] inpos(r)
    panics is(v, *parseError)
    ensures [C02,C03] 0 <= size && r.i + size <= len(r.text)
    ensures [C03] r.i == len(r.text) ==> c == 0 && size == 0
    ensures [C03] r.i < len(r.text) ==> size > 0
    ensures [C03] (r.i < len(r.text) && r.text[r.i] < 128) ==> c == r.text[r.i] && size == 1
    ensures [C03] (r.i < len(r.text) && r.text[r.i] >= 128) ==> c >= 128
func (*stringReader).PeekAt
    requires [C02,C03] 0 <= pos && pos <= len(r.text)
    panics is(v, *parseError)
    ensures [C02,C03] 0 <= size && pos + size <= len(r.text)
    ensures [C03] pos == len(r.text) ==> c == 0 && size == 0
    ensures [C03] pos < len(r.text) ==> size > 0
    ensures [C03] (pos < len(r.text) && r.text[pos] < 128) ==> c == r.text[pos] && size == 1
    ensures [C03] (pos < len(r.text) && r.text[pos] >= 128) ==> c >= 128
safety C02,C03 parser.(*stringReader).%
safety C02,C03 parser.(*context).%

define lines(c) = 0 <= c.beginningOfLine && c.beginningOfLine <= len(c.text) && c.nextLineStart <= len(c.text)
define located(c) = c.locator != nil && c.locator.string == c.text
define isspace(b) = b == ' ' || b == '\r' || b == '\t' || b == '\n'
define isplain(c, p) = p < len(c.text) && !isspace(c.text[p]) && c.text[p] != '#' && c.text[p] != '/'
func (*context).skipWhite
    requires [C02,C03] inpos(ctx) && lines(ctx) && located(ctx)
    modifies ctx.i, ctx.nextLineStart, ctx.beginningOfLine
    panics perr(v)
    ensures [C02,C03] old(ctx.i) <= start && start <= ctx.i && inpos(ctx) && lines(ctx)
    ensures [C03] c == 0 ==> (start == len(ctx.text) && ctx.i == start) || (start < len(ctx.text) && ctx.text[start] == 0 && ctx.i == start + 1)
    ensures [C03] c != 0 ==> start < len(ctx.text) && ite(ctx.text[start] < 128, c == ctx.text[start], c >= 128)
    ensures [C03] (c != 0 && c < 128) ==> ctx.i == ite(c == '\n', start, start + 1)
    ensures [C03] c != 0 ==> ctx.i > start || c == '\n'
    ensures [C03] c != ' ' && c != '\r' && c != '\t' && c != '#' && (!breakOnNewLine ==> c != '\n')
    ensures [C03] isplain(ctx, old(ctx.i)) ==> start == old(ctx.i)
func (*context).peekWhite
    requires [C02,C03] inpos(ctx) && lines(ctx) && located(ctx) && 0 <= pos && pos <= len(ctx.text)
    modifies ctx.i, ctx.nextLineStart, ctx.beginningOfLine
    panics perr(v)
    ensures [C02,C03] ctx.i == old(ctx.i) && ctx.nextLineStart == old(ctx.nextLineStart) && ctx.beginningOfLine == old(ctx.beginningOfLine)
    ensures [C03] pos <= start && start <= len(ctx.text)
func (*context).skipWhiteInLiteral
    requires [C02,C03] inpos(ctx)
    modifies ctx.i
    panics is(v, *parseError)
    ensures [C02,C03] old(ctx.i) <= start && start <= ctx.i && inpos(ctx)
    ensures [C03] c != 0 ==> start < len(ctx.text) && ite(ctx.text[start] < 128, c == ctx.text[start] && ctx.i == start + 1, c >= 128 && ctx.i > start)
    ensures [C03] c == 0 ==> (start == len(ctx.text) && ctx.i == start) || (start < len(ctx.text) && ctx.text[start] == 0 && ctx.i == start + 1)
template ctxpos(c *context) = [C02,C03] inpos(c)
template ctxlines(c *context) = [C02,C03] lines(c)
template ctxlocal(c *context, p int) = [C02,C03] 0 <= p && p <= c.i
template ctxplain(c *context, k int) = [C03] isplain(c, old(c.i)) ==> c.i == old(c.i) && k == 0
template ctxpre(c *context) = [C02,C03] pre(c.i) <= c.i
template ctxmono(c *context) = [C03] old(c.i) <= c.i

// ---- the state of the lexer between two tokens ----
define toff(e) = e.(*Nop).offset
define tloc(e) = e.(*Nop).locator
pred toktype(c)
    [C16] (tokenAssign <= c.currentToken && c.currentToken <= tokenAtat) ==> c.tokenValue == nil
    [C03] c.currentToken == tokenInteger ==> is(c.tokenValue, int64)
    [C03] c.currentToken == tokenFloat ==> is(c.tokenValue, float64)
    [C03] c.currentToken == tokenBoolean ==> is(c.tokenValue, bool)
    [C03] c.currentToken == tokenVariable ==> is(c.tokenValue, string) || is(c.tokenValue, int64)
    [C03,C06] c.currentToken == tokenConcatenatedString ==> is(c.tokenValue, *ConcatenatedString)
    [C03,C06] c.currentToken == tokenHeredoc ==> is(c.tokenValue, *HeredocExpression)
    [C03] strtoken(c.currentToken) ==> c.tokenValue == nil || is(c.tokenValue, string)
define strtok(c) = c.currentToken == tokenConcatenatedString || c.currentToken == tokenHeredoc
define strtoken(t) = t != tokenInteger && t != tokenFloat && t != tokenBoolean && t != tokenVariable && t != tokenConcatenatedString && t != tokenHeredoc && t != tokenDefault
// what the token covers
pred tokext(c)
    [C02] (c.currentToken == tokenConcatenatedString || c.currentToken == tokenHeredoc) ==> alive(c.tokenValue) && c.tokenStartPos <= toff(c.tokenValue) && toff(c.tokenValue) <= c.i && tloc(c.tokenValue) == c.locator
    [C02] c.currentToken == tokenIdentifier ==> is(c.tokenValue, string) && c.tokenStartPos + len(c.tokenValue.(string)) <= c.i
    [C02] c.currentToken == tokenVariable ==> c.tokenStartPos + 1 <= c.i && (is(c.tokenValue, string) ==> c.tokenStartPos + 1 + len(c.tokenValue.(string)) <= c.i)
    [C02] (tokenAnd <= c.currentToken && c.currentToken <= tokenUnless) ==> c.tokenStartPos + len(tokenMap[c.currentToken]) <= c.i
    [C18] c.currentToken == tokenEnd ==> c.i == len(c.text)
// enough to read a token
pred cwk(c)
    [C02,C03,C04] unfrozen(c.nameStack) && unfrozen(c.definitions)
    [C02,C03] inpos(c)
    [C02,C03] lines(c)
    [C02,C03] located(c)
    [C03] c.factory != nil
// between two tokens
pred cinv(c)
    [C02,C03,C04] unfrozen(c.nameStack) && unfrozen(c.definitions)
    [C02,C03] inpos(c)
    [C02,C03] lines(c)
    [C02,C03] located(c)
    [C03] c.factory != nil
    [C02,C03] 0 <= c.tokenStartPos && c.tokenStartPos <= c.i
    [C03] toktype(c)
    [C02] tokext(c)
group token
    requires [C02,C03] inpos(ctx) && located(ctx)
    modifies ctx.i, ctx.currentToken, ctx.tokenValue
    panics perr(v)
    ensures [C02,C03] inpos(ctx) && old(ctx.i) <= ctx.i
func (*context).consumeQualifiedName
    uses token
    requires [C02,C03] 0 <= start && start < ctx.i && start == ctx.tokenStartPos
    requires [C03] token == tokenTypeName || token == tokenIdentifier || token == tokenVariable
    ensures [C03] toktype(ctx)
    ensures [C02] tokext(ctx)
    ensures [C03] ctx.currentToken != tokenEnd
    shows [C15,C13] ite(token == tokenTypeName, ctx.currentToken == tokenTypeName, token == tokenIdentifier ==> isword(ctx.currentToken) || ctx.currentToken == tokenString)
    ensures [C03] token == tokenVariable ==> ctx.currentToken == tokenVariable && is(ctx.tokenValue, string)
func (*context).consumeBacktickedString
    uses token
    requires [C02,C03] ctx.i >= 1
    ensures [C03] ctx.currentToken == tokenString && is(ctx.tokenValue, string)
func (*context).consumeSingleQuotedString
    uses token
    requires [C02,C03] ctx.i >= 1
    ensures [C03] ctx.currentToken == tokenString && is(ctx.tokenValue, string)
func (*context).consumeRegexp
    uses token
    requires [C02,C03] ctx.i >= 1
    ensures [C03] result ==> ctx.currentToken == tokenRegexp && is(ctx.tokenValue, string)
    ensures [C02,C03] !result ==> ctx.i == old(ctx.i)
func (*context).extractFlags
    requires [C02,C03] inpos(ctx) && located(ctx) && 0 <= start && start <= ctx.i
    modifies ctx.i
    panics perr(v)
    ensures [C02,C03] ctx.i == old(ctx.i)
func (*context).stripIndent
    requires [C02,C03] inpos(ctx)
    modifies ctx.i
    panics is(v, *parseError)
    ensures [C02,C03] inpos(ctx) && old(ctx.i) <= ctx.i
group escape
    requires [C02,C03] inpos(ctx) && located(ctx) && ctx.i >= 2 && buf != nil
    modifies ctx.i, buf(buf)
    panics perr(v)
    ensures [C02,C03] inpos(ctx) && old(ctx.i) <= ctx.i
func (*context).appendHexadec
    uses escape
func (*context).appendUnicode
    uses escape
template ctxpeeked(c *context, n int) = [C02,C03] 0 <= n && c.i + n <= len(c.text)
template ctxpeekedat(c *context, p int, n int) = [C02,C03] 0 <= n && p + n <= len(c.text)
template ctxcount(c *context, n int) = [C03] n == 0 ==> c.i == old(c.i)
template ctxnatural(c *context, n int) = [C02,C03] 0 <= n
template ctxwithin(c *context, p int) = [C02,C03] 0 <= p && p <= len(c.text)
template ctxafter(c *context, p int) = [C02,C03] p <= c.i

// ---- one token ----
group state
    modifies ctx.i, ctx.nextLineStart, ctx.beginningOfLine, ctx.currentToken, ctx.tokenValue, ctx.tokenStartPos, ctx.radix, ctx.nameStack, ctx.definitions, heap callExpression.rvalRequired, tail(ctx.nameStack), tail(ctx.definitions), ctx.locator.lineIndex
    panics perr(v)
    ensures [C02,C03] len(ctx.nameStack) == old(len(ctx.nameStack)) && (base(ctx.nameStack) == old(base(ctx.nameStack)) || fresh(ctx.nameStack))
    ensures [C02,C03] len(ctx.definitions) >= old(len(ctx.definitions)) && (base(ctx.definitions) == old(base(ctx.definitions)) || fresh(ctx.definitions))
func (*context).nextToken
    uses state
    ensures [C02] strtok(ctx) ==> fresh(ctx.tokenValue)
    requires [C02,C03] cwk(ctx)
    ensures [C02,C03] cinv(ctx)
    ensures [C02,C03] ctx.tokenStartPos >= old(ctx.i)
    shows [C15] opshape(ctx)
    shows [C13] numshape(ctx)
    ensures [C03] isdigitat(ctx, old(ctx.i)) ==> ctx.currentToken == tokenInteger || ctx.currentToken == tokenFloat
define isdigitat(c, p) = p < len(c.text) && '0' <= c.text[p] && c.text[p] <= '9'
func (*context).consumeEPP
    uses state
    ensures [C02] strtok(ctx) ==> fresh(ctx.tokenValue)
    requires [C15] ctx.eppMode
    requires [C02,C03] cwk(ctx) && 0 <= ctx.tokenStartPos && ctx.tokenStartPos <= ctx.i
    ensures [C02,C03] cinv(ctx) && ctx.tokenStartPos >= old(ctx.tokenStartPos) && ctx.i >= old(ctx.i)
    shows [C15] opshape(ctx)
    shows [C13] numshape(ctx)
func (*context).consumeDoubleQuotedString
    uses state
    ensures [C02] strtok(ctx) ==> fresh(ctx.tokenValue)
    requires [C02,C03] cwk(ctx) && 0 <= ctx.tokenStartPos && ctx.tokenStartPos + 1 <= ctx.i
    shows [C15,C13] ctx.currentToken == tokenString || ctx.currentToken == tokenConcatenatedString
    ensures [C02,C03] cinv(ctx) && ctx.tokenStartPos == old(ctx.tokenStartPos) && ctx.i >= old(ctx.i)
func (*context).consumeHeredocString
    uses state
    ensures [C02] strtok(ctx) ==> fresh(ctx.tokenValue)
    requires [C02,C03] cwk(ctx) && 0 <= ctx.tokenStartPos && ctx.tokenStartPos + 2 == ctx.i
    shows [C15,C13] ctx.currentToken == tokenString || ctx.currentToken == tokenHeredoc
    ensures [C02,C03] cinv(ctx) && ctx.tokenStartPos == old(ctx.tokenStartPos) && ctx.i >= old(ctx.i)
// what a list of string segments looks like
define segok(c, lo, s) = forall(k, 0, len(s), s[k] != nil && alive(s[k]) && tloc(s[k]) == c.locator && lo <= toff(s[k]) && toff(s[k]) <= c.i)
func (*context).applyEscapes
    uses state
    requires [C02,C03] cwk(ctx) && 0 <= ctx.tokenStartPos && ctx.tokenStartPos <= ctx.i && end <= len(ctx.text) && (interpolateSegments == nil || (len(interpolateSegments) == 0 && unfrozen(interpolateSegments)))
    modifies tail(interpolateSegments)
    ensures [C02,C03] cwk(ctx) && ctx.i >= old(ctx.i)
    ensures [C02,C03] 0 <= ctx.tokenStartPos && ctx.tokenStartPos <= ctx.i
    ensures [C02,C03] len(segments) == 0 ==> ctx.tokenStartPos == old(ctx.tokenStartPos)
    ensures [C02,C03] unfrozen(segments) && segok(ctx, old(ctx.tokenStartPos), segments)
    ensures [C02,C03] base(segments) == base(interpolateSegments) || fresh(segments)
    ensures [C02,C03] interpolateSegments == nil ==> segments == nil
func (*context).handleInterpolation
    uses state
    requires [C02,C03] cwk(ctx) && 0 <= ctx.tokenStartPos && ctx.tokenStartPos <= ctx.i && ctx.tokenStartPos <= start && start + 1 <= ctx.i && unfrozen(segments) && buf != nil
    modifies tail(segments), buf(buf)
    ensures [C02,C03] cwk(ctx) && ctx.i >= old(ctx.i) && ctx.tokenStartPos == ctx.i
    ensures [C02,C03] len(result) > old(len(segments)) && unfrozen(result) && (base(result) == base(segments) || fresh(result))
    ensures [C02,C03] forall(k, 0, len(segments), result[k] == old(segments[k]))
    ensures [C02,C03] forall(k, len(segments), len(result), result[k] != nil && alive(result[k]) && tloc(result[k]) == ctx.locator && old(ctx.tokenStartPos) <= toff(result[k]) && toff(result[k]) <= ctx.i)
func (*context).interpolate
    uses state
    requires [C02,C03] cwk(ctx) && 0 <= ctx.tokenStartPos && ctx.tokenStartPos <= ctx.i && 0 <= start && start + 1 <= ctx.i
    ensures [C02,C03] cwk(ctx) && ctx.i >= old(ctx.i)
    ensures [C02,C03] result != nil && fresh(result) && tloc(result) == ctx.locator && toff(result) == start
func (*context).convertNamedAccessLHS
    requires [C02,C03] located(ctx) && ctx.factory != nil && expr != nil && 0 <= start && start + 1 <= expr.offset && expr.locator == ctx.locator
    ensures [C02,C03] is(result, *NamedAccessExpression) && tloc(result) == ctx.locator && start <= toff(result)

// ---- expressions ----
// a node of the parse in progress that starts at or after lo
define node(c, lo, e) = e != nil && alive(e) && tloc(e) == c.locator && lo <= toff(e) && toff(e) <= c.tokenStartPos && !is(e, *Program)
define nnl(s) = forall(k, 0, len(s), s[k] != nil)
define nodes(c, lo, s) = forall(k, 0, len(s), node(c, lo, s[k]))
define sorted(s) = forall(j, 0, len(s), forall(k, j, len(s), toff(s[j]) <= toff(s[k])))
define keyeds(s) = forall(k, 0, len(s), is(s[k], *KeyedEntry))
define paramlist(s) = forall(k, 0, len(s), is(s[k], *Parameter))
define selectors(s) = forall(k, 0, len(s), is(s[k], *SelectorEntry))
define caseopts(s) = forall(k, 0, len(s), is(s[k], *CaseOption))
define resbodies(s) = forall(k, 0, len(s), is(s[k], *ResourceBody))
group between
    uses state
    requires [C02,C03] cinv(ctx)
    ensures [C02,C03] cinv(ctx)
    ensures [C02,C03] ctx.tokenStartPos >= old(ctx.i)
group within
    uses state
    requires [C02,C03] cinv(ctx)
    ensures [C02,C03] cinv(ctx)
    ensures [C02,C03] ctx.tokenStartPos >= old(ctx.tokenStartPos) && ctx.i >= old(ctx.i)
group made
    ensures [C02,C03] node(ctx, old(ctx.tokenStartPos), result)
    ensures [C02,C03] fresh(result) || (result == old(ctx.tokenValue) && (old(ctx.currentToken) == tokenHeredoc || old(ctx.currentToken) == tokenConcatenatedString))
default parser.(*context).% -> parser.Expression
    uses between
    uses made
default parser.(*context).% -> []parser.Expression
    uses within
    ensures [C02,C03] nodes(ctx, old(ctx.tokenStartPos), result)
default parser.(*context).% -> string
    uses between
default parser.(*context).% -> parser.StepStyle
    uses between
func (*context).keyword
    ensures [C02,C03] ok ==> word == tokenMap[ctx.currentToken] && tokenAnd <= ctx.currentToken && ctx.currentToken <= tokenUnless
func (*context).transformCalls
    requires [C02,C03] located(ctx) && ctx.factory != nil && nodes(ctx, 0, exprs) && sorted(exprs) && unfrozen(exprs)
    modifies heap callExpression.rvalRequired, ctx.locator.lineIndex
    panics perr(v)
    ensures [C02,C03] nodes(ctx, 0, result)
    ensures [C02,C03] len(exprs) >= 1 ==> forall(k, 0, len(result), old(toff(exprs[0])) <= toff(result[k]))
template ltmemo@transformCalls(c *context, s []Expression, r []Expression, e Expression, i int) = [C02,C03] e == s[i-1] && 1 <= i
template ltres@transformCalls(c *context, s []Expression, r []Expression) = [C02,C03] nodes(c, 0, r) && base(r) != base(s)
template ltres2@transformCalls(c *context, s []Expression, r []Expression) = [C02,C03] forall(k, 0, len(r), toff(s[0]) <= toff(r[k]))
func (*context).parse
    uses within
    uses made
    ensures [C02,C03] !singleExpression ==> is(result, *BlockExpression)
    ensures [C02,C03,C18] ctx.currentToken == expectedEnd

// ---- how nodes lie inside each other, as far as the lexer relies on it ----
invariant (e *AccessExpression)
    [C02,C03] e.offset <= toff(e.operand) && tloc(e.operand) == e.locator
invariant (e *NamedAccessExpression)
    [C02,C03] e.offset <= toff(e.lhs) && tloc(e.lhs) == e.locator
invariant (e *callExpression)
    [C02,C03] e.offset <= toff(e.functor) && tloc(e.functor) == e.locator
invariant (e *CallMethodExpression)
    [C03] is(e.functor, *NamedAccessExpression)
invariant (e *commaSeparatedList)
    [C03] len(e.elements) >= 1
    [C02] forall(k, 0, len(e.elements), tloc(e.elements[k]) == e.locator)
assumption [C02] a node whose range is moved by a leading sign (updateOffsetAndLength) is not part of another node yet: it is the node that was just parsed
iface Expression.updateOffsetAndLength
    requires [C02] 0 <= offset && offset <= toff(recv) && 0 <= length && offset + length <= len(tloc(recv).string)
    modifies recv.(*Nop).offset, recv.(*Nop).length
    ensures [C02] toff(recv) == offset

// ---- loops ----
template lnames(c *context) = [C02,C03] len(c.nameStack) == old(len(c.nameStack)) && (base(c.nameStack) == old(base(c.nameStack)) || fresh(c.nameStack))
template ldefs(c *context) = [C02,C03] len(c.definitions) >= old(len(c.definitions)) && (base(c.definitions) == old(base(c.definitions)) || fresh(c.definitions))
template ltok(c *context) = [C02,C03] 0 <= c.tokenStartPos && c.tokenStartPos <= c.i
template ltoktype(c *context) = [C02,C03] toktype(c)
template ltokext(c *context) = [C02] tokext(c)
template lprog(c *context) = [C02,C03] c.tokenStartPos >= old(c.i)
template lback(c *context) = [C02,C03] c.tokenStartPos >= old(c.tokenStartPos)
template lstay(c *context) = [C02,C03] c.tokenStartPos == old(c.tokenStartPos)
template lnode(c *context, e Expression) = [C02,C03] node(c, old(c.tokenStartPos), e)
template lfresh(c *context, e Expression) = [C02,C03] fresh(e) || (e == old(c.tokenValue) && (old(c.currentToken) == tokenHeredoc || old(c.currentToken) == tokenConcatenatedString))
template lnodes(c *context, s []Expression) = [C02,C03] nodes(c, old(c.tokenStartPos), s)
template lsorted(c *context, s []Expression) = [C02] sorted(s)
template lsegs(c *context, s []Expression) = [C02,C03] segok(c, old(c.tokenStartPos), s)
template lempty(c *context, s []Expression) = [C02,C03] len(s) == 0 ==> c.tokenStartPos == old(c.tokenStartPos)
template lunfrozen(c *context, s []Expression) = [C02,C03] unfrozen(s)
template lfreshlist(c *context, s []Expression) = [C02,C03] fresh(s)
template lowlist(c *context, p int, ec rune) = [C02,C03] old(c.tokenStartPos) <= p && c.tokenStartPos <= p && p <= c.i && (ec != 0 ==> p + 1 <= c.i)
template lnolist(c *context, s []Expression) = [C02,C03] s == nil
template lunfrozenctx(c *context) = [C02,C03,C04] unfrozen(c.nameStack) && unfrozen(c.definitions)
template lnames2(c *context) = [C02,C03] len(c.nameStack) == pre(len(c.nameStack)) && (base(c.nameStack) == pre(base(c.nameStack)) || base(c.nameStack) == old(base(c.nameStack)) || fresh(c.nameStack))
template lbuf(n int, b *bytes.Buffer) = [C02,C03] 0 <= n && n <= len(bufstr(b))
template latend(c *context, ec rune) = [C18] ec == 0 ==> c.i == len(c.text) || (c.i > 0 && c.text[c.i-1] == 0)
template lsamelist@applyEscapes(s []Expression, r []Expression) = [C02,C03] base(s) == base(r) || fresh(s)
template lsegstart@applyEscapes(c *context, p int) = [C02,C03] old(c.tokenStartPos) <= p && c.tokenStartPos <= p
template lnil@applyEscapes(s []Expression, r []Expression) = [C02,C03] r == nil ==> s == nil
template lnonempty(c *context, s []Expression) = [C02,C03] s == nil || len(s) >= 1
template lkeyed(c *context, s []Expression) = [C02,C03] keyeds(s)
template lparams(c *context, s []Expression) = [C02,C03] paramlist(s)
template lselectors(c *context, s []Expression) = [C02,C03] selectors(s)
template loptions(c *context, s []Expression) = [C02,C03] caseopts(s)
template lbodies(c *context, s []Expression) = [C02,C03] resbodies(s)
template lnodes0(c *context, s []Expression) = [C02,C03] nodes(c, 0, s)
template lnode0@resourceBodies(c *context, e Expression) = [C02,C03] node(c, 0, e)
template ltitle@resourceBodies(c *context, s []Expression) = [C02,C03] len(s) == 0 ==> c.currentToken == tokenColon
template lprogcolon@resourceBodies(c *context, s []Expression) = [C02,C03] len(s) > 0 ==> c.tokenStartPos >= old(c.i)

define apart(c, e) = strtok(c) ==> ref(e) != ref(c.tokenValue)
define isnumtok(t) = t == tokenInteger || t == tokenFloat
func (*context).atomExpression
    uses between
    ensures [C16] lvl(result) <= 0
    uses made
    ensures [C02] isnumtok(old(ctx.currentToken)) ==> apart(ctx, result)
func (*context).primaryExpression
    uses between
    ensures [C16] lvl(result) <= 0
    uses made
    ensures [C02] isnumtok(old(ctx.currentToken)) ==> apart(ctx, result)
template lapart@primaryExpression(c *context, e Expression) = [C02] isnumtok(old(c.currentToken)) ==> apart(c, e)
group node1
    ensures [C02,C03] node(ctx, old(ctx.tokenStartPos), result) && fresh(result)
group list1
    ensures [C02,C03] nodes(ctx, old(ctx.tokenStartPos), result)
func (*context).keyedEntry
    uses between
    uses node1
    ensures [C02,C03] is(result, *KeyedEntry)
func (*context).stepProperty
    uses between
    uses node1
    ensures [C02,C03] is(result, *KeyedEntry)
func (*context).stateAttribute
    uses between
    uses node1
    ensures [C02,C03] is(result, *KeyedEntry)
func (*context).parameter
    uses between
    uses node1
    ensures [C02,C03] is(result, *Parameter)
func (*context).returnParameter
    uses between
    uses node1
    ensures [C02,C03] is(result, *Parameter)
func (*context).selectorEntry
    uses between
    uses node1
    ensures [C02,C03] is(result, *SelectorEntry)
func (*context).caseOption
    uses between
    uses node1
    ensures [C02,C03] is(result, *CaseOption)
func (*context).hashExpression
    uses within
    uses list1
    ensures [C02,C03] keyeds(result)
func (*context).stateHash
    uses within
    uses list1
    ensures [C02,C03] keyeds(result)
func (*context).caseOptions
    uses within
    uses list1
    ensures [C02,C03] caseopts(result)
func (*context).parameterList
    uses within
    ensures [C02,C03] result == nil || fresh(result)
    uses list1
    ensures [C02,C03] paramlist(result)
func (*context).lambdaParameterList
    uses between
    ensures [C02,C03] result == nil || fresh(result)
    uses list1
    ensures [C02,C03] paramlist(result)
func (*context).returnParameters
    uses within
    uses list1
    ensures [C02,C03] paramlist(result)
func (*context).lambda
    uses between
    uses node1
func (*context).typeName
    uses within
    ensures [C02,C03] result == nil ==> ctx.i == old(ctx.i) && ctx.tokenStartPos == old(ctx.tokenStartPos)
    ensures [C02,C03] result != nil ==> ctx.tokenStartPos >= old(ctx.i) && node(ctx, old(ctx.tokenStartPos), result) && fresh(result) && is(result, *QualifiedReference)
func (*context).parameterType
    uses between
    uses node1
func (*context).callFunctionExpression
    uses between
    ensures [C16] lvl(result) <= 0
    ensures [C02] apart(ctx, result)
    requires [C02,C03] node(ctx, 0, functorExpr)
    ensures [C02,C03] node(ctx, old(toff(functorExpr)), result) && fresh(result)
func (*context).collectExpression
    uses between
    ensures [C16] lvl(result) <= 0
    ensures [C02] apart(ctx, result)
    requires [C02,C03] node(ctx, 0, lhs)
    ensures [C02,C03] node(ctx, old(toff(lhs)), result) && fresh(result)
func (*context).selectorsExpression
    requires [C16] lvl(test) <= 10
    uses between
    ensures [C16] lvl(result) <= 10
    requires [C02,C03] node(ctx, 0, test)
    ensures [C02,C03] node(ctx, old(toff(test)), result) && fresh(result)
func (*context).resourceExpression
    uses between
    ensures [C16] lvl(result) <= 0
    requires [C02,C03] node(ctx, 0, first) && 0 <= start && start <= toff(first)
    ensures [C02,C03] node(ctx, start, result) && fresh(result)
func (*context).resourceBody
    uses between
    requires [C02,C03] node(ctx, 0, title)
    ensures [C02,C03] node(ctx, old(toff(title)), result) && fresh(result) && is(result, *ResourceBody)
func (*context).resourceBodies
    uses between
    requires [C02,C03] node(ctx, 0, title) && ctx.currentToken == tokenColon
    ensures [C02,C03] nodes(ctx, 0, result) && resbodies(result)
func (*context).capabilityMapping
    uses between
    ensures [C16] lvl(result) <= 0
    uses node1
    requires [C02,C03] node(ctx, 0, component)
func (*context).classExpression
    uses between
    ensures [C16] lvl(result) <= 0
    requires [C02,C03] 0 <= start && start <= ctx.tokenStartPos
    ensures [C02,C03] node(ctx, start, result) && fresh(result)
func (*context).stepDeclaration
    uses between
    ensures [C16] lvl(result) <= 0
    requires [C02,C03] 0 <= start && start <= ctx.tokenStartPos
    ensures [C02,C03] node(ctx, start, result) && fresh(result)
func (*context).convertLhsToCall
    requires [C02,C03] located(ctx) && ctx.factory != nil && ne != nil && ne.locator == ctx.locator && 0 <= start && start <= ne.offset && 0 <= len && start + len <= len(ctx.text) && nnl(args)
    ensures [C02,C03] is(result, *CallMethodExpression) && tloc(result) == ctx.locator && toff(result) == start && fresh(result) && alive(result)
func (*context).identifier
    uses state
    requires [C02,C03] cinv(ctx)
    ensures [C02,C03] ite(result1, ctx.tokenStartPos >= old(ctx.i), ctx.i == old(ctx.tokenStartPos) && ctx.tokenStartPos == ctx.i && ctx.currentToken == old(ctx.currentToken) && ctx.tokenValue == old(ctx.tokenValue))
    ensures [C02,C03] result1 ==> old(ctx.tokenStartPos) + len(result0) <= old(ctx.i)
    ensures [C02,C03] result1 ==> cinv(ctx)
    ensures [C02,C03] cwk(ctx)
func (*context).identifierExpr
    uses state
    requires [C02,C03] cinv(ctx)
    ensures [C02,C03] result1 ==> ctx.tokenStartPos >= old(ctx.i) && node(ctx, old(ctx.tokenStartPos), result0) && fresh(result0) && is(result0, *QualifiedName)
    ensures [C02,C03] result1 ==> cinv(ctx)
    ensures [C02,C03] cwk(ctx)
func convertToDeferred
    requires [C03] f != nil
    ensures [C02,C03] (result == nil) == (e == nil)
    ensures [C02,C03] e != nil ==> tloc(result) == tloc(e) && toff(result) == toff(e)
    ensures [C02,C03] result == e || (fresh(result) && alive(result))
    ensures [C02,C03] !is(e, *Program) ==> !is(result, *Program)
    ensures [C02,C03] is(e, *KeyedEntry) ==> is(result, *KeyedEntry)
func convertSliceToDeferred
    requires [C03] f != nil && nnl(be)
    ensures [C02,C03] len(result) == len(be) && nnl(result)
    ensures [C02,C03] forall(k, 0, len(be), is(be[k], *KeyedEntry) ==> is(result[k], *KeyedEntry))
template ldeferred(s []Expression, r []Expression) = [C02,C03] forall(k, 0, iter, r[k] != nil && (is(s[k], *KeyedEntry) ==> is(r[k], *KeyedEntry)))
func (*context).processHashEntries
    requires [C02,C03] located(ctx) && ctx.factory != nil && len(exprs) >= 1 && nodes(ctx, 0, exprs) && sorted(exprs)
    ensures [C02,C03] nodes(ctx, old(toff(exprs[0])), result)
template ljoin@processHashEntries(c *context, r []Expression, s []Expression) = [C02,C03] nodes(c, toff(s[0]), r)
template ljoin1@processHashEntries(c *context, r []Expression, s []Expression) = [C02,C03] r == nil || (len(r) >= 1 && unfrozen(r) && keyeds(r))
template ljoin2@processHashEntries(c *context, r []Expression, s []Expression) = [C02,C03] forall(k, 0, len(r), toff(r[0]) <= toff(r[k]) && forall(m, iter, len(s), toff(r[k]) <= toff(s[m])))
template ljoin3@processHashEntries(r []Expression, s []Expression) = [C02,C03] r == nil || base(r) != base(s)

// ---- a parse as a whole ----
define started(c) = c.i == 0 && c.tokenStartPos == 0 && c.currentToken == tokenEnd && c.tokenValue == nil && c.radix == 0 && c.nextLineStart == 0 - 1 && c.beginningOfLine == 0 && c.nameStack == nil && len(c.definitions) == 0
func (*context).parseTopExpression
    requires [C02,C03] cwk(ctx)
    requires [C02,C03,C04,C18] started(ctx)
    requires [C04] ctx.text == source && ctx.locator.string == source && ctx.locator.file == filename && ctx.locator.lineIndex == nil
    modifies ctx.i, ctx.nextLineStart, ctx.beginningOfLine, ctx.currentToken, ctx.tokenValue, ctx.tokenStartPos, ctx.radix, ctx.nameStack, ctx.definitions, heap callExpression.rvalRequired, tail(ctx.nameStack), tail(ctx.definitions), ctx.locator.lineIndex
    panics false
    ensures [C03] err == nil || perr(err)
    ensures [C03] err == nil ==> expr != nil
    ensures [C02,C03] inpos(ctx) && located(ctx) && ctx.factory != nil
    ensures [C18] err == nil ==> ctx.i == len(ctx.text)
func (*context).Parse
    requires [C02,C03] ctx.factory != nil
    modifies ctx.*, heap callExpression.rvalRequired
    panics false
    ensures [C03] err == nil || perr(err)
    ensures [C03] err == nil ==> expr != nil
    ensures [C18] err == nil ==> ctx.text == source && ctx.i == len(source)
assumption [C02,C03] Parse is called on a parser that CreateParser made, so it has a factory
