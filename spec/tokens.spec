package parser

// ---- C15: the operator table ----
define at(c, p, b) = p < len(c.text) && c.text[p] == b
define opeq(c, p) = ite(at(c, p + 1, '='), tokenEqual, ite(at(c, p + 1, '~'), tokenMatch, ite(at(c, p + 1, '>'), tokenFarrow, tokenAssign)))
define opminus(c, p) = ite(at(c, p + 1, '='), tokenSubtractAssign, ite(at(c, p + 1, '>'), tokenInEdge, tokenSubtract))
define opplus(c, p) = ite(at(c, p + 1, '='), tokenAddAssign, ite(at(c, p + 1, '>'), tokenParrow, tokenAdd))
define opbang(c, p) = ite(at(c, p + 1, '='), tokenNotEqual, ite(at(c, p + 1, '~'), tokenNotMatch, tokenNot))
define opgt(c, p) = ite(at(c, p + 1, '='), tokenGreaterEqual, ite(at(c, p + 1, '>'), tokenRshift, tokenGreater))
define oplt(c, p) = ite(at(c, p + 1, '='), tokenLessEqual, ite(at(c, p + 1, '<'), ite(at(c, p + 2, '|'), tokenLlcollect, tokenLshift), ite(at(c, p + 1, '|'), tokenLcollect, ite(at(c, p + 1, '-'), tokenOutEdge, ite(at(c, p + 1, '~'), tokenOutEdgeSub, tokenLess)))))
define oppipe(c, p) = ite(at(c, p + 1, '>'), ite(at(c, p + 2, '>'), tokenRrcollect, tokenRcollect), tokenPipe)
define opother(b) = ite(b == '{', tokenLc, ite(b == '}', tokenRc, ite(b == '[', tokenLb, ite(b == ']', tokenRb, ite(b == '(', tokenLp, ite(b == ')', tokenRp, ite(b == ',', tokenComma, ite(b == ';', tokenSemicolon, ite(b == '.', tokenDot, ite(b == '?', tokenQmark, ite(b == ':', tokenColon, ite(b == '*', tokenMultiply, ite(b == '%', tokenRemainder, ite(b == '/', tokenDivide, 0 - 1))))))))))))))
define opat(c, p) = ite(at(c, p, '='), opeq(c, p), ite(at(c, p, '-'), opminus(c, p), ite(at(c, p, '+'), opplus(c, p), ite(at(c, p, '!'), opbang(c, p), ite(at(c, p, '>'), opgt(c, p), ite(at(c, p, '<'), oplt(c, p), ite(at(c, p, '|'), oppipe(c, p), ite(at(c, p, '@'), ite(at(c, p + 1, '@'), tokenAtat, tokenAt), ite(at(c, p, '~') && at(c, p + 1, '>'), tokenInEdgeSub, opother(c.text[p]))))))))))
define op3(t) = t == tokenLlcollect || t == tokenRrcollect
define op2(t) = t == tokenEqual || t == tokenMatch || t == tokenFarrow || t == tokenSubtractAssign || t == tokenInEdge || t == tokenAddAssign || t == tokenParrow || t == tokenNotEqual || t == tokenNotMatch || t == tokenGreaterEqual || t == tokenRshift || t == tokenLessEqual || t == tokenLshift || t == tokenLcollect || t == tokenOutEdge || t == tokenOutEdgeSub || t == tokenRcollect || t == tokenAtat || t == tokenInEdgeSub
define oplen(t) = ite(op3(t), 3, ite(op2(t), 2, 1))
// tokens that differ by what surrounds them
define samepunct(t) = ite(t == tokenSelc, tokenLc, ite(t == tokenListstart, tokenLb, ite(t == tokenWslp, tokenLp, ite(t == tokenPipeEnd, tokenPipe, t))))
define isop(t) = tokenAssign <= t && t <= tokenSemicolon && !(tokenEppEnd <= t && t <= tokenRenderString)
define lower(b) = 'a' <= b && b <= 'z'
define upper(b) = 'A' <= b && b <= 'Z'
define isdig(b) = '0' <= b && b <= '9'
define namestart(c, p) = lower(c.text[p]) || (c.text[p] == ':' && at(c, p + 1, ':'))
define typestart(c, p) = upper(c.text[p]) || (c.text[p] == ':' && at(c, p + 1, ':'))
define isword(t) = t == tokenIdentifier || t == tokenBoolean || t >= tokenAnd
pred opshape(c)
    [C15] isop(c.currentToken) ==> c.tokenStartPos < len(c.text)
    [C15] isop(c.currentToken) ==> samepunct(c.currentToken) == opat(c, c.tokenStartPos)
    [C15] isop(c.currentToken) ==> c.i == c.tokenStartPos + oplen(c.currentToken)
    [C15] (!c.eppMode && c.currentToken != tokenEnd) ==> c.tokenStartPos < len(c.text)
    [C15] (!c.eppMode && isword(c.currentToken)) ==> namestart(c, c.tokenStartPos)
    [C15] (!c.eppMode && c.currentToken == tokenTypeName) ==> typestart(c, c.tokenStartPos)
    [C15] (!c.eppMode && c.currentToken == tokenVariable) ==> c.text[c.tokenStartPos] == '$'
    [C15] (!c.eppMode && c.currentToken == tokenRegexp) ==> c.text[c.tokenStartPos] == '/'
    [C15] (!c.eppMode && c.currentToken == tokenConcatenatedString) ==> c.text[c.tokenStartPos] == '"'
    [C15] (!c.eppMode && c.currentToken == tokenHeredoc) ==> c.text[c.tokenStartPos] == '@' && at(c, c.tokenStartPos + 1, '(')
    [C15] (!c.eppMode && c.currentToken == tokenString) ==> c.text[c.tokenStartPos] == '"' || c.text[c.tokenStartPos] == '`' || c.text[c.tokenStartPos] == 39 || namestart(c, c.tokenStartPos) || (c.text[c.tokenStartPos] == '@' && at(c, c.tokenStartPos + 1, '('))
    [C15] (!c.eppMode && (c.currentToken == tokenInteger || c.currentToken == tokenFloat)) ==> isdig(c.text[c.tokenStartPos])

// ---- C13: numbers ----
logic strint(Str,Int) Int
logic strflt(Str,Int) Flt
logic intfits(Str,Int,Int) Bool
logic fltfits(Str,Int) Bool
assumption [C13] strconv.ParseInt returns the number that the digits denote in the given radix, or an error when it does not fit; strconv.ParseFloat returns the nearest representable number, or an error
extern strconv.ParseInt
    ensures result1 == nil ==> result0 == strint(s, base)
    ensures (result1 == nil) == intfits(s, base, bitSize)
extern strconv.ParseFloat
    ensures result1 == nil ==> result0 == strflt(s, bitSize)
    ensures (result1 == nil) == fltfits(s, bitSize)
define isoct(b) = '0' <= b && b <= '7'
define ishex(b) = isdig(b) || ('a' <= b && b <= 'f') || ('A' <= b && b <= 'F')
define isletter(b) = lower(b) || upper(b)
define digits(c, a, b) = forall(k, a, b, isdig(c.text[k]))
define octs(c, a, b) = forall(k, a, b, isoct(c.text[k]))
define hexs(c, a, b) = forall(k, a, b, ishex(c.text[k]))
define nodigit(c, p) = p >= len(c.text) || !isdig(c.text[p])
define noletter(c, p) = p >= len(c.text) || !isletter(c.text[p])
define eE(b) = b == 'e' || b == 'E'
define ishexlit(c, p) = at(c, p, '0') && (at(c, p + 1, 'x') || at(c, p + 1, 'X'))
define intval(c) = c.tokenValue.(int64)
define floatchars(c, a, b) = forall(k, a, b, isdig(c.text[k]) || eE(c.text[k]) || ((c.text[k] == '+' || c.text[k] == '-') && eE(c.text[k-1])))
pred numshape(c)
    [C13] c.currentToken == tokenInteger ==> c.tokenStartPos < c.i && is(c.tokenValue, int64) && isdig(c.text[c.tokenStartPos])
    [C13] c.currentToken == tokenInteger ==> nodigit(c, c.i) && noletter(c, c.i)
    [C13] (c.currentToken == tokenInteger && c.text[c.tokenStartPos] != '0') ==> digits(c, c.tokenStartPos, c.i)
    [C13] (c.currentToken == tokenInteger && c.text[c.tokenStartPos] != '0') ==> c.radix == 10 && intval(c) == strint(c.text[c.tokenStartPos:c.i], 10) && !at(c, c.i, '.')
    [C13] (c.currentToken == tokenInteger && ishexlit(c, c.tokenStartPos)) ==> hexs(c, c.tokenStartPos + 2, c.i)
    [C13] (c.currentToken == tokenInteger && ishexlit(c, c.tokenStartPos)) ==> c.tokenStartPos + 2 < c.i && c.radix == 16 && intval(c) == strint(c.text[c.tokenStartPos+2:c.i], 16)
    [C13] (c.currentToken == tokenInteger && at(c, c.tokenStartPos, '0') && !ishexlit(c, c.tokenStartPos)) ==> octs(c, c.tokenStartPos + 1, c.i)
    [C13] (c.currentToken == tokenInteger && at(c, c.tokenStartPos, '0') && !ishexlit(c, c.tokenStartPos)) ==> ite(c.i == c.tokenStartPos + 1, c.radix == 10 && intval(c) == 0, c.radix == 8 && intval(c) == strint(c.text[c.tokenStartPos+1:c.i], 8))
    [C13] c.currentToken == tokenFloat ==> is(c.tokenValue, float64) && c.tokenValue.(float64) == strflt(c.text[c.tokenStartPos:c.i], 64) && nodigit(c, c.i) && noletter(c, c.i)
    [C13] c.currentToken == tokenFloat ==> c.tokenStartPos < c.i && isdig(c.text[c.tokenStartPos])
    [C13] c.currentToken == tokenFloat ==> forall(k, c.tokenStartPos, c.i, isdig(c.text[k]) || c.text[k] == '.' || eE(c.text[k]) || ((c.text[k] == '+' || c.text[k] == '-') && eE(c.text[k-1])))
func (*context).skipDecimalDigits
    requires [C02,C03] inpos(ctx)
    modifies ctx.i
    panics is(v, *parseError)
    ensures [C02,C03] inpos(ctx) && old(ctx.i) <= ctx.i
    ensures [C03] digitCount == 0 ==> ctx.i == old(ctx.i)
    shows [C13] nodigit(ctx, ctx.i)
    shows [C13] digits(ctx, old(ctx.i), ctx.i)
template ldigits@skipDecimalDigits(c *context) = [C13] digits(c, old(c.i), c.i)
template lhexs@nextToken(c *context) = [C13] hexs(c, pre(c.i), c.i)
template locts@nextToken(c *context) = [C13] octs(c, pre(c.i), c.i)
func (*context).consumeFloat
    uses token
    requires [C02,C03] 0 <= start && start <= ctx.i
    requires [C13] start < ctx.i && digits(ctx, start, ctx.i - 1) && (at(ctx, ctx.i - 1, '.') || eE(ctx.text[ctx.i-1])) && ctx.text[ctx.i-1] == d && isdig(ctx.text[start])
    ensures [C03] ctx.currentToken == tokenFloat && is(ctx.tokenValue, float64)
    shows [C13] ctx.tokenValue.(float64) == strflt(ctx.text[start:ctx.i], 64) && nodigit(ctx, ctx.i) && noletter(ctx, ctx.i)
    shows [C13] forall(k, start, ctx.i, isdig(ctx.text[k]) || ctx.text[k] == '.' || eE(ctx.text[k]) || ((ctx.text[k] == '+' || ctx.text[k] == '-') && eE(ctx.text[k-1])))
func (*context).parseInt
    requires [C02,C03] inpos(ctx) && located(ctx) && 0 <= start && start <= ctx.i
    modifies ctx.i
    panics [C02,C03,C13] perr(v) && !intfits(old(ctx.text[start:ctx.i]), radix, 64)
    ensures [C02,C03] ctx.i == old(ctx.i)
    shows [C13] result == strint(ctx.text[start:ctx.i], radix)
extern unicode.IsLetter
    ensures r < 128 ==> result == isletter(r)
assumption [C13] unicode.IsLetter holds of an ASCII character exactly when it is one of A-Z and a-z
define peeked(c, r, n) = (c.i == len(c.text) ==> r == 0 && n == 0) && (c.i < len(c.text) ==> n > 0 && ite(c.text[c.i] < 128, r == c.text[c.i] && n == 1, r >= 128))
template lpeeked@skipDecimalDigits(c *context, r rune, n int) = [C13] peeked(c, r, n)
template lpeeked2@nextToken(c *context, r rune, n int) = [C13,C15] peeked(c, r, n)
