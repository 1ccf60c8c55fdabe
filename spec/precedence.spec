package parser

// ---- C16: how tight the operator of an expression binds (0: no operator, or one that is written around its operands) ----
define lvarith(o) = ite(o == "*" || o == "/" || o == "%", 3, ite(o == "+" || o == "-", 4, ite(o == "<<" || o == ">>", 5, 99)))
define lvcomp(o) = ite(o == "==" || o == "!=", 6, ite(o == "<" || o == "<=" || o == ">" || o == ">=", 7, 99))
define lvlow(e) = ite(is(e, *AndExpression), 8, ite(is(e, *OrExpression), 9, ite(is(e, *SelectorExpression), 10, ite(is(e, *AssignmentExpression), 11, ite(is(e, *RelationshipExpression), 12, 0)))))
define lvl(e) = ite(is(e, *InExpression), 1, ite(is(e, *MatchExpression), 2, ite(is(e, *ArithmeticExpression), lvarith(e.(*ArithmeticExpression).operator), ite(is(e, *ComparisonExpression), lvcomp(e.(*ComparisonExpression).operator), lvlow(e)))))
define chain(n, e) = lvl(e.lhs) <= n && lvl(e.rhs) < n

invariant (e *InExpression)
    [C16] chain(1, e)
invariant (e *MatchExpression)
    [C16] chain(2, e) && (e.operator == "=~" || e.operator == "!~")
invariant (e *ArithmeticExpression)
    [C16] lvarith(e.operator) < 99 && chain(lvarith(e.operator), e)
invariant (e *ComparisonExpression)
    [C16] lvcomp(e.operator) < 99 && chain(lvcomp(e.operator), e)
invariant (e *AndExpression)
    [C16] chain(8, e)
invariant (e *OrExpression)
    [C16] chain(9, e)
invariant (e *SelectorExpression)
    [C16] lvl(e.lhs) <= 10
invariant (e *AssignmentExpression)
    [C16] lvl(e.lhs) <= 10 && lvl(e.rhs) <= 11 && (e.operator == "=" || e.operator == "+=" || e.operator == "-=")
invariant (e *RelationshipExpression)
    [C16] chain(12, e) && (e.operator == "->" || e.operator == "<-" || e.operator == "~>" || e.operator == "<~")
invariant (e *NotExpression)
    [C16] lvl(e.expr) == 0
invariant (e *NegateExpression)
    [C16] lvl(e.expr) == 0
invariant (e *UnfoldExpression)
    [C16] lvl(e.expr) == 0

// one function per level
func (*context).relationship
    uses between
    uses made
    ensures [C16] lvl(result) <= 12
template lvl12@relationship(e Expression) = [C16] lvl(e) <= 12
func (*context).assignment
    uses between
    uses made
    ensures [C16] lvl(result) <= 11 && !isassign(ctx.currentToken)
define isassign(t) = t == tokenAssign || t == tokenAddAssign || t == tokenSubtractAssign
template lvl11@assignment(c *context, e Expression) = [C16] lvl(e) <= 11 && (isassign(c.currentToken) ==> lvl(e) <= 10)
func (*context).selectExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 10
template lvl10@selectExpression(e Expression) = [C16] lvl(e) <= 10
func (*context).orExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 9
template lvl9@orExpression(e Expression) = [C16] lvl(e) <= 9
func (*context).andExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 8
template lvl8@andExpression(e Expression) = [C16] lvl(e) <= 8
func (*context).compareExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 7
template lvl7@compareExpression(e Expression) = [C16] lvl(e) <= 7
func (*context).equalExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 6
template lvl6@equalExpression(e Expression) = [C16] lvl(e) <= 6
func (*context).shiftExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 5
template lvl5@shiftExpression(e Expression) = [C16] lvl(e) <= 5
func (*context).additiveExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 4
template lvl4@additiveExpression(e Expression) = [C16] lvl(e) <= 4
func (*context).multiplicativeExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 3
template lvl3@multiplicativeExpression(e Expression) = [C16] lvl(e) <= 3
func (*context).matchExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 2
template lvl2@matchExpression(e Expression) = [C16] lvl(e) <= 2
func (*context).inExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 1
template lvl1@inExpression(e Expression) = [C16] lvl(e) <= 1
func (*context).step
    uses between
    uses made
    ensures [C16] lvl(result) <= 10
func (*context).resource
    uses between
    uses made
    ensures [C16] lvl(result) <= 10
func (*context).expression
    uses between
    uses made
    ensures [C16] lvl(result) <= 10
func (*context).unaryExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 0
func (*context).ifExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 0
func (*context).caseExpression
    uses between
    uses made
    ensures [C16] lvl(result) <= 0
func (*context).typeAliasOrDefinition
    uses between
    uses made
    ensures [C16] lvl(result) <= 0
func (*context).planDefinition
    uses between
    uses made
    ensures [C16] lvl(result) <= 0
func (*context).functionDefinition
    uses between
    uses made
    ensures [C16] lvl(result) <= 0
func (*context).nodeDefinition
    uses between
    uses made
    ensures [C16] lvl(result) <= 0
func (*context).resourceDefinition
    uses between
    uses made
    ensures [C16] lvl(result) <= 0
func (*context).siteDefinition
    uses between
    uses made
    ensures [C16] lvl(result) <= 0
template lvl0@primaryExpression(e Expression) = [C16] lvl(e) == 0
