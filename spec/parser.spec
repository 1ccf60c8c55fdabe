package parser

// ---- what the nodes of a parsed tree look like ----

// ---- C10: scalar values ----
logic litscalar(Val) Val
axiom sc_bool(e *LiteralBoolean) = by(litscalar(box(e)) == box(e.value), litscalar(box(e)))
axiom sc_float(e *LiteralFloat) = by(litscalar(box(e)) == box(e.value), litscalar(box(e)))
axiom sc_int(e *LiteralInteger) = by(litscalar(box(e)) == box(e.value), litscalar(box(e)))
axiom sc_str(e *LiteralString) = by(litscalar(box(e)) == box(e.value), litscalar(box(e)))
axiom sc_rstr(e *RenderStringExpression) = by(litscalar(box(e)) == box(e.value), litscalar(box(e)))
axiom sc_qn(e *QualifiedName) = by(litscalar(box(e)) == box(e.name), litscalar(box(e)))
axiom sc_qr(e *QualifiedReference) = by(litscalar(box(e)) == box(e.name), litscalar(box(e)))
axiom sc_re(e *RegexpExpression) = by(litscalar(box(e)) == box(e.value), litscalar(box(e)))
axiom sc_rw(e *ReservedWord) = by(litscalar(box(e)) == box(e.word), litscalar(box(e)))
iface LiteralValue.Value
    defines is(recv, *LiteralDefault) ==> result == litscalar(recv)
    ensures [C10] is(recv, *LiteralDefault) || result == litscalar(recv)
    ensures [C10] is(recv, *LiteralDefault) ==> is(result, Default)
    ensures [C10] !is(result, []interface{}) && !is(result, map[interface{}]interface{})
    ensures [C06] hashable(result)
assumption [C10] all values of the empty struct type parser.Default are the same value
axiom sc_undef(e *LiteralUndef) = by(litscalar(box(e)) == nil, litscalar(box(e)))

// ---- shape of the nodes: every mandatory part is there, lists hold what their users expect ----
define nn(l) = forall(k, 0, len(l), felem(l, k) != nil)
define allof(l, T) = forall(k, 0, len(l), is(felem(l, k), T))
invariant (e *AccessExpression)
    [C06] e.operand != nil && nn(e.keys)
invariant (e *binaryExpression)
    [C06] e.lhs != nil && e.rhs != nil
invariant (e *unaryExpression)
    [C06] e.expr != nil
invariant (e *queryExpression)
    [C06] e.expr != nil
invariant (e *namedDefinition)
    [C06] forall(k, 0, len(e.parameters), is(felem(e.parameters, k), *Parameter))
invariant (e *AttributeOperation)
    [C06] e.value != nil
invariant (e *AttributesOperation)
    [C06] e.expr != nil
invariant (e *BlockExpression)
    [C06] nn(e.statements)
invariant (e *callExpression)
    [C06] e.functor != nil && nn(e.arguments)
invariant (e *CapabilityMapping)
    [C06] e.component != nil && nn(e.mappings)
invariant (e *CaseExpression)
    [C06] e.test != nil && forall(k, 0, len(e.options), is(felem(e.options, k), *CaseOption))
invariant (e *CaseOption)
    [C06] nn(e.values) && e.then != nil
invariant (e *CollectExpression)
    [C06] e.resourceType != nil && e.query != nil && nn(e.operations)
invariant (e *ConcatenatedString)
    [C06] nn(e.segments)
invariant (e *EppExpression)
    [C06] e.body != nil
invariant (e *HeredocExpression)
    [C06] is(e.text, *LiteralString) || is(e.text, *ConcatenatedString)
invariant (e *IfExpression)
    [C06] e.test != nil && e.then != nil && e.elseExpr != nil
invariant (e *KeyedEntry)
    [C06] e.key != nil && e.value != nil && !is(e.key, *Program)
invariant (e *LambdaExpression)
    [C06] forall(k, 0, len(e.parameters), is(felem(e.parameters, k), *Parameter))
invariant (e *LiteralHash)
    [C06,C10] forall(k, 0, len(e.entries), is(felem(e.entries, k), *KeyedEntry))
invariant (e *LiteralList)
    [C06] nn(e.elements)
invariant (e *NodeDefinition)
    [C06] nn(e.hostMatches) && is(e.body, *BlockExpression)
invariant (e *HostClassDefinition)
    [C06] is(e.body, *BlockExpression)
invariant (e *ResourceTypeDefinition)
    [C06] is(e.body, *BlockExpression)
invariant (e *Program)
    [C06] e.body != nil
invariant (e *ResourceBody)
    [C06] e.title != nil && nn(e.operations)
invariant (e *ResourceDefaultsExpression)
    [C06] e.typeRef != nil && nn(e.operations)
invariant (e *ResourceExpression)
    [C06] e.typeName != nil && forall(k, 0, len(e.bodies), is(felem(e.bodies, k), *ResourceBody))
invariant (e *ResourceOverrideExpression)
    [C06] e.resources != nil && nn(e.operations)
invariant (e *SelectorEntry)
    [C06] e.matching != nil && e.value != nil
invariant (e *SelectorExpression)
    [C06] e.lhs != nil && forall(k, 0, len(e.selectors), is(felem(e.selectors, k), *SelectorEntry))
invariant (e *SiteDefinition)
    [C06] e.body != nil
invariant (e *TypeAlias)
    [C06] e.typeExpr != nil
invariant (e *TypeDefinition)
    [C06] e.body != nil
invariant (e *TypeMapping)
    [C06] e.typeExpr != nil && e.mappingExpr != nil
invariant (e *VariableExpression)
    [C06] is(e.expr, *QualifiedName) || is(e.expr, *LiteralInteger)

// ---- C22: the PN form of every kind of node ----
logic pnof(Val,Val) Bool
logic recallof(Val,Str,Val) Bool
logic bodyof(Val,Val) Bool
// "r is the call nm made of some PN of e": introduction rule of the existential
axiom recall_intro(e Expression, p pn.PN, nm string, r pn.PN) = by((pnof(e, p) && recalled(p, nm, r)) ==> recallof(e, nm, r), pnof(e, p), recallof(e, nm, r))
// "x is the only operand of some PN of e"
axiom body_intro(e Expression, p pn.PN, x pn.PN) = by((pnof(e, p) && is(p, *pn.callPN) && len(p.(*pn.callPN).elements) == 1 && felem(p.(*pn.callPN).elements, 0) == x) ==> bodyof(e, x), pnof(e, p), bodyof(e, x))
iface Expression.ToPN
    defines pnof(recv, result)
    ensures [C22] is(recv, *ResourceBody) ==> iscall(result, "resource-body", 1) && frozen(result.(*pn.callPN).elements)
    ensures [C06,C22] result != nil
iface Expression.IsNop
    ensures [C06,C22] result == is(recv, *Nop)

define iscall(r, nm, n) = is(r, *pn.callPN) && r.(*pn.callPN).name == nm && len(r.(*pn.callPN).elements) == n
define arg(r, k) = felem(r.(*pn.callPN).elements, k)
define islit0(r, v) = is(r, *pn.literalPN) && r.(*pn.literalPN).val == v
define pnlist(r, l) = is(r, *pn.listPN) && len(r.(*pn.listPN).elements) == len(l) && forall(k, 0, len(l), pnof(felem(l, k), felem(r.(*pn.listPN).elements, k)), felem(l, k))
define calllist(r, nm, l) = is(r, *pn.callPN) && r.(*pn.callPN).name == nm && len(r.(*pn.callPN).elements) == len(l) && forall(k, 0, len(l), pnof(felem(l, k), arg(r, k)), felem(l, k))
define block1(r, x) = is(r, *pn.listPN) && len(r.(*pn.listPN).elements) == 1 && pnof(x, felem(r.(*pn.listPN).elements, 0))
define pnblock(r, x) = ite(is(x, *BlockExpression), pnlist(r, x.(*BlockExpression).statements), block1(r, x))
define ismap(r, n) = is(r, *pn.mapPN) && len(r.(*pn.mapPN).entries) == n
define key(r, k) = felem(r.(*pn.mapPN).entries, k).(*pn.mapEntry).key
define val(r, k) = felem(r.(*pn.mapPN).entries, k).(*pn.mapEntry).value
define callmap(r, nm, n) = iscall(r, nm, 1) && ismap(arg(r, 0), n)
define b2i(c) = ite(c, 1, 0)
// the call that AsCall makes of a PN
define recalled(p, nm, r) = is(r, *pn.callPN) && r.(*pn.callPN).name == nm && ite(is(p, *pn.listPN), r.(*pn.callPN).elements == p.(*pn.listPN).elements, ite(is(p, *pn.callPN), r.(*pn.callPN).elements == p.(*pn.callPN).elements, len(r.(*pn.callPN).elements) == 1 && felem(r.(*pn.callPN).elements, 0) == p))

func pnMapArgs
    requires [C06] forall(k, 0, len(elements), elements[k] != nil)
    ensures [C22] len(result) == len(elements) && forall(k, 0, len(elements), pnof(elements[k], result[k]))
    ensures [C06,C22] forall(k, 0, len(result), result[k] != nil)
    ensures fresh(result) && unfrozen(result)
template pnmapped_so_far(s []Expression, r []pn.PN, n int) = [C22] forall(k, 0, n, pnof(s[k], r[k]))
template pnnonnil_so_far(r []pn.PN, n int) = [C06] forall(k, 0, n, r[k] != nil)

func (*AndExpression).ToPN
    ensures [C22] iscall(result, "and", 2) && pnof(e.lhs, arg(result, 0)) && pnof(e.rhs, arg(result, 1))
func (*OrExpression).ToPN
    ensures [C22] iscall(result, "or", 2) && pnof(e.lhs, arg(result, 0)) && pnof(e.rhs, arg(result, 1))
func (*InExpression).ToPN
    ensures [C22] iscall(result, "in", 2) && pnof(e.lhs, arg(result, 0)) && pnof(e.rhs, arg(result, 1))
func (*NamedAccessExpression).ToPN
    ensures [C22] iscall(result, ".", 2) && pnof(e.lhs, arg(result, 0)) && pnof(e.rhs, arg(result, 1))
func (*ArithmeticExpression).ToPN
    ensures [C22] iscall(result, e.operator, 2) && pnof(e.lhs, arg(result, 0)) && pnof(e.rhs, arg(result, 1))
func (*AssignmentExpression).ToPN
    ensures [C22] iscall(result, e.operator, 2) && pnof(e.lhs, arg(result, 0)) && pnof(e.rhs, arg(result, 1))
func (*ComparisonExpression).ToPN
    ensures [C22] iscall(result, e.operator, 2) && pnof(e.lhs, arg(result, 0)) && pnof(e.rhs, arg(result, 1))
func (*MatchExpression).ToPN
    ensures [C22] iscall(result, e.operator, 2) && pnof(e.lhs, arg(result, 0)) && pnof(e.rhs, arg(result, 1))
func (*RelationshipExpression).ToPN
    ensures [C22] iscall(result, e.operator, 2) && pnof(e.lhs, arg(result, 0)) && pnof(e.rhs, arg(result, 1))
func (*NotExpression).ToPN
    ensures [C22] iscall(result, "!", 1) && pnof(e.expr, arg(result, 0))
func (*ParenthesizedExpression).ToPN
    ensures [C22] iscall(result, "paren", 1) && pnof(e.expr, arg(result, 0))
func (*RenderExpression).ToPN
    ensures [C22] iscall(result, "render", 1) && pnof(e.expr, arg(result, 0))
func (*TextExpression).ToPN
    ensures [C22] iscall(result, "str", 1) && pnof(e.expr, arg(result, 0))
func (*UnaryMinusExpression).ToPN
    ensures [C22] iscall(result, "-", 1) && pnof(e.expr, arg(result, 0))
func (*UnfoldExpression).ToPN
    ensures [C22] iscall(result, "unfold", 1) && pnof(e.expr, arg(result, 0))
func (*AttributesOperation).ToPN
    ensures [C22] iscall(result, "splat-hash", 1) && pnof(e.expr, arg(result, 0))
func (*ExportedQuery).ToPN
    ensures [C22] ite(is(e.expr, *Nop), iscall(result, "exported-query", 0), iscall(result, "exported-query", 1) && pnof(e.expr, arg(result, 0)))
func (*VirtualQuery).ToPN
    ensures [C22] ite(is(e.expr, *Nop), iscall(result, "virtual-query", 0), iscall(result, "virtual-query", 1) && pnof(e.expr, arg(result, 0)))
func (*KeyedEntry).ToPN
    ensures [C22] iscall(result, "=>", 2) && pnof(e.key, arg(result, 0)) && pnof(e.value, arg(result, 1))
func (*SelectorEntry).ToPN
    ensures [C22] iscall(result, "=>", 2) && pnof(e.matching, arg(result, 0)) && pnof(e.value, arg(result, 1))
func (*TypeMapping).ToPN
    ensures [C22] iscall(result, "type-mapping", 2) && pnof(e.typeExpr, arg(result, 0)) && pnof(e.mappingExpr, arg(result, 1))
func (*TypeAlias).ToPN
    ensures [C22] iscall(result, "type-alias", 2) && islit0(arg(result, 0), box(e.name)) && pnof(e.typeExpr, arg(result, 1))
func (*TypeDefinition).ToPN
    ensures [C22] iscall(result, "type-definition", 3) && islit0(arg(result, 0), box(e.name)) && islit0(arg(result, 1), box(e.parent)) && pnof(e.body, arg(result, 2))
func (*AttributeOperation).ToPN
    ensures [C22] iscall(result, e.operator, 2) && islit0(arg(result, 0), box(e.name)) && pnof(e.value, arg(result, 1))
func (*BlockExpression).ToPN
    ensures [C22] calllist(result, "block", e.statements)
func (*ConcatenatedString).ToPN
    ensures [C22] calllist(result, "concat", e.segments)
func (*LiteralHash).ToPN
    ensures [C22] calllist(result, "hash", e.entries)
func (*LiteralList).ToPN
    ensures [C22] calllist(result, "array", e.elements)
func (*AccessExpression).ToPN
    ensures [C22] is(result, *pn.callPN) && result.(*pn.callPN).name == "access" && len(result.(*pn.callPN).elements) == 1 + len(e.keys) && pnof(e.operand, arg(result, 0)) && forall(k, 0, len(e.keys), pnof(felem(e.keys, k), arg(result, 1 + k)), felem(e.keys, k))
func (*CallFunctionExpression).ToPN
    ensures [C22] callmap(result, ite(e.rvalRequired, "call-lambda", "invoke-lambda"), 2 + b2i(e.lambda != nil))
    ensures [C22] key(arg(result, 0), 0) == "functor" && pnof(e.functor, val(arg(result, 0), 0))
    ensures [C22] key(arg(result, 0), 1) == "args" && pnlist(val(arg(result, 0), 1), e.arguments)
    ensures [C22] e.lambda != nil ==> key(arg(result, 0), 2) == "block" && pnof(e.lambda, val(arg(result, 0), 2))
func (*CallMethodExpression).ToPN
    ensures [C22] callmap(result, ite(e.rvalRequired, "call-method", "invoke-method"), 2 + b2i(e.lambda != nil))
    ensures [C22] key(arg(result, 0), 0) == "functor" && pnof(e.functor, val(arg(result, 0), 0))
    ensures [C22] key(arg(result, 0), 1) == "args" && pnlist(val(arg(result, 0), 1), e.arguments)
    ensures [C22] e.lambda != nil ==> key(arg(result, 0), 2) == "block" && pnof(e.lambda, val(arg(result, 0), 2))
func (*CallNamedFunctionExpression).ToPN
    ensures [C22] callmap(result, ite(e.rvalRequired, "call", "invoke"), 2 + b2i(e.lambda != nil))
    ensures [C22] key(arg(result, 0), 0) == "functor" && pnof(e.functor, val(arg(result, 0), 0))
    ensures [C22] key(arg(result, 0), 1) == "args" && pnlist(val(arg(result, 0), 1), e.arguments)
    ensures [C22] e.lambda != nil ==> key(arg(result, 0), 2) == "block" && pnof(e.lambda, val(arg(result, 0), 2))
func (*CapabilityMapping).ToPN
    ensures [C22] iscall(result, e.kind, 2) && pnof(e.component, arg(result, 0)) && is(arg(result, 1), *pn.listPN) && len(arg(result, 1).(*pn.listPN).elements) == 1 + len(e.mappings) && islit0(felem(arg(result, 1).(*pn.listPN).elements, 0), box(e.capability)) && forall(k, 0, len(e.mappings), pnof(felem(e.mappings, k), felem(arg(result, 1).(*pn.listPN).elements, 1 + k)), felem(e.mappings, k))
func (*CaseExpression).ToPN
    ensures [C22] iscall(result, "case", 2) && pnof(e.test, arg(result, 0)) && pnlist(arg(result, 1), e.options)
func (*SelectorExpression).ToPN
    ensures [C22] iscall(result, "?", 2) && pnof(e.lhs, arg(result, 0)) && pnlist(arg(result, 1), e.selectors)
func (*CaseOption).ToPN
    ensures [C22] ismap(result, 2) && key(result, 0) == "when" && pnlist(val(result, 0), e.values) && key(result, 1) == "then" && pnblock(val(result, 1), e.then)
func (*CollectExpression).ToPN
    ensures [C22] callmap(result, "collect", 2 + b2i(len(e.operations) > 0))
    ensures [C22] key(arg(result, 0), 0) == "type" && pnof(e.resourceType, val(arg(result, 0), 0)) && key(arg(result, 0), 1) == "query" && pnof(e.query, val(arg(result, 0), 1))
    ensures [C22] len(e.operations) > 0 ==> key(arg(result, 0), 2) == "ops" && pnlist(val(arg(result, 0), 2), e.operations)
func (*EppExpression).ToPN
    ensures [C22] recallof(e.body, "epp", result)
func (*SiteDefinition).ToPN
    ensures [C22] recallof(e.body, "site", result)
func (*Program).ToPN
    ensures [C22] pnof(e.body, result)
func (*HeredocExpression).ToPN
    ensures [C22] callmap(result, "heredoc", 1 + b2i(e.syntax != ""))
    ensures [C22] e.syntax != "" ==> key(arg(result, 0), 0) == "syntax" && islit0(val(arg(result, 0), 0), box(e.syntax))
    ensures [C22] key(arg(result, 0), b2i(e.syntax != "")) == "text" && pnof(e.text, val(arg(result, 0), b2i(e.syntax != "")))
define pnif(e, r, nm) = callmap(r, nm, 1 + b2i(!is(e.then, *Nop)) + b2i(!is(e.elseExpr, *Nop))) && key(arg(r, 0), 0) == "test" && pnof(e.test, val(arg(r, 0), 0))
define pnifthen(e, r) = !is(e.then, *Nop) ==> key(arg(r, 0), 1) == "then" && pnblock(val(arg(r, 0), 1), e.then)
define pnifelse(e, r) = !is(e.elseExpr, *Nop) ==> key(arg(r, 0), 1 + b2i(!is(e.then, *Nop))) == "else" && pnblock(val(arg(r, 0), 1 + b2i(!is(e.then, *Nop))), e.elseExpr)
func (*IfExpression).ToPN
    ensures [C22] pnif(e, result, "if")
    ensures [C22] pnifthen(e, result)
    ensures [C22] pnifelse(e, result)
func (*UnlessExpression).ToPN
    ensures [C22] pnif(e, result, "unless")
    ensures [C22] pnifthen(e, result)
    ensures [C22] pnifelse(e, result)
func (*LambdaExpression).ToPN
    ensures [C22] callmap(result, "lambda", b2i(len(e.parameters) > 0) + b2i(e.returnType != nil) + b2i(e.body != nil))
    ensures [C22] len(e.parameters) > 0 ==> key(arg(result, 0), 0) == "params" && pnparams(val(arg(result, 0), 0), e.parameters)
    ensures [C22] e.returnType != nil ==> key(arg(result, 0), b2i(len(e.parameters) > 0)) == "returns" && pnof(e.returnType, val(arg(result, 0), b2i(len(e.parameters) > 0)))
    ensures [C22] e.body != nil ==> key(arg(result, 0), b2i(len(e.parameters) > 0) + b2i(e.returnType != nil)) == "body" && pnblock(val(arg(result, 0), b2i(len(e.parameters) > 0) + b2i(e.returnType != nil)), e.body)
func (*NodeDefinition).ToPN
    ensures [C22] callmap(result, "node", 1 + b2i(e.parent != nil) + b2i(e.body != nil))
    ensures [C22] key(arg(result, 0), 0) == "matches" && pnlist(val(arg(result, 0), 0), e.hostMatches)
    ensures [C22] e.parent != nil ==> key(arg(result, 0), 1) == "parent" && pnof(e.parent, val(arg(result, 0), 1))
    ensures [C22] e.body != nil ==> key(arg(result, 0), 1 + b2i(e.parent != nil)) == "body" && pnblock(val(arg(result, 0), 1 + b2i(e.parent != nil)), e.body)
func (*Parameter).ToPN
    ensures [C22] callmap(result, "param", 1 + b2i(e.typeExpr != nil) + b2i(e.capturesRest) + b2i(e.value != nil))
    ensures [C22] key(arg(result, 0), 0) == "name" && islit0(val(arg(result, 0), 0), box(e.name))
    ensures [C22] paramparts(arg(result, 0), e, 1)
define paramparts(m, e, s) = (e.typeExpr != nil ==> key(m, s) == "type" && pnof(e.typeExpr, val(m, s))) && (e.capturesRest ==> key(m, s + b2i(e.typeExpr != nil)) == "splat" && islit0(val(m, s + b2i(e.typeExpr != nil)), box(true))) && (e.value != nil ==> key(m, s + b2i(e.typeExpr != nil) + b2i(e.capturesRest)) == "value" && pnof(e.value, val(m, s + b2i(e.typeExpr != nil) + b2i(e.capturesRest))))
define aparam(l, k) = felem(l, k).(*Parameter)
define paramentry(x, p) = is(x, *pn.mapEntry) && x.(*pn.mapEntry).key == p.name && ismap(x.(*pn.mapEntry).value, b2i(p.typeExpr != nil) + b2i(p.capturesRest) + b2i(p.value != nil)) && paramparts(x.(*pn.mapEntry).value, p, 0)
define pnparams(r, l) = ite(forall(k, 0, len(l), rematch(pn.keyPattern, aparam(l, k).name), felem(l, k)), ismap(r, len(l)) && forall(k, 0, len(l), paramentry(felem(r.(*pn.mapPN).entries, k), aparam(l, k)), felem(l, k)), pnlist(r, l))
func parametersEntry
    requires [C06] frozen(parameters) && forall(k, 0, len(parameters), is(felem(parameters, k), *Parameter))
    ensures [C22] is(result, *pn.mapEntry) && result.(*pn.mapEntry).key == "params" && pnparams(result.(*pn.mapEntry).value, parameters)
template params_safe@parametersEntry(r []pn.Entry, n int) = [C06] forall(k, 0, n, is(r[k], *pn.mapEntry) && rematch(pn.keyPattern, r[k].(*pn.mapEntry).key))
template params_so_far(l []Expression, r []pn.Entry, n int) = [C22] forall(k, 0, n, rematch(pn.keyPattern, aparam(l, k).name) && paramentry(r[k], aparam(l, k)), felem(l, k))
func (*ResourceBody).ToPN
    ensures [C22] callmap(result, "resource-body", 2)
    ensures [C22] key(arg(result, 0), 0) == "title" && pnof(e.title, val(arg(result, 0), 0)) && key(arg(result, 0), 1) == "ops" && pnlist(val(arg(result, 0), 1), e.operations)
define pnform(e, m, s) = e.form != "regular" ==> key(m, s) == "form" && islit0(val(m, s), box(e.form, string))
func (*ResourceDefaultsExpression).ToPN
    ensures [C22] callmap(result, "resource-defaults", 2 + b2i(e.form != "regular")) && pnform(e, arg(result, 0), 2)
    ensures [C22] key(arg(result, 0), 0) == "type" && pnof(e.typeRef, val(arg(result, 0), 0)) && key(arg(result, 0), 1) == "ops" && pnlist(val(arg(result, 0), 1), e.operations)
func (*ResourceOverrideExpression).ToPN
    ensures [C22] callmap(result, "resource-override", 2 + b2i(e.form != "regular")) && pnform(e, arg(result, 0), 2)
    ensures [C22] key(arg(result, 0), 0) == "resources" && pnof(e.resources, val(arg(result, 0), 0)) && key(arg(result, 0), 1) == "ops" && pnlist(val(arg(result, 0), 1), e.operations)
func (*ResourceExpression).ToPN
    ensures [C22] callmap(result, "resource", 2 + b2i(e.form != "regular")) && pnform(e, arg(result, 0), 2)
    ensures [C22] key(arg(result, 0), 0) == "type" && pnof(e.typeName, val(arg(result, 0), 0)) && key(arg(result, 0), 1) == "bodies" && is(val(arg(result, 0), 1), *pn.listPN)
    ensures [C22] bodiesof(e.bodies, val(arg(result, 0), 1).(*pn.listPN).elements)
define bodiesof(l, r) = len(r) == len(l) && forall(k, 0, len(l), bodyof(felem(l, k), felem(r, k)), felem(l, k))
template bodies_so_far(l []Expression, r []pn.PN, n int) = [C22] len(r) == n && forall(k, 0, n, bodyof(felem(l, k), r[k]), felem(l, k))
func (*StepExpression).ToPN
    ensures [C22] callmap(result, "step", 2 + b2i(e.properties != nil) + b2i(e.definition != nil))
    ensures [C22] key(arg(result, 0), 0) == "name" && islit0(val(arg(result, 0), 0), box(e.name)) && key(arg(result, 0), 1) == "style" && islit0(val(arg(result, 0), 1), box(e.style, string))
    ensures [C22] e.properties != nil ==> key(arg(result, 0), 2) == "properties" && pnof(e.properties, val(arg(result, 0), 2))
    ensures [C22] e.definition != nil ==> key(arg(result, 0), 2 + b2i(e.properties != nil)) == "definition" && pnof(e.definition, val(arg(result, 0), 2 + b2i(e.properties != nil)))
func (*VariableExpression).ToPN
    ensures [C22] iscall(result, "var", 1) && islit0(arg(result, 0), ite(is(e.expr, *QualifiedName), box(e.expr.(*QualifiedName).name), box(e.expr.(*LiteralInteger).value)))
func (*LiteralInteger).ToPN
    ensures [C22] ite(e.radix == 10, islit0(result, box(e.value)), callmap(result, "int", 2) && key(arg(result, 0), 0) == "radix" && islit0(val(arg(result, 0), 0), box(e.radix)) && key(arg(result, 0), 1) == "value" && islit0(val(arg(result, 0), 1), box(e.value)))

func (*LiteralBoolean).ToPN
    ensures [C22] islit0(result, box(e.value))
func (*LiteralFloat).ToPN
    ensures [C22] islit0(result, box(e.value))
func (*LiteralString).ToPN
    ensures [C22] islit0(result, box(e.value))
func (*LiteralUndef).ToPN
    ensures [C22] islit0(result, nil)
func (*QualifiedName).ToPN
    ensures [C22] iscall(result, "qn", 1) && islit0(arg(result, 0), box(e.name))
func (*QualifiedReference).ToPN
    ensures [C22] iscall(result, "qr", 1) && islit0(arg(result, 0), box(e.name))
func (*ReservedWord).ToPN
    ensures [C22] iscall(result, "reserved", 1) && islit0(arg(result, 0), box(e.word))
func (*RegexpExpression).ToPN
    ensures [C22] iscall(result, "regexp", 1) && islit0(arg(result, 0), box(e.value))
func (*RenderStringExpression).ToPN
    ensures [C22] iscall(result, "render-s", 1) && islit0(arg(result, 0), box(e.value))
func (*LiteralDefault).ToPN
    ensures [C22] iscall(result, "default", 0)
func (*Nop).ToPN
    ensures [C22] iscall(result, "nop", 0)
define pndef(r, nm, e, hasparent, ret) = callmap(r, nm, 1 + b2i(hasparent) + b2i(len(e.parameters) > 0) + b2i(e.body != nil) + b2i(ret != nil)) && key(arg(r, 0), 0) == "name" && islit0(val(arg(r, 0), 0), box(e.name))
define pndefparams(r, e, s) = len(e.parameters) > 0 ==> key(arg(r, 0), s) == "params" && pnparams(val(arg(r, 0), s), e.parameters)
define pndefbody(r, e, s) = e.body != nil ==> key(arg(r, 0), s) == "body" && pnblock(val(arg(r, 0), s), e.body)
define pndefret(r, ret, s) = ret != nil ==> key(arg(r, 0), s) == "returns" && pnof(ret, val(arg(r, 0), s))
func (*Application).ToPN
    ensures [C22] pndef(result, "application", e, false, nil)
    ensures [C22] pndefparams(result, e, 1 + b2i(false))
    ensures [C22] pndefbody(result, e, 1 + b2i(false) + b2i(len(e.parameters) > 0))
func (*ResourceTypeDefinition).ToPN
    ensures [C22] pndef(result, "define", e, false, nil)
    ensures [C22] pndefparams(result, e, 1 + b2i(false))
    ensures [C22] pndefbody(result, e, 1 + b2i(false) + b2i(len(e.parameters) > 0))
func (*HostClassDefinition).ToPN
    ensures [C22] pndef(result, "class", e, e.parentClass != "", nil)
    ensures [C22] e.parentClass != "" ==> key(arg(result, 0), 1) == "parent" && islit0(val(arg(result, 0), 1), box(e.parentClass))
    ensures [C22] pndefparams(result, e, 1 + b2i(e.parentClass != ""))
    ensures [C22] pndefbody(result, e, 1 + b2i(e.parentClass != "") + b2i(len(e.parameters) > 0))
func (*FunctionDefinition).ToPN
    ensures [C22] pndef(result, "function", e, false, e.returnType)
    ensures [C22] pndefparams(result, e, 1 + b2i(false))
    ensures [C22] pndefbody(result, e, 1 + b2i(false) + b2i(len(e.parameters) > 0))
    ensures [C22] pndefret(result, e.returnType, 1 + b2i(false) + b2i(len(e.parameters) > 0) + b2i(e.body != nil))
func (*PlanDefinition).ToPN
    ensures [C22] pndef(result, "plan", e, false, e.returnType)
    ensures [C22] pndefparams(result, e, 1 + b2i(false))
    ensures [C22] pndefbody(result, e, 1 + b2i(false) + b2i(len(e.parameters) > 0))
    ensures [C22] pndefret(result, e.returnType, 1 + b2i(false) + b2i(len(e.parameters) > 0) + b2i(e.body != nil))
logic bodypn(Val,Val) Val
// ---- C06: no crash in the functions that users run on a parsed tree ----
safety C06 parser.(*%).ToPN parser.(*%).Label parser.(*%).AllContents parser.(*%).Contents parser.pn% parser.parametersEntry parser.%ToPN% parser.DeepVisit parser.ShallowVisit parser.deepVisit parser.shallowVisit
