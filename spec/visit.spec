package parser

// ---- C05: traversal ----
// The ghost trace records every call of the visitor: who was visited, and the path it was given.
ghost tr Int
logic tvis(Int,Int,Val) Int
logic tall(Int,Int,Val) Int
logic tone(Int,Int,Val) Int
logic pathv((Array Int Val),Int) Int
logic pcons(Int,Val) Int
logic deepc(Int,Int,(Array Int Val),Int) Int
logic deepx(Int,Int,Val) Int
logic deepl(Int,Int,Slice,Int) Int
logic flatc(Int,Int,(Array Int Val),Int) Int
logic flatx(Int,Int,Val) Int
logic flatl(Int,Int,Slice,Int) Int
smt
(assert (forall ((a (Array Int Val)) (b (Array Int Val)) (n Int)) (! (=> (forall ((k Int)) (=> (and (<= 0 k) (< k n)) (= (select a k) (select b k)))) (= (pathv a n) (pathv b n))) :pattern ((pathv a n) (pathv b n)))))
(assert (forall ((a (Array Int Val)) (b (Array Int Val)) (n Int) (m Int) (x Val)) (! (=> (and (<= 0 m) (= n (+ m 1)) (= (select a m) x) (forall ((k Int)) (=> (and (<= 0 k) (< k m)) (= (select a k) (select b k))))) (= (pathv a n) (pcons (pathv b m) x))) :pattern ((pathv a n) (pcons (pathv b m) x)))))
(assert (forall ((t Int) (p Int) (a (Array Int Val))) (! (= (deepc t p a 0) t) :pattern ((deepc t p a 0)))))
(assert (forall ((t Int) (p Int) (a (Array Int Val)) (n Int) (m Int)) (! (=> (and (<= 0 m) (= n (+ m 1))) (= (deepc t p a n) (deepx (deepc t p a m) p (select a m)))) :pattern ((deepc t p a n) (deepc t p a m)))))
(assert (forall ((t Int) (p Int) (a (Array Int Val))) (! (= (deepc t p a 1) (deepx t p (select a 0))) :pattern ((deepc t p a 1)))))
(assert (forall ((t Int) (p Int) (a (Array Int Val))) (! (= (deepc t p a 2) (deepx (deepx t p (select a 0)) p (select a 1))) :pattern ((deepc t p a 2)))))
(assert (forall ((t Int) (p Int) (a (Array Int Val))) (! (= (deepc t p a 3) (deepx (deepx (deepx t p (select a 0)) p (select a 1)) p (select a 2))) :pattern ((deepc t p a 3)))))
(assert (forall ((t Int) (p Int) (l Slice)) (! (= (deepl t p l 0) t) :pattern ((deepl t p l 0)))))
(assert (forall ((t Int) (p Int) (a (Array Int Val))) (! (= (flatc t p a 0) t) :pattern ((flatc t p a 0)))))
(assert (forall ((t Int) (p Int) (a (Array Int Val)) (n Int) (m Int)) (! (=> (and (<= 0 m) (= n (+ m 1))) (= (flatc t p a n) (flatx (flatc t p a m) p (select a m)))) :pattern ((flatc t p a n) (flatc t p a m)))))
(assert (forall ((t Int) (p Int) (a (Array Int Val))) (! (= (flatc t p a 1) (flatx t p (select a 0))) :pattern ((flatc t p a 1)))))
(assert (forall ((t Int) (p Int) (a (Array Int Val))) (! (= (flatc t p a 2) (flatx (flatx t p (select a 0)) p (select a 1))) :pattern ((flatc t p a 2)))))
(assert (forall ((t Int) (p Int) (a (Array Int Val))) (! (= (flatc t p a 3) (flatx (flatx (flatx t p (select a 0)) p (select a 1)) p (select a 2))) :pattern ((flatc t p a 3)))))
(assert (forall ((t Int) (p Int) (l Slice)) (! (= (flatl t p l 0) t) :pattern ((flatl t p l 0)))))
end
define onedeep(t, p, x) = tall(tvis(t, p, x), p, x)
axiom deepx_def(t int, p int, v interface{}) = by(deepx(t, p, v) == ite(v == nil, t, ite(is(v, Expression), onedeep(t, p, v), ite(is(v, []Expression), deepl(t, p, v.([]Expression), len(v.([]Expression))), t))), deepx(t, p, v))
axiom flatx_def(t int, p int, v interface{}) = by(flatx(t, p, v) == ite(v == nil, t, ite(is(v, Expression), tvis(t, p, v), ite(is(v, []Expression), flatl(t, p, v.([]Expression), len(v.([]Expression))), t))), flatx(t, p, v))
axiom deepl_step(t int, p int, l []Expression, n int, m int) = by((0 <= m && n == m + 1) ==> deepl(t, p, l, n) == onedeep(deepl(t, p, l, m), p, felem(l, m)), deepl(t, p, l, n), deepl(t, p, l, m))
axiom flatl_step(t int, p int, l []Expression, n int, m int) = by((0 <= m && n == m + 1) ==> flatl(t, p, l, n) == tvis(flatl(t, p, l, m), p, felem(l, m)), flatl(t, p, l, n), flatl(t, p, l, m))

functype PathVisitor
    requires [C05] unfrozen(path)
    requires [C05,C06] e != nil
    modifies tail(path), ghost tr
    defines tr == tvis(old(tr), old(pathv(elemsOf(path), len(path))), e)
    ensures [C05] unfrozen(path)
assumption [C05] the visitor leaves the tree and the path it is given alone
iface Expression.AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    defines tr == tall(old(tr), old(pathv(elemsOf(path), len(path))), recv)
    ensures [C05] unfrozen(path)
iface Expression.Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    defines tr == tone(old(tr), old(pathv(elemsOf(path), len(path))), recv)
    ensures [C05] unfrozen(path)
define childrenok(c) = forall(k, 0, len(c), is(c[k], []Expression) ==> frozen(c[k].([]Expression)) && nn(c[k].([]Expression)))
define below(e, path) = pcons(old(pathv(elemsOf(path), len(path))), e)
template child_path@below(c []Expression) = [C05] unfrozen(c) && pathv(elemsOf(c), len(c)) == below(e, path)
func DeepVisit
    requires [C05] e != nil && (base(children) != base(path) || len(children) == 0) && childrenok(children)
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepc(old(tr), below(e, path), old(elemsOf(children)), len(children)) && unfrozen(path)
func ShallowVisit
    requires [C05] e != nil && (base(children) != base(path) || len(children) == 0) && childrenok(children)
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatc(old(tr), below(e, path), old(elemsOf(children)), len(children)) && unfrozen(path)
template visited_children@deepc(n int) = [C05] tr == deepc(old(tr), below(e, path), old(elemsOf(children)), n)
template seen_children@flatc(n int) = [C05] tr == flatc(old(tr), below(e, path), old(elemsOf(children)), n)
template visited_list@deepc(n int, l []Expression, j int) = [C05] tr == deepl(deepc(old(tr), below(e, path), old(elemsOf(children)), n), below(e, path), l, j)
template seen_list@flatc(n int, l []Expression, j int) = [C05] tr == flatl(flatc(old(tr), below(e, path), old(elemsOf(children)), n), below(e, path), l, j)
func (*AccessExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.operand)), below(box(e), path), box(e.keys)) && unfrozen(path)
func (*AccessExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.operand)), below(box(e), path), box(e.keys)) && unfrozen(path)
func (*AndExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*AndExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*Application).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*Application).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*ArithmeticExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*ArithmeticExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*AssignmentExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*AssignmentExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*AttributeOperation).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.value)) && unfrozen(path)
func (*AttributeOperation).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.value)) && unfrozen(path)
func (*AttributesOperation).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*AttributesOperation).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*BlockExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.statements)) && unfrozen(path)
func (*BlockExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.statements)) && unfrozen(path)
func (*CallFunctionExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(deepx(old(tr), below(box(e), path), box(e.functor)), below(box(e), path), box(e.arguments)), below(box(e), path), box(e.lambda)) && unfrozen(path)
func (*CallFunctionExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(flatx(old(tr), below(box(e), path), box(e.functor)), below(box(e), path), box(e.arguments)), below(box(e), path), box(e.lambda)) && unfrozen(path)
func (*CallMethodExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(deepx(old(tr), below(box(e), path), box(e.functor)), below(box(e), path), box(e.arguments)), below(box(e), path), box(e.lambda)) && unfrozen(path)
func (*CallMethodExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(flatx(old(tr), below(box(e), path), box(e.functor)), below(box(e), path), box(e.arguments)), below(box(e), path), box(e.lambda)) && unfrozen(path)
func (*CallNamedFunctionExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(deepx(old(tr), below(box(e), path), box(e.functor)), below(box(e), path), box(e.arguments)), below(box(e), path), box(e.lambda)) && unfrozen(path)
func (*CallNamedFunctionExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(flatx(old(tr), below(box(e), path), box(e.functor)), below(box(e), path), box(e.arguments)), below(box(e), path), box(e.lambda)) && unfrozen(path)
func (*CapabilityMapping).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.component)), below(box(e), path), box(e.mappings)) && unfrozen(path)
func (*CapabilityMapping).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.component)), below(box(e), path), box(e.mappings)) && unfrozen(path)
func (*CaseExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.test)), below(box(e), path), box(e.options)) && unfrozen(path)
func (*CaseExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.test)), below(box(e), path), box(e.options)) && unfrozen(path)
func (*CaseOption).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.values)), below(box(e), path), box(e.then)) && unfrozen(path)
func (*CaseOption).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.values)), below(box(e), path), box(e.then)) && unfrozen(path)
func (*CollectExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(deepx(old(tr), below(box(e), path), box(e.resourceType)), below(box(e), path), box(e.query)), below(box(e), path), box(e.operations)) && unfrozen(path)
func (*CollectExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(flatx(old(tr), below(box(e), path), box(e.resourceType)), below(box(e), path), box(e.query)), below(box(e), path), box(e.operations)) && unfrozen(path)
func (*ComparisonExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*ComparisonExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*ConcatenatedString).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.segments)) && unfrozen(path)
func (*ConcatenatedString).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.segments)) && unfrozen(path)
func (*EppExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.body)) && unfrozen(path)
func (*EppExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.body)) && unfrozen(path)
func (*ExportedQuery).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*ExportedQuery).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*FunctionDefinition).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(deepx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.returnType)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*FunctionDefinition).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(flatx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.returnType)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*HeredocExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.text)) && unfrozen(path)
func (*HeredocExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.text)) && unfrozen(path)
func (*HostClassDefinition).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*HostClassDefinition).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*IfExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(deepx(old(tr), below(box(e), path), box(e.test)), below(box(e), path), box(e.then)), below(box(e), path), box(e.elseExpr)) && unfrozen(path)
func (*IfExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(flatx(old(tr), below(box(e), path), box(e.test)), below(box(e), path), box(e.then)), below(box(e), path), box(e.elseExpr)) && unfrozen(path)
func (*InExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*InExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*KeyedEntry).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.key)), below(box(e), path), box(e.value)) && unfrozen(path)
func (*KeyedEntry).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.key)), below(box(e), path), box(e.value)) && unfrozen(path)
func (*LambdaExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(deepx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.body)), below(box(e), path), box(e.returnType)) && unfrozen(path)
func (*LambdaExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(flatx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.body)), below(box(e), path), box(e.returnType)) && unfrozen(path)
func (*LiteralHash).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.entries)) && unfrozen(path)
func (*LiteralHash).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.entries)) && unfrozen(path)
func (*LiteralList).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.elements)) && unfrozen(path)
func (*LiteralList).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.elements)) && unfrozen(path)
func (*MatchExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*MatchExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*NamedAccessExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*NamedAccessExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*NodeDefinition).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(deepx(old(tr), below(box(e), path), box(e.parent)), below(box(e), path), box(e.hostMatches)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*NodeDefinition).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(flatx(old(tr), below(box(e), path), box(e.parent)), below(box(e), path), box(e.hostMatches)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*NotExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*NotExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*OrExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*OrExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*Parameter).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.typeExpr)), below(box(e), path), box(e.value)) && unfrozen(path)
func (*Parameter).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.typeExpr)), below(box(e), path), box(e.value)) && unfrozen(path)
func (*ParenthesizedExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*ParenthesizedExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*PlanDefinition).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(deepx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.returnType)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*PlanDefinition).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(flatx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.returnType)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*Program).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.body)) && unfrozen(path)
func (*Program).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.body)) && unfrozen(path)
func (*RelationshipExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*RelationshipExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.rhs)) && unfrozen(path)
func (*RenderExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*RenderExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*RenderStringExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr) && unfrozen(path)
func (*RenderStringExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr) && unfrozen(path)
func (*ResourceBody).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.title)), below(box(e), path), box(e.operations)) && unfrozen(path)
func (*ResourceBody).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.title)), below(box(e), path), box(e.operations)) && unfrozen(path)
func (*ResourceDefaultsExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.typeRef)), below(box(e), path), box(e.operations)) && unfrozen(path)
func (*ResourceDefaultsExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.typeRef)), below(box(e), path), box(e.operations)) && unfrozen(path)
func (*ResourceExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.typeName)), below(box(e), path), box(e.bodies)) && unfrozen(path)
func (*ResourceExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.typeName)), below(box(e), path), box(e.bodies)) && unfrozen(path)
func (*ResourceOverrideExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.resources)), below(box(e), path), box(e.operations)) && unfrozen(path)
func (*ResourceOverrideExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.resources)), below(box(e), path), box(e.operations)) && unfrozen(path)
func (*ResourceTypeDefinition).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*ResourceTypeDefinition).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.parameters)), below(box(e), path), box(e.body)) && unfrozen(path)
func (*SelectorEntry).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.matching)), below(box(e), path), box(e.value)) && unfrozen(path)
func (*SelectorEntry).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.matching)), below(box(e), path), box(e.value)) && unfrozen(path)
func (*SelectorExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.selectors)) && unfrozen(path)
func (*SelectorExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.lhs)), below(box(e), path), box(e.selectors)) && unfrozen(path)
func (*SiteDefinition).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.body)) && unfrozen(path)
func (*SiteDefinition).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.body)) && unfrozen(path)
func (*TextExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*TextExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*TypeAlias).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.typeExpr)) && unfrozen(path)
func (*TypeAlias).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.typeExpr)) && unfrozen(path)
func (*TypeDefinition).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.body)) && unfrozen(path)
func (*TypeDefinition).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.body)) && unfrozen(path)
func (*TypeMapping).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.typeExpr)), below(box(e), path), box(e.mappingExpr)) && unfrozen(path)
func (*TypeMapping).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.typeExpr)), below(box(e), path), box(e.mappingExpr)) && unfrozen(path)
func (*UnaryMinusExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*UnaryMinusExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*UnfoldExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*UnfoldExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*UnlessExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(deepx(old(tr), below(box(e), path), box(e.test)), below(box(e), path), box(e.then)), below(box(e), path), box(e.elseExpr)) && unfrozen(path)
func (*UnlessExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(flatx(old(tr), below(box(e), path), box(e.test)), below(box(e), path), box(e.then)), below(box(e), path), box(e.elseExpr)) && unfrozen(path)
func (*VariableExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*VariableExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*VirtualQuery).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*VirtualQuery).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(old(tr), below(box(e), path), box(e.expr)) && unfrozen(path)
func (*StepExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == deepx(deepx(old(tr), below(box(e), path), box(e.properties)), below(box(e), path), box(e.definition)) && unfrozen(path)
func (*StepExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == flatx(flatx(old(tr), below(box(e), path), box(e.properties)), below(box(e), path), box(e.definition)) && unfrozen(path)
func (*LiteralBoolean).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralBoolean).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralDefault).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralDefault).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralFloat).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralFloat).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralInteger).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralInteger).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralString).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralString).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralUndef).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*LiteralUndef).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*Nop).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*Nop).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*QualifiedName).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*QualifiedName).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*QualifiedReference).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*QualifiedReference).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*RegexpExpression).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*RegexpExpression).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*ReservedWord).AllContents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
func (*ReservedWord).Contents
    requires [C05] unfrozen(path)
    modifies tail(path), ghost tr
    ensures [C05] tr == old(tr)
