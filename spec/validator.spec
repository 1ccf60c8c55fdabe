package validator

// ---- C07: recorded issues ----
// rec: everything recorded since the last Clear, in order. ex: every expression examined since the last Clear, with its path.
// dsp: every call of a method of the Checker. tdup, tres, tlast, tcap: the expressions that each of the issues of C08 was reported for.
ghost rec Int
ghost ex Int
ghost vpath Int
ghost dsp Int
ghost tdup Int
ghost tres Int
ghost tlast Int
ghost tcap Int
logic rep(Str,Int,Int,Val) Val
logic disp(Int,Int,Val) Int
logic nopath(Int) Int
smt
(assert (forall ((a (Array Int Val))) (! (= (pathv a 0) (nopath 0)) :pattern ((pathv a 0)))))
end
define av(v) = v.(*AbstractValidator)
define recorded(v) = rec == pathv(elemsOf(v.issues), len(v.issues)) && unfrozen(v.issues)
// the list grew in place, or was replaced by a new one
define grown(v) = fresh(v.issues) || (base(v.issues) == old(base(v.issues)) && len(v.issues) >= old(len(v.issues)))
define sevof(v, c) = ite(has(v.severities, c), v.severities[c], 4)
extern issue.NewReported params code, severity, args, locOrSkip
    ensures result == rep(code, severity, ref(args), locOrSkip) && result != nil
func (*AbstractValidator).Accept
    requires [C07] recorded(v)
    modifies v.issues, tail(v.issues), ghost rec, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines rec == ite(sevof(v, code) == 1, old(rec), pcons(old(rec), rep(code, sevof(v, code), ref(args), e)))
    defines tdup == ite(code == ValidateDuplicateParameter, pcons(old(tdup), e), old(tdup))
    defines tres == ite(code == ValidateReservedParameter, pcons(old(tres), e), old(tres))
    defines tlast == ite(code == ValidateCapturesRestNotLast, pcons(old(tlast), e), old(tlast))
    defines tcap == ite(code == ValidateCapturesRestNotSupported, pcons(old(tcap), e), old(tcap))
    ensures [C07] recorded(v) && grown(v)
define same8() = tdup == old(tdup) && tres == old(tres) && tlast == old(tlast) && tcap == old(tcap)

iface Validator.Clear
    modifies av(recv).issues, ghost rec, ghost ex
    defines rec == nopath(0)
    defines ex == 0
    ensures [C07] recorded(av(recv)) && fresh(av(recv).issues)
iface Validator.Issues
    ensures [C07] result == av(recv).issues
iface Validator.setPathAndSubject
    modifies av(recv).path, av(recv).subject, ghost vpath
    defines vpath == pathv(elemsOf(path), len(path))
    ensures [C07] av(recv).path == path && av(recv).subject == expr
iface Validator.Validate
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C07] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost ex, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines ex == tvis(old(ex), vpath, e)
    defines tr == ex
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
func Validate
    requires [C06,C07] v != nil && e != nil
    modifies av(v).issues, tail(av(v).issues), av(v).path, av(v).subject, ghost rec, ghost tr, ghost ex, ghost vpath, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    callback [C07] recorded(av(v)) && ex == tr && fresh(av(v).issues)
    ensures [C07] ex == tall(tvis(0, nopath(0), e), nopath(0), e)
    ensures [C07] recorded(av(v))

default validator.(*basicChecker).isIdem
    panics false
default validator.(*basicChecker).idem%
    requires [C06] e != nil
    panics false
default validator.(*basicChecker).check%
    requires [C06] e != nil
    requires [C07] recorded(v) && unfrozen(v.path)
    modifies v.issues, tail(v.issues), tail(v.path), ghost rec, ghost tr, ghost tdup, ghost tres, ghost tlast, ghost tcap
    callback [C07] recorded(v) && unfrozen(v.path) && grown(v)
    callback [C08] same8()
    ensures [C07] recorded(v) && grown(v)
    ensures [C07] unfrozen(v.path)
    ensures [C08] same8()

// ---- C08: parameter lists ----
logic seenl(Slice,Str,Int) Bool
logic dupd(Int,Slice,Int) Int
logic resd(Int,Slice,Int,Val) Int
logic capd(Int,Slice,Int) Int
define pname(v) = v.(*parser.Parameter).name
axiom seenl_0(l []parser.Expression, x string) = by(!seenl(l, x, 0), seenl(l, x, 0))
axiom seenl_step(l []parser.Expression, x string, n int, m int) = by((0 <= m && n == m + 1) ==> seenl(l, x, n) == (seenl(l, x, m) || pname(felem(l, m)) == x), seenl(l, x, n), seenl(l, x, m))
axiom dupd_0(t int, l []parser.Expression) = by(dupd(t, l, 0) == t, dupd(t, l, 0))
axiom dupd_step(t int, l []parser.Expression, n int, m int) = by((0 <= m && n == m + 1) ==> dupd(t, l, n) == ite(seenl(l, pname(felem(l, m)), m), pcons(dupd(t, l, m), felem(l, m)), dupd(t, l, m)), dupd(t, l, n), dupd(t, l, m))
axiom resd_0(t int, l []parser.Expression, c interface{}) = by(resd(t, l, 0, c) == t, resd(t, l, 0, c))
axiom resd_step(t int, l []parser.Expression, n int, m int, c interface{}) = by((0 <= m && n == m + 1) ==> resd(t, l, n, c) == ite(pname(felem(l, m)) == "name" || pname(felem(l, m)) == "title", pcons(resd(t, l, m, c), c), resd(t, l, m, c)), resd(t, l, n, c), resd(t, l, m, c))
axiom capd_0(t int, l []parser.Expression) = by(capd(t, l, 0) == t, capd(t, l, 0))
axiom capd_step(t int, l []parser.Expression, n int, m int) = by((0 <= m && n == m + 1) ==> capd(t, l, n) == ite(is(felem(l, m), *parser.Parameter) && felem(l, m).(*parser.Parameter).capturesRest, pcons(capd(t, l, m), felem(l, m)), capd(t, l, m)), capd(t, l, n), capd(t, l, m))
define butlast(l) = ite(len(l) == 0, 0, len(l) - 1)
define inlambda(v) = len(v.path) > 0 && is(v.path[len(v.path)-1], *parser.LambdaExpression)
define lamparams(v) = v.path[len(v.path)-1].(*parser.LambdaExpression).parameters
define params(l) = forall(k, 0, len(l), is(felem(l, k), *parser.Parameter))
func (*basicChecker).checkParameterNameUniqueness
    requires [C07] recorded(v) && unfrozen(v.path)
    ensures [C07] unfrozen(v.path)
    requires [C06,C08] frozen(parameters) && params(parameters)
    modifies v.issues, tail(v.issues), ghost rec, ghost tdup, ghost tres, ghost tlast, ghost tcap
    ensures [C07] recorded(v) && grown(v)
    ensures [C08] tdup == dupd(old(tdup), parameters, len(parameters)) && tres == old(tres) && tlast == old(tlast) && tcap == old(tcap)
template dup_so_far@dupd(l []parser.Expression, n int) = [C08] tdup == dupd(old(tdup), l, n)
template uniq_so_far@dupd(l []parser.Expression, u map[string]bool, n int) = [C08] forall(k, 0, len(l), has(u, pname(felem(l, k))) == seenl(l, pname(felem(l, k)), n), felem(l, k))
template same_dup(v *basicChecker) = [C08] tdup == old(tdup)
template same_res(v *basicChecker) = [C08] tres == old(tres)
template same_last(v *basicChecker) = [C08] tlast == old(tlast)
template same_cap(v *basicChecker) = [C08] tcap == old(tcap)
template path_so_far(v *basicChecker) = [C07] unfrozen(v.path)
template recorded_so_far(v *basicChecker) = [C07] recorded(v) && grown(v)
func (*basicChecker).checkNoCapture
    requires [C07] recorded(v) && unfrozen(v.path)
    ensures [C07] unfrozen(v.path)
    requires [C06,C08] frozen(parameters)
    modifies v.issues, tail(v.issues), ghost rec, ghost tdup, ghost tres, ghost tlast, ghost tcap
    ensures [C07] recorded(v) && grown(v)
    ensures [C08] tcap == capd(old(tcap), parameters, len(parameters)) && tres == old(tres) && tlast == old(tlast) && tdup == old(tdup)
template cap_so_far@tcap(l []parser.Expression, n int) = [C08] tcap == capd(old(tcap), l, n)
func (*basicChecker).checkCaptureLast
    requires [C07] recorded(v) && unfrozen(v.path)
    ensures [C07] unfrozen(v.path)
    requires [C06,C08] frozen(parameters)
    modifies v.issues, tail(v.issues), ghost rec, ghost tdup, ghost tres, ghost tlast, ghost tcap
    ensures [C07] recorded(v) && grown(v)
    ensures [C08] tlast == capd(old(tlast), parameters, butlast(parameters)) && tres == old(tres) && tcap == old(tcap) && tdup == old(tdup)
template last_so_far@tlast(l []parser.Expression, n int) = [C08] 0 <= n && n <= butlast(l) && tlast == capd(old(tlast), l, n)
func (*basicChecker).checkReservedParams
    requires [C07] recorded(v) && unfrozen(v.path)
    ensures [C07] unfrozen(v.path)
    requires [C06,C08] frozen(parameters) && params(parameters)
    modifies v.issues, tail(v.issues), ghost rec, ghost tdup, ghost tres, ghost tlast, ghost tcap
    ensures [C07] recorded(v) && grown(v)
    ensures [C08] tres == resd(old(tres), parameters, len(parameters), container) && tdup == old(tdup) && tlast == old(tlast) && tcap == old(tcap)
template res_so_far@resd(l []parser.Expression, c parser.Expression, n int) = [C08] tres == resd(old(tres), l, n, c)

// ---- C07: severities ----
logic known(Str) Bool
logic issueof(Str) Val
logic demotable(Val) Bool
define valid(s) = 1 <= s && s <= 4
extern issue.ForCode params code
    panics !known(code)
    ensures result != nil && result == issueof(code) && known(code)
extern issue.Issue.IsDemotable
    ensures result == demotable(recv)
extern issue.(Severity).AssertValid params severity
    panics !valid(severity)
    ensures valid(severity)
extern issue.(Severity).String params severity
    panics !valid(severity)
func (*AbstractValidator).Demote
    requires [C07] v.severities != nil
    modifies map(v.severities)
    panics [C07] !(known(code) && demotable(issueof(code)) && valid(severity))
    ensures [C07] known(code) && demotable(issueof(code)) && valid(severity)
    ensures [C07] has(v.severities, code) && v.severities[code] == severity
    ensures [C07] foralls(c, c != code ==> has(v.severities, c) == old(has(v.severities, c)), has(v.severities, c))
    ensures [C07] foralls(c, c != code ==> v.severities[c] == old(v.severities[c]), v.severities[c])
// what a new validator reports otherwise than as an error
define configured(v, strict) = foralls(c, has(v.severities, c) == (c == ValidateFutureReservedWord || c == ValidateDuplicateKey || c == ValidateIdemExpressionNotLast), has(v.severities, c)) && v.severities[ValidateFutureReservedWord] == 2 && v.severities[ValidateDuplicateKey] == strict && v.severities[ValidateIdemExpressionNotLast] == strict
func (*basicChecker).initialize
    modifies v.severities
    panics true
    ensures [C07] configured(v, strict)
    ensures v.severities != nil
func NewChecker
    panics true
    ensures [C07] is(result, *basicChecker) && configured(av(result), strict)
func NewTasksChecker
    panics true
    ensures [C07] is(result, *tasksChecker) && configured(av(result), 4)
func NewWorkflowChecker
    panics true
    ensures [C07] is(result, *workflowChecker) && configured(av(result), 4)
safety C06 validator.%
// ---- generated from the Checker interface ----
iface Checker.checkStepExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 1, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkApplication
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 2, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkAssignmentExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 3, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkAttributeOperation
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 4, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkAttributesOperation
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 5, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkBinaryExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 6, e)
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkBlockExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 7, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkCallNamedFunctionExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 8, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkCapabilityMapping
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 9, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkCaseExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 10, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkCaseOption
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 11, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkCollectExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 12, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkEppExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 13, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == ite(inlambda(av(recv)), dupd(old(tdup), lamparams(av(recv)), len(lamparams(av(recv)))), old(tdup))
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == ite(inlambda(av(recv)), capd(old(tcap), lamparams(av(recv)), len(lamparams(av(recv)))), old(tcap))
iface Checker.checkFunctionDefinition
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 14, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == dupd(old(tdup), e.parameters, len(e.parameters))
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == capd(old(tlast), e.parameters, butlast(e.parameters))
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkHostClassDefinition
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 15, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == dupd(old(tdup), e.parameters, len(e.parameters))
    ensures [C08] is(recv, *basicChecker) ==> tres == resd(old(tres), e.parameters, len(e.parameters), box(e))
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == capd(old(tcap), e.parameters, len(e.parameters))
iface Checker.checkIfExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 16, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkKeyedEntry
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 17, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkLambdaExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 18, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == capd(old(tlast), e.parameters, butlast(e.parameters))
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkLiteralHash
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 19, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkLiteralList
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 20, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkNamedAccessExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 21, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkNamedDefinition
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 22, e)
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == dupd(old(tdup), e.(*parser.namedDefinition).parameters, len(e.(*parser.namedDefinition).parameters))
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkNodeDefinition
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 23, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkParameter
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 24, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkPlanDefinition
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 25, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == dupd(old(tdup), e.parameters, len(e.parameters))
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == capd(old(tlast), e.parameters, butlast(e.parameters))
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkQueryExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 26, e)
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkRelationshipExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 27, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkReservedWord
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 28, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkResourceBody
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 29, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkResourceDefaultsExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 30, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkResourceExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 31, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkResourceOverrideExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 32, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkResourceTypeDefinition
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 33, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == dupd(old(tdup), e.parameters, len(e.parameters))
    ensures [C08] is(recv, *basicChecker) ==> tres == resd(old(tres), e.parameters, len(e.parameters), box(e))
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == capd(old(tcap), e.parameters, len(e.parameters))
iface Checker.checkSelectorEntry
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 34, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkSelectorExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 35, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkSiteDefinition
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 36, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkTypeAlias
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 37, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkTypeMapping
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 38, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkUnaryExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 39, e)
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
iface Checker.checkUnlessExpression
    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)
    requires [C06,C08] e != nil
    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    defines dsp == disp(old(dsp), 40, box(e))
    ensures [C07] recorded(av(recv)) && grown(av(recv))
    ensures [C07] unfrozen(av(recv).path)
    ensures [C08] is(recv, *basicChecker) ==> tdup == old(tdup)
    ensures [C08] is(recv, *basicChecker) ==> tres == old(tres)
    ensures [C08] is(recv, *basicChecker) ==> tlast == old(tlast)
    ensures [C08] is(recv, *basicChecker) ==> tcap == old(tcap)
func Check
    requires [C07] recorded(av(v)) && unfrozen(av(v).path)
    requires [C06,C07,C08] v != nil && e != nil
    modifies av(v).issues, tail(av(v).issues), tail(av(v).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap
    ensures [C07] recorded(av(v)) && grown(av(v))
    ensures [C07] unfrozen(av(v).path)
    ensures [C07] is(e, *parser.StepExpression) ==> dsp == disp(old(dsp), 1, e)
    ensures [C07] is(e, *parser.Application) ==> dsp == disp(old(dsp), 2, e)
    ensures [C07] is(e, *parser.AssignmentExpression) ==> dsp == disp(old(dsp), 3, e)
    ensures [C07] is(e, *parser.AttributeOperation) ==> dsp == disp(old(dsp), 4, e)
    ensures [C07] is(e, *parser.AttributesOperation) ==> dsp == disp(old(dsp), 5, e)
    ensures [C07] is(e, *parser.BlockExpression) ==> dsp == disp(old(dsp), 7, e)
    ensures [C07] is(e, *parser.CallNamedFunctionExpression) ==> dsp == disp(old(dsp), 8, e)
    ensures [C07] is(e, *parser.CapabilityMapping) ==> dsp == disp(old(dsp), 9, e)
    ensures [C07] is(e, *parser.CaseExpression) ==> dsp == disp(old(dsp), 10, e)
    ensures [C07] is(e, *parser.CaseOption) ==> dsp == disp(old(dsp), 11, e)
    ensures [C07] is(e, *parser.CollectExpression) ==> dsp == disp(old(dsp), 12, e)
    ensures [C07] is(e, *parser.EppExpression) ==> dsp == disp(old(dsp), 13, e)
    ensures [C07] is(e, *parser.FunctionDefinition) ==> dsp == disp(old(dsp), 14, e)
    ensures [C07] is(e, *parser.HostClassDefinition) ==> dsp == disp(old(dsp), 15, e)
    ensures [C07] is(e, *parser.IfExpression) ==> dsp == disp(old(dsp), 16, e)
    ensures [C07] is(e, *parser.KeyedEntry) ==> dsp == disp(old(dsp), 17, e)
    ensures [C07] is(e, *parser.LambdaExpression) ==> dsp == disp(old(dsp), 18, e)
    ensures [C07] is(e, *parser.LiteralHash) ==> dsp == disp(old(dsp), 19, e)
    ensures [C07] is(e, *parser.LiteralList) ==> dsp == disp(old(dsp), 20, e)
    ensures [C07] is(e, *parser.NamedAccessExpression) ==> dsp == disp(old(dsp), 21, e)
    ensures [C07] is(e, *parser.NodeDefinition) ==> dsp == disp(old(dsp), 23, e)
    ensures [C07] is(e, *parser.Parameter) ==> dsp == disp(old(dsp), 24, e)
    ensures [C07] is(e, *parser.PlanDefinition) ==> dsp == disp(old(dsp), 25, e)
    ensures [C07] is(e, *parser.RelationshipExpression) ==> dsp == disp(old(dsp), 27, e)
    ensures [C07] is(e, *parser.ReservedWord) ==> dsp == disp(old(dsp), 28, e)
    ensures [C07] is(e, *parser.ResourceBody) ==> dsp == disp(old(dsp), 29, e)
    ensures [C07] is(e, *parser.ResourceDefaultsExpression) ==> dsp == disp(old(dsp), 30, e)
    ensures [C07] is(e, *parser.ResourceExpression) ==> dsp == disp(old(dsp), 31, e)
    ensures [C07] is(e, *parser.ResourceOverrideExpression) ==> dsp == disp(old(dsp), 32, e)
    ensures [C07] is(e, *parser.ResourceTypeDefinition) ==> dsp == disp(old(dsp), 33, e)
    ensures [C07] is(e, *parser.SelectorEntry) ==> dsp == disp(old(dsp), 34, e)
    ensures [C07] is(e, *parser.SelectorExpression) ==> dsp == disp(old(dsp), 35, e)
    ensures [C07] is(e, *parser.SiteDefinition) ==> dsp == disp(old(dsp), 36, e)
    ensures [C07] is(e, *parser.TypeAlias) ==> dsp == disp(old(dsp), 37, e)
    ensures [C07] is(e, *parser.TypeMapping) ==> dsp == disp(old(dsp), 38, e)
    ensures [C07] is(e, *parser.UnlessExpression) ==> dsp == disp(old(dsp), 40, e)
    ensures [C07] (!(is(e, *parser.StepExpression) || is(e, *parser.Application) || is(e, *parser.AssignmentExpression) || is(e, *parser.AttributeOperation) || is(e, *parser.AttributesOperation) || is(e, *parser.BlockExpression) || is(e, *parser.CallNamedFunctionExpression) || is(e, *parser.CapabilityMapping) || is(e, *parser.CaseExpression) || is(e, *parser.CaseOption) || is(e, *parser.CollectExpression) || is(e, *parser.EppExpression) || is(e, *parser.FunctionDefinition) || is(e, *parser.HostClassDefinition) || is(e, *parser.IfExpression) || is(e, *parser.KeyedEntry) || is(e, *parser.LambdaExpression) || is(e, *parser.LiteralHash) || is(e, *parser.LiteralList) || is(e, *parser.NamedAccessExpression) || is(e, *parser.NodeDefinition) || is(e, *parser.Parameter) || is(e, *parser.PlanDefinition) || is(e, *parser.RelationshipExpression) || is(e, *parser.ReservedWord) || is(e, *parser.ResourceBody) || is(e, *parser.ResourceDefaultsExpression) || is(e, *parser.ResourceExpression) || is(e, *parser.ResourceOverrideExpression) || is(e, *parser.ResourceTypeDefinition) || is(e, *parser.SelectorEntry) || is(e, *parser.SelectorExpression) || is(e, *parser.SiteDefinition) || is(e, *parser.TypeAlias) || is(e, *parser.TypeMapping) || is(e, *parser.UnlessExpression))) ==> dsp == ite(is(e, parser.BinaryExpression), disp(old(dsp), 6, e), ite(is(e, parser.QueryExpression), disp(old(dsp), 26, e), ite(is(e, parser.UnaryExpression), disp(old(dsp), 39, e), old(dsp))))
    ensures [C08] is(v, *basicChecker) && is(e, *parser.EppExpression) ==> tdup == ite(inlambda(av(v)), dupd(old(tdup), lamparams(av(v)), len(lamparams(av(v)))), old(tdup))
    ensures [C08] is(v, *basicChecker) && is(e, *parser.FunctionDefinition) ==> tdup == dupd(old(tdup), e.(*parser.FunctionDefinition).parameters, len(e.(*parser.FunctionDefinition).parameters))
    ensures [C08] is(v, *basicChecker) && is(e, *parser.HostClassDefinition) ==> tdup == dupd(old(tdup), e.(*parser.HostClassDefinition).parameters, len(e.(*parser.HostClassDefinition).parameters))
    ensures [C08] is(v, *basicChecker) && is(e, *parser.PlanDefinition) ==> tdup == dupd(old(tdup), e.(*parser.PlanDefinition).parameters, len(e.(*parser.PlanDefinition).parameters))
    ensures [C08] is(v, *basicChecker) && is(e, *parser.ResourceTypeDefinition) ==> tdup == dupd(old(tdup), e.(*parser.ResourceTypeDefinition).parameters, len(e.(*parser.ResourceTypeDefinition).parameters))
    ensures [C08] is(v, *basicChecker) && !(is(e, *parser.EppExpression) || is(e, *parser.FunctionDefinition) || is(e, *parser.HostClassDefinition) || is(e, *parser.PlanDefinition) || is(e, *parser.ResourceTypeDefinition)) ==> tdup == old(tdup)
    ensures [C08] is(v, *basicChecker) && is(e, *parser.HostClassDefinition) ==> tres == resd(old(tres), e.(*parser.HostClassDefinition).parameters, len(e.(*parser.HostClassDefinition).parameters), e)
    ensures [C08] is(v, *basicChecker) && is(e, *parser.ResourceTypeDefinition) ==> tres == resd(old(tres), e.(*parser.ResourceTypeDefinition).parameters, len(e.(*parser.ResourceTypeDefinition).parameters), e)
    ensures [C08] is(v, *basicChecker) && !(is(e, *parser.HostClassDefinition) || is(e, *parser.ResourceTypeDefinition)) ==> tres == old(tres)
    ensures [C08] is(v, *basicChecker) && is(e, *parser.FunctionDefinition) ==> tlast == capd(old(tlast), e.(*parser.FunctionDefinition).parameters, butlast(e.(*parser.FunctionDefinition).parameters))
    ensures [C08] is(v, *basicChecker) && is(e, *parser.LambdaExpression) ==> tlast == capd(old(tlast), e.(*parser.LambdaExpression).parameters, butlast(e.(*parser.LambdaExpression).parameters))
    ensures [C08] is(v, *basicChecker) && is(e, *parser.PlanDefinition) ==> tlast == capd(old(tlast), e.(*parser.PlanDefinition).parameters, butlast(e.(*parser.PlanDefinition).parameters))
    ensures [C08] is(v, *basicChecker) && !(is(e, *parser.FunctionDefinition) || is(e, *parser.LambdaExpression) || is(e, *parser.PlanDefinition)) ==> tlast == old(tlast)
    ensures [C08] is(v, *basicChecker) && is(e, *parser.EppExpression) ==> tcap == ite(inlambda(av(v)), capd(old(tcap), lamparams(av(v)), len(lamparams(av(v)))), old(tcap))
    ensures [C08] is(v, *basicChecker) && is(e, *parser.HostClassDefinition) ==> tcap == capd(old(tcap), e.(*parser.HostClassDefinition).parameters, len(e.(*parser.HostClassDefinition).parameters))
    ensures [C08] is(v, *basicChecker) && is(e, *parser.ResourceTypeDefinition) ==> tcap == capd(old(tcap), e.(*parser.ResourceTypeDefinition).parameters, len(e.(*parser.ResourceTypeDefinition).parameters))
    ensures [C08] is(v, *basicChecker) && !(is(e, *parser.EppExpression) || is(e, *parser.HostClassDefinition) || is(e, *parser.ResourceTypeDefinition)) ==> tcap == old(tcap)
