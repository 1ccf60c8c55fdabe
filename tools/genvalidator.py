#!/usr/bin/env python3
# Writes spec/validator.spec: the hand-written part (tools/validator.head) and one contract per method of the Checker
# interface. The output is committed; it only has to be regenerated when the interface changes.
import re
src=open('/repo/validator/checker.go').read()
body=src[src.index('type Checker interface'):]
body=body[:body.index('\n}')]
ms=re.findall(r'(check\w+)\(e ([^)]*)\)',body)
chk=src[src.index('func Check('):]
chk=chk[:chk.index('\n}\n')]
kinds=re.findall(r'case (\*?parser\.\w+):\n\t\tv\.(\w+)\(e\)',chk)
idx={m:i+1 for i,(m,_) in enumerate(ms)}
DUP={'checkFunctionDefinition','checkHostClassDefinition','checkPlanDefinition','checkResourceTypeDefinition'}
# issue -> (method -> value of the trace after the call)
def tdup(m):
    if m in DUP: return 'dupd(old(tdup), e.parameters, len(e.parameters))'
    if m=='checkNamedDefinition': return 'dupd(old(tdup), e.(*parser.namedDefinition).parameters, len(e.(*parser.namedDefinition).parameters))'
    if m=='checkEppExpression': return 'ite(inlambda(av(recv)), dupd(old(tdup), lamparams(av(recv)), len(lamparams(av(recv)))), old(tdup))'
    return 'old(tdup)'
def tres(m):
    if m in('checkHostClassDefinition','checkResourceTypeDefinition'): return 'resd(old(tres), e.parameters, len(e.parameters), box(e))'
    return 'old(tres)'
def tlast(m):
    if m in('checkFunctionDefinition','checkPlanDefinition','checkLambdaExpression'): return 'capd(old(tlast), e.parameters, butlast(e.parameters))'
    return 'old(tlast)'
def tcap(m):
    if m in('checkHostClassDefinition','checkResourceTypeDefinition'): return 'capd(old(tcap), e.parameters, len(e.parameters))'
    if m=='checkEppExpression': return 'ite(inlambda(av(recv)), capd(old(tcap), lamparams(av(recv)), len(lamparams(av(recv)))), old(tcap))'
    return 'old(tcap)'
o=[open('/verif/tools/validator.head').read().rstrip('\n')]
o.append('// ---- generated from the Checker interface ----')
MOD='    modifies av(recv).issues, tail(av(recv).issues), tail(av(recv).path), ghost rec, ghost tr, ghost dsp, ghost tdup, ghost tres, ghost tlast, ghost tcap'
for m,t in ms:
    o.append(f'iface Checker.{m}')
    o.append('    requires [C07] recorded(av(recv)) && unfrozen(av(recv).path)')
    o.append(f'    requires [C06,C08] e != nil')
    o.append(MOD)
    o.append(f'    defines dsp == disp(old(dsp), {idx[m]}, '+('box(e)' if t.startswith('*') else 'e')+')')
    o.append('    ensures [C07] recorded(av(recv)) && grown(av(recv))')
    o.append('    ensures [C07] unfrozen(av(recv).path)')
    o.append('    ensures [C08] is(recv, *basicChecker) ==> tdup == '+tdup(m))
    o.append('    ensures [C08] is(recv, *basicChecker) ==> tres == '+tres(m))
    o.append('    ensures [C08] is(recv, *basicChecker) ==> tlast == '+tlast(m))
    o.append('    ensures [C08] is(recv, *basicChecker) ==> tcap == '+tcap(m))
# Check: dispatch
o.append('func Check')
o.append('    requires [C07] recorded(av(v)) && unfrozen(av(v).path)')
o.append('    requires [C06,C07,C08] v != nil && e != nil')
o.append(MOD.replace('recv','v'))
o.append('    ensures [C07] recorded(av(v)) && grown(av(v))')
o.append('    ensures [C07] unfrozen(av(v).path)')
for k,m in kinds:
    if k.startswith('*'):
        o.append(f'    ensures [C07] is(e, {k}) ==> dsp == disp(old(dsp), {idx[m]}, e)')
conc=[k for k,m in kinds if k.startswith('*')]
notc='!('+' || '.join(f'is(e, {k})' for k in conc)+')'
o.append(f'    ensures [C07] ({notc}) ==> dsp == ite(is(e, parser.BinaryExpression), disp(old(dsp), {idx["checkBinaryExpression"]}, e), ite(is(e, parser.QueryExpression), disp(old(dsp), {idx["checkQueryExpression"]}, e), ite(is(e, parser.UnaryExpression), disp(old(dsp), {idx["checkUnaryExpression"]}, e), old(dsp))))')
for g,f in(('tdup',tdup),('tres',tres),('tlast',tlast),('tcap',tcap)):
    rest=[]
    for k,m in kinds:
        v=f(m)
        if v!=f'old({g})':
            v=v.replace('recv','v').replace('box(e)','e').replace('e.parameters',f'e.({k}).parameters')
            o.append(f'    ensures [C08] is(v, *basicChecker) && is(e, {k}) ==> {g} == {v}')
            rest.append(k)
    o.append(f'    ensures [C08] is(v, *basicChecker) && !('+' || '.join(f'is(e, {k})' for k in rest)+f') ==> {g} == old({g})')
open('/verif/spec/validator.spec','w').write('\n'.join(o)+'\n')
