"""Specification of the operators: the function each one computes, the
differential recurrence of its Taylor coefficients (order J >= 1), and the
derivative of the order zero value.  Written from the mathematics of the
operators (CppAD documentation, theory of forward and reverse mode), not
extracted from the implementation.

Rows: S0,S1 = variable operands by argument slot, P0,P1 = parameter operands,
Z = primary result, Z-1, Z-2 .. = auxiliary results."""
def _b(zero,rec=None,dz=None): return dict(zero=zero,rec=rec,dz=dz)
def lin(expr):
    return dict(rows={'Z':_b([expr.replace('[J]','[0]')],expr.split(' + P')[0])})
T={}
# ------------------------------------------------------------------ binary
T['AddvvOp']=dict(rows={'Z':_b(['S0[0] + S1[0]'],'S0[J] + S1[J]')})
T['AddpvOp']=dict(rows={'Z':_b(['P0 + S1[0]'],'S1[J]')})
T['SubvvOp']=dict(rows={'Z':_b(['S0[0] - S1[0]'],'S0[J] - S1[J]')})
T['SubpvOp']=dict(rows={'Z':_b(['P0 - S1[0]'],'-S1[J]')})
T['SubvpOp']=dict(rows={'Z':_b(['S0[0] - P1'],'S0[J]')})
T['MulvvOp']=dict(rows={'Z':_b(['S0[0] S1[0]'],'sum(0,J) S0[K] S1[J-K]')})
T['MulpvOp']=dict(rows={'Z':_b(['P0 S1[0]'],'P0 S1[J]')})
T['ZmulvvOp']=T['MulvvOp']; T['ZmulpvOp']=T['MulpvOp']
T['ZmulvpOp']=dict(rows={'Z':_b(['S0[0] P1'],'S0[J] P1')})
T['DivvvOp']=dict(rows={'Z':_b(['S0[0] / S1[0]'],'S0[J] / S1[0] - sum(1,J) S1[K] Z[J-K] / S1[0]',
    {'S0':'PZ[0] / S1[0]','S1':'-PZ[0] Z[0] / S1[0]'})})
T['DivpvOp']=dict(rows={'Z':_b(['P0 / S1[0]'],'-sum(1,J) S1[K] Z[J-K] / S1[0]',{'S1':'-PZ[0] Z[0] / S1[0]'})})
T['DivvpOp']=dict(rows={'Z':_b(['S0[0] / P1'],'S0[J] / P1')})
# ------------------------------------------------------------------- unary
T['NegOp']=dict(rows={'Z':_b(['-S0[0]'],'-S0[J]')})
T['AbsOp']=dict(rows={'Z':_b(['fabs(S0[0])','sign(S0[0]) S0[0]'],'sign(S0[0]) S0[J]',{'S0':'PZ[0] sign(S0[0])'})})
T['ExpOp']=dict(rows={'Z':_b(['exp(S0[0])'],'sum(1,J) K/J S0[K] Z[J-K]',{'S0':'PZ[0] Z[0]'})})
T['Expm1Op']=dict(rows={'Z':_b(['expm1(S0[0])'],'S0[J] + sum(1,J) K/J S0[K] Z[J-K]',{'S0':'PZ[0] Z[0] + PZ[0]'})})
T['LogOp']=dict(rows={'Z':_b(['log(S0[0])'],'S0[J]/S0[0] - sum(1,J-1) K/J Z[K] S0[J-K] / S0[0]',{'S0':'PZ[0] / S0[0]'})})
T['Log1pOp']=dict(rows={'Z':_b(['log1p(S0[0])'],'S0[J]/(1+S0[0]) - sum(1,J-1) K/J Z[K] S0[J-K] / (1+S0[0])',{'S0':'PZ[0] / (1+S0[0])'})})
T['SqrtOp']=dict(rows={'Z':_b(['sqrt(S0[0])'],'1/2 S0[J]/Z[0] - sum(1,J-1) 1/2 Z[K] Z[J-K] / Z[0]',{'S0':'1/2 PZ[0] / Z[0]'})})
def trig(f,g,sf,sg):
    # f' = sf*g ; g' = sg*f
    return dict(rows={'Z':_b(['%s(S0[0])'%f],'%ssum(1,J) K/J S0[K] Z-1[J-K]'%sf,{'S0':'%sPZ[0] Z-1[0]'%sf}),
                    'Z-1':_b(['%s(S0[0])'%g],'%ssum(1,J) K/J S0[K] Z[J-K]'%sg,{'S0':'%sPZ-1[0] Z[0]'%sg})})
T['SinOp']=trig('sin','cos','','-'); T['CosOp']=trig('cos','sin','-','')
T['SinhOp']=trig('sinh','cosh','',''); T['CoshOp']=trig('cosh','sinh','','')
def tang(f,s):
    # z' = (1 + s*y) x' ; y = z*z
    return dict(rows={'Z':_b(['%s(S0[0])'%f],'S0[J] %s sum(1,J) K/J S0[K] Z-1[J-K]'%s,{'S0':'PZ[0] %s PZ[0] Z-1[0]'%s}),
                    'Z-1':_b(['%s(S0[0])^2'%f,'Z[0]^2'],'sum(0,J) Z[K] Z[J-K]',{'Z':'2 PZ-1[0] Z[0]'})})
T['TanOp']=tang('tan','+'); T['TanhOp']=tang('tanh','-')
def arc(f,b,sz,sx):
    # b = sqrt(b2), z' = sz x'/b ;  2 b b' = 2 sx x x'
    return dict(rows={
      'Z':_b(['%s(S0[0])'%f],'%sS0[J]/Z-1[0] - sum(1,J-1) K/J Z[K] Z-1[J-K] / Z-1[0]'%sz,{'S0':'%sPZ[0]/Z-1[0]'%sz}),
      'Z-1':_b(['sqrt(%s)'%b],'%ssum(0,J) 1/2 S0[K] S0[J-K] / Z-1[0] - sum(1,J-1) 1/2 Z-1[K] Z-1[J-K] / Z-1[0]'%sx,{'S0':'%sPZ-1[0] S0[0] / Z-1[0]'%sx})})
T['AsinOp']=arc('asin','1 - S0[0]^2','','-'); T['AcosOp']=arc('acos','1 - S0[0]^2','-','-')
T['AsinhOp']=arc('asinh','1 + S0[0]^2','',''); T['AcoshOp']=arc('acosh','S0[0]^2 - 1','','')
def arct(f,s):
    # z' (1 + s x^2) = x'
    return dict(rows={
      'Z':_b(['%s(S0[0])'%f],'S0[J]/Z-1[0] - sum(1,J-1) K/J Z[K] Z-1[J-K] / Z-1[0]',{'S0':'PZ[0]/Z-1[0]'}),
      'Z-1':_b(['1 %s S0[0]^2'%s],'%ssum(0,J) S0[K] S0[J-K]'%s.replace('+',''),{'S0':'%s2 PZ-1[0] S0[0]'%s.replace('+','')})})
T['AtanOp']=arct('atan','+'); T['AtanhOp']=arct('atanh','-')
def erf(f,s):
    return dict(rows={
      'Z-4':_b(['S0[0]^2'],'sum(0,J) S0[K] S0[J-K]',{'S0':'2 PZ-4[0] S0[0]'}),
      'Z-3':_b(['P1 - Z-4[0]'],'-Z-4[J]'),
      'Z-2':_b(['exp(Z-3[0])'],'sum(1,J) K/J Z-3[K] Z-2[J-K]',{'Z-3':'PZ-2[0] Z-2[0]'}),
      'Z-1':_b(['P2 Z-2[0]'],'P2 Z-2[J]'),
      'Z':_b(['%s(S0[0])'%f],'%ssum(1,J) K/J S0[K] Z-1[J-K]'%s,{'S0':'%sPZ[0] Z-1[0]'%s})})
T['ErfOp']=erf('erf',''); T['ErfcOp']=erf('erfc','-')
_expz={'Z':_b(['pow'],'sum(1,J) K/J Z-1[K] Z[J-K]',{'Z-1':'PZ[0] Z[0]'})}
T['PowpvOp']=dict(pow=('P0','S1[0]'),rows={
   'Z-2':_b(['log(P0)'],'0'),
   'Z-1':_b(['Z-2[0] S1[0]','log(P0) S1[0]'],'Z-2[0] S1[J]',{'S1':'PZ-1[0] Z-2[0]'}), **_expz}, noadj={'Z-2'})
T['PowvvOp']=dict(pow=('S0[0]','S1[0]'),rows={
   'Z-2':_b(['log(S0[0])'],'S0[J]/S0[0] - sum(1,J-1) K/J Z-2[K] S0[J-K] / S0[0]',{'S0':'PZ-2[0] / S0[0]'}),
   'Z-1':_b(['Z-2[0] S1[0]','log(S0[0]) S1[0]'],'sum(0,J) Z-2[K] S1[J-K]',{'Z-2':'PZ-1[0] S1[0]','S1':'PZ-1[0] Z-2[0]'}), **_expz})

# ------------------------------------------------- selections and constants
EXT={}
EXT['SignOp']=dict(rows={'Z':_b(['sign(S0[0])'],'0',{})})
EXT['ParOp']=dict(rows={'Z':_b(['P0'],'0',{})})
from tay import sel,ex_fac,ex_const,mul,add,key
from form import parse as _p
EXT['DisOp']=dict(rows={'Z':_b([ex_fac(('fn','discrete',('i','sl0'),key(_p('S1[0]')[0])))],'0',{})})
def cexp(mask):
    """z = (y0 rel y1) ? y2 : y3, bit k of the mask says that y_k is a variable"""
    y=[_p(('S%d[0]' if mask>>k&1 else 'P%d')%(k+2))[0] for k in range(4)]
    n=[_p('S%d[J]'%(k+2))[0] if mask>>k&1 else {} for k in range(4)]
    c=lambda u,v: sel(('i','sl0'),y[0],y[1],u,v)
    pz=_p('PZ[0]')[0]; dz={}
    if mask&4: dz['S4']=c(pz,{})
    if mask&8: dz['S5']=c({},pz)
    return dict(rows={'Z':_b([c(y[2],y[3])],c(n[2],n[3]),dz)})
def variants(op):
    """-> [(name, assumptions on argument slots)]"""
    if op=='CExpOp': return [('CExpOp#%d'%m,{('sl',1):m}) for m in range(1,16)]
    return [(op,{})] if op in ALL else []
for _m in range(1,16): EXT['CExpOp#%d'%_m]=cexp(_m)
# variable to a parameter power; the derivatives are defined as zero when x is zero
EQ=2
def gate(): return ex_fac(('fn','nind',('i',str(EQ)),key(_p('S0[0]')[0]),key({})))
def _pow():
    e,rg=_p('P1 Z[0] S0[J] / S0[0] + sum(1,J-1) K/J P1 S0[K] Z[J-K] / S0[0] - sum(1,J-1) K/J Z[K] S0[J-K] / S0[0]')
    return e,rg
EXT['PowvpOp']=dict(pow=('S0[0]','P1'),gate=True,rows={'Z':_b(['pow'],_pow()[0],{'S0':'PZ[0] P1 Z[0] / S0[0]'})},ranges=_pow()[1])
ALL=dict(T); ALL.update(EXT)
