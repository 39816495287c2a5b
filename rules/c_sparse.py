"""Sparsity sweeps: every operator hands the sets of its operands on (P04,P05)."""
import core,ir,sweepx,optable,c_taylor,pathx,lin
from aff import Poly
from sets import SetFlow,ment
ONE=Poly.const(1)
VAR=Poly.atom(('var',))
UNL=['AddvvOp','AddpvOp','SubvvOp','SubpvOp','SubvpOp','MulpvOp','ZmulpvOp','ZmulvpOp','DivvpOp','NegOp','AbsOp']
PAIRS={'MulvvOp':[(0,1)],'ZmulvvOp':[(0,1)],'DivvvOp':[(0,1),(1,1)],'DivpvOp':[(1,1)],'PowvvOp':[(0,0),(0,1),(1,1)],'PowpvOp':[(1,1)],'PowvpOp':[(0,0)]}
def slots(op):
    if op=='PowvpOp': return {0}
    if op in optable.T:
        import form
        s=set()
        for r,b in optable.T[op]['rows'].items():
            e,rg=form.parse(b['rec'])
            for k in e:
                for f,_ in k[1]:
                    if f[0]=='cell' and f[1][0]=='S': s.add(int(f[1][1:]))
        return s
    return None
def pairs(op):
    if op in PAIRS: return PAIRS[op]
    if op in UNL: return []
    return [(0,0)]      # unary nonlinear
MATH=[o for o in optable.T]+['PowvpOp']
def S(k): return Poly.atom(('sl',k))
def R(s,p): return (s,p.key())

def cfg(n):
    """set names, flag root, offset of a variable's row"""
    z=Poly()
    if n in('e_for_jac','e_rev_jac'): return dict(a4='V'),None,z,'V'
    if n=='e_for_hes': return dict(a5='F',a4='RJ'),None,Poly.atom(('a',1))+ONE,'F'
    return dict(a4='H',a2='FJ'),'a3',z,'H'
def flow(fn,n,assume):
    aff=sweepx.make_aff(fn); loop=sweepx.op_loop(fn,aff)
    names,flag,off,main=cfg(n)
    def setname(r):
        if isinstance(r,str) and r[0]=='a': return names.get(r)
        I=fn.get(r) if isinstance(r,str) else None
        return 'L' if I is not None and I['op']=='alloca' else None
    def gates(sf,I):
        if n=='e_for_hes' and I['op']=='call' and (fn.callee(I) or '').endswith('::is_element'):
            if aff.addr(I['o'][0])[0]=='a4' and sf.poly(I['o'][1])==VAR and I['o'][2]=='c0': return True
        if n=='e_rev_hes' and I['op']=='load' and I.get('t')=='i8':
            r,p=aff.addr(I['o'][0])
            if r=='a3' and sf.polyp(p)==VAR: return True
            if isinstance(r,str) and r[0]=='%' and any(a[0] in('sl','ld') for a in sf.polyp(p).atoms()): return assume.get('vecadflag',True)
        return None
    def endpoly(sf,b):
        if n=='e_for_hes' and b==Poly.atom(('a',1))+ONE: return True
        for a in b.atoms():
            if a[0]=='%' and b==Poly.atom(a):
                I=fn.ins[a[1]]
                return I['op']=='call' and (fn.callee(I) or '').endswith('::end')
        return False
    return SetFlow(fn,aff,loop,setname,gates,{k:v for k,v in assume.items() if not isinstance(k,str)},endpoly,flag)
def has(facts,t,s): 
    return s in facts.get(t,frozenset([t]))
def rowname(r,off):
    if r[0]=='q': return 'every '+str(r[1][0])
    return '%s[%r]'%(r[0],Poly(dict(r[1])))
def csum_cover(rows,mk):
    """rows: iterable of quantified rows; do they cover argument slots 5..sl2-1"""
    iv=[]
    for r in rows:
        if r[0]!='q' or r[1][1]!='range': continue
        (inner,_,a,lo,hi)=r[1]
        if inner[0]!=mk[0]: continue
        p=Poly(dict(inner[1]))-mk[1]
        m=[x for x in p.atoms() if x[0]=='ld']
        if len(m)!=1 or p!=Poly.atom(m[0]) or m[0][1] not in(('harg',),('hargc',)): continue
        ix=Poly(dict(m[0][2])); co,rem=ix.coef(a)
        if co!=Poly.const(4): continue
        sh=rem.scale('1/4')
        iv.append((Poly(dict(lo))+sh,Poly(dict(hi))+sh+ONE,m[0][1]))
    for sl in('sl','slc'):
        cur=Poly.const(5); end=Poly.atom((sl,2)); seen=0
        while cur!=end and seen<6:
            nx=[h for l,h,rt in iv if l==cur and rt==(('harg',) if sl=='sl' else ('hargc',))]
            if not nx: break
            cur=nx[0] if len(nx)==1 else max(nx,key=lambda x:x==end); seen+=1
        if cur==end: return True,sl
    return False,None
def obs_op(op,fn,n,obs):
    jac=n in('e_for_jac','e_rev_jac'); fwd=n in('e_for_jac','e_for_hes')
    rule={'e_for_jac':'for-jac','e_rev_jac':'rev-jac','e_for_hes':'for-hes','e_rev_hes':'rev-hes'}[n]
    names,flag,off,main=cfg(n)
    V=lambda p: R(main,p+off)
    cases=[]
    deps=[0,1] if jac else [0]
    if op in MATH:
        for d in deps: cases.append(('',{('a',1):d} if jac else {},slots(op),pairs(op)))
    elif op=='CExpOp':
        for d in deps:
            for m in range(1,16):
                s={k+2 for k in range(4) if m>>k&1 and (k>=2 or (jac and d))}
                cases.append(('mask %d%s'%(m,' dependency' if d else ''),{('sl',1):m,**({('a',1):d} if jac else {})},s,[]))
    elif op in('DisOp','SignOp') and jac:
        k=1 if op=='DisOp' else 0
        cases.append(('dependency',{('a',1):1},{k},[]))
    elif op=='CSumOp':
        for d in deps: cases.append(('',{('a',1):d} if jac else {},'csum',[]))
    elif op in('LdpOp','LdvOp','StpvOp','StvvOp','StppOp','StvpOp'):
        for d in deps: cases.append((('dependency' if d else 'no dependency') if jac else '',{('a',1):d} if jac else {},'vecad',[]))
    else: return
    for nm,assume,sl,prs in cases:
        inst='%s%s'%(op,' '+nm if nm else (' dependency' if assume.get(('a',1)) else ''))
        try:
            sf=flow(fn,n,assume)
            if sf.loop is None: raise ValueError('operator loop not found')
            f=sf.solve()
            if f is None: raise ValueError('the operator never completes')
        except Exception as e:
            obs.append((rule,inst,'undecided','%s: %r'%(n,e),'')); continue
        wh=next((ir.where(I) for I in fn.calls() if (fn.callee(I) or '').startswith('SV::') and fn.blk[I['i']] in sf.loop.body and not (fn.callee(I) or '').endswith('is_element')),SW(n))
        def need(t,s,what):
            good=has(f,t,s)
            obs.append((rule,inst+': '+what,'ok' if good else 'viol','' if good else 'on some path the set of %s does not receive the set of %s'%(rowname(t,off),rowname(s,off)) ,wh))
        if sl=='csum':
            if fwd:
                src=f.get(V(VAR),frozenset()); ok,_=csum_cover(src,(main,off))
            elif not flag or True:
                rows=[t for t,s in f.items() if t[0]=='q' and V(VAR) in s]; ok,_=csum_cover(rows,(main,off))
            obs.append((rule,inst+': every summand','ok' if ok else 'viol','' if ok else 'not every variable of a cumulative sum is covered',wh))
            if n=='e_rev_hes':
                rows=[('q',(('H',t[1][0][1]),)+t[1][1:]) for t,s in f.items() if t[0]=='q' and t[1][0][0]=='flag' and ('set' in s or R('flag',VAR) in s)]
                ok,_=csum_cover(rows,('H',Poly()))
                obs.append((rule,inst+': flag of every summand','ok' if ok else 'viol','' if ok else 'the reverse Jacobian flag does not reach every summand',wh))
            continue
        if sl=='vecad':
            dep=assume.get(('a',1),0)
            # the set of the VecAD object: local row indexed through argument 0
            def isL(r):
                a=[x for x in Poly(dict(r[1])).atoms()] if r[0]=='L' else []
                return len(a)==1 and Poly.atom(a[0])==Poly(dict(r[1])) and a[0][0]=='ld' and a[0][2]==(S(0)-ONE).scale(8).key()
            ld=op in('LdpOp','LdvOp'); Z=V(VAR)
            def sub(cond,what,txt): obs.append((rule,inst+': '+what,'ok' if cond else 'viol','' if cond else txt,wh))
            if ld and fwd:
                sub(any(isL(x) for x in f.get(Z,())),'element set to result','a load does not receive the sets stored in the VecAD object')
                if op=='LdvOp' and dep: need(Z,V(S(1)),'index to result')
            elif ld:
                sub(any(isL(t) and Z in s and t in s for t,s in f.items()),'result to element set','a load does not pass the set of its result to the VecAD object, or forgets earlier sets')
                if op=='LdvOp' and dep: need(V(S(1)),Z,'result to index')
                if flag: 
                    fl=[t for t,s in f.items() if t[0]=='flag']
            else:
                idx=op in('StvvOp','StvpOp'); val=op in('StvvOp','StpvOp')
                want=([2] if val else [])+([1] if idx and dep else [])
                for k in want:
                    if fwd: sub(any(isL(t) and V(S(k)) in s and t in s for t,s in f.items()),'%s to element set'%('value' if k==2 else 'index'),'a store does not add the set of its %s to the VecAD object, or forgets earlier sets'%('value' if k==2 else 'index'))
                    else:
                        t=V(S(k)); s=f.get(t,frozenset([t]))
                        sub(any(isL(x) for x in s) and t in s,'element set to %s'%('value' if k==2 else 'index'),'a store does not pass the set of the VecAD object to its %s'%('value' if k==2 else 'index'))
            continue
        for k in sorted(sl):
            if fwd: need(V(VAR),V(S(k)),'operand %d to result'%k)
            else:
                need(V(S(k)),V(VAR),'result to operand %d'%k); need(V(S(k)),V(S(k)),'operand %d keeps its set'%k)
                if flag:
                    t=R('flag',S(k)); s=f.get(t,frozenset())
                    good='set' in s or R('flag',VAR) in s and t in s
                    obs.append((rule,inst+': flag of operand %d'%k,'ok' if good else 'viol','' if good else 'the reverse Jacobian flag of the result does not reach the operand',wh))
        for a,b in prs:
            for x,y in sorted({(a,b),(b,a)}):
                if n=='e_for_hes': need(('q',('F','elem',V(S(x)))),V(S(y)),'second derivative in operands %d,%d'%(x,y))
                if n=='e_rev_hes': need(V(S(x)),R('FJ',S(y)),'second derivative in operands %d,%d'%(x,y))
        # rows touched are variables
        allowed={VAR.key()}|{(S(k)).key() for k in sl}
        for t,s in f.items():
            for r in [t]+[x for x in s if isinstance(x,tuple)]:
                if r[0] not in('V','F','H','FJ','flag'): continue
                p=Poly(dict(r[1]))-(off if r[0]=='F' else Poly())
                if p.key() in allowed or any(a[0]=='%' for a in p.atoms()): continue
                if r[0]=='F' and False: continue
                obs.append((rule,inst+': only variables','viol','the set of %s is used although it is not a variable operand'%rowname(r,off),wh)); break
def inv_obs(fn,n,obs):
    """independent variables in the forward Hessian sweep: position in select_domain"""
    aff=sweepx.make_aff(fn); L=sweepx.op_loop(fn,aff); rule='for-hes'; wh=SW(n)
    W=pathx.Walk(fn,lambda q:q in('h_arg','h_var') or q.endswith('::is_element') or q.endswith('::par_ptr') or q.endswith('::end'))
    try: paths=[p for p in W.run_loop(L) if p.env.get('exit')==L.h]
    except Exception as e: obs.append((rule,'InvOp','undecided',repr(e),wh)); return
    var=('call','h_var'); inc=('call','SV::is_element',('arg',4),var,('c',0))
    def dom(e): # load of select_domain[...]
        for x in lin.walk(e):
            if x[0]=='load' and isinstance(x[1],tuple) and x[1][0]=='idx' and lin.has(x[1][1],('arg',3)): return x[1]
    cnt=set(); bad=None; noadd=None; und=None; used=False
    for p in paths:
        es=list(p.conds)+[a for e in p.ev for a in e[1] if isinstance(a,tuple)]
        tests=[(c,dom(c)) for c in p.conds if dom(c) is not None]
        for c,d in tests:
            used=True
            ix=lin.sub(lin.lin(d[3][0][0],p.conds),{1:-d[2]})
            ph=[a for a in ix if a!=1 and a[0]=='phi']
            if len(d[3])!=1: und='select_domain index'; continue
            if ix=={var:1,1:-1}: cnt.add('var'); continue
            if len(ph)==1 and len(ix)==1 and ix[ph[0]]==1: cnt.add(ph[0])
            elif len(ph)==1: bad=bad or 'select_domain is read at %r'%(ix,); 
            else: und='select_domain index %r'%(ix,)
    if not used: obs.append((rule,'InvOp: select_domain','undecided','select_domain is not tested',wh)); return
    for c in cnt:
        if c=='var': continue
        I=fn.ins[c[1]]; init=[v for v,b in I['o'] if int(str(b).lstrip('b')) not in L.body]
        if init!=['c0']: bad=bad or 'the position in select_domain does not start at zero'
        for p in paths:
            nx=lin.lin(p.env['next'][c[1]],p.conds)
            if set(nx)-{1,c}: und='position update %r'%(nx,)
            elif nx!={c:1,1:1}: bad='on some path the position in select_domain is not advanced by one for an independent variable'
    for p in paths:
        t=[v for c,v in p.conds.items() if dom(c) is not None]
        def pol(c,v):
            # condition 'domain flag == 0'
            if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',0): return not v
            return v
        sel=[pol(c,v) for c,v in p.conds.items() if dom(c) is not None]
        if lin.truthof(inc,p.conds) is True and sel and all(sel):
            ok=any(e[0].endswith(('add_element','post_element')) and e[1][0]==('arg',5) and lin.lin(e[1][2])=={var:1} and lin.sub(lin.lin(e[1][1]),{var:1})=={('arg',1):1,1:1} for e in p.ev if isinstance(e[0],str))
            if not ok: noadd='the set of a selected independent variable does not get its own index'
        if lin.truthof(inc,p.conds) is True and not sel: und='no test of select_domain'
    obs.append((rule,'InvOp: position in select_domain','viol' if bad else 'undecided' if und else 'ok',bad or und or '',wh))
    obs.append((rule,'InvOp: own index','viol' if noadd else 'undecided' if und else 'ok',noadd or und or '',wh))
def SW(n): return 'include/cppad/local/sweep/'+n[2:]+'.hpp'
def job(a):
    bc,ops,entry=a
    names={v:k for k,v in ops}
    d=core.irx(bc,c_taylor.IRX_ARGS+['--entry',entry,'--spec','h_op='+','.join(str(v) for k,v in ops)])
    obs=[]
    for k,m in d['spec'].items():
        for n,f in ir.Mod(m).fns.items():
            if names[int(k)]=='InvOp':
                if n=='e_for_hes': inv_obs(f,n,obs)
                continue
            if n in('e_for_jac','e_rev_jac','e_for_hes','e_rev_hes'): obs_op(names[int(k)],f,n,obs)
    return obs
def run(prop,tier,t0,entry,minimum,expl):
    bc=core.compile_bc('h_sweep.cpp'); oc=c_taylor.opcodes(bc)
    sel=[(k,v) for k,v in oc.items() if k in MATH+['InvOp','CExpOp','DisOp','SignOp','CSumOp','LdpOp','LdvOp','StpvOp','StvvOp','StppOp','StvpOp']]
    rep=core.Report(prop)
    for o in core.pmap(job,[(bc,c,entry) for c in c_taylor.chunks(sel,core.NCPU*2)]): rep.merge(o)
    rep.extra=dict(operators=sorted(k for k,v in sel))
    import c_spapi
    try: rep.merge(c_spapi.analyse(prop))
    except core.Broken as e: rep.und('sparsity-api','harness',str(e)[:300])
    return core.finish(rep,tier,t0,expl,minimum)
def p04(prop,tier,t0):
    return run(prop,tier,t0,'^e_(for|rev)_jac$',{'for-jac':100,'rev-jac':150},'must-inclusion dataflow over the set operations of the Jacobian sweeps, one operator at a time, with every mask of a conditional expression and both dependency modes')
def p05(prop,tier,t0):
    return run(prop,tier,t0,'^e_(for|rev)_hes$',{'for-hes':80,'rev-hes':150},'must-inclusion dataflow over the set operations of the Hessian sweeps, one operator at a time')
