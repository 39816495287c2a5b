"""Dynamic parameters: the sweep that recomputes them (P13)."""
import core,ir
from aff import Aff
from pathx import Walk
A=['--redirect','^CppAD::local::pod_vector<unsigned char>::operator\\[\\]=>h_opref','--opaque','^CppAD::local::pod_vector(_maybe)?<.*>::(operator\\[\\]|size|resize)','--opaque','^CppAD::vector<.*>::(operator\\[\\]|resize|size)','--opaque','^std::','--opaque','^CppAD::thread_alloc','--opaque','call_atomic','--opaque','discrete_eval','--entry','^e_dynamic$']
UN={'acos','acosh','asin','asinh','atan','atanh','cos','cosh','erf','erfc','exp','expm1','log','log1p','sign','sin','sinh','sqrt','tan','tanh','neg','abs','fabs'}
BI={'add':'add','sub':'sub','mul':'mul','div':'div','pow':'pow','zmul':'azmul'}
ENUM={}
def isidx(q): return 'operator[]' in q
PURE=lambda q: q.startswith('vb_') or isidx(q) or q.endswith('::size')
def elem(e):
    """('call',operator[],vec,index) -> (vec,index)"""
    if e[0]=='call' and isidx(e[1]): return e[2],e[3]
    return None
def ld(e):
    if e[0]=='load': return elem(e[1])
    return None
def plus(e):
    """sum of terms and a constant"""
    c=0; t=[]; st=[e]
    while st:
        x=st.pop()
        if x[0]=='add': st+=[x[1],x[2]]
        elif x[0]=='c': c+=x[1]
        else: t.append(x)
    return tuple(sorted(t,key=repr)),c
def check(op,name,fn,obs):
    base=name[:-4]
    calls=[I for I in fn.calls() if fn.callee(I)=='h_opindex']
    if not calls: raise core.Broken('the loop over the dynamic parameters is not found')
    b=fn.blk[calls[0]['i']]
    aff=Aff(fn, lambda I: None); Ls=[L for L in aff.loops if b in L.body]
    if not Ls: raise core.Broken('the loop over the dynamic parameters is not found')
    L=max(Ls,key=lambda L:len(L.body))
    w=Walk(fn,PURE,readonly=lambda q:True,visits=4,limit=6000); paths=w.run_loop(L)
    wh=ir.where(calls[0]); seen=0
    def viol(t,I=None): obs.append(('dynamic-op',name,'viol',t,ir.where(I) if I else wh))
    for s in paths:
        ev=[e for e in s.ev if e[0]=='h_opindex']
        if s.env['exit']!=L.h:
            if ev: 
                continue
            for c,t in s.conds.items():
                if not (c[0]=='cmp' and c[2][0]=='phi'): return viol('the loop over dynamic parameters can end early')
            continue
        if len(ev)!=1: return viol('the operator is not read once per step')
        seen+=1; d=ev[0][1][1]
        if d[0]!='phi' or ev[0][1][0]!=('arg',4): return viol('the operator is not the one of the current dynamic parameter')
        nx=s.env['next']
        # argument position: the other induction variable
        pa=[('phi',i) for i in nx if ('phi',i)!=d and ('phi',i) in plus(nx[i])[0]]
        if not pa and base in('ind','result','call'): pa=[('phi',-1)]; nx[-1]=pa[0]
        if len(pa)!=1: obs.append(('dynamic-op',name,'undecided','argument position not recognised',wh)); return
        pa=pa[0]
        def arg(k): return ('load',('call',None,('arg',5),(('add',pa,('c',k)) if k else pa)),0)
        def isarg(e,k):
            x=ld(e); return x is not None and x[0]==('arg',5) and plus(x[1])==((pa,),k)
        def par(e,k):
            x=ld(e); return x is not None and x[0]==('arg',0) and isarg(x[1],k)
        def parref(e,k):
            x=elem(e); return x is not None and x[0]==('arg',0) and isarg(x[1],k)
        stores=[e for e in s.ev if e[0]=='store' and elem(e[1]) and elem(e[1])[0]==('arg',0)]
        nargs=1 if base in UN else 2 if base in BI else {'cond_exp':5,'dis':2,'ind':0,'result':0,'call':0}.get(base)
        if base=='atom':
            t,c=plus(nx[pa[1]])
            if c!=6 or len(t)!=3 or not all(x==pa or isarg(x,2) or isarg(x,3) for x in t) : return viol('an atomic call does not step over its arguments')
            t,c=plus(nx[d[1]])
            if c!=0 or len(t)!=2 or not any(isarg(x,4) for x in t): return viol('an atomic call does not step over its results')
            cs=[e for e in s.ev if isinstance(e[0],str) and 'call_atomic_forward' in e[0]]
            if len(cs)!=1: return viol('the atomic function is not called once')
            a=cs[0][1]
            if not isarg(a[6],0) or not isarg(a[7],1): return viol('the atomic function index and call id are not arguments 0 and 1',cs[0][2])
            continue
        if nargs is None: obs.append(('dynamic-op',name,'undecided','operator not in the table',wh)); return
        t,c=plus(nx[pa[1]])
        if t!=(pa,) or c!=nargs: return viol('the position in the argument vector advances by %s instead of %d'%(c,nargs))
        t,c=plus(nx[d[1]])
        if t!=(d,) or c!=1: return viol('the dynamic parameter index advances by %s'%c)
        if base in('result','call'):
            if stores: return viol('a result of an atomic call is overwritten')
            continue
        if len(stores)!=1: return viol('the parameter is assigned %d times'%len(stores))
        I=stores[0][3]; tgt=elem(stores[0][1]); v=stores[0][2]
        x=ld(tgt[1])
        if x is None or x[0]!=('arg',3) or x[1]!=d: return viol('the value is not assigned to the parameter of this operator',I)
        if base in UN:
            f={'abs':'fabs'}.get(base,base)
            if not(v[0]=='call' and v[1]=='vb_'+f and par(v[2],0)): return viol('the value is not %s of argument 0'%base,I)
        elif base in BI:
            if not(v[0]=='call' and v[1]=='vb_'+BI[base] and (par(v[2],0) and par(v[3],1) or base in('add','mul','zmul') and par(v[2],1) and par(v[3],0))): return viol('the value is not %s of arguments 0 and 1'%base,I)
        elif base=='ind':
            x=ld(v)
            if x is None or x[0]!=('arg',1) or x[1]!=d: return viol('an independent dynamic parameter does not get its own new value',I)
        elif base=='cond_exp':
            if not(v[0]=='call' and v[1]=='vb_cexp' and isarg(v[2],0) and all(par(v[3+k],k+1) for k in range(4))): return viol('a conditional expression does not use its comparison and operands in order',I)
        elif base=='dis':
            e=s.ev[v[1]] if v[0]=='ev' else None
            if e is None or 'discrete_eval' not in e[0] or not isarg(e[1][0],0) or not parref(e[1][1],1): return viol('a discrete function does not use its index and argument',I)
    if not seen: obs.append(('dynamic-op',name,'undecided','no complete iteration',wh)); return
    obs.append(('dynamic-op',name,'ok','',wh))
    if base=='atom': atom(fn,aff,L,name,obs,wh)
def atom(fn,aff,L,name,obs,wh):
    got={}
    for l in aff.loops:
        if l is L or not (l.body<L.body): continue
        w=Walk(fn,PURE,readonly=lambda q:True); 
        for s in w.run_loop(l):
            if s.env['exit']!=l.h: continue
            for e in s.ev:
                if e[0]!='store': continue
                t=elem(e[1])
                if t is None: continue
                got.setdefault(t[0],[]).append((t[1],e[2],dict(s.conds),e[3]))
    def argk(e):
        x=ld(e)
        return plus(x[1]) if x is not None and x[0]==('arg',5) else None
    def dynof(e):
        # par_is_dyn at some index
        x=ld(e); return x[1] if x is not None and x[0]==('arg',2) else None
    def lit(cc):
        # condition that says par_is_dyn[index] -> (index, value when the condition is true)
        if dynof(cc) is not None: return dynof(cc),True
        if cc[0]=='cmp' and cc[1]=='eq' and cc[3]==('c',0) and dynof(cc[2]) is not None: return dynof(cc[2]),False
        return None
    def isdyn(c,t):
        for cc,tt in c.items():
            l=lit(cc)
            if l and l[0]==t: return tt==l[1]
        return None
    for root,l in list(got.items()):
        for t,v,c,I in l:
            # select_y[i] : is result i dynamic
            x=v
            while x[0]=='not': x=x[1]
            q=lit(x) or (dynof(x),True)
            if q[0] is not None:
                neg=(v[0]=='not')
                k=argk(q[0])
                if k is None: continue
                good=k[1]==5 and len(k[0])==3 and t in k[0] and q[1]!=neg
                obs.append(('dynamic-op',name+' select_y','ok' if good else 'viol','' if good else 'the results selected are not the dynamic parameters among the results',ir.where(I)))
            if root in [r for r in got if r!=('arg',0)] and v[0]=='c' and v[1] in ENUM.values():
                ix=[i for cc in c for i in [lit(cc)] if i and argk(i[0]) is not None and argk(i[0])[1]==5 and len(argk(i[0])[0])==2 and t in argk(i[0])[0]]
                d=isdyn(c,ix[0][0]) if ix else None
                n={e:k for k,e in ENUM.items()}[v[1]]
                if d is not None and n!=('dynamic_enum' if d else 'constant_enum'): obs.append(('dynamic-op',name+' type_x','viol','an argument that is %s is passed as %s'%('dynamic' if d else 'constant',n),ir.where(I)))
                elif d is not None: obs.append(('dynamic-op',name+' type_x %s'%n,'ok','',ir.where(I)))
    # results
    r=got.get(('arg',0),[]); ok=bool(r); txt='results of the atomic function are not stored'
    for t,v,c,I in r:
        k=argk(t); x=ld(v)
        if k is None or k[1]!=5 or len(k[0])!=3: ok=False; txt='a result is stored at another parameter'; break
        iv=[p for p in k[0] if p[0]=='phi' and x is not None and x[1]==p]
        if not iv: ok=False; txt='result i is not component i of the atomic function'; break
        if not isdyn(c,t): ok=False; txt='a parameter that is not dynamic is overwritten'; break
    obs.append(('dynamic-op',name+' results','ok' if ok else 'viol','' if ok else txt,wh))
    # arguments
    ok=False
    for root,l in got.items():
        if root==('arg',0): continue
        for t,v,c,I in l:
            x=ld(v)
            if x is not None and x[0]==('arg',0):
                k=argk(x[1])
                if k is not None and k[1]==5 and len(k[0])==2 and t in k[0]: ok=True
                else: obs.append(('dynamic-op',name+' arguments','viol','argument j of the atomic function is not its parameter j',ir.where(I))); return
    obs.append(('dynamic-op',name+' arguments','ok' if ok else 'undecided','' if ok else 'argument loop not recognised',wh))
def job(a):
    bc,ops=a; obs=[]; names={v:k for k,v in ops}
    d=core.irx(bc,A+['--spec','h_op='+','.join(str(v) for k,v in ops)])
    for k,m in d['spec'].items():
        try: check(int(k),names[int(k)],ir.Mod(m).fns['e_dynamic'],obs)
        except OverflowError: obs.append(('dynamic-op',names[int(k)],'undecided','too many paths',''))
    return obs
def p13(prop,tier,t0):
    import c_taylor
    bc=core.compile_bc('h_dyn.cpp')
    d=core.irx(bc,['--layout','op_code_dyn','--opaque','.','--entry','^h_opref$'])
    en=[v for k,v in d['layouts'].items() if k.endswith('op_code_dyn')]
    if not en: raise core.Broken('op_code_dyn not found')
    m=ir.Mod(core.irx(bc,['--opaque','.','--entry','^k_'])['module'])
    for k in('constant','dynamic','variable'): ENUM[k+'_enum']=int(m.fns['k_'+k].blocks[0][-1]['o'][0][1:])
    ops=[(n,v) for n,v in en[0]['members'] if not n.startswith('number')]
    rep=core.Report(prop)
    for o in core.pmap(job,[(bc,c) for c in c_taylor.chunks(ops,16)]): rep.merge(o)
    return core.finish(rep,tier,t0,'value flow through one step of the dynamic parameter sweep, for every operator',{'dynamic-op':30})
