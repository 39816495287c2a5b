"""Data movement of the interface routines: Forward, Reverse, capacity_order, drivers."""
import core,ir,re,itertools
from mov import Mov,Und,END
from aff import Poly
OPQ=['^CppAD::local::sweep::','^CppAD::local::player<','^CppAD::thread_alloc::','^std::(?!min|max|swap)','^CppAD::local::pod_vector(_maybe)?<.*>::(resize|extend|clear|swap|~?pod_vector|operator=|push_back)','^(void )?CppAD::CheckSimpleVector','^Vec<.*>::(Vec|~Vec|operator=|resize)','^CppAD::vector<.*>::(vector|~vector|resize|operator=)']
def args(extra=()): return sum((['--opaque',x] for x in OPQ+list(extra)),[])
FLD={}
def fields(bc):
    m=ir.Mod(core.irx(bc,args()+['--entry','^o_.*$'])['module'])
    for n,f in m.fns.items():
        M=[I for I in f.reach_ins() if I['op']=='load']
        if len(M)!=1: raise core.Broken('position of member %s'%n)
        from aff import Aff
        r,p=Aff(f,lambda I:None).addr(M[0]['o'][0])
        if r!='a0' or not p.isconst(): raise core.Broken('position of member %s'%n)
        FLD[n[2:]]=('fld','a0',int(p.cval()))
class Sample:
    """one sample of sizes; index arrays and fields of the function object"""
    def __init__(s,**k): s.__dict__.update(k)
    def env(s):
        e={FLD['nvar']:s.nvar,FLD['ind']:len(s.indv),FLD['dep']:len(s.depv)}
        for k in('cap','nord','ndir'):
            if hasattr(s,k): e[FLD[k]]=getattr(s,k)
        return e
    def ind(s,root,off):
        if root==FLD['indd']: return s.indv[off//8]
        if root==FLD['depd']: return s.depv[off//8]
        raise Und('contents of %s'%(root,))
SIZES=[dict(nvar=11,indv=[1,2,3],depv=[7,4]),dict(nvar=9,indv=[1,2],depv=[8,5,8]),dict(nvar=6,indv=[1],depv=[5])]
def effect_of(fn,aff):
    """arrays (re)defined by an opaque call"""
    def cont(o):
        r,p=aff.addr(o)
        if isinstance(r,tuple): return {r}
        if p.isconst(): return {('fld',r,int(p.cval())+k) for k in(0,8,16)}
        return set()
    def eff(q,I):
        o=I.get('o',[])
        P=lambda k: cont(o[k]) if k<len(o) else set()
        if re.search(r'::~|CheckSimpleVector|::is_element|const$',q): return set()
        if re.search(r'(Vec|vector|pod_vector|pod_vector_maybe)<.*>::(Vec|vector|pod_vector|pod_vector_maybe|operator=|resize|extend|clear)$',q): return P(0)
        if re.search(r'::(Forward|Reverse)<?',q): return P(0)
        if q.endswith('::capacity_order'): return {FLD['taylor']}
        if '::sweep::forward' in q or '::sweep::reverse' in q:
            r=set()
            for x in o:
                if isinstance(x,str) and aff.addr(x)[0] in eff.data: r.add(aff.addr(x)[0])
            return r
        r=set()
        for k in range(len(o)):
            if isinstance(o[k],str): r|=P(k)
        return r
    eff.data=set()
    return eff
class Api(Mov):
    def __init__(s,fn,sam,env):
        e=dict(sam.env()); e.update(env); Mov.__init__(s,fn,e,sam.ind); s.sam=sam
        s.effect=effect_of(fn,s.aff)
    def after(s,e,root,off,d):
        t,q,I,asg=e
        if re.search(r'Vec<.*>::(operator=|Vec)$',q) and len(I['o'])==2 and s.isptr(I['o'][1]):
            r,p=s.aff.addr(I['o'][1]); return s.content(('fld',r,int(p.cval())),off,t,d+1)
        return ('out',s.evname(e),root,off)
    ptrs=()
    def isptr(s,o):
        if o[0]=='a': return s.fn.args[int(o[1:])]['t']=='ptr'
        I=s.fn.get(o); return I is not None and I.get('t')=='ptr'
    def evname(s,e):
        w=re.findall(r'::(Forward|Reverse|forward_0|forward_any|forward_dir|reverse)',e[1]); return (w[-1] if w else e[1],e[0])
def vec(a): return ('fld',a,0)
def one(calls,what):
    if len(calls)!=1: raise Und('%d calls of %s'%(len(calls),what))
    return calls[0]
def field_at_end(M,name):
    """(value) stored last in a field of the object, None when never stored"""
    k=FLD[name]; w=M.build().get((k[1],k[2]),[])
    return None if not w else M.ev(w[-1][2],w[-1][3])
def show(v):
    if not isinstance(v,tuple): return str(v)
    if v[0]=='in': return 'input %s[%d]'%(v[1][1] if isinstance(v[1],tuple) else v[1],v[2]//8)
    if v[0]=='out': return 'result of %s at %d'%(v[1][0] if v[1] else 'the sweep',v[3]//8)
    if v[0]=='k': return str(v[1])
    return '(%s)'%' '.join(show(x) for x in v)
class Chk:
    def __init__(s,obs,rule,inst): s.obs=obs; s.rule=rule; s.inst=inst; s.bad=None
    def eq(s,got,want,what):
        if got!=want and s.bad is None: s.bad='%s is %s, not %s'%(what,show(got),show(want))
    def done(s,where=''): s.obs.append((s.rule,s.inst,'viol' if s.bad else 'ok',s.bad or '',where if s.bad else ''))
def guard(rule,inst,obs,f):
    try: f()
    except Exception as e: obs.append((rule,inst,'undecided','%s %s'%(type(e).__name__,e),''))
# ------------------------------------------------------------------ Forward
def forward(fn,obs):
    for si,sz in enumerate(SIZES):
        n,m=len(sz['indv']),len(sz['depv'])
        for q in(0,1,2,3):
            for p in sorted({0,q}):
                for C in(q+1,q+4):
                    S=Sample(cap=C,nord=max(q,1),ndir=1,**sz); inst='Forward(%d, xq), xq of %s, %d x %d, capacity %d'%(q,'one order' if p==q else 'orders 0..%d'%q,m,n,C)
                    def go():
                        w=q+1-p; c=Chk(obs,'forward-move',inst)
                        M=Api(fn,S,{('a',1):q,('fld','a2',8):n*w}); T=FLD['taylor']; M.effect.data={T}
                        t,I,asg,qn=one(M.calls('::sweep::forward_'),'a forward sweep')
                        low=qn.split('<')[0].endswith('forward_0')
                        if low and q>0: c.bad='the zero order sweep is used for order %d'%q
                        a=[x for x in I['o']]
                        iv=lambda k:M.ev(a[k],asg)
                        # operands by position in the declaration
                        ints=dict(forward_0=[(2,S.nvar,'the number of variables'),(3,C,'the order capacity'),(6,None,'')],forward_any=[(2,S.nvar,'the number of variables'),(3,C,'the order capacity'),(11,p,'the lowest order'),(12,q,'the highest order')])['forward_0' if low else 'forward_any']
                        for k,v,nm in ints:
                            if v is not None and iv(k)!=v: c.bad=c.bad or '%s passed to the sweep is %d, not %d'%(nm,iv(k),v)
                        if M.aff.addr(a[-1])[0]!=T: c.bad=c.bad or 'the sweep does not work on taylor_'
                        for k,nm in[(1,'play'),(4,'cskip'),(5,'load2var'),(6,'cc'),(7,'cn'),(8,'ci')]: same(M,a[k],nm,c)
                        for j in range(n):
                            for k in range(q+1):
                                o=8*(C*S.indv[j]+k)
                                want=('in',vec('a2'),8*(w*j+k-p)) if k>=p else ('in',T,o)
                                c.eq(M.content(T,o,t),want,'order %d of independent variable %d'%(k,j))
                        for v in range(S.nvar):
                            for k in range(p): c.eq(M.content(T,8*(C*v+k),t),('in',T,8*(C*v+k)),'stored order %d of variable %d'%(k,v))
                        for i in range(m):
                            for k in range(p,q+1):
                                g=M.content(vec('a4'),8*(w*i+k-p),END); g=g[:1]+(None,)+g[2:] if g[0]=='out' else g
                                c.eq(g,('out',None,T,8*(C*S.depv[i]+k)),'order %d of dependent variable %d'%(k,i))
                        c.eq(field_at_end(M,'nord'),q+1,'the number of orders stored')
                        c.eq(size_of(M,'a4'),m*w,'the size of the result')
                        c.done(ir.where1(I))
                    guard('forward-move',inst,obs,go)
def same(M,o,nm,c):
    """operand is the named member (its value, its address or its data)"""
    k=FLD[nm]; r,p=M.aff.addr(o)
    if M.isptr(o): g=r==k or (r==k[1] and p.isconst() and int(p.cval())==k[2])
    else: g=M.aff.poly(o)==Poly.atom(k)
    if not g and c.bad is None: c.bad='another object is passed to the sweep instead of %s'%nm
def size_of(M,a):
    r=None
    for t,I,asg,q in M.calls(r'Vec<.*>::(resize|Vec)$'):
        if M.aff.addr(I['o'][0])[0]==a and len(I['o'])==2: r=M.ev(I['o'][1],asg)
    return r
def forward_dir(fn,obs):
    for sz in SIZES:
        n,m=len(sz['indv']),len(sz['depv'])
        for q in(1,2,3):
            for r in(1,2,3):
                for C in(q+1,q+3):
                    S=Sample(cap=C,nord=q,ndir=r,**sz); inst='Forward(%d, %d, xq), %d x %d, capacity %d'%(q,r,m,n,C)
                    def go():
                        c=Chk(obs,'forward-dir-move',inst); M=Api(fn,S,{('a',1):q,('a',2):r,('fld','a3',8):n*r}); T=FLD['taylor']; M.effect.data={T}
                        t,I,asg,qn=one(M.calls('::sweep::forward_'),'the forward sweep'); a=I['o']
                        for k,v,nm in[(2,S.nvar,'the number of variables'),(3,C,'the order capacity'),(6,q,'the order'),(7,r,'the number of directions')]:
                            if M.ev(a[k],asg)!=v: c.bad=c.bad or '%s passed to the sweep is %d, not %d'%(nm,M.ev(a[k],asg),v)
                        if M.aff.addr(a[-1])[0]!=T: c.bad=c.bad or 'the sweep does not work on taylor_'
                        for k,nm in[(1,'play'),(4,'cskip'),(5,'load2var')]: same(M,a[k],nm,c)
                        at=lambda v,k,l:8*(((C-1)*r+1)*v+((k-1)*r+1+l if k else 0))
                        for v in range(S.nvar):
                            for k in range(q+1):
                                for l in range(r if k else 1):
                                    new=k==q and v in S.indv
                                    want=('in',vec('a3'),8*(r*S.indv.index(v)+l)) if new else ('in',T,at(v,k,l))
                                    if new or k<q: c.eq(M.content(T,at(v,k,l),t),want,'order %d direction %d of variable %d'%(k,l,v))
                        for i in range(m):
                            for l in range(r):
                                g=M.content(vec('a4'),8*(r*i+l),END); g=g[:1]+(None,)+g[2:] if g[0]=='out' else g
                                c.eq(g,('out',None,T,at(S.depv[i],q,l)),'direction %d of dependent variable %d'%(l,i))
                        c.eq(field_at_end(M,'nord'),q+1,'the number of orders stored')
                        c.eq(size_of(M,'a4'),m*r,'the size of the result')
                        c.done(ir.where1(I))
                    guard('forward-dir-move',inst,obs,go)

def flat(v,sg=1,out=None):
    """signed multiset of the terms of a sum; zero drops out"""
    out={} if out is None else out
    if v[0]=='call' and v[1]=='vb_add' or v[0]=='fadd': flat(v[-2],sg,out); flat(v[-1],sg,out)
    elif v[0]=='call' and v[1]=='vb_sub' or v[0]=='fsub': flat(v[-2],sg,out); flat(v[-1],-sg,out)
    elif v[0]=='call' and v[1]=='vb_neg' or v[0]=='fneg': flat(v[-1],-sg,out)
    elif v[0]=='k' and v[1]==0: pass
    else:
        out[v]=out.get(v,0)+sg
        if not out[v]: del out[v]
    return out
def reverse(fn,obs):
    for sz in SIZES:
        n,m=len(sz['indv']),len(sz['depv'])
        for q in(1,2,3):
            for full in sorted({0,int(q>1)}):
                S=Sample(cap=q+2,nord=q+1,ndir=1,**sz); inst='Reverse(%d, w), w of %s, %d x %d'%(q,'all orders' if full else 'the highest order',m,n)
                def go():
                    c=Chk(obs,'reverse-move',inst); M=Api(fn,S,{('a',1):q,('fld','a2',8):m*(q if full else 1)}); T=FLD['taylor']
                    t,I,asg,qn=one(M.calls('::sweep::reverse'),'the reverse sweep'); a=I['o']
                    for k,v,nm in[(0,S.nvar,'the number of variables'),(2,S.cap,'the order capacity'),(4,q,'the number of orders')]:
                        if M.ev(a[k],asg)!=v: c.bad=c.bad or '%s passed to the sweep is %d, not %d'%(nm,M.ev(a[k],asg),v)
                    for k,nm in[(1,'play'),(3,'taylor'),(6,'cskip'),(7,'load2var')]: same(M,a[k],nm,c)
                    P=M.aff.addr(a[5])[0]; M.effect.data={P}
                    for v in range(S.nvar):
                        for k in range(q):
                            want={}
                            for i in range(m):
                                if S.depv[i]==v and (full or k==q-1):
                                    x=('in',vec('a2'),8*(i*q+k if full else i)); want[x]=want.get(x,0)+1
                            g=flat(M.content(P,8*(v*q+k),t))
                            if g!=want and not c.bad: c.bad='the sweep starts with partial of order %d of variable %d equal to %s, not %s'%(k,v,' + '.join(map(show,g)) or '0',' + '.join(map(show,want)) or '0')
                    for j in range(n):
                        for k in range(q):
                            g=M.content(vec('a3'),8*(j*q+k),END); g=g[:1]+(None,)+g[2:] if g[0]=='out' else g
                            c.eq(g,('out',None,P,8*(S.indv[j]*q+(k if full else q-1-k))),'derivative %d of independent variable %d'%(k,j))
                    c.eq(size_of(M,'a3'),n*q,'the size of the result')
                    c.done(ir.where1(I))
                guard('reverse-move',inst,obs,go)
def capacity(fn,obs):
    """new storage receives the old coefficients, whatever the old and new layout"""
    for sz in SIZES[:2]:
        for C in(1,2,3,5):
            for R in(1,2,3):
                for c_ in(1,2,4,6):
                    for r in sorted({1,R,2}):
                        for no in sorted({0,1,min(2,C),C}):
                            if (c_,r)==(C,R) or (r!=R and no>1) or (c_==1 and r!=1): continue
                            S=Sample(cap=C,nord=no,ndir=R,**sz); inst='capacity_order(%d, %d) with capacity %d, %d directions, %d orders stored'%(c_,r,C,R,no)
                            def go():
                                c=Chk(obs,'capacity',inst); M=Api(fn,S,{('a',1):c_,('a',2):r}); T=FLD['taylor']
                                sw=[x for x in M.calls('::swap$')]
                                t,I,asg,qn=one(sw,'swap')
                                ads=[M.aff.addr(x) for x in I['o'][:2]]
                                mine=[a for a in ads if a[0]=='a0']; other=[a for a in ads if a[0]!='a0']
                                if len(mine)!=1 or len(other)!=1: raise Und('exchange of the storage')
                                N=None
                                for (ro,off) in M.build():
                                    if isinstance(ro,tuple) and ro[1]==other[0][0]: N=ro
                                p=min(no,c_)
                                if p and N is None: c.bad='no stored coefficient is kept'
                                at=lambda v,k,l,C,R:8*(((C-1)*R+1)*v+((k-1)*R+1+l if k else 0))
                                if N is not None:
                                    for v in range(S.nvar):
                                        for k in range(p):
                                            for l in range(R if k else 1):
                                                c.eq(M.content(N,at(v,k,l,c_,r),t),('in',T,at(v,k,l,C,R)),'order %d direction %d of variable %d'%(k,l,v))
                                for nm,w in(('cap',c_),('nord',p),('ndir',r)):
                                    c.eq(field_at_end(M,nm),w,'field '+nm)
                                c.done(ir.where1(I))
                            guard('capacity',inst,obs,go)
# ------------------------------------------------------------------ drivers
def unit(M,root,n,t):
    """index of the unit vector an argument holds, or a text"""
    v=[M.content(root,8*k,t) for k in range(n)]
    one=[k for k in range(n) if v[k] in(('k',1.0),('k',1))]; zero=[k for k in range(n) if v[k] in(('k',0.0),('k',0))]
    if len(one)==1 and len(zero)==n-1: return one[0]
    return '('+', '.join(show(x) for x in v)+')'
class Drv:
    """calls of Forward and Reverse of a driver, in order, with their arguments"""
    def __init__(s,M):
        s.M=M; s.calls=M.calls(r'::(Forward|Reverse)<'); s.calls=s.calls or M.calls(r'::(Forward|Reverse)$')
    def at(s,t): return [x for x in s.calls if x[0]==t][0]
    def kind(s,x): return 'F' if '::Forward' in x[3] else 'R'
    def order(s,x): return s.M.ev(x[1]['o'][2],x[2])
    def argvec(s,x):
        r,p=s.M.aff.addr(x[1]['o'][3]); return ('fld',r,int(p.cval()))
    def before(s,t,pred):
        l=[x for x in s.calls if x[0]<t and pred(x)]; return l[-1] if l else None
    def zero_first(s,c,x='a1'):
        f=[y for y in s.calls if s.kind(y)=='F' and s.order(y)==0]
        if len(f)!=1 or s.calls[0] is not f[0] or s.argvec(f[0])!=vec(x): c.bad=c.bad or 'the zero order sweep is not done first, once, at the argument'
def dsizes(): return [dict(nvar=20,indv=list(range(1,n+1)),depv=list(range(12,12+m))) for n,m in((2,3),(3,2),(1,2),(3,1))]
def drive(fn,obs,rule,name,out,cell,cases,zero=True):
    """cell(D,S,c,case): for each case check every element of the result"""
    for sz in dsizes():
        n,m=len(sz['indv']),len(sz['depv'])
        for case,env,extra in cases(n,m):
            S=Sample(cap=3,nord=1,ndir=1,**sz); inst='%s, %d x %d%s'%(name,m,n,case)
            def go():
                c=Chk(obs,rule,inst); M=Api(fn,S,env)
                base=M.ind
                M.ind=lambda root,off: extra[root](off//(1 if root==FLD['deppar'] else 8)) if root in extra else base(root,off)
                D=Drv(M)
                if zero: D.zero_first(c)
                cell(M,D,n,m,c,case,extra)
                c.done()
            guard(rule,inst,obs,go)
def res(M,root,k):
    g=M.content(root,8*k,END)
    if g[0]!='out' or g[1][0] not in('Forward','Reverse'): return None,g
    return g[1][1],g[3]//8
def lastF(D,t,c,n,what,want,dirs=None):
    """the last forward sweep before t is order one in the given direction"""
    f=D.before(t,lambda x:D.kind(x)=='F')
    if f is None or D.order(f)!=1: c.bad=c.bad or '%s: not preceded by a first order forward sweep'%what; return
    u=unit(D.M,D.argvec(f),n,f[0])
    if u!=want: c.bad=c.bad or '%s: first order direction is %s, not the coordinate %d'%(what,u,want)
def jac_for(fn,obs,out='a2',name='JacobianFor',zero=False):
    def cell(M,D,n,m,c,case,extra):
        for i in range(m):
            for j in range(n):
                w='element (%d, %d)'%(i,j); t,k=res(M,vec(out),i*n+j)
                if t is None: c.bad=c.bad or '%s is %s'%(w,show(k)); continue
                x=D.at(t)
                if D.kind(x)!='F' or D.order(x)!=1 or k!=i: c.bad=c.bad or '%s is component %d of a sweep of order %d'%(w,k,D.order(x)); continue
                u=unit(M,D.argvec(x),n,t)
                if u!=j: c.bad=c.bad or '%s: direction is %s, not the coordinate %d'%(w,u,j)
    drive(fn,obs,'driver',name,out,cell,lambda n,m:[('',{},{})],zero)
def jac_rev(fn,obs,out='a2',name='JacobianRev',zero=False):
    def cell(M,D,n,m,c,case,extra):
        par=extra[FLD['deppar']]
        for i in range(m):
            for j in range(n):
                w='element (%d, %d)'%(i,j); t,k=res(M,vec(out),i*n+j)
                if par(i) :
                    if k not in(('k',0.0),('k',0)) : c.bad=c.bad or '%s of a component that is a parameter is %s'%(w,show(k) if t is None else 'computed')
                    continue
                if t is None: c.bad=c.bad or '%s is %s'%(w,show(k)); continue
                x=D.at(t)
                if D.kind(x)!='R' or D.order(x)!=1 or k!=j: c.bad=c.bad or '%s is component %d of a sweep of order %d'%(w,k,D.order(x)); continue
                u=unit(M,D.argvec(x),m,t)
                if u!=i: c.bad=c.bad or '%s: weight is %s, not the coordinate %d'%(w,u,i)
    drive(fn,obs,'driver',name,out,cell,lambda n,m:[(', parameters '+bin(b),{},{FLD['deppar']:lambda k,b=b:(b>>k)&1}) for b in((0,1) if m>1 else (0,))],zero)
def jacobian(fn,obs):
    def cell(M,D,n,m,c,case,extra):
        par=extra[FLD['deppar']]
        for i in range(m):
            for j in range(n):
                w='element (%d, %d)'%(i,j); t,k=res(M,vec('a2'),i*n+j)
                if t is None:
                    if not(par(i) and k in(('k',0.0),('k',0))): c.bad=c.bad or '%s is %s'%(w,show(k))
                    continue
                x=D.at(t); fw=D.kind(x)=='F'
                if D.order(x)!=1 or k!=(i if fw else j): c.bad=c.bad or '%s is component %d of a sweep of order %d'%(w,k,D.order(x)); continue
                u=unit(M,D.argvec(x),n if fw else m,t)
                if u!=(j if fw else i): c.bad=c.bad or '%s: %s is %s, not the coordinate %d'%(w,'direction' if fw else 'weight',u,j if fw else i)
    drive(fn,obs,'driver','Jacobian','a2',cell,lambda n,m:[(', parameters '+bin(b),{},{FLD['deppar']:lambda k,b=b:(b>>k)&1}) for b in((0,1,2**m-1) if m>1 else (0,1))])
def hessian(fn,obs,name,arg,out,sel=False):
    def cell(M,D,n,m,c,case,extra):
        for i in range(n):
            for j in range(n):
                w='element (%d, %d)'%(i,j); t,k=res(M,vec(out),i*n+j)
                if t is None: c.bad=c.bad or '%s is %s'%(w,show(k)); continue
                x=D.at(t)
                if D.kind(x)!='R' or D.order(x)!=2: c.bad=c.bad or '%s does not come from a second order reverse sweep'%w; continue
                if k!=2*i+1 and k!=2*j+1: c.bad=c.bad or '%s is coefficient %d'%(w,k); continue
                # the Hessian is symmetric
                lastF(D,t,c,n,w,j if k==2*i+1 else i)
                if sel:
                    u=unit(M,D.argvec(x),m,t)
                    if u!=extra['l']: c.bad=c.bad or '%s: weight is %s, not the coordinate %d'%(w,u,extra['l'])
                elif any(M.content(D.argvec(x),8*k,t)!=('in',vec(arg),8*k) for k in range(m)): c.bad=c.bad or '%s: weight of the reverse sweep is not w'%w
    drive(fn,obs,'driver',name,out,cell,lambda n,m:[(', component %d'%l,{('a',2):l},{'l':l}) for l in range(m)] if sel else [('',{},{})])
def for_one(fn,obs):
    def cell(M,D,n,m,c,case,extra):
        for i in range(m):
            w='element %d'%i; t,k=res(M,vec('a3'),i)
            if t is None: c.bad=c.bad or '%s is %s'%(w,show(k)); continue
            x=D.at(t)
            if D.kind(x)!='F' or D.order(x)!=1 or k!=i or unit(M,D.argvec(x),n,t)!=extra['j']: c.bad=c.bad or '%s is component %d of order %d in direction %s'%(w,k,D.order(x),unit(M,D.argvec(x),n,t))
    drive(fn,obs,'driver','ForOne','a3',cell,lambda n,m:[(', direction %d'%j,{('a',2):j},{'j':j}) for j in range(n)])
def rev_one(fn,obs):
    def cell(M,D,n,m,c,case,extra):
        for j in range(n):
            w='element %d'%j; t,k=res(M,vec('a3'),j)
            if t is None: c.bad=c.bad or '%s is %s'%(w,show(k)); continue
            x=D.at(t)
            if D.kind(x)!='R' or D.order(x)!=1 or k!=j or unit(M,D.argvec(x),m,t)!=extra['i']: c.bad=c.bad or '%s is component %d of order %d with weight %s'%(w,k,D.order(x),unit(M,D.argvec(x),m,t))
    drive(fn,obs,'driver','RevOne','a3',cell,lambda n,m:[(', component %d'%i,{('a',2):i},{'i':i}) for i in range(m)])
def pairs(a,b):
    l=[(i,j) for i in range(a) for j in range(b)]
    return [l[:2],l[-2:][::-1],l[1:2],(l*2)[1:5]]
def rev_two(fn,obs):
    def cell(M,D,n,m,c,case,extra):
        L=extra['l']
        for l,(i,j) in enumerate(L):
            for k in range(n):
                w='element (%d, %d)'%(k,l); t,x=res(M,vec('a4'),k*len(L)+l)
                if t is None: c.bad=c.bad or '%s is %s'%(w,show(x)); continue
                y=D.at(t)
                if D.kind(y)!='R' or D.order(y)!=2 or x!=2*k+1: c.bad=c.bad or '%s is coefficient %d of order %d'%(w,x,D.order(y)); continue
                if unit(M,D.argvec(y),m,t)!=i: c.bad=c.bad or '%s: weight is %s, not the coordinate %d'%(w,unit(M,D.argvec(y),m,t),i)
                lastF(D,t,c,n,w,j)
    drive(fn,obs,'driver','RevTwo','a4',cell,lambda n,m:[(', pairs %s'%L,{('fld','a2',8):len(L),('fld','a3',8):len(L)},{'l':L,vec('a2'):lambda k,L=L:L[k][0],vec('a3'):lambda k,L=L:L[k][1]}) for L in pairs(m,n)])

ENTRIES=[('i_forward',forward,['ADFun<.*>::capacity_order']),('i_forward_dir',forward_dir,['ADFun<.*>::capacity_order']),('i_reverse',reverse,['ADFun<.*>::capacity_order']),('i_capacity',capacity,[]),
 ('i_jac_for',jac_for,['::(Forward|Reverse)']),('i_jac_rev',jac_rev,['::(Forward|Reverse)']),
 ('i_jacobian',jacobian,['::(Forward|Reverse)']),('i_hessian_w',lambda f,o:hessian(f,o,'Hessian(x, w)','a2','a3'),['::(Forward|Reverse)']),('i_hessian_l',lambda f,o:hessian(f,o,'Hessian(x, l)',None,'a3',True),['::(Forward|Reverse)']),
 ('i_for_one',for_one,['::(Forward|Reverse)']),('i_rev_one',rev_one,['::(Forward|Reverse)']),('i_rev_two',rev_two,['::(Forward|Reverse)'])]
def room(fn,kind,obs):
    """the storage is enlarged when it is too small, with the orders that are kept"""
    sz=SIZES[0]; n,m=len(sz['indv']),len(sz['depv'])
    for q in(0,1,2,3) if kind=='fwd' else (1,2,3):
        for cap in sorted({0,1,q,q+1,q+3}):
            for nd in(0,1,2,3) if cap==0 else (1,2,3):
                if (nd==0)!=(cap==0): continue
                for no in sorted({0,1,q,q+1} if cap else {0}):
                    if no>cap: continue
                    for p,r in ([(0,1),(q,1)] if kind=='fwd' and q else [(0,1)] if kind=='fwd' else [(q,1),(q,2)] if kind=='dir' else [(q,1)]):
                        # conditions checked on entry
                        if kind=='fwd' and p>0 and (no<q or (p>1 and nd!=1)): continue
                        if kind=='dir' and (no<q or (q>1 and nd!=r)): continue
                        if kind=='rev' and (no<q or (nd!=1 and q>1)): continue
                        S=Sample(cap=cap,nord=no,ndir=nd,**sz); inst='%s, order %d from %d, %d direction(s), capacity %d x %d, %d orders stored'%(dict(fwd='Forward',dir='Forward in directions',rev='Reverse')[kind],q,p,r,cap,nd,no)
                        def go():
                            c=Chk(obs,'room',inst)
                            env={('a',1):q,('fld','a2',8):n*(q+1-p) if kind=='fwd' else m}
                            if kind=='dir': env.update({('a',2):r,('fld','a3',8):n*r})
                            M=Api(fn,S,env); cs=M.calls('capacity_order')
                            need=cap<=q or nd!=r if kind!='rev' else nd!=1
                            if need and not cs: c.bad='the storage is used although it has capacity %d x %d'%(cap,nd)
                            for t,I,asg,qn in cs:
                                cc,rr=M.ev(I['o'][1],asg),M.ev(I['o'][2],asg)
                                k=FLD['nord']; b=[b for b,kk,J in M.writes if J['op']=='store' and M.aff.addr(J['o'][1])[0]==k[1]]
                                nn=no; best=None
                                for b,kk,J in M.writes:
                                    if J['op']!='store': continue
                                    ro,po=M.aff.addr(J['o'][1])
                                    if ro==k[1] and po.isconst() and int(po.cval())==k[2]:
                                        for a2,u in M.points(b):
                                            if u+(kk,)<t and (best is None or u+(kk,)>best): best=u+(kk,); nn=M.ev(J['o'][0],a2)
                                if rr!=r: c.bad=c.bad or 'storage for %d directions is requested'%rr
                                if (cc<=q if kind!='rev' else cc<q): c.bad=c.bad or 'storage for %d orders is requested'%cc
                                if p and nn<(q if kind!='rev' else 1): c.bad=c.bad or 'only %d of the orders that are needed are kept'%nn
                                if nd!=rr and nn>1: c.bad=c.bad or '%d orders are kept although the number of directions changes'%nn
                            c.done()
                        guard('room',inst,obs,go)
ENTRIES+=[('i_forward ',lambda f,o:room(f,'fwd',o),['ADFun<.*>::capacity_order']),('i_forward_dir ',lambda f,o:room(f,'dir',o),['ADFun<.*>::capacity_order']),('i_reverse ',lambda f,o:room(f,'rev',o),['ADFun<.*>::capacity_order'])]
def job(a):
    bc,k,fld=a; FLD.update(fld); ent,f,op=ENTRIES[k]; ent=ent.strip()
    d=core.irx(bc,args(op)+['--entry','^'+ent+'$']); fn=ir.Mod(d['module']).fns.get(ent)
    if fn is None: raise core.Broken('routine %s not found'%ent)
    obs=[]; f(fn,obs); return obs
def run(names,rep):
    bc=core.compile_bc('h_api.cpp'); fields(bc)
    ks=[k for k,e in enumerate(ENTRIES) if e[0].strip() in names]
    for o in core.pmap(job,[(bc,k,FLD) for k in ks]): rep.merge(o)

def p08(prop,tier,t0):
    rep=core.Report(prop); run([e[0] for e in ENTRIES if e[0] not in('i_forward','i_forward_dir','i_reverse','i_capacity') and not e[0].endswith(' ')],rep)
    rep.extra=dict(routines=[e[0][2:] for e in ENTRIES])
    return core.finish(rep,tier,t0,'affine array dataflow of the driver routines: every element of the result is traced to the component of the sweep it comes from and the sweep to the direction or weight it was given, for sample sizes.',{'driver':20})
