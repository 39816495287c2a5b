"""Sparse derivative drivers (P23): directions and weights of a color, the sweeps, and the value of each requested entry."""
import core,ir,re,flow,itertools
from flow import Flow,St,add,scale
from c_atom import NAME,Bad,Und,guard,want,show
OP=['--opaque','^HV<','--opaque','^CppAD::ADFun<.*>::(Forward|Reverse|Domain|Range)','--opaque','^CppAD::sparse_rcv<','--opaque','^CppAD::sparse_rc<','--opaque','^CppAD::vector<','--opaque','^CppAD::local::pod_vector','--opaque','^CppAD::local::(color_(general|symmetric)_|sparse::(set_internal|[a-z_]*setvec))','--opaque','^CppAD::index_sort','--opaque','^CppAD::CheckSimpleVector','--opaque','^std::(?!min|max)','--opaque','^CppAD::thread_alloc','--opaque','^CppAD::ErrorHandler','--globals']
OFF={}
A=lambda k:('p',('arg',k),0,())
def el(v,i): return ('el',v,i)
def val(v,i,ver=0): return ('in',el(v,i),0,(),ver)
F0,F1=('f',0.0),('f',1.0)
# kind: dimension of the direction, key and other of an entry, order of the arguments
class D:
    def __init__(s,name,kind,old,G):
        s.name=name; s.kind=kind; s.old=old; s.G=G
        w='o'*old+('hes' if kind=='hes' else 'jac'); k=6 if old else 5
        f=lambda x:('p',('arg',k),OFF['%s_%s'%(w,x)],())
        s.color=f('color'); s.order=f('order')
        s.urow,s.ucol=(A(3),A(4)) if old else (('p',('rcvrow',),0,()),('p',('rcvcol',),0,()))
        s.row,s.col=(f('row'),f('col')) if kind=='hes' else (s.urow,s.ucol)
        s.out=A(5) if old else A(2)
        s.w=A(k+1)
DRV={}
def consts(bc):
    m=ir.Mod(core.irx(bc,OP+['--entry','^k_'])['module'])
    for n,f in m.fns.items():
        F=Flow(f,lambda s,q,a,e:None); F.run(); r=F.paths[0].env['ret']
        if r[0]!='p' or r[1]!=('arg',0): raise core.Broken('position of '+n)
        OFF[n[2:]]=r[2]
    for n,k,o,g in(('d_for1','for',0,1),('d_for2','for',0,2),('d_for5','for',0,5),('d_rev','rev',0,1),('d_hes','hes',0,1),('o_for','for',1,None),('o_rev','rev',1,1),('o_hes','hes',1,1)): DRV[n]=D(n,k,o,g)
KNOWN={'Forward','Reverse','set','resize','index_sort','set_internal_pattern','size_setvec','CheckSimpleVector'}
def lit(fn,p):
    if p[0]!='p' or p[1][0]!='g': return None
    x=fn.mod.globals.get(p[1][1])
    return x['str'].split('\0')[0] if x and x.get('str') is not None else None
def caller(fn,d,N,M,K):
    dom,ran=(M,N) if d.kind=='rev' else (N,M)       # N: dimension of the colors
    ob=lambda s,p: s.env.get(('al',p),p)
    def copy(s,src):
        s.nid+=1; new=('obj',s.nid); o=ob(s,src)
        for x in list(s.w):
            if x[0][0]=='el' and x[0][1]==o: s.w.append((el(new,x[0][2]),)+x[1:])
        return new
    def call(s,q,a,e):
        n=NAME(q)
        if q.startswith('CppAD::ErrorHandler'): return ('stop',)
        if n in('Domain','Range'): return ('val',('c',dom if n=='Domain' else ran))
        if n in('n_set','end') and len(a)==1 and a[0]==A(2) and d.old: return ('val',('c',{'for':(N,M),'rev':(N,M),'hes':(N,N)}[d.kind][n=='end']))
        if n.startswith('operator==') and q.startswith('std::'):
            x=lit(fn,a[0]) if lit(fn,a[0]) is not None else lit(fn,a[1])
            return ('val',('call','vb_is_coloring',x) if x is not None else ('u','string'))
        if 'sparse_rc' in q:
            if n=='nnz' : return ('val',('c',K))
            if n in('row','col') and a[0]==A(2): return ('val',('p',('rcv'+n,),0,()))
            if n=='set': e.conds={'v':s.read(a[2],8) if a[2][0]=='p' else a[2]}; return ('ev',None,[])
            return ('val',('call',n)+a) if n in('nr','nc','size') else None
        if n=='size':
            o=ob(s,a[0])
            if d.old and o==d.out or o in(d.urow,d.ucol): return ('val',('c',K))
            return ('val',s.env.get(('size',o),('call','size',o)))
        if 'operator[]' in q and len(a)==2: return ('val',('p',el(ob(s,a[0]),a[1]),0,()))
        if n=='operator=' and len(a)==2:
            o=ob(s,a[1])
            s.env[('al',a[0])]=o if o[0]=='res' else copy(s,a[1]); return ('val',a[0])
        if n in('HV','pod_vector','vector'):
            if len(a)==2 and a[1][0]=='p': o=ob(s,a[1]); s.env[('al',a[0])]=o if o[0]=='res' else copy(s,a[1])
            else:
                s.nid+=1; o=s.env[('al',a[0])]=('obj',s.nid)
                if len(a)==2: s.env[('size',o)]=a[1]
            return ('val',a[0])
        if n[:1]=='~': return ('val',('c',0))
        if n in('Forward','Reverse'):
            s.nid+=1; s.env[('al',a[0])]=('res',s.nid); e.slot=('res',s.nid)
            # the content of the direction at this time
            o=ob(s,direction(a)); e.conds={'dir':o,'w':len(s.w)}
            return ('ev',None,[])
        if n=='resize':
            o=ob(s,a[0])
            if o==d.color: e.conds={}
            return ('ev',None,[])
        if n.startswith('color_'):
            return ('ev',None,[el(o,('c',k)) for o in((d.row,d.col) if d.kind=='hes' and 'symmetric' in n else ()) for k in range(K)])
        if n=='index_sort': e.conds={'key':ob(s,a[0])}
        return None
    return call
def direction(a): return a[3] if a[3][0]=='p' else a[4]
def at(s,reg,upto=None): return s._read(s.w if upto is None else s.w[:upto],reg,0,(),8,False)
def splits(v):
    """index expression -> list of (atom, coefficient) and constant"""
    if v[0]=='sum': return list(v[1]),v[2]
    if v[0]=='c': return [],v[1]
    return [(v,1)],0
def check(fn,d,N,M,K,colors):
    s0=St()
    for j,c in enumerate(colors): s0.w.append((el(d.color,('c',j)),'st',0,(),8,('c',c)))
    F=Flow(fn,caller(fn,d,N,M,K),limit=20000,visits=40); P=F.run(s0)
    if F.cut: raise Und('loop without known bound')
    P=[p for p in P if 'stop' not in p.env]
    if not P: raise Und('no path')
    for p in P:
        for e in p.ev:
            n=NAME(e.q).split('<')[0]
            if n not in KNOWN and not n.startswith('color_'): raise Und('call of '+n)
        if any(('u','string') in flat(c) for c in p.conds): raise Und('comparison of strings')
    if K:
        for x in('cppad.general','cppad.symmetric','colpack.general','colpack.symmetric','colpack.star') if d.kind=='hes' else('cppad','colpack'):
            want(any(p.conds.get(('call','vb_is_coloring',x)) and any(NAME(e.q).startswith('color_') for e in p.ev) for p in P),'coloring %s is never used'%x)
    nc=max([1]+[c+1 for c in colors if c<N]); errs=[]
    ks=[(d.row,d.col)] if d.kind=='rev' else [(d.col,d.row)] if d.kind=='for' else [(d.col,d.row),(d.row,d.col)]
    # the Hessian is symmetric: either index can select the direction, but it must be the same one everywhere
    if d.kind=='hes' and any(NAME(e.q).startswith('color_') and e.a[1]==d.row for p in P for e in p.ev): ks.reverse()
    for key,oth in ks:
        try:
            n=sum(path(s,d,N,M,K,colors,nc,key,oth) or 1 for s in P); return n
        except Bad as x: errs.append(x)
    raise errs[0]
def path(s,d,N,M,K,colors,nc,key,oth):
    ev=[e for e in s.ev]
    sw=[e for e in ev if NAME(e.q) in('Forward','Reverse')]
    want(sw and NAME(sw[0].q)=='Forward' and sw[0].a[2]==('c',0) and direction(sw[0].a)==A(1),'zero order forward mode at x is not the first sweep')
    if K==0:
        want(len(sw)==1 and s.env['ret']==('c',0),'an empty subset'); return 1
    empty=None
    for c,t in s.conds.items():
        if c[0]=='cmp' and c[2]==('call','size',d.color) and (c[1],c[3]) in(('eq',('c',0)),('lt',('c',1))): empty=t
    wcol=[e for e in ev if NAME(e.q).startswith('color_')]
    if empty is None and wcol: raise Und('is work empty')
    if empty is False: want(not wcol and not any(NAME(e.q)=='index_sort' for e in ev),'the coloring of work is computed again')
    if empty:
        on=[c[2] for c,t in s.conds.items() if c[:2]==('call','vb_is_coloring') and t]
        if not on: return 1           # an invalid coloring
        coloring(s,d,N,M,K,ev,wcol,on[0],key,oth)
    # sweeps
    res={}; pend=None
    for e in sw[1:]:
        nm=NAME(e.q)
        if d.kind=='rev':
            want(nm=='Reverse' and e.a[2]==('c',1),'first order reverse mode is expected'); g=1
        elif nm=='Forward':
            want(e.a[2]==('c',1),'order of a forward sweep')
            g=1
            if e.a[3][0]!='p':
                if e.a[3][0]!='c': raise Und('number of directions')
                g=e.a[3][1]
            want(d.kind=='for' or g==1,'number of directions')
        else:
            want(d.kind=='hes' and e.a[2]==('c',2) and direction(e.a)==d.w,'second order reverse mode with the weights w is expected')
            want(pend is not None,'reverse mode without first order forward mode'); res[e.slot]=(pend,1); continue
        want(s.env.get(('size',e.conds['dir']),('c',N*g))==('c',N*g),'size of the vector of directions')
        sets=[]
        for l in range(g):
            z=[at(s,el(e.conds['dir'],('c',j*g+l)),e.conds['w']) for j in range(N)]
            for j,x in enumerate(z): want(x in(F0,F1),'element %d of direction %d of a sweep is %s'%(j,l,'not set' if x[0]=='in' else show(x)))
            sets.append(frozenset(j for j in range(N) if z[j]==F1))
        if d.G: want(g<=d.G,'more directions than group_max')
        if d.kind=='hes': pend=sets
        else: res[e.slot]=(sets,g)
    want(s.env['ret']==('c',nc),'the number of sweeps that is returned is %s, not %d'%(show(s.env['ret']),nc))
    # results
    if d.old: out=[(x[0][2],x[5],k) for k,x in enumerate(s.w) if x[0][0]=='el' and x[0][1]==d.out and x[1]=='st']
    else: out=[(e.a[1],e.conds['v'],k) for k,e in enumerate(s.ev) if NAME(e.q)=='set' and e.a[0]==d.out]
    last={}; zero=set()
    for i,v,_ in out:
        if v==('c',0): v=F0
        if v==F0:
            want(not any(x!=F0 for x in last.values()),'a value is replaced by zero')
            want(i[0]=='c','index of a zero'); zero.add(i[1]); continue
        k=[k for k in range(K) if i==val(d.order,('c',k),i[4] if i[0]=='in' else 0)]
        want(k,'a value is stored at %s'%show(i)); k=k[0]
        want(v[0]=='in' and v[1][0]=='el' and v[1][1] in res,'what is stored for an entry is not an element of the result of a sweep')
        sets,g=res[v[1][1]]; ms,c=splits(v[1][2]); cv=val(d.color,at(s,el(key,i)))
        if len(ms)>1 or (ms and ms[0][0]==cv): raise Und('form of the index')
        mul=2 if d.kind=='hes' else g
        want(len(ms)==1 and ms[0][1]==mul and ms[0][0]==at(s,el(oth,i)),'the result of a sweep is taken at %s'%show(v[1][2]))
        if d.kind=='hes': want(c==1,'the order of the partial'); l=0
        else: l=c
        want(0<=l<len(sets),'direction of the result')
        L=[x[3][1] for x,t in s.conds.items() if t and x[:2]==('cmp','eq') and x[2]==cv and x[3][0]=='c']
        if not L and other(s,cv): raise Und('form of the test of a color')
        want(L,'an entry is stored without test of its color')
        want(sets[l]==frozenset(j for j in range(N) if colors[j]==L[0]),'the direction used for color %d consists of components %s'%(L[0],sorted(sets[l])))
        last[k]=L[0]
    want(zero>=set(range(K)),'an entry is not initialized as zero')
    lo=0
    for k in range(K):
        if k in last: lo=last[k]; continue
        cv=val(d.color,at(s,el(key,val(d.order,('c',k)))))
        if other(s,cv): raise Und('form of the test of a color')
        for L in range(lo,nc):
            if L not in colors: continue          # no entry has this color
            want(s.conds.get(('cmp','eq',cv,('c',L))) is False,'entry number %d in order is not stored though it may have color %d'%(k,L))
        want(not [j for j in last if j>k],'an entry is left out')
        break
    return 1
def other(s,cv): return any(cv in flat(c) and not(c[:2]==('cmp','eq') and c[2]==cv and c[3][0]=='c') for c in s.conds)
def flat(x):
    yield x
    if isinstance(x,tuple):
        for y in x: yield from flat(y)
def coloring(s,d,N,M,K,ev,wcol,name,key,oth):
    want(len(wcol)==1,'coloring is called %d times'%len(wcol)); c=wcol[0]
    kind={'cppad':'color_general_cppad','colpack':'color_general_colpack','cppad.general':'color_general_cppad','cppad.symmetric':'color_symmetric_cppad','colpack.general':'color_general_colpack','colpack.symmetric':'color_symmetric_colpack','colpack.star':'color_symmetric_colpack'}
    want(NAME(c.q).split('<')[0]==kind.get(name),'coloring %s is %s'%(name,NAME(c.q)))
    want(c.a[1:]==(key,oth,d.color),'the arguments of the coloring are not the index that selects the direction, the other index and the colors')
    def resized(o,n,before):
        e=[x for x in ev if NAME(x.q)=='resize' and x.a[0]==o]
        want(e and e[-1].a[1]==('c',n) and e[-1].id<before,'size of a vector in work')
    resized(d.color,N,c.id)
    if d.kind=='hes':
        for w,u,t in((d.row,d.urow,'row'),(d.col,d.ucol,'column')):
            resized(w,K,c.id)
            for k in range(K): want(at(s,el(w,('c',k)),c.n)==val(u,('c',k)),'%s index %d in work before coloring'%(t,k))
    if d.old: want(c.a[0]==A(2),'pattern of the coloring')
    else:
        e=[x for x in ev if 'set_internal_pattern' in x.q]
        want(len(e)==1,'pattern of the coloring'); e=e[0]
        want(e.id<c.id and e.a[4]==c.a[0] and e.a[5]==A(3),'the pattern that is colored is not the pattern of the user')
        if d.kind!='hes': want(e.a[2] in(('c',-1),('c',1))if d.kind=='for' else e.a[2]==('c',0),'the pattern is colored '+('by rows' if d.kind=='for' else 'by columns'))
        want(e.a[1]==('c',1) or e.a[1]==('c',-1),'the sets are not taken to be empty'); want(e.a[0]==('c',0),'zero_empty')
        o=s.env.get(('al',e.a[3]))
        for j in range(N): want(at(s,el(o,('c',j)),e.n)==('c',j),'set number of index %d'%j)
        r=[x for x in ev if NAME(x.q)=='resize' and x.a[0]==c.a[0]]
        want(r and r[-1].id<e.id and r[-1].a[1:]==(('c',N),('c',N if d.kind=='hes' else M)),'dimensions of the sets')
    i=[x for x in ev if NAME(x.q).split('<')[0]=='index_sort']
    want(len(i)==1 and i[0].id>c.id,'entries are not sorted after coloring'); i=i[0]
    want(i.a[1]==d.order,'result of the sort'); resized(d.order,K,i.id)
    for k in range(K):
        want(at(s,el(i.conds['key'],('c',k)),i.n)==val(d.color,at(s,el(key,('c',k)),i.n)),'sort key of entry %d is not its color'%k)
        want([j for j,x in enumerate(s.w) if x[0]==el(i.conds['key'],('c',k)) and c.n<=j<i.n],'the sort key is set before coloring')
def run(job):
    bc,nd,name,N,M,K,cols=job; consts(bc); obs=[]; d=DRV[name]
    fn=ir.Mod(core.irx(bc,OP+['--entry','^%s$'%name])['module']).fns[name]
    for c in cols: guard('driver','%s, %d entries, colors %s%s'%(name,K,list(c),'' if nd else ' (debug)'),obs,lambda: check(fn,d,N,M,K,c),fn)
    return obs
def jobs(tier):
    b=core.compile_bc('h_spd.cpp'); g=core.compile_bc('h_spd.cpp',ndebug=False); r=[]
    for n in('d_for1','d_for2','d_for5','d_rev','d_hes','o_for','o_rev','o_hes'):
        r.append((b,True,n,3,2,0,[(3,3,3)]))
        for K in((1,2) if tier=='quick' else (1,2,3)):
            cs=[c for c in itertools.product(range(4),repeat=3) if min(c)<3]
            r+=[(b,True,n,3,2,K,cs[i::2]) for i in range(2)]
        r.append((g,False,n,2,1,1,[(0,0),(0,1),(1,0),(2,0),(0,2)]))
    return r
def p23(prop,tier,t0):
    rep=core.Report(prop)
    for o in core.pmap(run,jobs(tier)): rep.merge(o)
    return core.finish(rep,tier,t0,'path-sensitive value flow through the drivers of sparse Jacobians and Hessians',{'driver':100})
