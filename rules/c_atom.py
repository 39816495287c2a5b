"""A call of an atomic function inside a recording (P21)."""
import core,ir,re
from flow import Flow,St,resolve
ITR='^CppAD::local::play::const_sequential_iterator::'
A=['--redirect',ITR+'op_info=>h_op_info','--redirect',ITR+'operator\\+\\+=>h_inc','--redirect',ITR+'operator--=>h_dec','--redirect',ITR+'op_index=>h_opindex','--redirect','::atom_op_info<=>h_atom_info',
 '--opaque','^CppAD::local::pod_vector<bool>::operator\\[\\]','--opaque','^CppAD::vector<.*>::resize','--opaque','call_atomic_','--opaque','^std::(?!min|max)','--opaque','^CppAD::thread_alloc','--opaque','printOp','--opaque','^CppAD::local::player<.*>::num_var']
CON,DYN,VAR='constant_enum','dynamic_enum','variable_enum'
def NAME(q):
    """last component of a qualified name, without template arguments"""
    if q.startswith('virtual'): return q
    while True:
        t=re.sub(r'<[^<>]*>','',q)
        if t==q: break
        q=t
    return q.split('(')[0].split('::')[-1].split(' ')[-1]
class Bad(Exception): pass
class Und(Exception): pass
def blk(reg,off,ver=0): return ('blk',reg,off,(),ver)
W={}      # member of the work structure -> offset of its data pointer
ENUM={}
def setup(bc):
    m=ir.Mod(core.irx(bc,A+['--entry','^[ok]_'])['module'])
    for n,f in m.fns.items():
        if n.startswith('k_'):
            F=Flow(f,lambda s,q,a,e:None); F.run(); ENUM[n[2:]]=F.paths[0].env['ret'][1]
        elif n.startswith('o_'):
            F=Flow(f,lambda s,q,a,e:('val',('call',q)+a)); F.run(); r=F.paths[0].env['ret']
            if r[0]!='p': raise core.Broken('position of '+n)
            W[n[2:]]=r[1][2] if r[1][0]=='blk' else r[2]
class Sam:
    def __init__(s,**k): s.__dict__.update(k)
    def bind(s): return sum((['--bind','h_%s=%d'%(k,v)] for k,v in s.__dict__.items() if k!='dmask'),[])
    def var(s,j): return bool(s.xmask>>j&1)
    def xa(s,j): return (11+(0 if s.dup and j+1==s.n else j)) if s.var(j) else 41+j
    def dyn(s,j): return bool(s.dmask>>j&1)
    def yvar(s,i): return bool(s.ymask>>i&1)
    def yv(s,i): return 21+i
    def ya(s,i): return 61+i
    def __repr__(s): return ' '.join('%s=%s'%(k,v) for k,v in s.__dict__.items())
D=dict(low=0,up=0,cap=3,dir=1,dup=0)
def samples(kind,tier):
    shapes=[(2,2,1,2,2),(3,2,5,1,2),(1,3,1,5,0),(3,1,7,1,0),(2,3,2,7,1)]
    r=[]
    for k,(n,m,x,y,d) in enumerate(shapes):
        b=dict(n=n,m=m,xmask=x,ymask=y,dmask=d,dup=int(n>1 and x&1 and x>>(n-1)&1))
        if kind=='forward':
            for low,up,cap in [(0,0,1),(0,2,4),(1,1,3),(2,3,5),(1,3,4)]: r.append(Sam(**{**D,**b,'low':low,'up':up,'cap':cap}))
        elif kind=='forward_dir':
            for up,cap,di in [(1,2,1),(1,3,2),(2,3,2),(2,5,3),(3,4,2)]: r.append(Sam(**{**D,**b,'up':up,'cap':cap,'dir':di}))
        elif kind=='reverse':
            for up,cap in [(0,1),(0,3),(1,2),(2,5)]: r.append(Sam(**{**D,**b,'up':up,'cap':cap}))
        else: r.append(Sam(**{**D,**b}))
    return r
ZERO=(('f',0.0),('c',0))
def work(fn,sam,outs):
    """Flow through one call; outs: positions of the vectors that the user's function defines"""
    def call(s,q,a,e):
        n=NAME(q)
        if q.startswith('vb_') or q in('h_atom','h_call'): return ('val',('call',q)+a)
        if 'operator[]' in q:
            if a[1][0]!='c': return ('val',('u','operator[]'))
            g=('pd',a[0]); k=a[1][1]
            s.w.append((g,'st',k,(),1,('c',int(k>=41 and sam.dyn(k-41)))))
            return ('val',('p',g,k,()))
        if n=='resize': return ('ev',None,[blk(a[0][1],a[0][2]+16)])
        if n.startswith('call_atomic'): return ('ev',None,[blk(a[k][1],a[k][2]+16) for k in outs if k<len(a) and a[k][0]=='p'])
        return None
    F=Flow(fn,call); P=F.run()
    if F.cut: raise Und('loop without known bound')
    if len(P)!=1: raise Und('%d paths'%len(P))
    return P[0]
def vsize(s,e,v):
    """size of a vector of the work structure when event e happens"""
    for x in reversed(s.ev):
        if x.id<e.id and NAME(x.q)=='resize' and x.a[0]==v: return x.a[1]
    return None
def cell(s,p,off,size,e): return s.read(('p',blk(p[1],p[2]+16),off,()),size,False,e.n)
def want(c,text):
    if not c: raise Bad(text)
def show(v):
    if v[0]=='in': return 'element at byte %d of %s'%(v[2],v[1])
    return str(v)
def argvecs(s,e,sam,k,what='type'):
    """parameter_x and type_x at positions k, k+1"""
    pv,tv=e.a[k],e.a[k+1]
    want(vsize(s,e,pv) in(None,('c',sam.n)) and vsize(s,e,tv) in(None,('c',sam.n)),'size of parameter_x or type_x')
    for j in range(sam.n):
        t=cell(s,tv,4*j,4,e)
        w=ENUM['variable'] if sam.var(j) else ENUM['dynamic'] if sam.dyn(j) else ENUM['constant']
        want(t==('c',w),'type_x[%d] is %s'%(j,show(t)))
        if not sam.var(j):
            v=cell(s,pv,8*j,8,e); want(v==('in',('arg',2),8*sam.xa(j),(),0),'parameter_x[%d] is %s'%(j,show(v)))
def ident(s,e,ka,kc):
    want(e.a[ka]==('call','h_atom') and e.a[kc]==('call','h_call'),'atom_index or call_id')
def only(s,arg,cells):
    """the only elements of argument arg that are written"""
    for x in s.w:
        if x[0]!=('arg',arg): continue
        if x[1]=='st' and not x[3]: want(x[2] in cells,'element at byte %d is written'%x[2])
        elif x[1]=='set': want(all(k in cells for k in range(x[2],x[2]+x[3],8)),'elements at byte %d.. are written'%x[2])
        elif x[1]=='cpy' and not x[3]: want(all(k in cells for k in range(x[2],x[2]+x[4],8)),'elements at byte %d.. are written'%x[2])
        else: raise Und('write at an unknown position')
def events(s,n):
    r=[e for e in s.ev if NAME(e.q)==n]
    return r
def ends(s,k):
    h=[e for e in s.ev if e.q=='h_end']
    want(len(h)==1 and h[0].a[0]==('c',k),'the iterator does not end at the operator that closes the call (%s)'%(h and h[0].a,))
def forward(fn,sam,several=False):
    s=work(fn,sam,[9]); c=events(s,'call_atomic_forward')
    nd=sam.dir if several else 1
    want(len(c)==nd,'%d calls of the atomic function'%len(c))
    no=sam.up+1; low=sam.up if several else sam.low
    per=(sam.cap-1)*sam.dir+1
    pos=(lambda v,k,d: 8*(v*per+(0 if k==0 else (k-1)*sam.dir+1+d))) if several else (lambda v,k,d: 8*(v*sam.cap+k))
    T=('arg',3); par=('arg',2); written={}
    for d,e in enumerate(c):
        ident(s,e,6,7); argvecs(s,e,sam,0)
        want(e.a[2][0]=='c' and e.a[2][1]>=ENUM['variable'],'need_y is %s'%(e.a[2],))
        want(e.a[4]==('c',low) and e.a[5]==('c',sam.up),'orders %s..%s'%(e.a[4],e.a[5]))
        sy,tx,ty=e.a[3],e.a[8],e.a[9]
        want(vsize(s,e,sy) in(None,('c',sam.m)),'size of select_y'); want(vsize(s,e,tx) in(None,('c',sam.n*no)) and vsize(s,e,ty) in(None,('c',sam.m*no)),'size of taylor_x or taylor_y')
        for i in range(sam.m): want(cell(s,sy,i,1,e)==('c',int(sam.yvar(i))),'select_y[%d] is %s'%(i,cell(s,sy,i,1,e)))
        for j in range(sam.n):
            for k in range(no):
                v=cell(s,tx,8*(j*no+k),8,e)
                if sam.var(j): want(v==('in',T,pos(sam.xa(j),k,d),(),0),'order %d of argument %d is %s'%(k,j,show(v)))
                elif k==0: want(v==('in',par,8*sam.xa(j),(),0),'argument %d is %s'%(j,show(v)))
                else: want(v in ZERO,'order %d of parameter argument %d is %s'%(k,j,show(v)))
        for i in range(sam.m):
            for k in range(low):
                v=cell(s,ty,8*(i*no+k),8,e)
                if sam.yvar(i): want(v==('in',T,pos(sam.yv(i),k,d),(),0),'lower order %d of result %d is %s'%(k,i,show(v)))
                elif k==0: want(v==('in',par,8*sam.ya(i),(),0),'result %d is %s'%(i,show(v)))
                else: want(v in ZERO,'order %d of parameter result %d is %s'%(k,i,show(v)))
            if sam.yvar(i):
                for k in range(low,no): written[pos(sam.yv(i),k,d)]=('in',blk(ty[1],ty[2]+16),8*(i*no+k),(),('out',e.id))
    for off,w in written.items():
        v=s.read(('p',T,off,()),8)
        want(flat(v)==flat(w),'coefficient at position %d is %s'%(off//8,show(v)))
    only(s,3,written); ends(s,sam.n+sam.m+1)
def flat(v):
    """contents of an array defined by an event: name without the version of the pointer"""
    if v[0]=='in' and v[1][0]=='blk': return ('in',v[1][1:4])+v[2:]
    return v
def reverse(fn,sam):
    s=work(fn,sam,[8]); c=events(s,'call_atomic_reverse'); want(len(c)==1,'%d calls of the atomic function'%len(c))
    e=c[0]; no=sam.up+1; T=('arg',3); P=('arg',4); par=('arg',2)
    ident(s,e,4,5); argvecs(s,e,sam,0)
    sx,tx,ty,px,py=e.a[2],e.a[6],e.a[7],e.a[8],e.a[9]
    want(e.a[3]==('c',sam.up),'order_up is %s'%(e.a[3],))
    for v,n in((sx,sam.n),(tx,sam.n*no),(ty,sam.m*no),(px,sam.n*no),(py,sam.m*no)): want(vsize(s,e,v) in(None,('c',n)),'size of a vector')
    for j in range(sam.n):
        want(cell(s,sx,j,1,e)==('c',int(sam.var(j))),'select_x[%d]'%j)
        for k in range(no):
            v=cell(s,tx,8*(j*no+k),8,e)
            if sam.var(j): want(v==('in',T,8*(sam.xa(j)*sam.cap+k),(),0),'order %d of argument %d is %s'%(k,j,show(v)))
            elif k==0: want(v==('in',par,8*sam.xa(j),(),0),'argument %d is %s'%(j,show(v)))
            else: want(v in ZERO,'order %d of parameter argument %d is %s'%(k,j,show(v)))
    for i in range(sam.m):
        for k in range(no):
            v,w=cell(s,ty,8*(i*no+k),8,e),cell(s,py,8*(i*no+k),8,e)
            if sam.yvar(i):
                want(v==('in',T,8*(sam.yv(i)*sam.cap+k),(),0),'order %d of result %d is %s'%(k,i,show(v)))
                want(w==('in',P,8*(sam.yv(i)*no+k),(),0),'partial of order %d of result %d is %s'%(k,i,show(w)))
            else:
                want(v==('in',par,8*sam.ya(i),(),0) if k==0 else v in ZERO,'order %d of parameter result %d is %s'%(k,i,show(v)))
                want(w in ZERO,'partial of order %d of parameter result %d is %s'%(k,i,show(w)))
    need={}
    for j in range(sam.n):
        if sam.var(j):
            for k in range(no): need.setdefault(8*(sam.xa(j)*no+k),[]).append(('in',blk(px[1],px[2]+16),8*(j*no+k),(),('out',e.id)))
    for off,w in need.items():
        v=s.read(('p',P,off,()),8); t=sorted(map(repr,map(flat,terms(v))))
        want(t==sorted(map(repr,map(flat,w+[('in',P,off,(),0)]))),'partial at position %d is %s'%(off//8,v))
    only(s,4,need); want(not any(x[0]==T for x in s.w),'Taylor coefficients are changed'); ends(s,0)
def terms(v):
    if v[0]=='call' and v[1].startswith('vb_add'): return terms(v[2])+terms(v[3])
    return [v]
SP={'for_jac':('call_atomic_for_jac_sparsity',['atom','call','dep','par','typ','x','y','var4'],0),
    'rev_jac':('call_atomic_rev_jac_sparsity',['atom','call','dep','par','typ','x','y','var4'],1),
    'for_hes':('call_atomic_for_hes_sparsity',['atom','call','par','typ','x','y','np1','nvar','a4','a5'],0),
    'rev_hes':('call_atomic_rev_hes_sparsity',['atom','call','par','typ','x','y','a3','a4','a5'],1)}
def sparsity(fn,sam,kind):
    name,lay,back=SP[kind]
    s=work(fn,sam,[]); c=events(s,name); want(len(c)==1,'%d calls of the atomic function'%len(c)); e=c[0]
    first={'for_jac':3,'rev_jac':3}.get(kind,3)
    for k,l in enumerate(lay):
        a=e.a[k]
        if l=='atom': want(a==('call','h_atom'),'atom_index')
        elif l=='call': want(a==('call','h_call'),'call_id')
        elif l=='par': argvecs(s,e,sam,k)
        elif l=='dep': want(a in(('arg',3),('and',('arg',3),('c',1))),'dependency is %s'%(a,))
        elif l=='x':
            want(vsize(s,e,a) in(None,('c',sam.n)),'size of index_x')
            for j in range(sam.n): want(cell(s,a,8*j,8,e)==('c',sam.xa(j) if sam.var(j) else 0),'index_x[%d] is %s'%(j,cell(s,a,8*j,8,e)))
        elif l=='y':
            want(vsize(s,e,a) in(None,('c',sam.m)),'size of index_y')
            for i in range(sam.m): want(cell(s,a,8*i,8,e)==('c',sam.yv(i) if sam.yvar(i) else 0),'index_y[%d] is %s'%(i,cell(s,a,8*i,8,e)))
        elif l=='var4': want(a==('p',('arg',4),0,()),'the vector of sets')
        elif l=='np1': want(a==('arg',3),'np1')
        elif l=='nvar': want(a[0]=='ev' and any(x.id==a[1] and NAME(x.q)=='num_var' and x.a[0]==('p',('arg',1),0,()) for x in s.ev),'num_var is %s'%(a,))
        elif l[0]=='a': want(a==('p',('arg',int(l[1:])),0,()),'argument %d'%k)
    ends(s,0 if back else sam.n+sam.m+1)
KIND={'a_forward':('forward',forward),'a_forward_dir':('forward_dir',lambda f,s:forward(f,s,True)),'a_reverse':('reverse',reverse)}
for _k in SP: KIND['a_'+_k]=(_k,lambda f,s,_k=_k:sparsity(f,s,_k))
def one(job):
    bc,names,sam=job
    m=ir.Mod(core.irx(bc,A+sam.bind()+['--entry','^(%s)$'%'|'.join(names)])['module']); obs=[]
    for n in names:
        kind,chk=KIND[n]
        inst='%s %s'%(kind,sam)
        if n not in m.fns: raise core.Broken('%s has no body'%n)
        guard('call-operators',inst,obs,lambda: chk(m.fns[n],sam),m.fns[n])
    return obs
def guard(rule,inst,obs,f,fn=None):
    import os
    try: f(); obs.append((rule,inst,'ok','',''))
    except Bad as x: obs.append((rule,inst,'viol',str(x),fn.dem if fn else ''))
    except (Und,OverflowError) as x: obs.append((rule,inst,'undecided',str(x),''))
    except core.Broken: raise
    except Exception as x:
        if os.environ.get('VF_DEBUG'): raise
        obs.append((rule,inst,'undecided','%s: %s'%(type(x).__name__,x),''))
def jobs(bc,tier):
    r={}
    for n,(kind,_) in KIND.items():
        for sam in samples(kind,tier): r.setdefault(repr(sam),(sam,[]))[1].append(n)
    return [(bc,ns,sam) for sam,ns in r.values()]
def anyjob(j):
    if j[0]=='disp': import c_disp; return c_disp.run(j[1])
    return one(j[1])
def p21(prop,tier,t0):
    import c_disp
    rep=core.Report(prop); bc=core.compile_bc('h_atom.cpp'); setup(bc)
    for o in core.pmap(anyjob,[('disp',j) for j in c_disp.jobs()]+[('call',j) for j in jobs(bc,tier)]): rep.merge(o)
    return core.finish(rep,tier,t0,'path-sensitive value flow through the operators of one call of an atomic function, the dispatch to the user\'s function, the transfer of its sparsity patterns and the recording of a call',{'call-operators':30,'dispatch':30,'transfer':4,'record-call':10,'record-operators':20})
