"""P15: sparsity pattern and sparse matrix objects describe exactly what was put in them.

Element writes are store/call facts with affine values, cached orderings are a typestate
(emptied by every routine that changes the entries), and the pairing of the orderings that
equality compares is decided by conditional constant propagation, one run for every
combination of cached orderings."""
import core,ir,sccp,itertools,time
from aff import Aff,Poly
import c_state
RC='CppAD::sparse_rc'; RV='CppAD::sparse_rcv'
OPQ='^(Vec<|PVec<|CppAD::index_sort'
def meth(fn,I):
    q=fn.callee(I) or ''
    return c_state.qsplit(q)[1] if not q.startswith('llvm.') else ''
class Facts:
    def __init__(s,fn,M,roots):
        """M: offset -> member name of the pattern; roots: {'a0': prefix,...}"""
        s.fn=fn; s.M=M; s.roots=roots; box={}
        s.aff=a=Aff.__new__(Aff); s.tmpname={}
        def classify(I):
            if I['op']=='load':
                x=s.ref(I['o'][0])
                if x is None: return None
                return x
            if I['op'] in('call','invoke') and meth(fn,I)=='size':
                x=s.mem(I['o'][0]); return ('size',x) if x else None
            return None
        s.cl=classify; Aff.__init__(a,fn,classify); a.memo={}
    def mem(s,o):
        """pointer to a member of a known object -> (object, member)"""
        r,p=s.aff.addr(o)
        if r in s.roots and p.isconst():
            n=s.M.get(int(p.cval()))
            return (s.roots[r],n) if n else None
        return None
    def ref(s,o):
        """pointer -> ('el',vector,index key) or a member"""
        I=s.fn.get(o) if isinstance(o,str) and o[0]=='%' else None
        if I is not None and I['op'] in('call','invoke') and meth(s.fn,I).startswith('operator[]'):
            v=s.mem(I['o'][0]) or (I['o'][0] if s.fn.get(I['o'][0]) is not None and s.fn.get(I['o'][0])['op']=='alloca' else None)
            if v is None:
                if I['o'][0] in s.roots: v=(s.roots[I['o'][0]],'')
                else: return None
            return ('el',v,s.aff.poly(I['o'][1]))
        m=s.mem(o)
        return ('m',)+m if m else None
    def stores(s):
        for I in s.fn.reach_ins():
            if I['op']=='store':
                x=s.ref(I['o'][1])
                if x: yield x,s.aff.poly(I['o'][0]),I
def entry(bc,ent,extra=''):
    d=core.irx([bc],['--entry','^%s$'%ent,'--opaque',OPQ+extra+')']); return ir.Mod(d['module']).fns.get(ent)
def P(a): return Poly.atom(a)
def A(k): return Poly.atom(('a',k))
class Obs:
    def __init__(s): s.o=[]
    def __call__(s,rule,inst,cond,txt='',I=None): s.o.append((rule,inst,'ok' if cond else 'viol',('' if cond else txt),ir.where1(I) if I is not None else ''))
    def und(s,rule,inst,txt=''): s.o.append((rule,inst,'undecided',txt,''))
def firsti(fn): return next((I for I in fn.reach_ins() if '/cppad/' in ir.where1(I)),None)
def effects(bc,L,ob,ent,what,cls,exp,res,push=None,caches=True):
    """exp: {(vector, index): value} and {member: value}; res: {vector: size}"""
    fn=entry(bc,ent)
    if fn is None: ob.und('pattern-write',what,'no entry'); return
    M={o:n for n,t,o,e in c_state.members(L,cls)}
    F=Facts(fn,M,{'a0':''})
    seen={}; first=firsti(fn)
    for x,v,I in F.stores():
        k=(x[1][1],x[2]) if x[0]=='el' and isinstance(x[1],tuple) else x[2] if x[0]=='m' else None
        if k is None: continue
        seen.setdefault(k,[]).append((v,I))
    for I in fn.calls():
        m=meth(fn,I)
        if m in('resize','push_back') or m=='Vec':
            x=F.mem(I['o'][0])
            if x is None: continue
            if m=='push_back':
                # the value is passed by reference: the last store to that location
                r=I['o'][1]; vs=[F.aff.poly(S['o'][0]) for S in fn.reach_ins() if S['op']=='store' and S['o'][1]==r]
                seen.setdefault(('push',x[1]),[]).append((vs[0] if len(vs)==1 else None,I))
            else: seen.setdefault(('resize',x[1]),[]).append((F.aff.poly(I['o'][1]) if len(I['o'])>1 else Poly(),I))
    und=any(meth(fn,I) in('operator=','swap','clear') for I in fn.calls())
    for k,v in exp.items():
        nm=k if isinstance(k,str) else '%s[%s]'%k if k[0]!='push' else '%s.push_back'%k[1]
        if k not in seen:
            others=[q for q in seen if isinstance(q,tuple) and isinstance(k,tuple) and q[0]==k[0] and q[0]!='push']
            if und: ob.und('pattern-write','%s: %s'%(what,nm)); continue
            ob('pattern-write','%s: %s'%(what,nm),False,'%s: %s is not written%s'%(fn.dem,nm,'; %s[%s] is written instead'%others[0] if others else ''),first); continue
        w,I=seen[k][-1]
        if w is None: ob.und('pattern-write','%s: %s'%(what,nm)); continue
        ob('pattern-write','%s: %s'%(what,nm),w==v,'%s: %s becomes %s instead of %s'%(fn.dem,nm,w,v),I)
    for k in seen:
        if k in exp or isinstance(k,tuple) and k[0]=='resize': continue
        w,I=seen[k][-1]
        if isinstance(k,tuple) and k[0] not in ('row_','col_','val_') and k[0]!='push': continue
        if w==P(('m','',k)) if isinstance(k,str) else False: continue
        ob('pattern-write','%s: nothing else'%what,False,'%s also writes %s'%(fn.dem,k),I)
    for k,v in res.items():
        s=seen.get(('resize',k))
        if not s:
            if und: ob.und('pattern-write','%s: size of %s'%(what,k)); continue
            ob('pattern-write','%s: size of %s'%(what,k),False,'%s does not resize %s'%(fn.dem,k),first); continue
        ob('pattern-write','%s: size of %s'%(what,k),s[-1][0]==v,'%s: %s is resized to %s instead of %s'%(fn.dem,k,s[-1][0],v),s[-1][1])
    if caches:
        fl=c_state.Flow(fn,'a0','zz',L,cls,cls); ex=fl.run()
        for c in('row_major_','col_major_'):
            d=[(o,e) for n,t,o,e in c_state.members(L,cls) if n==c]
            if not ex or not d: ob.und('pattern-cache','%s: %s'%(what,c)); continue
            o,e=d[0]; vs={fl.get(st,'a0',k) for st in ex.values() for k in range(o,e)}
            if vs=={('clr',)}: ob('pattern-cache','%s: %s'%(what,c),True)
            elif any(v is not None and v!=('clr',) for v in vs): ob('pattern-cache','%s: %s'%(what,c),False,'%s changes the entries but keeps the cached ordering %s of the old entries'%(fn.dem,c),first)
            else:
                r=kept(fn,F,c)
                if r is None: ob.und('pattern-cache','%s: %s'%(what,c))
                else: ob('pattern-cache','%s: %s'%(what,c),not r,'%s changes the entries but on one path keeps the cached ordering %s of the old entries'%(fn.dem,c),first)
def kept(fn,F,c):
    """is there a path, whose conditions only ask whether the cached orderings are empty, that keeps
    ordering c when it is not empty"""
    def of(x,n):
        m=F.mem(x) if isinstance(x,str) and x[:1] in '%a' else None
        return m is not None and m[1]==n
    other=False; st=[(0,False,())]; seen=0
    while st:
        b,done,vis=st.pop(); seen+=1
        if seen>4000: return None
        if b in vis: return None
        vis=vis+(b,)
        for I in fn.blocks[b]:
            if I['op'] in('call','invoke') and any(of(x,c) for x in I.get('o',[])):
                m=meth(fn,I)
                if m=='clear' or m=='resize' and I['o'][1] in('c0',0): done=True
                elif m not in('size','empty'): return None
        T=fn.blocks[b][-1]
        if T['op'] in('unreachable','resume'): continue
        if T['op']=='ret':
            if not done: other=True
            continue
        if T['op']=='invoke' : st.append((int(str(T['o'][-2])[1:]) if False else fn.succs(b)[0],done,vis)); continue
        if T['op']=='br' and len(T['o'])==3:
            I=fn.get(T['o'][0]); S=fn.get(I['o'][0]) if I is not None and I['op']=='icmp' and I['o'][1]=='c0' else None
            if S is None or S['op'] not in('call','invoke') or meth(fn,S)!='size' or I['pred'] not in('eq','ne','ugt'): return None
            w=next((n for n in('row_major_','col_major_') if of(S['o'][0],n)),None)
            if w is None: return None
            full,empty=(int(T['o'][k][1:]) for k in((1,2) if I['pred']!='eq' else (2,1)))
            st.append((full,done,vis)); st.append((empty,done or w==c,vis)); continue
        st+=[(x,done,vis) for x in fn.succs(b)]
    return other
def order(bc,L,ob,ent,which):
    """row_major / col_major"""
    what='sparse_rc::%s_major'%which; fn=entry(bc,ent)
    if fn is None: ob.und('pattern-order',what); return
    M={o:n for n,t,o,e in c_state.members(L,c_state.CLS['rc'])}
    F=Facts(fn,M,{'a1':''}); a=F.aff
    maj,mi,w=('row_','col_','nc_') if which=='row' else ('col_','row_','nr_')
    cache=which+'_major_'
    # cached value is returned, otherwise index_sort of the keys into the result
    ret=[I for I in fn.calls() if meth(fn,I)=='Vec' and I['o'][0]=='a0' and len(I['o'])>1]
    srt=[I for I in fn.calls() if 'index_sort' in (fn.callee(I) or '')]
    ks=[(x,v,I) for x,v,I in F.stores() if x[0]=='el']
    if len(srt)!=1: ob.und('pattern-order',what+': sort','%d'%len(srt)); return
    S=srt[0]
    ob('pattern-order',what+': result',S['o'][1]=='a0','%s: the sorted indices are not what is returned'%fn.dem,S)
    keyv=S['o'][0]
    mem=[F.mem(I['o'][1]) for I in ret if F.mem(I['o'][1])]
    for c in mem: ob('pattern-order',what+': cached',c[1]==cache,'%s returns %s'%(fn.dem,c[1]),S)
    # the ordering returned is the cached one only when it is there
    for sz,want in ((0,'sort'),(5,'cache')):
        class O:
            def arg(s,k): return None
            def call(s,q,vals,I):
                if meth(fn,I)=='size' and F.mem(I['o'][0]): return ('c',sz if F.mem(I['o'][0])[1]==cache else 3)
                return None
            def load(s,I,r): return None
        r=sccp.Run(fn,O()); 
        srt_ok=fn.blk[S['i']] in r.exec; ca_ok=any(fn.blk[I['i']] in r.exec for I in ret if F.mem(I['o'][1]))
        if want=='sort': ob('pattern-order',what+': without a cached ordering',srt_ok and not ca_ok,'%s does not sort when there is no cached ordering'%fn.dem,S)
        elif ca_ok and srt_ok: ob.und('pattern-order',what+': with')
    ks=[k for k in ks if k[0][1]==keyv]
    if not ks: ob.und('pattern-order',what+': keys'); return
    for x,v,I in ks:
        b=fn.blk[I['i']]; Ls=a.loops_at(b)
        if len(Ls)!=1 or Ls[0].iv is None: ob.und('pattern-order',what+': keys','loop'); continue
        iv=P(Ls[0].iv); idx=x[2]
        want=P(('el',('',maj),idx))*P(('m','',w))+P(('el',('',mi),idx))
        ob('pattern-order',what+': keys',v==want,'%s: key %s is %s, which does not order the entries by %s then %s'%(fn.dem,idx,v,maj.strip('_'),mi.strip('_')),I)
        n=P(('m','','nnz_'))
        c,r_=idx.coef(Ls[0].iv)
        lo,hi=Ls[0].lo+r_,Ls[0].hi+r_
        ob('pattern-order',what+': every entry',c==Poly.const(1) and lo==Poly() and hi in(n-Poly.const(1),P(('size',('','row_')))-Poly.const(1)),'%s: keys %s ... %s are set, not 0 ... nnz-1'%(fn.dem,lo,hi),I)
def equality(bc,L,ob):
    what='sparse_rc::operator=='
    fn=entry(bc,'rs_eq','|CppAD::sparse_rc<.*>::(row|col)_major')
    if fn is None: ob.und('pattern-equal',what); return
    M={o:n for n,t,o,e in c_state.members(L,c_state.CLS['rc'])}
    F=Facts(fn,M,{'a0':'this','a1':'other'}); a=F.aff
    # element comparisons: row/col of this at this order [k], of other at other order [k]
    def el(o):
        """value loaded from row_/col_ -> (object, member, pointer to the ordering, position)"""
        I=fn.get(o)
        if I is None or I['op']!='load': return None
        c=fn.get(I['o'][0])
        if c is None or c['op'] not in('call','invoke') or not meth(fn,c).startswith('operator[]'): return None
        v=F.mem(c['o'][0])
        if v is None or v[1] not in('row_','col_'): return None
        J=fn.get(c['o'][1])
        if J is None or J['op']!='load': return None
        d=fn.get(J['o'][0])
        if d is None or d['op'] not in('call','invoke') or not meth(fn,d).startswith('operator[]'): return None
        return v+(d['o'][0],a.poly(d['o'][1]))
    cmps=[]
    for I in fn.reach_ins():
        if I['op']=='icmp' and I['pred'] in('eq','ne'):
            x,y=el(I['o'][0]),el(I['o'][1])
            if x and y: cmps.append((I,x,y) if x[0]=='this' else (I,y,x))
    got={x[1] for I,x,y in cmps}
    first=firsti(fn)
    if not cmps: ob.und('pattern-equal',what+': elements'); return
    for m in('row_','col_'): ob('pattern-equal','%s: %s compared'%(what,m),m in got,'%s does not compare %s'%(fn.dem,m),first)
    for I,x,y in cmps:
        ob('pattern-equal','%s: %s pairing'%(what,x[1]),x[0]=='this' and y[0]=='other' and x[1]==y[1] and x[3]==y[3],'%s compares %s of %s with %s of %s'%(fn.dem,x[1],x[0],y[1],y[0]),I)
    # dimensions
    for m in('nr_','nc_','nnz_'):
        ok=False
        for I in fn.reach_ins():
            if I['op']=='icmp':
                u,v=a.poly(I['o'][0]),a.poly(I['o'][1])
                if {u,v}=={P(('m','this',m)),P(('m','other',m))}: ok=True
        if not ok: ob('pattern-equal','%s: %s compared'%(what,m),False,'%s does not compare %s'%(fn.dem,m),first); continue
        # a different value gives false
        class O:
            def arg(s,k): return None
            def call(s,q,vals,I): return None
            def load(s,I,r):
                x=F.mem(I['o'][0])
                if x and x[1]==m: return ('c',3 if x[0]=='this' else 4)
                return None
        r=sccp.Run(fn,O()); rets=[I for b in r.exec for I in fn.blocks[b] if I['op']=='ret']
        bad=[I for I in rets if r.val(I['o'][0])!=('c',0)]
        ob('pattern-equal','%s: different %s'%(what,m),not bad,'%s can return true when %s differs'%(fn.dem,m),first)
    # orderings
    I0,x0,y0=cmps[0]
    for tr,tc,orow,oc in itertools.product((0,1),repeat=4):
        size={('this','row_major_'):tr,('this','col_major_'):tc,('other','row_major_'):orow,('other','col_major_'):oc}
        class O:
            def arg(s,k): return None
            def call(s,q,vals,I):
                if meth(fn,I)=='size':
                    x=F.mem(I['o'][0])
                    if x in size: return ('c',3*size[x])
                return None
            def load(s,I,r):
                x=F.mem(I['o'][0])
                if x and x[1] in('nr_','nc_','nnz_'): return ('c',3)
                return None
        r=sccp.Run(fn,O()); inst='%s: cached orderings this %s other %s'%(what,'/'.join(n for n,v in(('row',tr),('col',tc)) if v) or 'none','/'.join(n for n,v in(('row',orow),('col',oc)) if v) or 'none')
        def res(o,seen=()):
            I=fn.get(o) if isinstance(o,str) else None
            if I is not None and I['op']=='phi' and o not in seen:
                z=set()
                for v,p in I['o']:
                    if (int(str(p).lstrip('b')),fn.blk[I['i']]) in r.edges: z|=res(v,seen+(o,))
                return z
            if I is not None and I['op']=='select':
                c=r.val(I['o'][0]); 
                if c is not None and c!='bot' and c[0]=='c': return res(I['o'][1 if c[1] else 2],seen)
                return res(I['o'][1],seen)|res(I['o'][2],seen)
            m=F.mem(o)
            if m: return {m}
            if I is not None and I['op']=='alloca':
                z=set()
                for C in fn.calls():
                    if fn.blk[C['i']] not in r.exec: continue
                    mm=meth(fn,C)
                    if mm=='operator=' and C['o'][0]==o: z|=res(C['o'][1],seen+(o,))
                    elif mm in('row_major','col_major') and C['o'][0]==o:
                        b,p=a.addr(C['o'][1]); z|={(F.roots.get(b),'computed '+mm)}
                    elif mm=='Vec' and C['o'][0]==o and len(C['o'])>1 and C['o'][1]!=o: z|=res(C['o'][1],seen+(o,))
                return z or {(None,'an empty vector')}
            return {(None,'?')}
        bad=None; und=False
        for I,x,y in cmps:
            if fn.blk[I['i']] not in r.exec: und=True; continue
            X,Y=res(x[2]),res(y[2])
            if len(X)!=1 or len(Y)!=1 or any(z[1]=='?' for z in X|Y): und=True; continue
            (xo,xn),(yo,yn)=X.pop(),Y.pop()
            for (o_,n_),ob_ in(((xo,xn),'this'),((yo,yn),'other')):
                if n_=='an empty vector' or (o_,n_) in size and not size[(o_,n_)]: bad='%s: the ordering used for the %s pattern is empty in this case'%(fn.dem,ob_)
                elif o_!=ob_: bad='%s: the %s pattern is read in the order of the other one'%(fn.dem,ob_)
            if not bad and ('row' in xn)!=('row' in yn): bad='%s: one pattern is read in row major and the other in column major order'%fn.dem
        if bad: ob('pattern-equal',inst,False,bad,first)
        elif und: ob.und('pattern-equal',inst)
        else: ob('pattern-equal',inst,True)
def getters(bc,L,ob):
    for ent,cls,mem in [('rg_'+n,'rc',n+'_') for n in('nr','nc','nnz','row','col')]+[('rh_'+n,'rcv',n+'_') for n in('nr','nc','nnz','row','col')]+[('rh_val','rcv','val_'),('rh_pat','rcv','pattern_')]:
        fn=entry(bc,ent); what='%s::%s'%({'rc':'sparse_rc','rcv':'sparse_rcv'}[cls],ent[3:])
        if fn is None: ob.und('pattern-read',what); continue
        M={}
        for ind,o,txt in L[c_state.CLS[cls]]['f']:
            n=txt.rpartition(' ')[2]
            M.setdefault(n,o)
        a=Aff(fn,lambda I:None); rt=[I for I in fn.reach_ins() if I['op']=='ret']
        if len(rt)!=1: ob.und('pattern-read',what); continue
        v=rt[0]['o'][0]; I=fn.get(v)
        if mem in('nr_','nc_','nnz_'):
            if I is None or I['op']!='load': ob.und('pattern-read',what); continue
            v=I['o'][0]
        r,p=a.addr(v)
        if r!='a0' or not p.isconst(): ob.und('pattern-read',what); continue
        ob('pattern-read',what,int(p.cval())==M.get(mem),'%s does not give %s'%(what,mem),rt[0])
def sets(bc,L,ob):
    rc,rcv=c_state.CLS['rc'],c_state.CLS['rcv']
    effects(bc,L,ob,'rs_set','sparse_rc::set',rc,{('row_',A(1)):A(2),('col_',A(1)):A(3)},{})
    rp=next((k for k in L if k.startswith('class CppAD::sparse_rc<struct PVec')),None)
    if rp: effects(bc,L,ob,'rs_push','sparse_rc::push_back',rp,{('push','row_'):A(1),('push','col_'):A(2),'nnz_':P(('m','','nnz_'))+Poly.const(1)},{})
    effects(bc,L,ob,'rs_resize','sparse_rc::resize',rc,{'nr_':A(1),'nc_':A(2),'nnz_':A(3)},{'row_':A(3),'col_':A(3)})
    effects(bc,L,ob,'rs_ctor','sparse_rc constructor',rc,{'nr_':A(1),'nc_':A(2),'nnz_':A(3)},{'row_':A(3),'col_':A(3)},caches=False)
    effects(bc,L,ob,'rv_set','sparse_rcv::set',rcv,{('val_',A(1)):P(('o','VALUE'))},{},caches=False) if False else None
    # sparse_rcv: set and construction from a pattern
    fn=entry(bc,'rv_set'); M={o:n for n,t,o,e in c_state.members(L,rcv)}
    F=Facts(fn,M,{'a0':''}); st=[(x,I) for x,v,I in F.stores()]
    cl=[(F.mem(J['o'][0]),J) for I in fn.calls() if meth(fn,I)=='operator=' for J in [fn.get(I['o'][0])] if J is not None and J['op']=='call' and F.mem(J['o'][0])]
    good=[x for x,I in st if x[0]=='el' and x[1]==('','val_') and x[2]==A(1)]
    v=[F.aff.addr(fn.get(I['o'][0])['o'][0])[0] if fn.get(I['o'][0]) is not None and fn.get(I['o'][0])['op']=='load' else None for x,I in st]
    if st: ob('pattern-write','sparse_rcv::set: value',len(st)==len(good) and all(y=='a2' for y in v),'%s does not set element k of the values'%fn.dem,st[0][1])
    else: ob.und('pattern-write','sparse_rcv::set: value')
    fn=entry(bc,'rv_ctor','|CppAD::sparse_rc<'); F=Facts(fn,M,{'a0':''})
    for I in fn.calls():
        if F.mem(I['o'][0])==('','pattern_') and len(I['o'])>1: ob('pattern-write','sparse_rcv from a pattern: pattern',I['o'][1]=='a1','%s does not keep the pattern'%fn.dem,I)
        if F.mem(I['o'][0])==('','val_') and len(I['o'])>1:
            J=fn.get(I['o'][1]) if isinstance(I['o'][1],str) else None
            ok=J is not None and J['op']=='call' and meth(fn,J)=='nnz' and F.aff.addr(J['o'][0])[0] in('a0','a1') and not F.aff.addr(J['o'][0])[1].t
            if J is not None and J['op']=='call': ob('pattern-write','sparse_rcv from a pattern: number of values',ok,'%s: the number of values is not the number of entries of the pattern'%fn.dem,I)
    # set_row_major / set_col_major store the ordering of their own name
    for w in('row','col'):
        fn=entry(bc,'rs_set'+w,'|CppAD::sparse_rc<.*>::(row|col)_major')
        M2={o:n for n,t,o,e in c_state.members(L,rc)}; F=Facts(fn,M2,{'a0':''})
        done=False
        for I in fn.calls():
            if meth(fn,I) in('operator=','swap'):
                m=F.mem(I['o'][0]); 
                if not m: continue
                src=[meth(fn,C) for C in fn.calls() if meth(fn,C) in('row_major','col_major') and C['o'][0]==I['o'][1]]
                if len(src)!=1: continue
                done=True
                ob('pattern-cache','set_%s_major'%w,m[1]==w+'_major_' and src[0]==w+'_major','%s stores the %s ordering in %s'%(fn.dem,src[0],m[1]),I)
        if not done: ob.und('pattern-cache','set_%s_major'%w)
def run(rep):
    L=c_state.layouts('h_state.cpp'); bc=core.compile_bc('h_state.cpp'); ob=Obs()
    for f in (lambda:sets(bc,L,ob),lambda:order(bc,L,ob,'rs_row','row'),lambda:order(bc,L,ob,'rs_col','col'),lambda:equality(bc,L,ob),lambda:getters(bc,L,ob)):
        try: f()
        except (core.Broken,KeyError,IndexError,ValueError,TypeError,AttributeError) as e: ob.und('pattern','analysis',repr(e)[:200])
    rep.merge(ob.o)
def p15(prop,tier,t0):
    rep=core.Report(prop)
    run(rep)
    return core.finish(rep,tier,t0,'Element and size writes of sparse_rc and sparse_rcv with affine values, typestate of the cached orderings, conditional constant propagation of the orderings that equality pairs for every combination of cached orderings.',
        {'pattern-write':6,'pattern-equal':8},['a simple vector stores and returns what it is given'])
