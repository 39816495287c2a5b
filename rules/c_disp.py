"""Atomic functions (P21): the dispatch to the user's functions, the transfer of the sparsity
patterns they return, and the recording of a call."""
import core,ir,itertools
from flow import Flow,St,resolve
from c_atom import NAME,Bad,Und,blk,guard,want,show
BASE=['--opaque','^CppAD::local::atomic_index<','--opaque','^std::(?!min|max)','--opaque','^CppAD::thread_alloc','--opaque','^CppAD::vector<.*>::resize','--opaque','^CppAD::ErrorHandler',
 '--opaque','^CppAD::(Constant|IdenticalZero|Dynamic|Variable)<','--opaque','::tape_this','--opaque','^CppAD::atomic_(base|three|four)<.*>::(allocate_work|atomic_name)','--opaque','sparse_rc<.*>::(nnz|row|col|sparse_rc|~sparse_rc)',
 '--opaque','recorder<.*>::(PutArg|PutOp|put_con_par|put_dyn_par)','--opaque','pod_vector<unsigned int>::push_back']
OUTER=BASE+['--opaque','^CppAD::atomic_(base|three|four)<.*>::(forward|reverse|for_|rev_)','--opaque','recorder<.*>::(put_var_atomic|put_dyn_atomic)','--entry','^[dvcko]_']
INNER=BASE+['--entry','^[tp]_']
SLOT={}; K={}; OFF={}
OBJ=('p',('obj',),0,())
def prepare(bc):
    m=ir.Mod(core.irx(bc,OUTER)['module'])
    for n,f in m.fns.items():
        if n[:2]=='v_':
            F=Flow(f,lambda s,q,a,e:None); F.run(); e=[e for e in F.paths[0].ev if e.slot is not None]
            if len(e)!=1: raise core.Broken('virtual function of '+n)
            SLOT[n[2],e[0].slot]=n[4:]
        elif n[:2]=='k_':
            F=Flow(f,lambda s,q,a,e:None); F.run(); K[n[2:]]=F.paths[0].env['ret'][1]
        elif n[:2]=='o_':
            F=Flow(f,lambda s,q,a,e:None); F.run(); r=F.paths[0].env['ret']
            if r[0]!='p' or r[1]!=('arg',0): raise core.Broken('position of '+n)
            OFF[n[2:]]=r[2]
    return m
# ------------------------------------------------------------------ dispatch
SIG={'forward':'par typ need sel low up atom call tx ty','reverse':'par typ sel up atom call tx ty px py',
 'for_jac':'atom call dep par typ x y var','rev_jac':'atom call dep par typ x y var','for_hes':'atom call par typ x y np1 nv rj fs',
 'rev_hes':'atom call par typ x y fj rj rh','rev_depend':'atom call par typ dx dy'}
SIG['aforward']=SIG['forward']; SIG['areverse']=SIG['reverse']
USER={('forward',2):'low up empty empty tx ty',('forward',3):'par typ need low up tx ty',('forward',4):'call sel low up tx ty',
 ('reverse',2):'up tx ty px py',('reverse',3):'par typ up tx ty px py',('reverse',4):'call sel up tx ty px py',
 ('for_jac',2):'par x y var',('for_jac',3):'dep par typ x y var',('for_jac',4):'call dep zero x y var',
 ('rev_jac',2):'par x y var',('rev_jac',3):'dep par typ x y var',('rev_jac',4):'call dep zero x y var',
 ('for_hes',2):'par x y np1 nv rj fs',('for_hes',3):'par typ x y np1 nv rj fs',('for_hes',4):'call zero x y np1 nv rj fs',
 ('rev_hes',2):'par x y fj rj rh',('rev_hes',3):'par typ x y fj rj rh',('rev_hes',4):'call zero x y fj rj rh',
 ('rev_depend',2):'par typ dx dy',('rev_depend',3):'par typ dx dy',('rev_depend',4):'call zero dx dy'}
for _t in(2,3,4):
    for _k in('forward','reverse'): USER['a'+_k,_t]=USER[_k,_t]
# name of the user's function: virtual ones by their position, the others by their name
FN={'for_jac':{2:'for_sparse_jac',3:'for_jac_sparsity',4:'for_jac_sparsity'},'rev_jac':{2:'rev_sparse_jac',3:'rev_jac_sparsity',4:'rev_jac_sparsity'},
 'for_hes':{2:'for_sparse_hes',3:'for_hes_sparsity',4:'for_hes_sparsity'},'rev_hes':{2:'rev_sparse_hes',3:'rev_hes_sparsity',4:'rev_hes_sparsity'}}
CLS={2:'atomic_base',3:'atomic_three',4:'atomic_four'}
def fname(e,typ):
    if e.slot is not None: return SLOT.get((str(typ),e.slot),'virtual function at position %d'%e.slot)
    if CLS[typ]+'<' in e.q: return NAME(e.q)
    return None
def strong(s,c):
    """truth of a label or of its negation on a path"""
    if c[0]=='c': return bool(c[1]&1)
    if c[0]=='not':
        t=strong(s,c[1]); return None if t is None else not t
    return s.conds.get(c)
def errors(s): return [e for e in s.ev if NAME(e.q)=='Call' and 'ErrorHandler' in e.q]
def resize(s,a):
    s.w.append((a[0][1],'st',a[0][2]+8,(),8,a[1])); g=blk(a[0][1],a[0][2]+16)
    if a[0][1][0]=='al': s.w.append((a[0][1],'st',a[0][2]+16,(),8,('p',g,0,())))
    return ('ev',None,[g])
def dispatch(fn,kind,typ,debug,deleted=False):
    names=SIG[kind].split(); pos={n:k for k,n in enumerate(names)}
    n=4; enums=[K['zero'],K['constant'],K['dynamic'],K['variable']]
    st=St()
    for k,x in enumerate(names):
        if fn.args[k]['t']=='ptr' and x not in('var','rj','fs','fj','rh'):
            st.w.append((('arg',k),'st',8,(),8,('c',2 if x in('y','ty','py','dy') else n)))
    if 'typ' in pos:
        for j in range(n): st.w.append((blk(('arg',pos['typ']),16),'st',4*j,(),4,('c',enums[j])))
    def call(s,q,a,e):
        nm=NAME(q)
        if q.startswith('CppAD::ErrorHandler::Call'): return ('stop',)
        if nm=='atomic_index':
            if s.read(a[1],8)!=('arg',pos['atom']): raise Bad('another atomic function is looked up')
            s.w.append((a[2][1],'st',a[2][2],(),8,('c',typ))); s.w.append((a[4][1],'st',a[4][2],(),8,('c',0) if deleted else OBJ))
            return ('ev',None,[])
        if q.startswith('vb_'): return ('val',('call',q)+a)
        if nm=='resize':
            return resize(s,a)
        if nm=='IdenticalZero': return ('val',('call','vb_idzero',s.read(a[0],8)))
        return None
    F=Flow(fn,call,limit=20000); P=F.run(st)
    if F.cut: raise Und('loop without known bound')
    seen=0
    for s in P:
        er=errors(s)
        if any(e.a[0]==('c',0) for e in er): continue       # assertion of the library itself
        us=[e for e in s.ev if e.slot is not None or any(c+'<' in e.q for c in CLS.values())]
        us=[(fname(e,typ),e) for e in us if NAME(e.q) not in('allocate_work','atomic_name')]
        if deleted:
            want(not us,'a deleted atomic function is called'); want(er,'no error when the atomic function has been deleted'); seen+=1; continue
        if typ==2:
            want(us and us[0][0]=='set_old','set_old is not called before the function'); want(us[0][1].a[1]==('arg',pos['call']) and us[0][1].a[0]==OBJ,'argument of set_old'); us=us[1:]
        base=kind[1:] if kind[0]=='a' else kind
        w=FN[base][typ] if base in FN else (base if typ==2 and base in('forward','rev_depend') else kind)
        exp=[(w,USER[kind,typ].split())]
        if kind=='rev_depend' and typ==4 and us: want(strong(s,('ev',us[0][1].id)) is not None,'the deprecated version of rev_depend is not tried')
        if kind=='rev_depend' and typ==4 and us and strong(s,('ev',us[0][1].id)) is False: exp.append(('rev_depend_old','call dx dy'.split()))
        want([x for x,_ in us]==[x for x,_ in exp],'%s is called instead of %s'%(', then '.join(str(x) for x,_ in us) or 'nothing',', then '.join(x for x,_ in exp)))
        for (_,e),(_,args) in zip(us,exp):
            want(e.a[0]==OBJ,'%s of another object'%w); want(len(e.a)==len(args)+1,'number of arguments')
            for k,x in enumerate(args):
                v=e.a[k+1]; t='argument %d of %s is not the %s'%(k+1,w,x)
                if x=='empty':
                    want(v[0]=='p' and v[1][0]=='al' and s.read(('p',v[1],v[2]+8,()),8,False,e.n)==('c',0),'argument %d of %s is not empty'%(k+1,w))
                elif x=='zero':
                    want(v[0]=='p' and v[1][0]=='al',t)
                    want(s.read(('p',v[1],v[2]+8,()),8,False,e.n)==('c',n),'size of ident_zero_x')
                    for j in range(n):
                        g=s.read(('p',blk(v[1],v[2]+16),j,()),1,False,e.n)
                        z=('call','vb_idzero',('in',blk(('arg',pos['par']),16),8*j,(),0)) if kind[0]!='a' else None
                        want(g==(z if enums[j]<=K['constant'] else ('c',0)),'ident_zero_x[%d] is %s'%(j,show(g)))
                else:
                    p=pos[x]; q=('p',('arg',p),0,()) if fn.args[p]['t']=='ptr' else ('arg',p)
                    want(v==q or v==('and',q,('c',1)),t)
        if debug:
            t=strong(s,('ev',us[-1][1].id))
            if t is None: raise Und('result of the function is not tested')
            want(bool(er)==(not t),'an error although the function returns true' if t else 'no error although the function returns false')
        seen+=1
    want(seen,'no path calls the function')
# ------------------------------------------------------------------ transfer of sparsity patterns
def path_events(fn,lens,typ,extra=None,visits=2):
    st=St()
    for k,v in lens.items(): st.w.append((('arg',k),'st',8,(),8,('c',v)))
    def call(s,q,a,e):
        nm=NAME(q)
        if q.startswith('CppAD::ErrorHandler::Call'): return ('stop',)
        if 'sparse_rc<' in q:
            if nm=='nnz':
                return ('val',('c',2 if s.env.get('hes',{}) and a[0] in s.env['hes'] else 1))
            if nm in('row','col'): return ('val',('p',(nm,a[0]),0,()))
            return ('val',('c',0))
        if nm=='end' and q.startswith('SV'): return ('val',('end',a[0]))
        if nm=='number_elements' and q.startswith('SV'): return ('val',('num',a[0],a[1]))
        if nm=='operator++' and q.startswith('SV'): return ('ev',a[0],[])
        if nm=='const_iterator' and q.startswith('SV'): return ('ev',None,[])
        if nm=='resize':
            return resize(s,a)
        if e.slot is not None:
            h='hes' in SLOT.get((str(typ),e.slot),''); p=a[-1]
            d=dict(s.env.get('hes') or {}); d.pop(p,None)
            if h: d[p]=1
            s.env['hes']=d
            return ('ev',None,[('row',p),('col',p)])
        return None
    F=Flow(fn,call,limit=60000,visits=visits); P=F.run(st)
    return [s for s in P if not errors(s)]
def itrs(s):
    """iterators: address -> (vector of sets, set index); their elements: event -> iterator creation"""
    cur={}; el={}; made=[]
    for e in s.ev:
        if not e.q.startswith('SV'): continue
        nm=NAME(e.q)
        if nm=='const_iterator': cur[e.a[0]]=e; made.append(e)
        elif nm=='operator*': el[('ev',e.id)]=cur.get(e.a[0])
    return made,el
def more(s,el,v,ends):
    """is element v below the end of its set on this path"""
    for k,t in s.conds.items():
        if k[0]=='cmp' and k[2]==v and (k[3] in ends):
            if k[1]=='lt': return t
            if k[1]=='eq': return not t
    return None
def vec_in(pos,name,sub): return None
def idx(arg,s=None,off=0,sym=()): return ('in',blk(('arg',arg),16),off,sym,0)
def sub(arg,k): return ('in',blk(('arg',arg),16),0,((k,8),),0)
def plus(a,b):
    from flow import add
    return add(a,b)
def transfer(fn,typ,kind,tier='quick'):
    A={4:dict(for_jac='call dep zero x y var',rev_jac='call dep zero x y var',for_hes='call zero x y np1 nv rj fs',rev_hes='call zero x y fj rj rh'),
       3:dict(for_jac='dep par typ x y var',rev_jac='dep par typ x y var',for_hes='par typ x y np1 nv rj fs',rev_hes='par typ x y fj rj rh')}[typ][kind].split()
    pos={n:k+1 for k,n in enumerate(A)}; ptr=lambda n:('p',('arg',pos[n]),0,())
    X,Y=pos['x'],pos['y']; n,m=2,2
    P=path_events(fn,{X:n,Y:m},typ,visits=4)
    np1=('arg',pos['np1']) if 'np1' in pos else None
    ok=0
    for s in P:
        made,el=itrs(s)
        us=[(SLOT.get((str(typ),e.slot),'?'),e) for e in s.ev if e.slot is not None]
        order=['jac','jac_old'] if typ==4 else ['jac']
        exp=[]; fail=False
        def phase(ph):
            nonlocal fail
            for w in ph:
                exp.append(w)
                k=len(exp)-1
                if k>=len(us): return
                if strong(s,('ev',us[k][1].id)) is not False:
                    return
            fail=True
        phase(['jac','jac_old'] if typ==4 else ['jac'])
        if not fail and kind.endswith('hes'): phase(['hes','hes_old'] if typ==4 else ['hes'])
        want([x for x,_ in us]==exp,'%s is called instead of %s'%(', then '.join(x for x,_ in us) or 'nothing',', then '.join(exp)))
        ret=s.env.get('ret'); t=strong(s,ret)
        if t is None and ret in s.conds: t=s.conds[ret]
        if t is None and ret==('ev',us[-1][1].id): t=not fail   # result of the last function
        want(t==(not fail),'returns %s although the function returns %s'%(t,not fail))
        for w,e in us:
            old='old' in w; hes='hes' in w
            args={4:(['call']+([] if hes else ['dep'])+([] if old else ['zero'])),3:['par','typ']+([] if hes else ['dep'])}[typ]+['sx','sy','pat']
            want(len(e.a)==len(args)+1 and e.a[0]==('p',('arg',0),0,()),'arguments of %s'%w)
            for k,x in enumerate(args):
                v=e.a[k+1]
                if x=='dep':
                    if kind.endswith('hes'): want(v==('c',0),'dependency of %s'%w)
                    else: want(v in(('arg',pos['dep']),('and',('arg',pos['dep']),('c',1))),'dependency of %s'%w)
                elif x=='call': want(v==('arg',pos['call']),'call_id of %s'%w)
                elif x in('zero','par','typ'): want(v==ptr(x),'argument %d of %s'%(k+1,w))
                elif x in('sx','sy'):
                    want(v[0]=='p' and v[1][0]=='al' and s.read(('p',v[1],v[2]+8,()),8,False,e.n)==('c',n if x=='sx' else m),'size of select_%s'%x[1])
                    for j in range(n if x=='sx' else m):
                        g=select(s,s.read(('p',blk(v[1],v[2]+16),j,()),1,False,e.n),el)
                        h=expect_select(s,typ,kind,x,j,pos,ptr,np1)
                        want(same(s,g,h,el),'select_%s[%d] of %s is %s'%(x[1],j,w,show(g)))
        if fail and len(us)>len(order): continue
        if fail: want(not [e for e in s.ev if NAME(e.q) in('post_element','add_element','binary_union','assignment','clear') and e.q.startswith('SV')],'sets change although the function fails'); continue
        facts(s,kind,us,made,el,pos,ptr,np1,n,m); ok+=1
    want(ok,'no path on which the function succeeds')
def select(s,v,el): return resolve(v,s.conds)
def nonempty(s,vec,i,np1): return ('nonempty',vec,i)
def expect_select(s,typ,kind,x,j,pos,ptr,np1):
    i=idx(pos['x' if x=='sx' else 'y'],off=8*j)
    if kind=='for_jac': return ('nonzero',i) if x=='sy' else ('nonempty',ptr('var'),i)
    if kind=='rev_jac': return (('nonzero',i) if typ==4 else ('true-or-nonzero',i)) if x=='sx' else ('nonempty',ptr('var'),i)
    if kind=='for_hes': return ('nonempty',ptr('fs'),plus(np1,i)) if x=='sx' else ('nonempty',ptr('rj'),i)
    return ('nonempty',ptr('fj'),i) if x=='sx' else ('flag',ptr('rj'),i)
def same(s,g,h,el):
    """g: value that the code computes; h: its meaning"""
    while g[0]=='and' and g[2]==('c',1): g=g[1]
    neg=False
    if h[0]=='true-or-nonzero': return g==('c',1) or same(s,g,('nonzero',h[1]),el)
    zero=('cmp','eq',h[-1],('c',0))
    if h[0]=='nonzero':
        if g==('not',zero): return True
        return g[0]=='c' and s.conds.get(zero)==(g[1]==0)
    if h[0]=='flag': return g==('in',h[1][1],0,((h[2],1),),0) or g==('cmp','ne',('in',h[1][1],0,((h[2],1),),0),('c',0))
    # nonempty: number_elements > 0, or the first element is below the end
    if g==('c',0) and s.conds.get(zero) is True: return True    # variable index zero is a parameter
    while g[0]=='not': g=g[1]; neg=not neg
    if g[0]=='cmp' and g[1]=='eq' and g[3]==('c',0) and g[2]==('num',)+h[1:]: return neg
    if g[0]=='cmp' and g[1]=='lt' and g[2]==('num',)+h[1:] and g[3]==('c',1): return neg
    if g[0]=='cmp' and g[1]=='lt' and g[2]==('c',0) and g[3]==('num',)+h[1:]: return not neg
    if g[0]=='cmp' and g[2] in el:
        e=el[g[2]]
        if e is not None and e.a[1]==h[1] and e.a[2]==h[2] and g[3]==('end',h[1]): return (g[1]=='lt')!=neg
    if g[0]=='c':    # decided on this path
        for k,t in s.conds.items():
            if k[0]=='cmp' and k[2] in el and el[k[2]] is not None and el[k[2]].a[1:3]==h[1:] and k[3]==('end',h[1]) and k[1] in('lt','eq'): return (t==(k[1]=='lt'))==bool(g[1])
            if k[0]=='cmp' and k[2]==('num',)+h[1:]: return (not t)==bool(g[1])
    if g[0]=='u': raise Und('select')
    return False
def finished(s,el,src,ends):
    """every element of the sets that are visited is visited"""
    for d in src:
        vs=[v for v,x in el.items() if x is d]
        want(vs and any(more(s,el,v,ends) is False for v in vs),'not every element of a set is visited')
def rc(name,p,k,ver): return ('in',blk((name,p),16,ver),8*k,(),0)
def facts(s,kind,us,made,el,pos,ptr,np1,n,m):
    """what happens to the sets, compared with what the patterns say"""
    X,Y=pos['x'],pos['y']
    jac=[e for w,e in us if w.startswith('jac')][-1]; hes=[e for w,e in us if w.startswith('hes')]
    J=lambda nm,k: rc(nm,jac.a[-1],k,('out',jac.id))
    def tgt(v):
        """(name, k) when v is the k-th row or column of a pattern mapped by x or y: ('x',(col,jac,k)) ..."""
        return v
    px=lambda i:plus(np1,sub(X,i)) if kind=='for_hes' else sub(X,i)
    py=lambda i:plus(np1,sub(Y,i)) if kind=='for_hes' else sub(Y,i)
    V=ptr({'for_jac':'var','rev_jac':'var','for_hes':'fs','rev_hes':'rh'}[kind])
    mut=[(NAME(e.q),e) for e in s.ev if e.q.startswith('SV') and NAME(e.q) in('post_element','add_element','binary_union','assignment','clear','process_post','binary_intersection','swap','resize')]
    want(all(e.a[0]==V for _,e in mut),'another vector of sets changes')
    ends=[('end',V)]+([np1] if np1 else [])
    after=lambda e:[x for x in mut if x[1].id>e.id]
    if kind in('for_jac','rev_jac','for_hes'):
        fr,to=(px(J('col',0)),py(J('row',0))) if kind!='rev_jac' else (py(J('row',0)),px(J('col',0)))
        posts=[e for w,e in mut if w in('post_element','add_element')]
        src=[e for e in made if e.id>jac.id and (not hes or e.id<hes[0].id)]
        want(any(e.a[1]==V and e.a[2]==fr for e in src),'the set of the %s of an entry is not visited'%('result' if kind=='rev_jac' else 'argument'))
        finished(s,el,src,ends)
        for e in posts:
            want(e.a[1]==to,'an element goes to another set')
            d=el.get(e.a[2]); want(d is not None and d.a[1]==V and d.a[2]==fr,'an element that is not in the set')
        for v,d in el.items():
            if d in src and d.a[2]==fr and more(s,el,v,ends) is True: want(any(e.a[2]==v for e in posts),'an element is not passed on')
        lim=posts[-1].id if posts and any(w=='post_element' for w,_ in mut) else 0
        if any(w=='post_element' for w,_ in mut):
            for k in range(n if kind=='rev_jac' else m):
                i=idx(X if kind=='rev_jac' else Y,off=8*k); t=plus(np1,i) if kind=='for_hes' else i
                z=s.conds.get(('cmp','eq',i,('c',0)))
                want(z is True or any(w=='process_post' and e.a[1]==t and e.id>lim for w,e in mut),'the elements of set %d are not processed'%k)
            if hes: want(all(e.id<hes[0].id for w,e in mut if w=='process_post'),'elements are processed after the Hessian')
        if kind!='for_hes': want(all(w in('post_element','add_element','process_post') for w,_ in mut),'another operation on the sets'); return
    if not hes: return
    h=hes[-1]; H=lambda nm,k: rc(nm,h.a[-1],k,('out',h.id))
    un=[e for w,e in mut if w=='binary_union']
    if kind=='for_hes':
        src=[e for e in made if e.id>h.id]
        pairs=[]; finished(s,el,src,ends)
        for k in range(2):
            r,c=H('row',k),H('col',k)
            pairs+=[(px(r),px(c),('cmp','eq',c,r),('cmp','eq',r,c)),(px(c),px(r),('cmp','eq',c,r),('cmp','eq',r,c))]
        for q,(a,b,d1,d2) in enumerate(pairs):
            if q%2 and (s.conds.get(d1) or s.conds.get(d2)): continue
            want(any(e.a[1]==V and e.a[2]==a for e in src),'the independent variables that an argument of a Hessian entry depends on are not visited')
        for v,d in el.items():
            if d in src and more(s,el,v,ends) is True:
                bs=[b for a,b,_,_ in pairs if a==d.a[2]]
                want(bs,'a set that is not an argument of a Hessian entry')
                want(any(e.a[1]==v and e.a[2]==v and e.a[3] in bs and e.a[4]==V for e in un),'the set of an independent variable does not get the set of the other argument')
        for e in un:
            d=el.get(e.a[1]); want(d is not None and e.a[2]==e.a[1] and e.a[3] in [b for a,b,_,_ in pairs if a==d.a[2]] and e.a[4]==V,'a union of other sets')
        want(not [w for w,e in mut if e.id>h.id and w!='binary_union'],'another operation on the sets'); return
    fj,rj=ptr('fj'),ptr('rj')
    exp=[(px(J('col',0)),py(J('row',0)),V)]
    for k in range(2):
        r,c=H('row',k),H('col',k); exp+=[(px(r),px(c),fj),(px(c),px(r),fj)]
    got=[]
    for e in un:
        want(e.a[1]==e.a[2],'a set is replaced'); got.append((e.a[1],e.a[3],e.a[4]))
    skip=[]
    for k in range(2):
        r,c=H('row',k),H('col',k)
        if s.conds.get(('cmp','eq',r,c)) or s.conds.get(('cmp','eq',c,r)): skip.append((px(c),px(r),fj))
    for x in exp: want(x in got or x in skip,'a union is missing')
    for x in got: want(x in exp,'a union of other sets')
    want(all(w=='binary_union' for w,_ in mut),'another operation on the sets')
    fl=[x for x in s.w if x[0]==rj[1]]
    want(fl and all(x[1]=='st' and x[5]==('c',1) and x[2]==0 and x[3]==((px(J('col',0)),1),) for x in fl),'flag of an argument of a Jacobian entry')
# ------------------------------------------------------------------ recording of a call
def FLD(base,j,f): return ('in',blk(base,16),j*K['sizeof_AD']+OFF[f],(),0)
def record(fn,typ,debug,ty,default=False):
    ax,ay=(1,2) if (typ==3 or default) else (2,3)
    n,m=2,len(ty); sz=K['sizeof_AD']
    st=St()
    for k,v in((ax,n),(ay,m)): st.w.append((('arg',k),'st',8,(),8,('c',v)))
    wk=[]
    def element(p):
        return (p[2]-0)//sz if p[1]==blk(('arg',ax),16) and not p[3] and p[2]%sz==0 else None
    def call(s,q,a,e):
        nm=NAME(q)
        if q.startswith('CppAD::ErrorHandler::Call'): return ('stop',)
        if q.startswith('vb_'): return ('val',('call',q)+a)
        if nm=='thread_num': return ('val',('call',q))
        if nm in('Constant','IdenticalZero','Dynamic','Variable'):
            j=element(a[0])
            if j is None:
                if debug: return ('val',('call',nm,a[0]))
                raise Bad('%s of something that is not an argument'%nm)
            if nm in('Dynamic','Variable'):
                t={'Dynamic':'dynamic','Variable':'variable'}[nm]
                return ('val',('cmp','eq',FLD(('arg',ax),j,'ad_type'),('c',K[t])))
            return ('val',('call',nm,j))
        if nm=='tape_this':
            j=element(a[0])
            if j is None: raise Bad('tape of something that is not an argument')
            return ('val',('p',('tape',j),0,()))
        if nm=='resize':
            return resize(s,a)
        if e.slot is not None:
            w=SLOT.get((str(typ),e.slot),'?')
            r=('ev',None,[])
            if w=='for_type':
                y=a[-1]; g=datap(s,y)
                s.w.append((g,'havoc',('type',)))
                for i,t in enumerate(ty): s.w.append((g,'st',4*i,(),4,('c',K[t])))
            elif w=='forward':
                s.w.append((datap(s,a[-1]),'havoc',('value',)))
            return r
        return None
    F=Flow(fn,call,limit=60000); P=F.run(st); cnt=0
    if F.cut: raise Und('loop without known bound')
    for s in P:
        if errors(s): continue
        conds=s.conds; kinds=[]; bad=False
        for j in range(n):
            c=conds.get(('call','Constant',j)); z=conds.get(('call','IdenticalZero',j)) if typ==4 else None
            if z and c is False: bad=True
            kinds.append('zero' if z else 'con' if c else 'non')
            if typ==4 and z is None: raise Und('type of an argument')
        if bad: continue
        non=[j for j in range(n) if kinds[j]=='non']
        # a tape number of zero does not occur for an argument that is not a constant
        if any(conds.get(('cmp','eq',FLD(('arg',ax),j,'tape_id'),('c',0))) for j in non): continue
        us=[(SLOT.get((str(typ),e.slot),'?'),e) for e in s.ev if e.slot is not None]
        want(sorted(x for x,_ in us)==['for_type','forward'],'for_type and forward are not called once each'); us=dict(us)
        t,f=us['for_type'],us['forward']
        def vec(e,k,off,size): return s.read(('p',datap(s,e.a[k],e.n),off,()),size,False,e.n)
        def types(e,k,what):
            for j in range(n):
                g=resolve(vec(e,k,4*j,4),conds)
                w={'zero':('c',K['zero']),'con':('c',K['constant'])}.get(kinds[j]) or FLD(('arg',ax),j,'ad_type')
                want(g==w,'%s: type of argument %d is %s'%(what,j,show(g)))
        def vals(e,k,what,nan=False):
            for j in range(n):
                g=resolve(vec(e,k,8*j,8),conds); w=FLD(('arg',ax),j,'value')
                if nan and kinds[j]=='non':
                    v=equal(s,FLD(('arg',ax),j,'ad_type'),K['variable'])
                    want(v is not None,'value of a variable is not replaced'); w=('call','vb_nan') if v else w
                want(g==w,'%s: value of argument %d is %s'%(what,j,show(g)))
        call_id=('c',0) if (typ==3 or default) else ('arg',1)
        if typ==4:
            want(t.a[1]==call_id and f.a[1]==call_id,'call_id'); types(t,2,'for_type'); vals(f,5,'forward')
            want(f.a[3]==('c',0) and f.a[4]==('c',0),'order of forward')
            for i in range(m): want(vec(f,2,i,1)==('c',1),'select_y[%d] of forward'%i)
            ty_vec=t.a[3]
        else:
            vals(f,1,'forward'); types(f,2,'forward'); want(f.a[3][0]=='c' and f.a[3][1]>K['variable'],'need_y of forward')
            want(f.a[4]==('c',0) and f.a[5]==('c',0),'order of forward'); vals(f,6,'forward'); vals(t,1,'for_type',True); types(t,2,'for_type'); ty_vec=t.a[3]
        outv=datap(s,f.a[-1])
        B=blk(('arg',ay),16)
        puts=[(NAME(e.q),e) for e in s.ev if NAME(e.q) in('put_dyn_atomic','put_var_atomic')]
        exp=(['put_dyn_atomic'] if 'dynamic' in ty else [])+(['put_var_atomic'] if 'variable' in ty else [])
        if not non and exp: continue      # the user's function is wrong
        want([x for x,_ in puts]==exp,'%s instead of %s'%(', '.join(x for x,_ in puts) or 'nothing is recorded',', '.join(exp) or 'nothing'))
        upto=puts[0][1].n if puts else None
        for i in range(m):
            rd=lambda fl,size: s.read(('p',B,i*sz+OFF[fl],()),size,False,upto)
            v=rd('value',8); want(v[0]=='in' and v[1]==outv and v[2]==8*i and v[4]==('value',),'value of result %d is %s'%(i,show(v)))
            want(rd('tape_id',4)==('c',0),'result %d is not a constant before it is recorded'%i)
        for w,e in puts:
            tape=('p',('tape',non[0]),OFF['rec'],()) if non else None
            want(e.a[0] in [('p',('tape',j),OFF['rec'],()) for j in non],'%s: another recorder'%w)
            want(e.a[1] in [FLD(('arg',ax),j,'tape_id') for j in non],'%s: tape number'%w)
            want(e.a[2]==('in',('arg',0),OFF['index%d'%typ],(),0),'%s: atomic_index'%w)
            want(e.a[3]==call_id,'%s: call_id'%w)
            types(e,4,w); want(datap(s,e.a[5],e.n)==datap(s,ty_vec,e.n),'%s: types of the results'%w)
            want(e.a[6]==('p',('arg',ax),0,()) and e.a[7]==('p',('arg',ay),0,()),'%s: arguments or results'%w)
        cnt+=1
    want(cnt,'no path records')
def equal(s,x,k):
    for c,t in s.conds.items():
        if c[:3]==('cmp','eq',x) and c[3][0]=='c':
            if c[3][1]==k: return t
            if t: return False
    return None
def datap(s,p,upto=None):
    g=s.read(('p',p[1],p[2]+16,p[3]),8,True,upto)
    return g[1] if g[0]=='p' else ('?',)
def put(fn,kind,tx,ty,same_arg=False):
    """PutArg, PutOp and the fields of the results"""
    sz=K['sizeof_AD']; n,m=len(tx),len(ty); TX,TY,AX,AY=4,5,6,7
    st=St()
    for k,v in((TX,n),(TY,m),(AX,n),(AY,m)): st.w.append((('arg',k),'st',8,(),8,('c',v)))
    for k,t in((TX,tx),(TY,ty)):
        for j,x in enumerate(t): st.w.append((blk(('arg',k),16),'st',4*j,(),4,('c',K[x])))
    def call(s,q,a,e):
        nm=NAME(q)
        if q.startswith('CppAD::ErrorHandler::Call'): return ('stop',)
        if nm=='put_con_par': return ('ev',('con',s.read(a[1],8)),[])
        if nm=='put_dyn_par': return ('ev',('dyn',s.read(a[1],8),a[2]),[])
        if nm=='push_back': s.env.setdefault('push',[]) if False else None; return ('ev',('c',0),[])
        return None
    F=Flow(fn,call,limit=20000); P=[s for s in F.run(st) if not errors(s)]
    if F.cut: raise Und('loop without known bound')
    want(P,'no path'); 
    for s in P:
        A=('arg',2); C=('arg',3); N,M=('c',n),('c',m)
        old=lambda k,i,f: FLD(('arg',k),i,f)
        B=blk(('arg',AY),16); got=lambda i,f,size: s.read(('p',B,i*sz+OFF[f],()),size)
        if kind=='var':
            seq=[]; pend=[]; ops=[]
            for e in s.ev:
                nm=NAME(e.q)
                if nm=='PutArg': pend+=list(e.a[1:])
                elif nm=='PutOp':
                    ops.append((e.a[1],tuple(pend),e)); pend=[]
            want(not pend,'arguments without an operator')
            exp=[('AFunOp',(A,C,N,M))]
            for j,t in enumerate(tx): exp.append(('FunavOp',(old(AX,j,'taddr'),)) if t=='variable' else ('FunapOp',(('con',old(AX,j,'value')) if t in('zero','constant') else old(AX,j,'taddr'),)))
            for i,t in enumerate(ty): exp.append(('FunrvOp',()) if t=='variable' else ('FunrpOp',(('con',old(AY,i,'value')) if t in('zero','constant') else old(AY,i,'taddr'),)))
            exp.append(('AFunOp',(A,C,N,M)))
            want(len(ops)==len(exp),'%d operators instead of %d'%(len(ops),len(exp)))
            for k,((o,a,e),(w,b)) in enumerate(zip(ops,exp)):
                want(o==('c',K[w]),'operator %d is not %s'%(k,w)); want(a==b,'arguments of operator %d, %s, are %s'%(k,w,a))
            for i,t in enumerate(ty):
                o=ops[1+n+i][2]
                if t=='variable':
                    want(got(i,'taddr',4) in(('ev',o.id),),'address of result %d'%i); want(got(i,'tape_id',4)==('arg',1),'tape of result %d'%i); want(got(i,'ad_type',4)==('c',K['variable']),'type of result %d'%i)
                else:
                    want(got(i,'taddr',4)==old(AY,i,'taddr') and got(i,'tape_id',4)==old(AY,i,'tape_id') and got(i,'ad_type',4)==old(AY,i,'ad_type'),'result %d, which is a parameter, changes'%i)
                want(got(i,'value',8)==old(AY,i,'value'),'value of result %d changes'%i)
        else:
            pb=[s.read(e.a[1],4,False,e.n) for e in s.ev if NAME(e.q)=='push_back']
            nd=sum(t=='dynamic' for t in ty)
            exp=[A,C,N,M,('c',nd)]
            for j,t in enumerate(tx): exp.append(('con',old(AX,j,'value')) if t in('zero','constant') else old(AX,j,'taddr') if t=='dynamic' else ('c',0))
            first=True; dyn={}
            for i,t in enumerate(ty):
                if t=='dynamic':
                    dyn[i]=('dyn',old(AY,i,'value'),('c',K['atom_dyn' if first else 'result_dyn'])); first=False; exp.append(dyn[i])
                else: exp.append(('c',0))
            exp.append(('c',6+n+m))
            want(len(pb)==len(exp),'%d arguments instead of %d'%(len(pb),len(exp)))
            for k,(g,w) in enumerate(zip(pb,exp)): want(g==w,'argument %d of the dynamic parameter operator is %s'%(k,show(g)))
            dp=[e for e in s.ev if NAME(e.q)=='put_dyn_par']; want(len(dp)==nd,'%d dynamic parameters instead of %d'%(len(dp),nd))
            for i,t in enumerate(ty):
                if t=='dynamic':
                    want(got(i,'taddr',4)==dyn[i],'address of result %d'%i); want(got(i,'tape_id',4)==('arg',1),'tape of result %d'%i); want(got(i,'ad_type',4)==('c',K['dynamic']),'type of result %d'%i)
                else: want(got(i,'taddr',4)==old(AY,i,'taddr') and got(i,'tape_id',4)==old(AY,i,'tape_id'),'result %d changes'%i)
                want(got(i,'value',8)==old(AY,i,'value'),'value of result %d changes'%i)
TYS=[('variable','variable'),('dynamic','variable'),('variable','dynamic'),('constant','variable'),('zero','dynamic'),('constant','constant'),('dynamic','dynamic')]
def run(job):
    what,nd,bc=job; obs=[]; debug=not nd; mode='' if nd else ' (debug)'
    if not SLOT: outer=prepare(bc)
    else: outer=None
    if what=='outer':
        for kind in SIG:
            for typ in(2,3,4):
                f=outer.fns['d_'+kind]; guard('dispatch','%s, interface %d%s'%(kind,typ,mode),obs,lambda: dispatch(f,kind,typ,debug),f)
                if debug: guard('dispatch','%s, interface %d, deleted'%(kind,typ),obs,lambda: dispatch(f,kind,typ,debug,True),f)
        for ty in TYS:
            for typ,nm in((4,'c_4'),(3,'c_3'),(4,'c_4_default')):
                if typ==3 and 'zero' in ty: continue     # not a type of a result of this interface
                f=outer.fns[nm]; guard('record-call','interface %d%s, results %s%s'%(typ,' without call_id' if 'def' in nm else '',', '.join(ty),mode),obs,lambda: record(f,typ,debug,ty,'def' in nm),f)
    else:
        m=ir.Mod(core.irx(bc,INNER)['module'])
        for typ in(4,3):
            for kind in('for_jac','rev_jac','for_hes','rev_hes'):
                f=m.fns['t_%d_%s'%(typ,kind)]; guard('transfer','%s, interface %d'%(kind,typ),obs,lambda: transfer(f,typ,kind),f)
        T=['zero','constant','dynamic','variable']
        for kind in('var','dyn'):
            f=m.fns['p_'+kind]
            for tx in itertools.product(T,repeat=2):
                for ty in(('variable','dynamic','constant'),('dynamic','zero','dynamic'),('constant','variable','variable'),('constant','dynamic','dynamic')):
                    if kind=='dyn' and 'dynamic' not in ty: continue
                    guard('record-operators','%s, arguments %s, results %s'%(kind,', '.join(tx),', '.join(ty)),obs,lambda: put(f,kind,tx,ty),f)
    return obs
def jobs():
    b=core.compile_bc('h_disp.cpp'); d=core.compile_bc('h_disp.cpp',ndebug=False)
    return [('outer',True,b),('outer',False,d),('inner',True,b)]
