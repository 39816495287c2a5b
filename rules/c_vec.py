"""VecAD vectors (P22): recording of element accesses, and load and store operators in the sweeps."""
import core,ir,re,flow
from flow import Flow,St,add,scale,neg
from c_atom import NAME,Bad,Und,guard,want,show
OP=['--opaque','::operator\\[\\]','--opaque','^std::(?!min|max)','--opaque','^CppAD::thread_alloc','--opaque','^CppAD::ErrorHandler','--opaque','::extend','--opaque','::resize']
SW=OP+['--redirect','^CppAD::local::play::const_sequential_iterator::op_info=>h_op_info','--redirect','correct_after_decrement=>h_correct','--opaque','play::const_sequential_iterator::','--opaque','HItr::(?!op_info)','--opaque','^CppAD::local::player<.*>::','--opaque','printOp','--opaque','pod_vector.*::~?pod_vector']
RE=['--opaque','^CppAD::local::pod_vector.*::operator\\[\\]','--opaque','pod_vector.*::~?pod_vector','--opaque','^std::(?!min|max)','--opaque','^CppAD::thread_alloc','--opaque','^CppAD::ErrorHandler','--opaque','::extend','--opaque','::resize',
 '--opaque','::tape_ptr','--opaque','recorder<.*>::(PutArg|PutOp|PutLoadOp|put_con_par|put_var_vecad|num_var_load)','--entry','^r_']
K={}; OFF={}; INIT=[]
T,U=('id','T'),('id','U')
def consts(bc):
    m=ir.Mod(core.irx(bc,['--entry','^[ok]_'])['module'])
    for n,f in m.fns.items():
        F=Flow(f,lambda s,q,a,e:None); F.run(); r=F.paths[0].env['ret']
        if n[:2]=='k_': K[n[2:]]=r[1]
        elif n=='o_r_vec':
            if r!=('p',('blk',('arg',0),0,(),0),0,()): OFF['r_vec']=r[1][2] if r[1][0]=='blk' else r[2]
            else: OFF['r_vec']=0
        elif n[:2]=='o_':
            if r[0]!='p' or r[1]!=('arg',0): raise core.Broken('position of '+n)
            OFF[n[2:]]=r[2]
def errors(s): return 'stop' in s.env and bool(s.ev) and s.ev[-1].q.startswith('CppAD::ErrorHandler')
def el(v,i): return ('el',v,i)
def base_call(s,q,a,e):
    if q.startswith('CppAD::ErrorHandler::Call'): return ('stop',)
    if q.startswith('vb_'): return ('val',('call',q)+a)
    if 'operator[]' in q and len(a)==2: return ('val',('p',el(a[0],a[1]),0,()))
    return None
# ------------------------------------------------------------------ recording
KINDS=('constant','stale','old dynamic','dynamic','variable')       # of an AD object
def put_ad(s,reg,off,kind):
    tid={'constant':('c',0),'stale':U,'old dynamic':U}.get(kind,T)
    s.w.append((reg,'st',off+OFF['a_tape_id'],(),4,tid))
    s.w.append((reg,'st',off+OFF['a_ad_type'],(),4,('c',K[{'stale':'variable','old dynamic':'dynamic'}.get(kind,kind)])))
def ad_of(reg,off): return {f:('in',reg,off+OFF['a_'+f],(),0) for f in('value','taddr')}
N=2
def start(vec,tape):
    s=St()
    for a,b in((T,U),(U,T)): s.conds[('cmp','eq',a,b)]=False
    for a in(T,U): s.conds[('cmp','eq',a,('c',0))]=False; s.conds[('cmp','lt',a,('c',1))]=False
    s.w.append((('tape',),'st',OFF['t_id'],(),4,T))
    return s
def put_vec(s,V,vec):
    s.w.append((V,'st',OFF['v_length'],(),8,('c',N)))
    s.w.append((V,'st',OFF['v_tape_id'],(),4,{'constant':('c',0),'stale':U,'variable':T}[vec]))
    s.w.append((V,'st',OFF['v_ad_type'],(),4,('c',K['constant' if vec=='constant' else 'variable'])))
def recorder_call(tape):
    def call(s,q,a,e):
        r=base_call(s,q,a,e)
        if r: return r
        n=NAME(q)
        if n=='tape_ptr': return ('val',('p',('tape',),0,()) if tape else ('c',0))
        if n in('put_con_par','put_var_vecad','PutLoadOp','num_var_load','PutOp'):
            return ('ev',(n,s.nid),[])
        return None
    return call
def rec_events(s): return [e for e in s.ev if NAME(e.q) in('put_con_par','put_var_vecad','PutLoadOp','num_var_load','PutArg','PutOp')]
def run_rec(fn,st,tape):
    F=Flow(fn,recorder_call(tape)); P=F.run(st)
    if F.cut: raise Und('loop without known bound')
    return P
def evval(s,e): return (NAME(e.q),e.id-1)
def fields(s,p,f,size): return s.read(('p',p[1],p[2]+OFF['a_'+f],p[3]),size)
def copied(s,p,src,off,what):
    for f,z in(('value',8),('tape_id',4),('taddr',4),('ad_type',4)):
        w=s.read(('p',src,off+OFF['a_'+f],()),z); want(fields(s,p,f,z)==w,'%s: %s is %s'%(what,f,show(fields(s,p,f,z))))
def on_tape(s,V,ev,what):
    """the events that put the vector on the tape"""
    for i in range(N):
        c=[e for e in ev if NAME(e.q)=='put_con_par' and e.a[1]==('p',el(('p',V,OFF['v_data'],()),('c',i)),0,())]
        want(len(c)==1,'%s: the value of element %d is put on the tape %d times'%(what,i,len(c)))
        g=s.read(('p',el(('p',V,OFF['v_taddr'],()),('c',i)),0,()),4); want(g==evval(s,c[0]),'%s: address of element %d'%(what,i))
    v=[e for e in ev if NAME(e.q)=='put_var_vecad']; want(len(v)==1,'%s: the vector is put on the tape %d times'%(what,len(v)))
    want(v[0].a[1]==('c',N) and v[0].a[2]==('p',V,OFF['v_taddr'],()),'%s: length or addresses of the vector'%what)
    want(all(e.id<v[0].id for e in ev if NAME(e.q)=='put_con_par' and e.a[1][1][0]=='el'),'%s: an element has no address yet'%what)
    rd=lambda f: s.read(('p',V,OFF['v_'+f],()),4)
    want(rd('offset')==add(evval(s,v[0]),('c',1)),'%s: offset_'%what); want(rd('tape_id')==T,'%s: tape_id_'%what); want(rd('ad_type')==('c',K['variable']),'%s: ad_type_'%what)
    want(all(e.a[0]==('p',('tape',),OFF['t_rec'],()) for e in ev),'%s: another recorder'%what)
def vec_same(s,V,what):
    for x in s.w:
        if x[0]==V and x[1]=='st' and x[2] in(OFF['v_offset'],OFF['v_tape_id'],OFF['v_ad_type'],OFF['v_length']): 
            if x in INIT: continue
            raise Bad('%s: the vector changes'%what)
def is_con(kind,tape): return not tape or kind in('constant','stale','old dynamic')
def data_at(V,i): return el(('p',V,OFF['v_data'],()),i)
def index(fn,vec,ind,tape,debug):
    s=start(vec,tape); V=('arg',0); put_vec(s,V,vec); put_ad(s,('arg',1),0,ind); init=list(s.w)
    I=('call','vb_integer',('in',('arg',1),OFF['a_value'],(),0)); P=[p for p in run_rec(fn,s,tape)]
    good=[p for p in P if not errors(p)]; want(good,'no path')
    for p in good:
        INIT[:]=init
        if debug:
            lt=p.conds.get(('cmp','lt',I,('c',N))); lo=p.conds.get(('cmp','lt',I,('c',0)))
            want(lt is True and lo is not True,'an index that is out of range is not an error')
        ev=rec_events(p)
        if vec!='variable' and not is_con(ind,tape) or (vec=='variable' and not tape and False): on_tape(p,V,ev,'operator[]'); want(len(ev)==N+1,'something else is recorded')
        else: want(not ev,'something is recorded'); vec_same(p,V,'operator[]')
        want(p.read(('p',('arg',2),OFF['r_vec'],()),8,True)==('p',V,0,()),'the reference refers to another vector')
        copied(p,('p',('arg',2),OFF['r_ind'],()),('arg',1),0,'the index in the reference')
def ref(s,k,vec,ind):
    V=('blk',('arg',k),OFF['r_vec'],(),0); put_vec(s,V,vec); put_ad(s,('arg',k),OFF['r_ind'],ind); return V
def argset(p,e): return e.a[1:]
def ind_addr(p,ind,ev,k=0):
    a=ad_of(('arg',k),OFF['r_ind'])
    if ind in('dynamic','variable'): return a['taddr'],[]
    c=con_put(p,ev,a['value'])
    return (evval(p,c[-1]) if c else None),c
def load(fn,vec,ind,tape,debug):
    if tape and vec!='variable' and ind in('dynamic','variable'): return      # excluded by operator[]
    s=start(vec,tape); V=ref(s,0,vec,ind); init=list(s.w)
    I=('call','vb_integer',('in',('arg',0),OFF['r_ind']+OFF['a_value'],(),0))
    good=[p for p in run_rec(fn,s,tape) if not errors(p)]; want(good,'no path')
    for p in good:
        INIT[:]=init; R=('p',('arg',1),0,()); ev=rec_events(p)
        want(fields(p,R,'value',8)==('in',data_at(V,I),0,(),0),'value of the result is %s'%show(fields(p,R,'value',8)))
        vec_same(p,V,'load')
        if is_con(vec,tape) and is_con(ind,tape):
            want(not ev,'something is recorded'); want(fields(p,R,'tape_id',4)==('c',0) or fields(p,R,'ad_type',4)==('c',K['constant']),'result is not a constant')
            continue
        op='LdvOp' if ind=='variable' else 'LdpOp'
        ld=[e for e in ev if NAME(e.q)=='PutLoadOp']; pa=[e for e in ev if NAME(e.q)=='PutArg']; nl=[e for e in ev if NAME(e.q)=='num_var_load']
        want(len(ld)==1 and ld[0].a[1]==('c',K[op]),'the operator is not %s'%op); want(len(pa)==1 and len(pa[0].a)==4,'arguments of the operator')
        ia,c=ind_addr(p,ind,ev); want(ia is not None,'the index is not put on the tape'); want(len(c)<=1,'index')
        want(nl and nl[-1].id<ld[0].id,'number of the load')
        want(argset(p,pa[0])==(('in',V,OFF['v_offset'],(),0),ia,evval(p,nl[-1])),'arguments of the operator are %s'%(argset(p,pa[0]),))
        want(all(e.a[0]==('p',('tape',),OFF['t_rec'],()) for e in ev),'another recorder')
        want(len(ev)==2+len(nl)+len(c),'something else is recorded')
        want(fields(p,R,'taddr',4)==evval(p,ld[0]),'address of the result'); want(fields(p,R,'tape_id',4)==T,'tape of the result'); want(fields(p,R,'ad_type',4)==('c',K['variable']),'type of the result')
def con_put(p,ev,val):
    """the events that put a constant with this value on the tape"""
    return [e for e in ev if NAME(e.q)=='put_con_par' and e.a[1][0]=='p' and p.read(e.a[1],8,False,e.n)==val]
def load_events(p,ev,k,V,vec,ind):
    """the load of the element that argument k refers to: (value, address or None for a constant, events)"""
    I=('call','vb_integer',('in',('arg',k),OFF['r_ind']+OFF['a_value'],(),0)); val=('in',data_at(V,I),0,(),0)
    if is_con(vec,True) and is_con(ind,True): return val,None,[]
    off=('in',V,OFF['v_offset'],(),0)
    pa=[e for e in ev if NAME(e.q)=='PutArg' and len(e.a)==4 and e.a[1]==off]; want(len(pa)==1,'the element is loaded %d times'%len(pa)); pa=pa[0]
    ld=[e for e in ev if NAME(e.q)=='PutLoadOp' and e.a[1]==('c',K['LdvOp' if ind=='variable' else 'LdpOp'])]
    ops=[e for e in ev if NAME(e.q) in('PutLoadOp','PutOp')]
    # the operator that goes with these arguments: the one with the same position in the sequence
    pas=[e for e in ev if NAME(e.q)=='PutArg']; want(len(pas)==len(ops),'arguments without an operator'); o=ops[pas.index(pa)]
    want(o in ld,'the operator of the load'); ia,c=ind_addr(p,ind,ev,k); nl=[e for e in ev if NAME(e.q)=='num_var_load' and e.id<o.id]
    want(nl and not [x for x in ops if NAME(x.q)=='PutLoadOp' and nl[-1].id<x.id<o.id],'number of the load')
    want(pa.a[2:]==(ia,evval(p,nl[-1])),'arguments of the load'); return val,evval(p,o),[pa,o,nl[-1]]+c
def store(fn,vec,ind,right,tape,debug,form='ad'):
    if tape and vec!='variable' and ind in('dynamic','variable'): return      # excluded by operator[]
    s=start(vec,tape); V=ref(s,0,vec,ind); rv=None
    if form=='ad': put_ad(s,('arg',1),0,right)
    if form=='ref':
        rvec,rind=right
        if tape and rvec!='variable' and rind in('dynamic','variable'): return
        V1=ref(s,1,rvec,rind)
    init=list(s.w)
    I=('call','vb_integer',('in',('arg',0),OFF['r_ind']+OFF['a_value'],(),0)); r=ad_of(('arg',1),0)
    good=[p for p in run_rec(fn,s,tape) if not errors(p)]; want(good,'no path')
    for p in good:
        INIT[:]=init; ev=rec_events(p); lev=[]; val,ra=r['value'],r['taddr']; kind=right
        if form=='ref':
            if tape: val,ra,lev=load_events(p,ev,1,V1,rvec,rind)
            else: val,ra=('in',data_at(V1,('call','vb_integer',('in',('arg',1),OFF['r_ind']+OFF['a_value'],(),0))),0,(),0),None
            kind='variable' if ra else 'constant'
        if form=='base': val=('in',('arg',1),0,(),0)
        if form=='int': val=('sitofp',('arg',1))
        dw=[x for x in p.w if x[0][0]=='el' and x[0][1]==('p',V,OFF['v_data'],())]
        want(dw and all(x[0][2]==I for x in dw) and p.read(('p',data_at(V,I),0,()),8)==val,'the value is not stored at the index')
        want(not [x for x in p.w if x[0]==('arg',1) and x not in init],'the right hand side changes')
        if is_con(vec,tape) and is_con(kind,tape): want(not ev,'something is recorded'); vec_same(p,V,'store'); continue
        off=('in',V,OFF['v_offset'],(),0); n0=0; own=[e for e in ev if e not in lev]
        if vec!='variable':
            on_tape(p,V,own,'operator='); off=p.read(('p',V,OFF['v_offset'],()),4); n0=N+1
        else:
            want(p.read(('p',V,OFF['v_tape_id'],()),4)==T and p.read(('p',V,OFF['v_ad_type'],()),4)==('c',K['variable']) and p.read(('p',V,OFF['v_offset'],()),4)==off,'the vector changes')
        var=kind=='variable'
        op='St'+('v' if ind=='variable' else 'p')+('v' if var else 'p')+'Op'
        po=[e for e in own if NAME(e.q)=='PutOp']; pa=[e for e in own if NAME(e.q)=='PutArg']
        want(len(po)==1 and po[0].a[1]==('c',K[op]),'the operator is not %s'%op); want(len(pa)==1 and len(pa[0].a)==4,'arguments of the operator')
        ia,c=ind_addr(p,ind,own); want(ia is not None,'the index is not put on the tape')
        d=[]
        if kind not in('dynamic','variable'):
            d=[e for e in con_put(p,own,val) if e not in c and e.a[1][1][0]!='el']; ra=evval(p,d[-1]) if d else None
        want(argset(p,pa[0])==(off,ia,ra),'arguments of the operator are %s'%(argset(p,pa[0]),))
        want(all(e.a[0]==('p',('tape',),OFF['t_rec'],()) for e in ev),'another recorder'); want(len(own)==2+len(c)+len(d)+n0,'something else is recorded')
VBOP={'add':'vb_add','sub':'vb_sub','mul':'vb_mul','div':'vb_div','lt':'vb_lt','le':'vb_le','gt':'vb_gt','ge':'vb_ge','eq':'vb_eq','ne':'vb_ne'}
MIR={'lt':'gt','gt':'lt','le':'ge','ge':'le','eq':'eq','ne':'ne'}
def fold(fn,nm,form,tape):
    """an operation with elements is the operation with the values that were loaded"""
    s=start('variable',tape); regs=[]; inds=('variable','dynamic')
    for k,f in enumerate(form):
        if f=='r': regs.append(ref(s,k,'variable',inds[k]))
        else:
            regs.append(None)
            if f=='a': put_ad(s,('arg',k),0,'variable')
    res=nm in('add','sub','mul','div')
    for p in run_rec(fn,s,tape):
        if errors(p): continue
        ev=rec_events(p); vals=[]; ads=[]; lev=[]
        for k,f in enumerate(form):
            if f=='r':
                if tape: v,a,l=load_events(p,ev,k,regs[k],'variable',inds[k]); lev+=l
                else: v,a=('in',data_at(regs[k],('call','vb_integer',('in',('arg',k),OFF['r_ind']+OFF['a_value'],(),0))),0,(),0),None
            elif f=='a': v,a=('in',('arg',k),OFF['a_value'],(),0),('in',('arg',k),OFF['a_taddr'],(),0)
            else: v,a=('in',('arg',k),0,(),0),None
            vals.append(v); ads.append(a)
        w=('call',VBOP[nm])+tuple(vals)
        if not res:
            alt=('call',VBOP[MIR[nm]])+tuple(reversed(vals))
            g=p.env['ret']; want(g in(w,alt) or nm in('eq','ne') and g==('not',('call',VBOP['ne' if nm=='eq' else 'eq'])+tuple(vals)),'value of the comparison is %s'%show(g)); continue
        
        if tape and any(t and 'vb_id' in repr(c) for c,t in p.conds.items()): continue      # special cases of constants are P10
        R=('p',('arg',2),0,()); want(fields(p,R,'value',8)==w,'value of the result is %s'%show(fields(p,R,'value',8)))
        if not tape: want(not ev,'something is recorded'); continue
        if None in ads: continue        # with a constant: what is recorded is P10
        own=[e for e in ev if e not in lev]; po=[e for e in own if NAME(e.q)=='PutOp']; pa=[e for e in own if NAME(e.q)=='PutArg']
        want(len(po)==1 and po[0].a[1]==('c',K[nm+'vv']),'the operator'); want(len(pa)==1 and (pa[0].a[1:]==tuple(ads) or nm in('add','mul') and pa[0].a[1:]==tuple(reversed(ads))),'arguments of the operator')
        want(fields(p,R,'taddr',4)==evval(p,po[0]) and fields(p,R,'tape_id',4)==T and fields(p,R,'ad_type',4)==('c',K['variable']),'the result')
def ctor(fn):
    P=Flow(fn,base_call,visits=3).run()
    n=('arg',1); seen=0
    for p in P:
        rd=lambda f,z: p.read(('p',('arg',0),OFF['v_'+f],()),z)
        want(rd('length',8)==n and rd('tape_id',4)==('c',0) and rd('offset',4)==('c',0) and rd('ad_type',4)==('c',K['constant']),'length, tape, offset or type of a new vector')
        if p.conds.get(('cmp','eq',n,('c',0))): continue
        D=('p',('arg',0),OFF['v_data'],()); A=('p',('arg',0),OFF['v_taddr'],())
        k=bound(p,n)
        for v in(D,A): want(any(e.a[:2]==(v,n) for e in p.ev if NAME(e.q) in('extend','resize')),'size of the vector')
        for i in range(k or 0): want(p.read(('p',el(D,('c',i)),0,()),8) in(('f',0.0),('c',0)),'element %d is not zero'%i); seen=1
    want(seen,'no element is set to zero')
def bound(s,n):
    """number of elements when a loop over n elements has ended"""
    for k in range(0,4):
        for c,t in s.conds.items():
            if c==('cmp','lt',('c',k),n) and not t or c==('cmp','lt',n,('c',k+1)) and t or c[:2]==('cmp','eq') and n in c[2:] and ('c',k) in c[2:] and t: return k
    return None
# ------------------------------------------------------------------ recorder
def recorder_vec(fn):
    W=('p',('arg',0),OFF['q_ind'],()); n=('arg',1); n0=('len',)
    def call(s,q,a,e):
        r=base_call(s,q,a,e)
        if r: return r
        nm=NAME(q); t=s.env.get('tot',('c',0)); cur=add(n0,t)
        if nm in('extend','push_back','size') and a[0]!=W: return ('val',('call',nm)+a)
        if nm=='size': return ('val',cur)
        if nm=='extend': s.env['tot']=add(t,a[1]); return ('ev',cur,[])
        if nm=='push_back': s.env['tot']=add(t,('c',1)); s.w.append((el(W,cur),'st',0,(),4,s.read(a[1],4))); return ('ev',None,[])
        return None
    P=[p for p in Flow(fn,call,visits=3).run() if not errors(p)]; want(P,'no path'); seen=0
    for s in P:
        k=bound(s,n)
        if k is None: continue
        wr={x[0][2]:x[5] for x in s.w if x[0][0]=='el' and x[0][1]==W}
        want(s.env['ret']==n0,'offset'); want(wr.get(n0)==n,'length is not first')
        for i in range(k): g=wr.get(add(n0,('c',i+1))); want(g==('in',el(('p',('arg',2),0,()),('c',i)),0,(),0),'address of element %d is %s'%(i,g and show(g))); seen=1
        want(s.env.get('tot') in(('c',k+1),add(n,('c',1))),'number of positions')
    want(seen,'no element')
def recorder_load(fn,op):
    def call(s,q,a,e):
        r=base_call(s,q,a,e)
        if r: return r
        if NAME(q)=='extend': return ('ev',('ext',),[])
        return None
    F=Flow(fn,call); P=[p for p in F.run() if not errors(p)]; want(P,'no path')
    for s in P:
        rd=lambda f: s.read(('p',('arg',0),OFF[f],()),8)
        old=lambda f: ('in',('arg',0),OFF[f],(),0)
        want(rd('q_nload')==add(old('q_nload'),('c',1)),'number of loads'); want(rd('q_nvar')==add(old('q_nvar'),('c',1)),'number of variables')
        want(s.env['ret']==old('q_nvar'),'address of the result is %s'%show(s.env['ret']))
        w=[x for x in s.w if x[0][0]=='el']; want(len(w)==1 and w[0][0][1]==('p',('arg',0),OFF['q_op'],()) and w[0][0][2]==('ext',) and w[0][5]==('c',K[op]),'operator')
# ------------------------------------------------------------------ sweeps
OPS=('LdpOp','LdvOp','StppOp','StpvOp','StvpOp','StvvOp')
class Sw:
    def __init__(s,name):
        s.name=name; p=name.split('_')[1:]
        s.kind=p[0]; J={'zero':3,'any_0_0':1,'any_0_1':2,'any_0_2':4,'any_1_1':3,'any_1_3':4,'any_2_3':5,'dir_1_1':2,'dir_1_3':4,'dir_2_2':3,'dir_3_2':5,'rev_1':1,'rev_2':4,'rev_3':3}['_'.join(p)]
        s.J=J; s.row=J; s.p=s.q=0; s.r=1
        if s.kind=='any': s.p,s.q=int(p[1]),int(p[2])
        if s.kind=='dir': s.p=s.q=int(p[1]); s.r=int(p[2]); s.row=(J-1)*s.r+1
        if s.kind=='rev': s.K=int(p[1]); s.row=s.K
    def cells(s):
        """positions in a row that the step computes"""
        if s.kind=='dir': return [(s.q-1)*s.r+1+l for l in range(s.r)]
        return list(range(s.p,s.q+1))
def addr(i,row,k): return flow.Flow.gep(None,('p',('arg',2),0,()),8*k,[(i,8*row)])
def isvec(reg,s,init):
    """which of the two vectors of the sweep: by the type of the elements"""
    return None
def sweep(fn,op,sw,debug):
    IV=('call','h_var'); load_=op[:2]=='Ld'
    ls,cs=4 if sw.kind in('zero','any','dir','rev') else 0,3
    def call(s,q,a,e):
        if q.startswith('CppAD::ErrorHandler::Call') and a[0]==('c',0) and s.env.get('seg',0)<2: return ('ev',None,[])     # the operator is not BeginOp
        if q=='h_arg' or q=='h_arg_corrected':
            n=s.env.get('seg',0)+1; s.env['seg']=n
            if n==3: return ('stop',)
            return ('ev',None,[])
        if q in('h_var','h_index'): return ('val',('call',q))
        r=base_call(s,q,a,e)
        if r and 'operator[]' in q:
            w=re.search(r'pod_vector(?:_maybe)?<([^>]*)>::operator',q); kd={'bool':'bool','unsigned int':'addr','unsigned long':'size'}.get(w.group(1) if w else '','other'); k=s.env.setdefault('kinds',{}); k=dict(k); k[a[0]]=kd; s.env['kinds']=k
            return r
        if r: return r
        if q.startswith('CppAD::local::player') and NAME(q)=='GetVecInd': return ('val',('vecind',a[1]))
        if NAME(q)=='num_var_vecad_ind_rec' or NAME(q)=='num_var_vec_ind': return ('val',('call','num_vec_ind'))
        if NAME(q)=='GetPar' or NAME(q)=='par_ptr': return ('val',('p',('par',),0,()) if len(a)==1 else ('in',('par',),0,((a[1],8),),0))
        return None
    F=Flow(fn,call,limit=8000); P=F.run()
    done=0
    for s in P:
        if errors(s): continue
        if any(reads_flag(c,cs) and truth((c,t)) for c,t in s.conds.items()): continue
        h=[e for e in s.ev if e.q in('h_arg','h_arg_corrected')]
        if not h: continue
        segs=[(h[k],h[k+1] if k+1<len(h) else None) for k in range(len(h)-1)]
        if not segs: continue
        kinds=s.env.get('kinds',{})
        for k,(a,b) in enumerate(segs):
            w=[x for x in s.w[a.n:b.n] if x[0]==('arg',2) or x[0][0]=='el']
            last=k==len(segs)-1
            if not w and not (last and s.env.get('seg')==3) : continue
            step(s,op,sw,a,b,w,kinds,ls,debug); done+=1
        if sw.kind=='any' and sw.p==0 or sw.kind=='zero': init(s,h[0],kinds)
    want(done,'no step of the sweep') if not done and not F.cut else None
    if not done: raise Und('no step')
def reads_flag(c,cs): return any(isinstance(x,tuple) and x[:2]==('in',('arg',cs)) for x in c) or (c[0]=='in' and c[1]==('arg',cs))
def init(s,h,kinds):
    w=[x for x in s.w[:h.n] if x[0][0]=='el' and kinds.get(x[0][1]) in('bool','size')]
    n=('call','num_vec_ind'); ii=sorted({x[0][2][1] for x in w if x[0][2][0]=='c'})
    top=bound(s,n)
    if top is None: return
    ext=[e for e in s.ev if e.id<h.id and NAME(e.q) in('extend','resize')]
    if top: want(all(any(e.a[:2]==(v,n) for e in ext) for v,x in kinds.items() if x in('bool','size')),'size of the vectors')
    for i in range(top):
        b=[x for x in w if x[0][2]==('c',i)]; bo=[x[5] for x in b if kinds[x[0][1]]=='bool']; si=[x[5] for x in b if kinds[x[0][1]]=='size']
        want(bo and bo[-1]==('c',0) and si and si[-1]==('vecind',('c',i)),'element %d of the vectors is not its value at the start of the recording'%i)
def step(s,op,sw,a,b,w,kinds,ls,debug):
    A=lambda k: ('in',('ret',a.id),4*k,(),0)
    IV=('call','h_var'); one=lambda kd: sorted({v for v,x in kinds.items() if x==kd},key=repr)
    tay=[x for x in w if x[0]==('arg',2)]; els=[x for x in w if x[0][0]=='el']
    zero_order=sw.kind=='zero' or sw.kind=='any' and sw.p==0
    rd=lambda i,row,k: s.read(addr(i,row,k),8,False,a.n)
    if op[:2]=='St' and not zero_order or op[:2]=='St' and sw.kind=='rev': want(not w,'a store has an effect'); return
    LV=('p',('arg',ls),0,())
    if zero_order:
        iv=('call','vb_integer',rd(A(1),sw.row,0) if op[2]=='v' else ('in',('par',),0,((A(1),8),),0)); pos=add(A(0),iv)
        if debug:
            sz=[v for v,x in kinds.items() if x=='size']; bound=[('in',el(v,add(A(0),('c',-1))),0,(),0) for v in sz]
            want(any(s.conds.get(('cmp','lt',iv,x)) is True for x in bound),'an index that is out of range is not an error')
    if op[:2]=='St':
        want(not tay,'Taylor coefficients change'); want(all(x[0][2]==pos for x in els),'another element is stored')
        bo=[x[5] for x in els if kinds.get(x[0][1])=='bool']; si=[x[5] for x in els if kinds.get(x[0][1])=='size']
        want(bo and bo[-1]==('c',int(op[3]=='v')),'whether the element is a variable'); want(si and si[-1]==A(2),'what is stored'); return
    exp={}
    if sw.kind=='rev':
        iy=('in',el(LV,A(2)),0,(),0); pv=positive(s,iy)
        want(not els,'vectors change')
        want(pv is not None,'whether the element is a variable is not used')
        got={}
        for x in tay: got[(x[2],x[3])]=x[5]
        if pv:
            for k in range(sw.K): exp[key(addr(iy,sw.row,k))]=('call','vb_add',rd(iy,sw.row,k),rd(IV,sw.row,k))
        same(got,exp,'partial'); return
    if zero_order:
        bo=[(c,t) for c,t in s.conds.items() if isel(c,pos) and kinds.get(isel(c,pos))=='bool']
        want(bo,'whether the element is a variable is not used'); isv=truth(bo[0])
        idx=[('in',el(v,pos),0,(),0) for v,x in kinds.items() if x=='size']; want(len(idx)==1,'index of the element'); idx=idx[0]
        if isv and positive(s,idx) is False: return                 # no variable has index zero
        lw=[x for x in els if x[0][1]==LV]; want(len(lw)>=1 and all(x[0][2]==A(2) for x in lw) and lw[-1][5]==(idx if isv else ('c',0)),'load_op2var')
        want(all(x[0][1]==LV for x in els),'vectors change')
        src=idx if isv else None
        exp[key(addr(IV,sw.row,0))]=rd(idx,sw.row,0) if isv else ('in',('par',),0,((idx,8),),0)
        rest=[k for k in sw.cells() if k>0]
    else:
        want(not els,'vectors change')
        iy=('in',el(LV,A(2)),0,(),0); pv=positive(s,iy); want(pv is not None,'whether the element is a variable is not used')
        src=iy if pv else None; rest=sw.cells()
    for k in rest: exp[key(addr(IV,sw.row,k))]=rd(src,sw.row,k) if src else ('f',0.0)
    got={(x[2],x[3]):x[5] for x in tay}
    same({k:('f',0.0) if v==('c',0) else v for k,v in got.items()},exp,'Taylor coefficient')
def key(p): return (p[2],p[3])
def same(got,exp,what):
    for k,v in exp.items(): want(k in got,'a %s is not computed'%what); want(got[k]==v,'a %s is %s'%(what,show(got[k])))
    for k in got: want(k in exp,'another %s changes'%what)
def positive(s,x):
    for c,t in s.conds.items():
        if c==('cmp','eq',x,('c',0)): return not t
        if c==('cmp','lt',('c',0),x): return t
        if c==('cmp','lt',x,('c',1)): return not t
    return None
def isel(c,pos):
    for x in ([c] if c[0]=='in' else [y for y in c[1:] if isinstance(y,tuple)]):
        if x[0]=='in' and x[1][0]=='el' and x[1][2]==pos: return x[1][1]
    return None
def truth(ct):
    c,t=ct
    if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',0): return not t
    return t
def jobs():
    b=core.compile_bc('h_vec.cpp'); d=core.compile_bc('h_vec.cpp',ndebug=False)
    return [('rec',None,True,b),('rec',None,False,d),('api',None,True,b)]+[('sweep',o,n,x) for o in OPS for n,x in((True,b),(False,d))]
def run(job):
    what,op,nd,bc=job; obs=[]; mode='' if nd else ' (debug)'; consts(bc)
    if what=='rec':
        m=ir.Mod(core.irx(bc,RE)['module']).fns
        for vec in('constant','stale','variable'):
            for ind in KINDS:
                for tape in(True,False):
                    t='%s vector, %s index%s%s'%(vec,ind,'' if tape else ', no recording',mode)
                    guard('index',t,obs,lambda: index(m['r_index'],vec,ind,tape,not nd),m['r_index'])
                    guard('load-record',t,obs,lambda: load(m['r_load'],vec,ind,tape,not nd),m['r_load'])
                    for right in KINDS: guard('store-record',t+', %s value'%right,obs,lambda: store(m['r_store'],vec,ind,right,tape,not nd),m['r_store'])
    elif what=='api':
        m=ir.Mod(core.irx(bc,RE[:-1]+['^[rfsq]_'])['module']).fns
        for vec in('constant','stale','variable'):
            for ind in KINDS:
                for tape in(True,False):
                    t='%s vector, %s index%s'%(vec,ind,'' if tape else ', no recording')
                    for form in('base','int'): guard('store-record',t+', '+form,obs,lambda: store(m['s_store_'+form],vec,ind,'constant',tape,False,form),m['s_store_'+form])
                    for right in(('variable','variable'),('variable','constant'),('variable','dynamic'),('constant','constant'),('stale','stale'),('variable','stale')):
                        guard('store-record',t+', element of a %s vector with %s index'%right,obs,lambda: store(m['s_store_ref'],vec,ind,right,tape,False,'ref'),m['s_store_ref'])
        for nm in VBOP:
            for form in('ra','ar','rr','rb','br'):
                for tape in(True,False):
                    if tape and nm not in('add','sub','mul','div'): continue
                    f=m['f_%s_%s'%(nm,form)]; guard('operation','%s %s%s'%(nm,form,'' if tape else ', no recording'),obs,lambda: fold(f,nm,form,tape),f)
        guard('vector','constructor',obs,lambda: ctor(m['r_ctor']),m['r_ctor'])
        guard('vector','element',obs,lambda: want([p.env['ret'] for p in Flow(m['r_elem'],base_call).run()]==[('p',el(('p',('arg',0),OFF['v_data'],()),('arg',1)),0,())],'another element'),m['r_elem'])
        guard('vector','size',obs,lambda: want([p.env['ret'] for p in Flow(m['r_size'],base_call).run()]==[('in',('arg',0),OFF['v_length'],(),0)],'not the length'),m['r_size'])
        m=ir.Mod(core.irx(bc,[x for x in RE[:-4] ]+['--opaque','pod_vector<unsigned int>::(size|push_back)','--entry','^q_'])['module']).fns
        guard('recorder','put_var_vecad',obs,lambda: recorder_vec(m['q_vecad']),m['q_vecad'])
        for o,n in(('LdpOp','q_ldp'),('LdvOp','q_ldv')): guard('recorder','PutLoadOp '+o,obs,lambda: recorder_load(m[n],o),m[n])
    else:
        m=ir.Mod(core.irx(bc,SW+['--bind','h_op=%d'%K[op],'--entry','^w_'])['module']).fns
        flow.disjoint=lambda s1,o1,n1,s2,o2,n2: bool(s1!=s2)     # rows of different variables
        for n,f in sorted(m.items()):
            if n[:2]!='w_': continue
            sw=Sw(n); guard('load' if op[:2]=='Ld' else 'store','%s in %s%s'%(op,n[2:],mode),obs,lambda: sweep(f,op,sw,not nd),f)
    return obs
def p22(prop,tier,t0):
    rep=core.Report(prop)
    for o in core.pmap(run,jobs()): rep.merge(o)
    return core.finish(rep,tier,t0,'path-sensitive value flow through the recording of accesses to elements of VecAD vectors, and through one load or store operator of each kind in every sweep',{'index':10,'load':6,'store':10,'load-record':10,'store-record':50})
