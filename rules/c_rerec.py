"""The optimizer writes the new recording: every operator that is kept is
recorded again with its arguments mapped, every parameter that is used has a
copy, dependent variables and skip lists refer to the new addresses."""
import core,ir
from aff import Aff
import c_opt
from c_opt import OW,For,A,RED,RES,VARS,CMP,ST,CSUM,UN,K,NUM,NEVER,CACHE,argloop,argslot,slot,ld,vec,strip,cal,plus,curof,finishob,lits,lit0,residual
from pathx import resolve
REC='recorder<'
def pure2(q):
    s=strip(q)
    if REC in q: return False
    return c_opt.pure(q) or s in('dyn_par_op','dyn_par_arg','dyn2par_index','num_arg_dyn','num_par_all','num_dynamic_par','n_dyn_independent')
def gl(fn):
    def g(name,off):
        x=fn.mod.globals.get(name[2:]) if name.startswith('g:') else None
        if not x or 'ints' not in x: return None
        w={'i8':1,'i16':2,'i32':4,'i64':8}.get(x['t'].split(' x ')[-1].rstrip(']'))
        return ('c',x['ints'][off//w]) if w and off%w==0 and 0<=off//w<len(x['ints']) else None
    return g
def ev_(e): return isinstance(e[0],str) and e[0]!='store'
def evalc(c,phi,v):
    """truth of a condition on the state alone, None when it depends on more"""
    def n(e):
        if e==phi: return v
        if e[0]=='c': return e[1]
        if e[0] in('add','and','or','sub','shl'):
            a,b=n(e[1]),n(e[2])
            if a is None or b is None: return None
            return {'add':a+b,'sub':a-b,'and':a&b,'or':a|b,'shl':a<<(b&63)}[e[0]]&(2**32-1)
        return None
    if c[0]=='not':
        x=evalc(c[1],phi,v); return None if x is None else not x
    if c[0]=='cmp':
        a,b=n(c[2]),n(c[3])
        if a is None or b is None: return None
        a&=2**32-1; b&=2**32-1
        f={'eq':a==b,'ult':a<b,'ule':a<=b,'ugt':a>b,'uge':a>=b}
        return f.get(c[1])
    return None
def at_state(s,phi,v):
    return all(evalc(c,phi,v) in(None,t) for c,t in lits(s))
def nextof(s,phi,v):
    x=s.env['next'].get(phi[1])
    if x is None: return None
    x=resolve(x,s.conds)
    while x[0]=='sel':
        t=evalc(x[1],phi,v)
        if t is None: return None
        x=x[2] if t else x[3]
    return v if x==phi else x[1] if x[0]=='c' else None
# -------------------------------------------------------------------- operators
def spec(op,fixed):
    if op in('ErfOp','ErfcOp'): return [('V',0),('K',0.0),('K',1.1283791670955126)]
    if op[:-2] in UN: return [('V',0)]
    if op=='DisOp': return [('C',0),('V',1)]
    if op=='CExpOp': return [('C',0),('C',1)]+[('V' if fixed[1]>>k&1 else 'P',k+2) for k in range(4)]
    if op=='PriOp': return [('C',0),('V' if fixed[0]&1 else 'P',1),('T',2),('V' if fixed[0]&2 else 'P',3),('T',4)]
    if op in('LdpOp','LdvOp'): return [('A',0),('V' if op=='LdvOp' else 'P',1),('L',2)]
    if op in ST: return [('A',0)]+[('V' if k in VARS[op] else 'P',k) for k in(1,2)]
    if op=='ParOp': return [('P',0)]
    if op in('InvOp','EndOp','FunrvOp'): return []
    if op=='BeginOp': return [('C',0)]
    if op=='AFunOp': return [('C',k) for k in range(4)]
    if op in('FunapOp','FunrpOp'): return [('P',0)]
    if op=='FunavOp': return [('V',0)]
    return [('V' if k in VARS[op] else 'P',k) for k in range(2)]
NORES=CMP+ST+['PriOp','EndOp','AFunOp','FunapOp','FunavOp','FunrpOp']
class Roles: pass
def roles(fn,L):
    """the vectors of the pass, by what they hold"""
    R=Roles(); R.OU=R.PREV=R.NV=R.NP=R.VI=None
    for I in fn.calls():
        q=strip(fn.callee(I) or ''); w=None
        if q in('get_op_usage','get_op_previous'):
            a=[o for o in I['o']]
            if q=='get_op_usage': R.OU=('ptr',a[-1],0)
            else: R.PREV=('ptr',a[-2],0)
    if R.OU is None or R.PREV is None: raise core.Broken('call of get_op_usage not found in optimize_run')
    def walk(op):
        w=OW(fn,pure2,gl(fn),limit=20000,visits=2); w.op=NUM[op]; return [s for s in w.run_loop(L) if s.env['exit']==L.h]
    for s in walk('SinOp'):
        cur=curof(fn,L,None,s)
        for e in s.ev:
            if e[0]=='store' and vec(e[1]) and e[2][0]=='ev' and strip(s.ev[e[2][1]][0])=='PutOp': R.NV=vec(e[1])[0]
    for op,k,n in(('MulpvOp','NP',0),('LdpOp','VI',0)):
        for s in walk(op):
            cur=curof(fn,L,None,s)
            for e in s.ev:
                if ev_(e) and strip(e[0])=='PutArg' and len(e[1])>1:
                    v=ld(e[1][1])
                    if v is not None and slot(v[1],cur)==0: setattr(R,k,v[0])
    R.st=None
    for s in walk('AFunOp'):
        for p,x in s.env['next'].items():
            x=resolve(x,s.conds)
            if x==('c',K['arg_atom']): R.st=('phi',p)
    for k in('NV','NP','VI','st'):
        if getattr(R,k) is None: raise core.Broken('%s not identified in optimize_run'%k)
    return R
def same(form,e,s,cur,R,fixed,w):
    k,n=form
    def raw(x): return slot(x,cur)==n or (n in fixed and x==('c',fixed[n]))
    if k=='C': return raw(e)
    if k=='V':
        v=ld(e); return v is not None and v[0]==R.NV and cal(v[1],'var2op') and raw(v[1][3])
    if k=='P':
        v=ld(e); return v is not None and v[0]==R.NP and raw(v[1])
    if k=='A':
        v=ld(e); return v is not None and v[0]==R.VI and raw(v[1])
    if e[0]!='ev': return False
    x=s.ev[e[1]]
    if not ev_(x): return False
    if k=='K': return strip(x[0])=='put_con_par' and x[1][1] in(('&',('f',n)),('f',n))
    if k=='L': return strip(x[0])=='num_var_load' and not any(ev_(y) and strip(y[0])=='PutLoadOp' for y in s.ev[:e[1]])
    if k=='T':
        if strip(x[0])!='PutTxt': return False
        y=x[1][1]
        return y[0]=='ev' and strip(s.ev[y[1]][0])=='GetTxt' and raw(s.ev[y[1]][1][1])
    return False
NAME={'V':'the new address of the variable in argument %d','P':'the new index of the parameter in argument %d','C':'argument %d','A':'the new offset of the VecAD vector in argument %d','K':'the constant %r','T':'the text of argument %d','L':'the number of load operators (argument %d)'}
def rerecord(op,fixed,fn,obs,name):
    L=argloop(fn); R=roles(fn,L); bad=[]; und=[]; seen=0; emitted=0
    w=OW(fn,pure2,gl(fn),limit=20000,visits=6 if op=='CExpOp' else 3,readonly=lambda q: strip(q) in('num_var_op','num_var_load')); w.fixed=fixed; w.op=NUM[op]
    wh=[ir.where1(I) for I in fn.calls() if fn.callee(I)=='h_arg'][0]
    try: ps=w.run_loop(L)
    except OverflowError: obs.append(('re-record',name,'undecided','too many paths','')); return
    S=K; atomic=op in('AFunOp','FunapOp','FunavOp','FunrpOp','FunrvOp')
    states={'AFunOp':[S['start_atom'],S['end_atom']],'FunapOp':[S['arg_atom'],S['end_atom']],'FunavOp':[S['arg_atom'],S['end_atom']],'FunrpOp':[S['ret_atom'],S['end_atom']],'FunrvOp':[S['ret_atom'],S['end_atom']]}.get(op,[S['start_atom']])
    sp=spec(op,fixed) if op!='CSumOp' else []
    for st in states:
      for s in ps:
        if s.env['exit']!=L.h or not at_state(s,R.st,st): continue
        cur=curof(fn,L,w,s)
        if cur is None: continue
        seen+=1
        yes=None; prev=None; csum={}
        for c,t in lits(s):
            if c[0]=='cmp' and c[1]=='eq':
                v=ld(c[2])
                if v is not None and v[0]==R.OU:
                    if v[1]==cur and c[3]==('c',K['yes']): yes=t
                    if v[1]==cur and c[3][0]=='c' and c[3][1]!=K['yes'] and t: yes=False
                    if cal(v[1],'var2op') and c[3]==('c',K['csum']):
                        k=slot(v[1][3],cur)
                        if k is not None: csum[k]=t
            x,tt=lit0(c,t)
            v=ld(x)
            if v is not None and v[0]==R.PREV and v[1]==cur: prev=tt
        ev=[(i,strip(e[0]),e) for i,e in enumerate(s.ev) if ev_(e)]
        puts=[(i,q,e) for i,q,e in ev if q in('PutOp','PutLoadOp') and e[1][1]!=('c',NUM['CSkipOp'])]
        csc=[(i,e) for i,q,e in ev if q=='record_csum']
        args=[a for i,q,e in ev if q=='PutArg' for a in e[1][1:]]
        nv=[e for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==R.NV and vec(e[1])[1]==cur]
        no=[(i,e) for i,e in enumerate(s.ev) if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==R.PREV and vec(e[1])[1]==cur]
        for e in s.ev:
            if e[0]=='store' and vec(e[1]) and vec(e[1])[0] in(R.NV,R.PREV) and vec(e[1])[1]!=cur: bad.append(('the new address of another operator is changed',e[3]))
            if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==R.NP: bad.append(('the new index of a parameter is changed while operators are recorded',e[3]))
        # atomic calls : whether it is recorded depends on the whole call
        if atomic and op!='AFunOp':
            if st==S['end_atom']:
                if yes is not True and (puts or args): bad.append(('part of a call that is not used is recorded',(puts or [(0,0,None)])[0][2] and puts[0][2][2]))
                ctl=nextcheck(op,s,st,R,cur,bad,False)
                continue
            want=True
        else: want=yes is True
        if op=='AFunOp': nextcheck(op,s,st,R,cur,bad,yes)
        elif atomic: nextcheck(op,s,st,R,cur,bad,True)
        if yes is not True and not want:
            if op not in('CSumOp',) and puts and yes is None and not atomic: und.append('recorded although its use is not tested')
            continue
        # summations
        if csc:
            if op not in CSUM+['CSumOp']: bad.append(('%s is recorded as a summation'%op,csc[0][1][2])); continue
            i,e=csc[0]; emitted+=1
            if op in CSUM and True not in csum.values(): und.append('summation without a test')
            cu=[a for a in e[1] if cal(resolve(a,s.conds),'h_var')]
            if not any(resolve(a,s.conds)[2]==cur for a in cu): bad.append(('the summation of another result is recorded',e[2]))
            if not nv or nv[-1][2]!=('extractvalue',('ev',i),1): bad.append(('the new address is not the one of the summation',e[2]))
            if puts: bad.append(('the operator is recorded in addition to the summation that replaces it',puts[0][2][2]))
            continue
        if op=='CSumOp': bad.append(('a summation is not recorded',None)); continue
        if not puts:
            if prev is False or prev is None and op in NEVER or op in NEVER: bad.append(('the operator is used and not recorded',None)); continue
            if prev is None: und.append('not recorded on a path where no match was tested'); continue
            # replaced by a previous operator
            if op not in NORES:
                v=ld(nv[-1][2]) if nv else None
                pv=ld(v[1]) if v is not None else None
                if v is None or v[0]!=R.NV or pv is None or pv[0]!=R.PREV or pv[1]!=cur: bad.append(('the result of the operator is not the one of the operator that replaces it',nv[-1][3] if nv else None))
            continue
        emitted+=1; i,q,e=puts[0]
        if len(puts)>1: bad.append(('the operator is recorded more than once',puts[1][2][2])); continue
        po=e[1][1]
        # operands absorbed in a summation have no address
        if op in CSUM:
            for k in VARS[op]:
                if csum.get(k) is not False: bad.append(('an operand that was absorbed in a summation is used by itself',e[2]))
        exp=NUM[op]; form=sp
        zero=lambda a: a[0]=='pre' and strip(fn.callee(fn.ins[a[1]]) or '')=='put_con_par'
        if op=='FunavOp' and args and not same(('V',0),args[0],s,cur,R,fixed,w):
            z=[t for c,t in lits(s) for x,t in [lit0(c,t)] if same(('V',0),x,s,cur,R,fixed,w)]
            if z==[False] and len(args)==1 and zero(args[0]): exp=NUM['FunapOp']; form=None
        elif op=='FunavOp':
            z=[t for c,t in lits(s) for x,t in [lit0(c,t)] if same(('V',0),x,s,cur,R,fixed,w)]
            if z==[False]: bad.append(('a variable that is not recorded is an argument of the call',e[2]))
        inv=lambda c: c[0]=='cmp' and c[1]=='eq' and any(same(('P',0),c[k],s,cur,R,fixed,w) and maxaddr(fn,c[5-k]) for k in(2,3))
        if op in('FunapOp','FunrpOp') and args and len(args)==1 and same(('P',0),args[0],s,cur,R,fixed,w):
            if not any(inv(c) and not t for c,t in lits(s)): bad.append(('a parameter that is not recorded is an argument of an atomic call',e[2]))
        elif op in('FunapOp','FunrpOp') and args and len(args)==1:
            z=[t for c,t in lits(s) if inv(c)]
            x=args[0]
            if zero(x) and True in z: form=None
            elif x[0]=='sel' and inv(x[1]) and zero(x[2]) and same(('P',0),x[3],s,cur,R,fixed,w): form=None
        if op=='FunrvOp' and yes is False and len(args)==1 and zero(args[0]): exp=NUM['FunrpOp']; form=None
        if po!=('c',exp): bad.append(('the operator is recorded as another operator',e[2]))
        if (op in('LdpOp','LdvOp'))!=(q=='PutLoadOp'): bad.append(('a load operator is not recorded as a load',e[2]))
        if form is not None:
            if len(args)!=len(form): bad.append(('%d arguments are recorded, %d expected'%(len(args),len(form)),e[2]))
            else:
                for a,f in zip(args,form):
                    if not same(f,a,s,cur,R,fixed,w): bad.append(('an argument of the new operator is not '+NAME[f[0]]%(f[1],),e[2]))
        if op not in NORES and not(op=='FunrvOp' and yes is False):
            if not nv or nv[-1][2]!=('ev',i): bad.append(('the new address of the result is not the one of the new operator',e[2]))
        # new operator index : number of operators just before
        g=no and no[-1][1][2][0]=='ev' and strip(s.ev[no[-1][1][2][1]][0])=='num_var_op'
        if not g: bad.append(('the new index of the operator is not set',e[2]))
        else:
            j=no[-1][1][2][1]
            if j>i or any(j<a<i and ev_(s.ev[a]) and strip(s.ev[a][0]) in('PutOp','PutLoadOp') for a in range(j,i)): bad.append(('the new index of the operator is the one of another operator',e[2]))
    if not emitted: und.append('never recorded')
    if not seen: und.append('no complete iteration')
    finishob('re-record',name,bad,und,wh,obs)
def nextcheck(op,s,st,R,cur,bad,act):
    S=K; n=nextof(s,R.st,st)
    x=s.env['next'].get(R.st[1]); x=resolve(x,s.conds)
    if op=='AFunOp':
        if st==S['start_atom']: want=S['arg_atom'] if act else S['end_atom']
        else: want=S['start_atom']
        if act is None and st==S['start_atom']: want=S['end_atom'] if not any(ev_(e) and strip(e[0])=='PutArg' for e in s.ev) else S['arg_atom']
        if n is not None and n!=want: bad.append(('the operators of an atomic call are not followed correctly',None))
        if n==S['arg_atom']:
            v={resolve(y,s.conds) for p,y in s.env['next'].items()}
            sl={slot(y,cur) for y in v}
            if not {2,3}<=sl: bad.append(('the number of arguments and results of an atomic call is not taken from the call',None))
        return
    if not act:
        if n is not None and n!=st: bad.append(('the operators of an atomic call are not followed correctly',None))
        return
    want=S['ret_atom'] if op in('FunapOp','FunavOp') else S['end_atom']
    # count - 1 == 0
    t=None
    for c,tt in lits(s):
        if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',0) and plus(c[2])[1]==-1 and len(plus(c[2])[0])==1: t=tt
        if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',1) and c[2][0]=='phi' and c[2]!=R.st: t=tt
    if t is None and x[0]=='sel':
        c=x[1]; a,b=x[2],x[3]
        while c[0]=='not': c=c[1]; a,b=b,a
        if c[0]=='cmp' and c[1]=='eq' and (c[3]==('c',0) and plus(c[2])[1]==-1 or c[3]==('c',1)):
            if a!=('c',want): bad.append(('the operators of an atomic call are not followed correctly',None))
            if b not in(R.st,('c',st)): bad.append(('the operators of an atomic call are not followed correctly',None))
        return
    if t is None: 
        if n==st: bad.append(('the end of the arguments of an atomic call is not found',None))
        return
    if n is not None and n!=(want if t else st): bad.append(('the operators of an atomic call are not followed correctly',None))
# ------------------------------------------------------------------ parameters
def maxaddr(fn,e):
    if e[0]=='pre': return 'max' in (fn.callee(fn.ins[e[1]]) or '')
    return e in(('c',-1),('c',2**32-1)) or e[0]=='call' and 'max' in e[1]
class PW(OW):
    dop=None
    def load(self,s,p,t,I):
        v=vec(p)
        if v is not None and cal(v[0],'dyn_par_op') and self.dop is not None: return ('c',self.dop)
        return OW.load(self,s,p,t,I)
def val(x): return x[1] if x[0]=='&' else x
class Lp:
    """one loop outside of the pass over the operators"""
    def __init__(self,fn,l,dop=None,visits=3,limit=6000):
        self.l=l; w=PW(fn,pure2,gl(fn),limit=limit,visits=visits); w.dop=dop; w.op=NUM['SinOp']; self.w=w
        ps=w.run_loop(l); self.full=[s for s in ps if s.env['exit']==l.h]; self.out=[s for s in ps if s.env['exit']!=l.h]
        self.init={}; s0=(self.full+self.out)[0] if ps else None
        for I in fn.blocks[l.h]:
            if I['op']=='phi' and s0 is not None:
                o=[w.val(s0,x) for x,pb in I['o'] if int(str(pb).lstrip('b')) not in l.body]
                if len(o)==1: self.init[I['i']]=o[0]
        self.iv=None; self.up=None
        for s in self.out:
            for c,t in lits(s):
                if c[0]!='cmp': continue
                pr,x,y=c[1:]
                if y[0]=='phi' and y[1] in self.init: x,y=y,x; pr={'ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}.get(pr,pr)
                if x[0]!='phi' or x[1] not in self.init: continue
                if (pr=='ult' and not t) or (pr=='uge' and t) or (pr=='eq' and t): self.iv=x; self.up=(y,0)
                if (pr=='ule' and not t) or (pr=='ugt' and t): self.iv=x; self.up=(y,1)
        n=[s.env['next'].get(self.iv[1]) for s in self.full] if self.iv else []
        self.ok=bool(n) and all(x is not None and plus(x)==((self.iv,),1) for x in n)
        self.lo=self.init.get(self.iv[1]) if self.iv else None
def truth_of(s,e):
    for c,t in lits(s):
        x,tt=lit0(c,t)
        if x[0]=='load' and e[0]=='load' and x[1]==e[1]: return tt
    return None
def params(fn,obs,dyn):
    M=argloop(fn); R=roles(fn,M); bad=[]; und=[]; wh='optimize_run'; D=fn.doms(); PU=None
    for I in fn.calls():
        if strip(fn.callee(I) or '')=='get_par_usage': PU=('ptr',I['o'][-1],0)
        if strip(fn.callee(I) or '')=='get_dyn_previous': DP=('ptr',I['o'][-1],0)
    loops=[l for l in Aff(fn,lambda I:None).loops if not l.body&M.body]
    Ls=[]
    for l in loops:
        try: Ls.append(Lp(fn,l,visits=2))
        except OverflowError: continue
    isdyn=lambda i: ('load',('call','operator[]',('call',PD,('arg',3)),i),0)
    pd=[fn.callee(I) for I in fn.calls() if strip(fn.callee(I) or '')=='par_is_dyn']; PD=pd[0] if pd else ''
    use=lambda i: ('load',('call','operator[]',PU,i),0)
    init=[f for f in Ls if any(e[0]=='store' and vec(e[1]) and vec(e[1])[0]==R.NP and maxaddr(fn,e[2]) for s in f.full for e in s.ev)]
    if not init: und.append('initial value of the parameter map')
    con=ind=dep=None
    for f in Ls:
        inner=any(f.l is not g.l and f.l.body<g.l.body for g in Ls)
        if inner: continue
        for s in f.full:
            for e in s.ev:
                if e[0]!='store' or not vec(e[1]) or vec(e[1])[0]!=R.NP: continue
                i,x=vec(e[1])[1],e[2]
                if maxaddr(fn,x):
                    if f.iv!=i: bad.append(('the new index of a parameter is cleared',e[3]))
                    continue
                if x[0]=='ev':
                    c=s.ev[x[1]]; q=strip(c[0]); y=val(c[1][1])
                    po=s.ev[y[1]] if y[0]=='ev' else None
                    if po is not None and strip(po[0])=='par_one' and q!='put_dyn_par' and False: pass
                    if q in('put_con_par','put_dyn_par','put_dyn_cond_exp'):
                        if not(po and ev_(po) and strip(po[0])=='par_one' and po[1][1]==i) and not any(g.l.body<f.l.body for g in Ls if g is not f): bad.append(('the value of another parameter is recorded',e[3]))
                    if q=='put_con_par':
                        if truth_of(s,isdyn(i)) is True: bad.append(('a dynamic parameter is recorded as a constant',e[3]))
                        con=f
                    elif q=='put_dyn_par' and c[1][2]==('c',K['dyn']['ind_dyn']): ind=f
                    elif q in('put_dyn_par','put_dyn_cond_exp'):
                        dep=f
    if con is None or ind is None or dep is None: und.append('loops over the parameters: %s'%[n for n,v in(('constant',con),('independent',ind),('dependent',dep)) if v is None]); finishob('parameters','optimize_run',bad,und,wh,obs); return
    n_ind=lambda e: cal(e,'n_dyn_independent')
    if not(ind.ok and ind.lo==('c',1) and ((n_ind(ind.up[0]) and ind.up[1]==1) or (len(plus(ind.up[0])[0])==1 and n_ind(plus(ind.up[0])[0][0]) and plus(ind.up[0])[1]+ind.up[1]==1))):
        (bad if ind.ok and ind.lo[0]=='c' else und).append(('the independent dynamic parameters are not recorded again one by one',None) if ind.ok and ind.lo[0]=='c' else 'range of the independent dynamic parameters')
    for f,nm in((con,'constant'),(dep,'dynamic')):
        if not f.ok: und.append('range of the loop over the %s parameters'%nm); continue
        t,c=plus(f.lo)
        if not((f.lo in(('c',0),('c',1))) and nm=='constant' or len(t)==1 and n_ind(t[0]) and c<=1 and (nm=='constant' or c==1)): bad.append(('the loop over the %s parameters does not start after the independent dynamic parameters'%nm,None))
        if not(cal(f.up[0],'num_par_all') and f.up[1]==0): bad.append(('the loop over the %s parameters does not reach all of them'%nm,None))
    for s in con.full:
        i=con.iv
        st=[e for e in s.ev if e[0]=='store' and vec(e[1])==(R.NP,i)]
        if truth_of(s,isdyn(i)) is False and truth_of(s,use(i)) is True and not st: bad.append(('a constant parameter that is used is not recorded',None))
    if not(con.l.h in D[dep.l.h] and ind.l.h in D[dep.l.h]): bad.append(('the dependent dynamic parameters are recorded before their arguments',None))
    if con.l.h in D[ind.l.h]: bad.append(('constants are recorded before the independent dynamic parameters',None))
    for f in init:
        if any(g.l.h in D[f.l.h] for g in(con,ind,dep)): bad.append(('the new indices of parameters are cleared after they are set',None))
    # parameter zero first
    R0=[]
    for I in fn.calls():
        if strip(fn.callee(I) or '')=='put_con_par' and fn.blk[I['i']] not in M.body: R0.append(I)
    if not any(fn.blk[I['i']] in D[ind.l.h] for I in R0): bad.append(('the parameter with index zero is not recorded first',None))
    # the parameter that stands for values that are not used
    # dependent dynamic parameters, an operator at a time
    ndyn=K['dyn']
    for op,n in ndyn.items():
        if op in('number_dyn','ind_dyn'): continue
        dynop(fn,R,PU,DP,isdyn,use,dep.l,op,n,bad,und,dyn)
    finishob('parameters','optimize_run',bad,und,wh,obs)
NARG={'cond_exp_dyn':5,'dis_dyn':2,'result_dyn':0,'add_dyn':2,'sub_dyn':2,'mul_dyn':2,'div_dyn':2,'pow_dyn':2,'zmul_dyn':2}
def dynop(fn,R,PU,DP,isdyn,use,l,op,n,bad,und,dyn):
    try: f=Lp(fn,l,dop=n,visits=2 if op=='atom_dyn' else 3)
    except OverflowError: und.append('paths of '+op); return
    i=f.iv; seen=0
    # counters: arguments and dynamic index
    DA=None; cnt=None; arg=None
    for s in f.full:
        d=truth_of(s,isdyn(i)); u=truth_of(s,use(i))
        st=[e for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==R.NP]
        puts=[(j,e) for j,e in enumerate(s.ev) if ev_(e) and strip(e[0]) in('put_dyn_par','put_dyn_cond_exp')]
        if d is not True:
            if puts or st: bad.append(('a constant is recorded as a dynamic parameter',None))
            if any(('phi',p)!=i and plus(x)!=((('phi',p),),0) for p,x in s.env['next'].items() if p in f.init): bad.append(('the position in the dynamic parameters is changed by a constant',None))
            continue
        seen+=1
        # counters
        nx={p:plus(x) for p,x in s.env['next'].items() if ('phi',p)!=i}
        na=NARG.get(op,1)
        one=[p for p,(t,c) in nx.items() if t==(('phi',p),) and c==1 and n_init(f.init.get(p))]
        if not one: bad.append(('the index of the dynamic parameters is not advanced for '+op,None))
        dyni=('phi',one[0]) if one else None
        args=[p for p in nx if not n_init(f.init.get(p)) and f.init.get(p)==('c',0)]
        if args and op!='atom_dyn':
            if nx[args[0]]!=((('phi',args[0]),),na): bad.append(('the arguments of the dynamic parameters are not advanced by %d for %s'%(na,op),None))
        elif args:
            t,c=nx[args[0]]; a0=('phi',args[0])
            o=sorted(da(y,a0) if da(y,a0) is not None else -1 for y in t if y!=a0)
            if not(a0 in t and c==6 and o==[2,3]): bad.append(('the arguments of an atomic call are not skipped',None))
        if not args: und.append('position of the arguments'); continue
        a0=('phi',args[0])
        if op in('result_dyn','atom_dyn'):
            if op=='result_dyn' and puts: bad.append(('a result of an atomic call is recorded by itself',puts[0][1][2]))
            continue
        if u is not True:
            continue
        prev=None
        for c,t in lits(s):
            if c[0]=='cmp' and c[1]=='eq':
                for x,y in((c[2],c[3]),(c[3],c[2])):
                    v=ld(x)
                    if v is not None and v==(DP,dyni) and cal(y,'num_dynamic_par'): prev=not t
        if not puts:
            ok=False
            if st:
                v=ld(st[-1][2]); pv=ld(v[1]) if v is not None and v[0]==R.NP else None
                dp=ld(pv[1]) if pv is not None and (cal(pv[0],'dyn2par_index') or pv[0][0]=='pre') else None
                ok=dp==(DP,dyni) and vec(st[-1][1])[1]==i and prev is True
            if not ok: bad.append(('a dynamic parameter that is used is neither recorded nor replaced by its match',st[-1][3] if st else None))
            continue
        if prev is True: continue
        j,e=puts[0]; q=strip(e[0]); a=e[1][2:]
        if not st or st[-1][2]!=('ev',j) or vec(st[-1][1])[1]!=i: bad.append(('the new index of a dynamic parameter is not set',e[2]))
        def par(x,k):
            v=ld(x); return v is not None and v[0]==R.NP and da(v[1],a0)==k
        if op=='cond_exp_dyn':
            good=q=='put_dyn_cond_exp' and len(a)==5 and da(a[0],a0)==0 and all(par(a[k],k) for k in range(1,5))
        else:
            good=q=='put_dyn_par' and a[0]==('c',n) and len(a)==1+na
            if good and op=='dis_dyn': good=da(a[1],a0)==0 and par(a[2],1)
            elif good: good=all(par(a[1+k],k) for k in range(na))
        if not good: bad.append(('%s is not recorded with the new indices of its arguments'%op,e[2]))
    if not seen: und.append('no iteration for '+op)
def n_init(e): return e is not None and (cal(e,'n_dyn_independent') or e[0]=='call' and 'n_dyn_independent' in e[1])
def da(e,a0):
    """dyn_par_arg[ i_arg + k ] -> k"""
    v=ld(e)
    if v is None or not cal(v[0],'dyn_par_arg'): return None
    t,c=plus(v[1])
    return c if t==(a0,) else None
def atomdyn(fn,obs):
    """an atomic call among the dynamic parameters"""
    M=argloop(fn); R=roles(fn,M); bad=[]; und=[]; wh='optimize_run'; PU=None
    for I in fn.calls():
        if strip(fn.callee(I) or '')=='get_par_usage': PU=('ptr',I['o'][-1],0)
    pb={fn.blk[I['i']] for I in fn.calls() if strip(fn.callee(I) or '')=='put_dyn_cond_exp'}
    loops=Aff(fn,lambda I:None).loops
    dep=[l for l in loops if l.body&pb and not l.body&M.body]
    if not dep: raise core.Broken('loop over the dynamic parameters not found')
    dep=min(dep,key=lambda l:len(l.body)); D=K['dyn']
    outer=Lp(fn,dep,dop=D['atom_dyn'],visits=2)
    a0=[('phi',p) for p,x in outer.init.items() if x==('c',0)]
    def arg(e):
        """dyn_par_arg[ i_arg + ...] -> (constant, [other terms])"""
        v=ld(e)
        if v is None or not cal(v[0],'dyn_par_arg'): return None
        t,c=plus(v[1])
        return (c,[x for x in t if x not in a0]) if any(x in a0 for x in t) else None
    def pushed(e):
        x=e[1][1]
        return ('load',x,0) if x[0]=='call' and x[1]=='operator[]' else val(x)
    isd=lambda s,e: next((tt for c,t in lits(s) for x,tt in [lit0(c,t)] if x[0]=='load' and vec(x[1]) and cal(vec(x[1])[0],'par_is_dyn') and vec(x[1])[1]==e),None)
    def np(x,e):
        v=ld(x); return v is not None and v[0]==R.NP and v[1]==e
    kinds=set()
    for l in [l for l in loops if l.body<dep.body]:
        f=Lp(fn,l,dop=D['atom_dyn'],visits=2)
        for s in f.full:
            pb=[e for e in s.ev if ev_(e) and strip(e[0])=='push_back']
            cnt=f.up and arg(f.up[0])
            # the argument this iteration is about
            idx=set()
            def find(x):
                if isinstance(x,tuple):
                    a=arg(x) if x and x[0]=='load' else None
                    if a is not None and f.iv in a[1]: idx.add(x)
                    for y in x: find(y)
            for c,t in lits(s): find(c)
            for e in s.ev: find(e[1]); find(e[2] if e[0]=='store' else ())
            for x in s.env['next'].values(): find(x)
            if len(idx)!=1:
                if pb: und.append('loop of an atomic call')
                continue
            e=next(iter(idx)); c0,t0=arg(e); o=[x for x in t0 if x!=f.iv]
            if not o: kind='arguments'
            elif len(o)==1 and arg(o[0]) is not None and arg(o[0])==(2,[]): kind='results'
            else: bad.append(('the position of an argument of an atomic call is wrong',None)); continue
            if c0!=5: bad.append(('the position of the %s of an atomic call is wrong'%kind,None))
            if cnt is not None and (cnt!=((2,[]) if kind=='arguments' else (3,[])) or f.lo!=('c',0) or f.up[1]): bad.append(('not all the %s of an atomic call are taken into account'%kind,None))
            d=isd(s,e)
            if not pb:
                # is the call used
                if kind=='results':
                    for p,x in s.env['next'].items():
                        if ('load',('call','operator[]',PU,e),0) not in leaf(x): continue
                        kinds.add('used')
                        was=[tt for c,t in lits(s) for y,tt in [lit0(c,t)] if ('phi',p) in leaf(y) and not any(z[0]=='load' for z in leaf(y) if isinstance(z,tuple) and z)]
                        if ('phi',p) not in leaf(x) and False not in was: bad.append(('the use of a result of an atomic call is replaced by the use of the next one',None))
                continue
            kinds.add(kind)
            if len(pb)!=1: bad.append(('an argument of an atomic call is recorded more than once',pb[1][2])); continue
            x=pushed(pb[0])
            if kind=='arguments':
                pos=[tt for c,t in lits(s) for y,tt in [lit0(c,t)] if y==e]
                u=truth_of(s,('load',('call','operator[]',PU,e),0))
                if np(x,e): 
                    if u is not True: bad.append(('an argument that has no new index is recorded',pb[0][2]))
                elif x==('c',0):
                    if u is not False and False not in pos: bad.append(('an argument that is used is replaced',pb[0][2]))
                else: bad.append(('an argument of an atomic call is not its new index',pb[0][2]))
            elif d is True:
                put=[(j,y) for j,y in enumerate(s.ev) if ev_(y) and strip(y[0])=='put_dyn_par']
                st=[y for y in s.ev if y[0]=='store' and vec(y[1])==(R.NP,e)]
                if not put or not st or st[-1][2]!=('ev',put[0][0]): bad.append(('the new index of a result of an atomic call is not set',pb[0][2])); continue
                if not np(x,e) and x!=('ev',put[0][0]): bad.append(('a result of an atomic call is not its new index',pb[0][2]))
                y=val(put[0][1][1][1])
                if not(y[0]=='ev' and strip(s.ev[y[1]][0])=='par_one' and s.ev[y[1]][1][1]==e): bad.append(('the value of another parameter is recorded',put[0][1][2]))
                op=put[0][1][1][2]
                fl=[(p,z) for p,z in s.env['next'].items() if f.init.get(p) in(('c',1),('c',0)) and ('phi',p)!=f.iv]
                first=None
                for c,t in lits(s):
                    y,tt=lit0(c,t)
                    for p,z in fl:
                        if y in(('phi',p),('and',('phi',p),('c',1))): first=(tt==(f.init[p]==('c',1)))
                iv0=[c for c,t in lits(s) if c[0]=='cmp' and f.iv in c[2:4] and any(y[0]=='c' for y in c[2:4])]
                if first is None and iv0 and op[0]=='c': bad.append(('the operator of an atomic call is chosen by the position of the result, not by the first dynamic one',put[0][1][2]))
                elif first is None: und.append('first result of an atomic call')
                elif op!=('c',D['atom_dyn'] if first else D['result_dyn']): bad.append(('the first dynamic result of an atomic call is not its operator' if first else 'a result of an atomic call is recorded as another call',put[0][1][2]))
                elif first and all(z==('c',1 if f.init[p]==('c',1) else 0) or z==('phi',p) for p,z in fl): bad.append(('every dynamic result is recorded as a new call',None))
            elif d is False:
                mx=[t for c,t in lits(s) if c[0]=='cmp' and c[1]=='eq' and any(np(y,e) for y in c[2:4]) and any(maxaddr(fn,y) for y in c[2:4])]
                if np(x,e):
                    if True in mx: bad.append(('an invalid index is recorded as a result of an atomic call',pb[0][2]))
                elif x==('c',0):
                    if mx!=[True]: bad.append(('a constant result of an atomic call is replaced',pb[0][2]))
                else: bad.append(('a result of an atomic call is not its new index',pb[0][2]))
            else: und.append('kind of a result')
    for k in('arguments','results','used'):
        if k not in kinds: und.append('loop over the %s of a call'%k)
    n=0
    for s in outer.full:
        pb=[pushed(e) for e in s.ev if ev_(e) and strip(e[0])=='push_back']
        if not any(ev_(e) and strip(e[0])=='put_dyn_arg_vec' for e in s.ev): continue
        n+=1
        for k in range(5):
            if k>=len(pb) or arg(pb[k])!=(k,[]): bad.append(('argument %d of an atomic call is not copied'%k,None))
        t,c=plus(pb[-1])
        if c!=6 or sorted(arg(x)==(2,[]) and 2 or arg(x)==(3,[]) and 3 or 0 for x in t)!=[2,3]: bad.append(('the number of arguments of an atomic call is wrong',None))
    if not n: und.append('the path that records an atomic call')
    finishob('parameters','atomic call',bad,und,wh,obs)
def leaf(e):
    r={e}
    if isinstance(e,tuple):
        for x in e: r|=leaf(x)
    return r
def final(fn,obs):
    """dependent variables, VecAD vectors"""
    M=argloop(fn); R=roles(fn,M); bad=[]; und=[]; D=fn.doms(); ok=False; vec_=0; DEP=('arg',2); VU=None
    for I in fn.calls():
        if strip(fn.callee(I) or '')=='get_op_usage': VU=('ptr',I['o'][-2],0)
    loops=[l for l in Aff(fn,lambda I:None).loops if not l.body&M.body]
    for l in loops:
        try: f=Lp(fn,l,visits=2)
        except OverflowError: continue
        for s in f.full:
            for e in s.ev:
                if e[0]!='store' or not vec(e[1]): continue
                v,i=vec(e[1]); x=e[2]
                if v==DEP:
                    y=ld(x); o=ld(y[1][3]) if y is not None and cal(y[1],'var2op') else None
                    if not(y is not None and y[0]==R.NV and o==(DEP,i)): bad.append(('a dependent variable does not have the new address of its operator',e[3]))
                    elif not(f.ok and f.lo==('c',0) and cal(f.up[0],'size') and f.up[0][2]==DEP and not f.up[1] and i==f.iv): bad.append(('not all the dependent variables get their new address',e[3]))
                    elif M.h not in D[l.h]: bad.append(('the dependent variables are mapped before the operators are recorded',e[3]))
                    else: ok=True
                if v==R.VI and x[0]=='ev':
                    c=s.ev[x[1]]; vec_+=1
                    if strip(c[0])!='put_var_vecad_ind': bad.append(('the new offset of a VecAD vector is not the one of the new recording',e[3])); continue
                    a=c[1][1]; y=ld(a)
                    g=y[1] if y is not None else a
                    if g[0]=='ev': g=('call',s.ev[g[1]][0])+tuple(s.ev[g[1]][1])
                    if not(cal(g,'GetVecInd') and g[3]==i): bad.append(('an element of a VecAD vector is not the one of the old vector',e[3]))
                    if y is not None and y[0]!=R.NP: bad.append(('an element of a VecAD vector is not a new parameter index',e[3]))
                    if f.ok and (cal(f.up[0],'num_var_vecad')) and y is None:
                        if truth_of(s,('load',('call','operator[]',VU,f.iv),0)) is not True: bad.append(('a VecAD vector that is not used is recorded',e[3]))
                        if f.init.get(i[1] if i[0]=='phi' else None)!=('c',0): bad.append(('the first VecAD vector is not at the start of the list',e[3]))
                    # all elements : inner loop
                    if y is not None and f.iv in leaf(i) and not f.l.body&set() and any(f.l.body<g.body for g in loops):
                        t,cc=plus(i); o=[z for z in t if z!=f.iv]
                        if not(f.ok and f.lo==('c',1) and f.up[1]==1 and cal(f.up[0],'GetVecInd') and o==[f.up[0][3]] and cc==0):
                            if f.ok and f.lo[0]=='c' and cal(f.up[0],'GetVecInd'): 
                                # j + lo + k ... bound
                                if f.lo[1]+cc!=1 or len(o)!=1: bad.append(('not all the elements of a VecAD vector are recorded',e[3]))
                                elif f.up[1]+cc!=1: bad.append(('not all the elements of a VecAD vector are recorded',e[3]))
            if f.ok and cal(f.up[0],'num_var_vecad'):
                used_=truth_of(s,('load',('call','operator[]',VU,f.iv),0)) if VU else None
                # position of the next vector
                for p,x in s.env['next'].items():
                    if ('phi',p)==f.iv: continue
                    t,c=plus(x); o=[z for z in t if z!=('phi',p)]
                    o=[('call',s.ev[z[1]][0])+tuple(s.ev[z[1]][1]) if z[0]=='ev' and ev_(s.ev[z[1]]) else z for z in o]
                    if not(('phi',p) in t and c==1 and len(o)==1 and cal(o[0],'GetVecInd') and o[0][3]==('phi',p)): bad.append(('the position of the next VecAD vector is wrong',None))
                if used_ is True and not any(e[0]=='store' and vec(e[1]) and vec(e[1])[0]==R.VI for e in s.ev): bad.append(('a VecAD vector that is used is not recorded',None))
    if not ok and not bad: bad.append(('the dependent variables do not get their new address',None))
    if not vec_: und.append('VecAD vectors')
    finishob('re-record','dependent variables and VecAD vectors',bad,und,'optimize_run',obs)
