"""The optimizer : which parameters are used, which dynamic parameters are the
same as a previous one, which operators a conditional expression can skip, and
the terms of a cumulative summation."""
import core,ir
from aff import Aff
import c_opt
from c_opt import OW,VARS,CMP,ST,CSUM,UN,K,NUM,argloop,argslot,slot,ld,vec,strip,cal,plus,curof,finishob,lits,lit0,used
from c_rerec import pure2,gl,PW,Lp,spec,evalc,at_state,nextof,truth_of,val,leaf,ev_,NARG,n_init
from pathx import resolve
PU=('arg',4); OU=('arg',2); VU=('arg',3)
def pars(op,fixed):
    if op in('ErfOp','ErfcOp'): return [1,2]
    if op=='CExpOp': return [k+2 for k in range(4) if not fixed[1]>>k&1]
    if op=='PriOp': return [k for b,k in((1,1),(2,3)) if not fixed[0]&b]
    return [n for k,n in spec(op,fixed) if k=='P']
def stateof(fn,L):
    w=OW(fn,pure2,gl(fn),limit=20000,visits=2); w.op=NUM['AFunOp']
    for s in w.run_loop(L):
        if s.env['exit']!=L.h: continue
        for p,x in s.env['next'].items():
            if resolve(x,s.conds)==('c',K['arg_atom']): return ('phi',p)
    raise core.Broken('state of an atomic call not identified')
def istrue(e): return e[0]=='c' and e[1]&1
def markers(s): return [(vec(e[1])[1],e[2],e[3]) for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==PU]
def parusage(op,fixed,fn,obs,name):
    L=argloop(fn); bad=[]; und=[]; seen=0; st=stateof(fn,L)
    w=OW(fn,pure2,gl(fn),limit=20000,visits=3); w.fixed=fixed; w.op=NUM[op]
    wh=[ir.where1(I) for I in fn.calls() if fn.callee(I)=='h_arg'][0]
    try: ps=w.run_loop(L)
    except OverflowError: obs.append(('used-parameter',name,'undecided','too many paths','')); return
    want=pars(op,fixed) if op!='CSumOp' else []
    for s in ps:
        if s.env['exit']!=L.h or not at_state(s,st,K['start_atom']): continue
        cur=curof(fn,L,w,s)
        if cur is None: continue
        seen+=1; m=markers(s)
        for i,v,I in m:
            if v==('c',0): bad.append(('a parameter that is used is marked as not used',I))
        u=used(s,cur,OU)
        if u is False: continue
        for k in want:
            if any((slot(i,cur)==k or k in fixed and i==('c',fixed[k])) and istrue(v) for i,v,I in m): continue
            # absorbed in a cumulative summation ?
            absorbed=False
            if op in('AddpvOp','SubpvOp','SubvpOp'):
                dyn=None
                for c,t in lits(s):
                    x,tt=lit0(c,t); v=ld(x)
                    if v is not None and cal(v[0],'par_is_dyn') and slot(v[1],cur)==k: dyn=tt
                for c,t in lits(s):
                    if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',K['csum']) and t:
                        v=ld(c[2])
                        if v is not None and v[0]==OU and (v[1]==cur or cal(v[1],'var2op') and slot(v[1][3],cur)==1-k): absorbed=True
                if absorbed and dyn is not False: bad.append(('a dynamic parameter of a cumulative summation is not marked as used',None)); continue
                if absorbed: continue
            bad.append(('the parameter in argument %d is not marked as used'%k,None))
    if op=='CSumOp':
        ok=None
        for l in [l for l in Aff(fn,lambda I:None).loops if l.body<L.body]:
            f=Lp(fn,l,visits=2)
            for s in f.full:
                for i,v,I in markers(s):
                    if i[0]!='load' or i[1][0]!='idx' or not cal(i[1][1],'h_arg'): continue
                    cur=i[1][1][2]; g=len(i[1][3])==1 and i[1][3][0]==(f.iv,4)
                    lo=f.lo; c=i[1][2]//4
                    if g and f.up and slot(f.up[0],cur) is not None and slot(lo,cur) is not None:
                        if ok is None: ok=True
                        if not(slot(lo,cur) in(2,) and slot(f.up[0],cur)==4 and c==0 and f.up[1]==0 and istrue(v)): bad.append(('the dynamic parameters of CSumOp that are marked as used are not those from its argument 2 to its argument 4',I))
                    else: und.append('range of the dynamic parameters of CSumOp')
        if ok is None and not und: bad.append(('the dynamic parameters of CSumOp are not marked as used',None))
    if not seen: und.append('no complete iteration')
    finishob('used-parameter',name,bad,und,wh,obs)
def paratomic(fn,obs):
    """a call of an atomic function : its parameters are used when it depends on them"""
    L=argloop(fn); bad=[]; und=[]; st=stateof(fn,L); S=K
    wh=[ir.where1(I) for I in fn.calls() if fn.callee(I)=='h_arg'][0]
    def walk(op,states):
        w=OW(fn,pure2,gl(fn),limit=20000,visits=2,deref=False); w.op=NUM[op]; r=[]
        for s in w.run_loop(L):
            if s.env['exit']!=L.h: continue
            cur=curof(fn,L,w,s)
            if cur is None: continue
            for v in states:
                if at_state(s,st,v): r.append((v,s,cur))
        return r
    sto=lambda s,v=None:[(vec(e[1])[1],e[2],e) for e in s.ev if e[0]=='store' and vec(e[1]) and (v is None or vec(e[1])[0]==v)]
    nm=lambda s,p: resolve(s.env['next'].get(p),s.conds)
    call=None; cnt={}
    for v,s,cur in walk('AFunOp',[S['start_atom'],S['end_atom']]):
        n=nextof(s,st,v); u=used(s,cur,OU)
        if v==S['start_atom']:
            if u is False: continue
            if n!=S['arg_atom']: bad.append(('the arguments of an atomic call are not followed',None)); continue
            for p,x in s.env['next'].items():
                x=resolve(x,s.conds); k=slot(x,cur)
                if k is not None: cnt.setdefault(k,set()).add(p)
                elif x==('c',0) and ('phi',p)!=st: cnt.setdefault('zero',set()).add(p)
        else:
            if n is not None and n!=S['start_atom']: bad.append(('the end of an atomic call is not followed by the next operator',None))
            for e in s.ev:
                if ev_(e) and 'call_atomic_rev_depend' in e[0]: call=e
            if not any(ev_(e) and 'call_atomic_rev_depend' in e[0] for e in s.ev): bad.append(('the atomic function is not asked which arguments are used',None))
    if call is None or not {0,1,2,3}<=set(cnt): und.append('atomic call'); finishob('used-parameter','atomic call',bad,und,wh,obs); return
    a=call[1]; V=dict(x=a[2],type=a[3],dx=a[4],dy=a[5])
    if not(a[0][0]=='phi' and a[0][1] in cnt[0] and a[1][0]=='phi' and a[1][1] in cnt[1]): bad.append(('the atomic function that is asked is not the one of the call',call[2]))
    # arguments
    ixv=set()
    for op in('FunavOp','FunapOp'):
        for v,s,cur in walk(op,[S['arg_atom']]):
            ty=sto(s,V['type'])
            if len(ty)<1: bad.append(('the type of an argument is not set',None)); continue
            j=ty[-1][0]
            if not(j[0]=='phi' and plus(s.env['next'].get(j[1],('u',)))==((j,),1)): bad.append(('the arguments of an atomic call are not counted one by one',ty[-1][2][3]))
            if j[0]=='phi' and j[1] not in cnt.get('zero',()): bad.append(('the arguments of an atomic call are not counted from the first',ty[-1][2][3]))
            x=sto(s,V['x'])
            if op=='FunavOp':
                if ty[-1][1]!=('c',K['variable']): bad.append(('the type of a variable argument is not variable',ty[-1][2][3]))
            else:
                dy=None
                for c,t in lits(s):
                    y,tt=lit0(c,t); q=ld(y)
                    if q is not None and cal(q[0],'par_is_dyn'): dy=tt if slot(q[1],cur)==0 else 'other'
                tv=ty[-1][1]
                if dy=='other': bad.append(('the type of a parameter argument is that of another parameter',ty[-1][2][3]))
                elif dy is not None and tv!=('c',K['dynamic'] if dy else K['constant']): bad.append(('the type of a parameter argument is wrong',ty[-1][2][3]))
                elif dy is None and tv[0]=='c': bad.append(('the type of a parameter argument is wrong',ty[-1][2][3]))
                g=[y for i,y,e in sto(s) if i==j and slot(y,cur)==0]
                ixv|={vec(e[1])[0] for i,y,e in sto(s) if i==j and slot(y,cur)==0}
                if not g: bad.append(('the index of a parameter argument is not kept',None))
                q=ld(x[-1][1]) if x else None
                if q is None or slot(q[1],cur)!=0: bad.append(('the value of a parameter argument is not the one of its parameter',x[-1][2][3] if x else None))
            n=nextof(s,st,v)
            cc=[t for c,t in lits(s) if c[0]=='cmp' and c[1]=='eq' and any(plus(y)==((j,),1) for y in c[2:4]) and any(y[0]=='phi' and y[1] in cnt[2] for y in c[2:4])]
            if cc and n is not None and n!=(S['ret_atom'] if cc[-1] else S['arg_atom']): bad.append(('the end of the arguments of an atomic call is not found',None))
    for op in('FunrpOp','FunrvOp'):
        for v,s,cur in walk(op,[S['ret_atom']]):
            d=sto(s,V['dy'])
            u=used(s,cur,OU)
            if len(d)<1: bad.append(('whether a result of an atomic call is used is not set',None)); continue
            i,x,e=d[-1]
            if not(i[0]=='phi' and plus(s.env['next'].get(i[1],('u',)))==((i,),1) and i[1] in cnt.get('zero',())): bad.append(('the results of an atomic call are not counted one by one',e[3]))
            g=x
            neg=False
            while g[0]=='not': g=g[1]; neg=not neg
            okv=g[0]=='cmp' and g[1]=='eq' and g[3]==('c',K['no']) and ld(g[2])==(OU,cur) and neg
            if x==('c',0) and u is not False: bad.append(('a result of an atomic call that is used is reported as not used',e[3]))
            elif x[0]!='c' and not okv: bad.append(('the use of a result of an atomic call is the one of another operator',e[3]))
    # transfer
    ok=False
    for l in [l for l in Aff(fn,lambda I:None).loops if l.body<L.body]:
        f=Lp(fn,l,visits=2)
        for s in f.full:
            for i,v,I in markers(s):
                q=ld(i)
                if q is None or q[0] not in ixv: continue
                if q[1]!=f.iv: bad.append(('the parameter of another argument is marked as used',I))
                ok=True
            d=truth_of(s,('load',('call','operator[]',V['dx'],f.iv),0))
            tv=[t for c,t in lits(s) if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',K['variable']) and ld(c[2])==(V['type'],f.iv)]
            if d is True and tv!=[True] and not any(ld(i) is not None and ld(i)[0] in ixv and ld(i)[1]==f.iv and istrue(v) for i,v,I in markers(s)): bad.append(('a parameter the atomic function depends on is not marked as used',None))
            if d is not None and f.ok and not(f.lo==('c',0) and f.up[1]==0 and f.up[0][0]=='phi' and f.up[0][1] in cnt[2]): bad.append(('not all the arguments of an atomic call are considered',None))
    if not ok: bad.append(('the parameters an atomic function depends on are not marked as used',None))
    finishob('used-parameter','atomic call',bad,und,wh,obs)
def pardyn(fn,obs):
    """the arguments of a dynamic parameter that is used are used"""
    M=argloop(fn); bad=[]; und=[]; wh='get_par_usage'; D=fn.doms()
    loops=[l for l in Aff(fn,lambda I:None).loops if not l.body&M.body]
    dl=[]
    for l in loops:
        if any(cal(('call',fn.callee(I) or ''),'dyn2par_index') or strip(fn.callee(I) or '')=='call_atomic_rev_depend' for b in l.body for I in fn.blocks[b] if I['op'] in('call','invoke')): dl.append(l)
    if not dl: raise core.Broken('the loop over the dynamic parameters is not found in get_par_usage')
    L=max(dl,key=lambda l:len(l.body))
    dan=('dyn_par_arg',)
    for op,n in K['dyn'].items():
        if op in('number_dyn','result_dyn','atom_dyn'): continue
        try: f=Lp(fn,L,dop=n,visits=8)
        except OverflowError: und.append('paths of '+op); continue
        na=0 if op=='ind_dyn' else NARG.get(op,1); off=1 if op in('dis_dyn','cond_exp_dyn') else 0
        ia=[p for p,x in f.init.items() if cal(x,'size')]; idn=[p for p,x in f.init.items() if cal(x,'num_dynamic_par')]
        if len(ia)!=1 or len(idn)!=1: bad.append(('the dynamic parameters are not taken from the last to the first',None)) if not und else None; break
        ia=('phi',ia[0]); idn=('phi',idn[0]); seen=0
        for s in f.full:
            if plus(s.env['next'][idn[1]])!=((idn,),-1): bad.append(('the dynamic parameters are not taken one by one',None))
            if plus(s.env['next'][ia[1]])!=((ia,),-na): bad.append(('the arguments of %s are not %d'%(op,na),None)); continue
            seen+=1; u=None
            for c,t in lits(s):
                x,tt=lit0(c,t); v=ld(x)
                if v is not None and v[0]==PU:
                    w=ld(v[1])
                    if w is not None and cal(w[0],'dyn2par_index') and plus(w[1])==((idn,),-1): u=tt
            got=set()
            for i,v,I in markers(s):
                w=ld(i)
                if w is not None and cal(w[0],'dyn_par_arg') and istrue(v):
                    t,c=plus(w[1])
                    if t==(ia,): got.add(c+na)
                    else: bad.append(('an argument of %s is not found'%op,I))
                if v==('c',0): bad.append(('a parameter that is used is marked as not used',I))
            if u is False: continue
            miss=[k for k in range(off,na) if k not in got]
            if miss: bad.append(('argument %s of %s is not marked as used'%(miss,op),None))
        if not seen: und.append('no iteration for '+op)
    # an atomic call
    V=None
    call=[I for I in fn.calls() if strip(fn.callee(I) or '')=='call_atomic_rev_depend' and fn.blk[I['i']] in L.body]
    if not call: bad.append(('the atomic function is not asked which dynamic parameters are used',None))
    else:
        f=Lp(fn,L,dop=K['dyn']['atom_dyn'],visits=2)
        ia=('phi',[p for p,x in f.init.items() if cal(x,'size')][0])
        def last(e):
            v=ld(e); return v is not None and cal(v[0],'dyn_par_arg') and plus(v[1])==((ia,),-1)
        def da(e):
            """dyn_par_arg[ start + k + ...] -> (k, other terms)"""
            v=ld(e)
            if v is None or not cal(v[0],'dyn_par_arg'): return None
            t,c=plus(v[1]); o=[]; st_=False
            for x in t:
                if x[0]=='sub' and x[1]==ia and last(x[2]): st_=True
                else: o.append(x)
            return (c,o) if st_ else None
        for s in f.full:
            if not any(ev_(e) and 'call_atomic_rev_depend' in e[0] for e in s.ev): continue
            e=[e for e in s.ev if ev_(e) and 'call_atomic_rev_depend' in e[0]][0]
            if da(e[1][0])!=(0,[]) or da(e[1][1])!=(1,[]): bad.append(('the atomic function that is asked is not the one of the call',e[2]))
            x=s.env['next'][ia[1]]
            if not(x[0]=='sub' and x[1]==ia and last(x[2])): bad.append(('the arguments of an atomic call are not skipped',None))
        w=OW(fn,pure2,gl(fn),deref=False); s0=Lp(fn,L,dop=K['dyn']['atom_dyn'],visits=2)
        ptrs=None
        for I in call:
            o=I['o']; ptrs=[('ptr',x,0) for x in o[2:6]]
        V=dict(zip(('x','type','dx','dy'),ptrs))
        kinds=set()
        for l in [l for l in loops if l.body<L.body]:
            f=Lp(fn,l,dop=K['dyn']['atom_dyn'],visits=2)
            for s in f.full:
                for e in s.ev:
                    if e[0]!='store' or not vec(e[1]): continue
                    v,i=vec(e[1]); x=e[2]
                    if v==V['x'] and i==f.iv:
                        q=ld(x); kinds.add('x')
                        if q is None or da(q[1])!=(5,[f.iv]): bad.append(('the value of an argument of an atomic call is the one of another parameter',e[3]))
                        if f.up and da(f.up[0])!=(2,[]) or f.lo!=('c',0): bad.append(('not all the arguments of an atomic call are considered',e[3]))
                    if v==V['type'] and i==f.iv and x[0]=='c':
                        z=[t for c,t in lits(s) if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',0) and da(c[2])==(5,[f.iv])]
                        z+=[not tt for c,t in lits(s) for y,tt in [lit0(c,t)] if da(y)==(5,[f.iv])]
                        d=[tt for c,t in lits(s) for y,tt in [lit0(c,t)] if ld(y) and cal(ld(y)[0],'par_is_dyn') and da(ld(y)[1])==(5,[f.iv])]
                        if True in z: wv=K['variable']
                        elif True in d: wv=K['dynamic']
                        elif False in d: wv=K['constant']
                        else: wv=None
                        kinds.add('type')
                        if wv is not None and x[1]!=wv: bad.append(('the type of an argument of an atomic call is wrong',e[3]))
                    if v==V['dy'] and i==f.iv:
                        q=ld(x); kinds.add('dy')
                        b=da(q[1]) if q is not None and q[0]==PU else None
                        if not(b and b[0]==5 and f.iv in b[1] and [da(y) for y in b[1] if y!=f.iv]==[(2,[])]): bad.append(('the use of a result of an atomic call is the one of another parameter',e[3]))
                        if f.up and da(f.up[0])!=(3,[]) or f.lo!=('c',0): bad.append(('not all the results of an atomic call are considered',e[3]))
                    if v==PU and da(i) is not None:
                        kinds.add('use')
                        if da(i)!=(5,[f.iv]): bad.append(('another parameter is marked as used',e[3]))
                        if f.up and da(f.up[0])!=(2,[]) or f.lo!=('c',0): bad.append(('not all the arguments of an atomic call are considered',e[3]))
                        old=truth_of(s,('load',('call','operator[]',PU,i),0))
                        g=x
                        neg=False
                        while g[0]=='not': g=g[1]; neg=not neg
                        dep=g[0]=='cmp' and g[1]=='eq' and g[3]==('c',0) and ld(g[2])==(V['dx'],f.iv) and neg or ld(g)==(V['dx'],f.iv) and not neg
                        dx=truth_of(s,('load',('call','operator[]',V['dx'],f.iv),0))
                        if not(istrue(x) and x[0]=='c' or dep or x[0]=='or' and leaf(x)>={('load',('call','operator[]',PU,i),0)} or dx is False or x[0]=='sel'):
                            bad.append(('an argument of an atomic call that is used is not marked as used',e[3]))
                        if dep and old is not False: bad.append(('the use of a parameter is replaced by its use in an atomic call',e[3]))
                        if x==('c',0) and (old is not False or dx is not False): bad.append(('a parameter that is used is marked as not used',e[3]))
        for k in('x','type','dy','use'):
            if k not in kinds: (und if k=='type' else bad).append('types of the arguments' if k=='type' else ('the %s of an atomic call among the dynamic parameters is not set'%{'x':'value','dy':'used results','use':'used arguments'}[k],None))
    # order and initial values
    for l in loops:
        if l.body<L.body: continue
        f=Lp(fn,l,visits=2)
        if l is L: continue
        if L.h in D[l.h]: continue
        for s in f.full:
            for i,v,I in markers(s):
                if v==('c',0) and not(l.h in D[M.h] and M.h not in D[l.h]): bad.append(('the use of a parameter is cleared after the operators are considered',I))
                g=i if not(i[0]=='ev' and ev_(s.ev[i[1]])) else ('call',s.ev[i[1]][0])+tuple(s.ev[i[1]][1])
                if cal(g,'GetVecInd') and v!=('c',0):
                    if f.iv is not None and f.ok and f.iv in leaf(g) and any(l.body<o.body for o in loops):
                        if not(cal(f.up[0],'GetVecInd') and f.lo[0]=='c'): und.append('elements of a VecAD vector'); continue
                        t,c=plus(g[3]); o=[z for z in t if z!=f.iv]
                        if o!=[f.up[0][3]] or f.lo[1]+c!=1 or f.up[1]+c!=1: bad.append(('not all the elements of a VecAD vector are marked as used',I))
    ve=False
    for l in loops:
        f=Lp(fn,l,visits=2)
        if f.up and cal(f.up[0],'num_var_vecad') and f.ok:
            ve=True
            for s in f.full:
                u=truth_of(s,('load',('call','operator[]',VU,f.iv),0))
                if u is not False and not markers(s) and not any(c[0]=='cmp' and 'GetVecInd' in str(c) and (c[1]=='ult' and t or c[1]=='ugt' and not t or c[1]=='uge' and not t or c[1]=='ule' and not t or c[1]=='eq') for c,t in lits(s)): bad.append(('the elements of a VecAD vector that is used are not marked as used',None))
                for p,x in s.env['next'].items():
                    if ('phi',p)==f.iv: continue
                    t,c=plus(x); o=[z for z in t if z!=('phi',p)]
                    if not(('phi',p) in t and c==1 and len(o)==1 and cal(o[0],'GetVecInd') and o[0][3]==('phi',p)): bad.append(('the position of the next VecAD vector is wrong',None))
            if f.lo!=('c',0): bad.append(('the first VecAD vector is not considered',None))
    if not ve: und.append('VecAD vectors')
    finishob('used-parameter','dynamic parameters and VecAD vectors',bad,und,wh,obs)
# --------------------------------------------- dynamic parameters that are equal
class DW(OW):
    """the operator of the dynamic parameter of this iteration is known"""
    dop=None; iv=None
    def load(self,s,p,t,I):
        v=vec(p)
        if v is not None and cal(v[0],'dyn_par_op') and v[1]==self.iv: return ('c',self.dop)
        return OW.load(self,s,p,t,I)
COMM=('add_dyn','mul_dyn')
DPURE=lambda q: pure2(q) or strip(q)=='data'
DOPQ=['--globals','--opaque','optimize_hash_code','--opaque','size_setvec_const_iterator']
def sameev(s,cand):
    """a new look at the same position of the iterator is the same candidate"""
    r={cand}; it=s.ev[cand[1]][1]
    for i,x in enumerate(s.ev):
        if ev_(x) and strip(x[0])==strip(s.ev[cand[1]][0]) and x[1]==it and not any(ev_(y) and strip(y[0])=='operator++' and y[1]==it for y in s.ev[min(i,cand[1]):max(i,cand[1])]): r.add(('ev',i))
    return r
def dynloop(fn):
    DP=('arg',2); Ls=[]
    for l in Aff(fn,lambda I:None).loops:
        if any(cal(('call',fn.callee(I) or ''),'dyn_par_op') for b in l.body for I in fn.blocks[b] if I['op']=='call'): Ls.append(l)
    Ls+=[l for l in Aff(fn,lambda I:None).loops if any(strip(fn.callee(I) or '')=='optimize_hash_code' for b in l.body for I in fn.blocks[b] if I['op']=='call')]
    if not Ls: raise core.Broken('the loop over the dynamic parameters is not found in get_dyn_previous')
    return max(Ls,key=lambda l:len(l.body))
def dynprev(op,fn,obs):
    DP=('arg',2); L=dynloop(fn); bad=[]; und=[]; wh='get_dyn_previous'
    f=Lp(fn,L,dop=K['dyn']['result_dyn'],visits=2)
    iv=f.iv
    if iv is None or not f.ok or not cal(f.up[0],'num_dynamic_par') or f.up[1]: obs.append(('match',op+' (dynamic parameter)','undecided','the loop over the dynamic parameters is not recognised',wh)); return
    num=f.up[0]
    w=DW(fn,DPURE,gl(fn),limit=40000,visits=2 if op in('add_dyn','mul_dyn') else 3,deref=False,readonly=lambda q: strip(q) in('operator*','operator++','optimize_hash_code','add_element','clear')); w.dop=K['dyn'][op]; w.iv=iv; w.op=0
    na=0 if op=='ind_dyn' else NARG.get(op,1); OFF=None; IND=None; AM=set(); n=0; m=0
    # the argument offset and the index of the dynamic parameter of a parameter
    par=lambda e: ld(e) is not None and cal(ld(e)[0],'dyn2par_index') and ld(e)[1]==iv
    for s in w.run_loop(L):
        if s.env['exit']!=L.h: continue
        n+=1
        st=[(vec(e[1])[0],vec(e[1])[1],e[2],e[3]) for e in s.ev if e[0]=='store' and vec(e[1])]
        mine=[(x,I) for v,i,x,I in st if v==DP and i==iv]
        if any(v==DP and i!=iv for v,i,x,I in st): bad.append(('the match of another dynamic parameter is changed',None))
        if not mine or mine[0][0]!=num: bad.append(('a dynamic parameter does not start without a match',None)); continue
        ia=[(v,x) for v,i,x,I in st if i==iv and v!=DP and x[0]=='phi' and x!=iv]
        if not ia: und.append('offset of the arguments'); continue
        OFF,ph=ia[0]
        if op not in('atom_dyn','ind_dyn') and plus(s.env['next'].get(ph[1],('u',)))!=((ph,),na): bad.append(('the arguments of %s are not %d'%(op,na),None))
        if f.init.get(ph[1])!=('c',0): bad.append(('the arguments of the first dynamic parameter are not the first ones',None))
        ix=[v for v,i,x,I in st if par(i) and x==iv]
        if not ix: bad.append(('the index of a dynamic parameter is not kept',None)); continue
        IND=ix[0]
        used_=None
        for c,t in lits(s):
            x,tt=lit0(c,t); v=ld(x)
            if v is not None and v[0]==('arg',1) and par(v[1]): used_=tt
        for e in s.ev:
            if ev_(e) and strip(e[0])=='add_element':
                if e[1][2]!=iv: bad.append(('another dynamic parameter is entered in the table of previous ones',e[2]))
                if used_ is not True: bad.append(('a dynamic parameter that is not used is entered in the table of previous ones',e[2]))
        for x,I in mine[1:]:
            if x==num: continue
            if not(x[0]=='ev' and ev_(s.ev[x[1]]) and strip(s.ev[x[1]][0])=='operator*'): bad.append(('the match of a dynamic parameter is not taken from the table of previous ones',I)); continue
            m+=1; same=sameev(s,x); opok=False; eq=[]
            if op in('atom_dyn','result_dyn'): bad.append(('%s can be replaced by a previous dynamic parameter'%op,I)); continue
            for c,t in lits(s):
                if c[0]!='cmp' or c[1]!='eq' or not t: continue
                for a,b in((c[2],c[3]),(c[3],c[2])):
                    v=ld(a)
                    if v is not None and cal(v[0],'dyn_par_op') and v[1] in same and b==('c',K['dyn'][op]): opok=True
                    if v is not None and cal(v[0],'dyn_par_arg'):
                        t_,k=plus(v[1])
                        if len(t_)==1 and ld(t_[0]) is not None and ld(t_[0])[0]==OFF and ld(t_[0])[1] in same:
                            y=ld(b)
                            if y is not None and y[1][0]=='c': eq.append((k,y[1][1])); AM.add(y[0])
                            elif y is not None and cal(y[0],'dyn_par_arg'):
                                t2,k2=plus(y[1])
                                if t2==(ph,): eq.append((k,k2))
                            fst=[(z,j) for z,j,x_,I_ in st if j[0]=='c' and x_==b]
                            if fst: eq.append((k,fst[0][1][1])); AM.add(fst[0][0])
            if not opok: bad.append(('a dynamic parameter matches one with another operator',I)); continue
            ok=all((k,k) in eq for k in range(na)) or op in COMM and {(0,1),(1,0)}<=set(eq)
            if not ok:
                if {(0,1),(1,0)}<=set(eq): bad.append(('the operands of a match are exchanged although %s does not commute'%op,I))
                else: bad.append(('a dynamic parameter %s matches a previous one although not all of their arguments are compared'%op,I))
    if not n: und.append('no complete iteration')
    # the arguments that are compared
    for l in [l for l in Aff(fn,lambda I:None).loops if l.body<L.body]:
        g=Lp(fn,l,dop=K['dyn'][op],visits=2)
        for s in g.full:
            for e in s.ev:
                if e[0]!='store' or not vec(e[1]) or vec(e[1])[0] not in AM: continue
                i,x=vec(e[1])[1],e[2]
                if i!=g.iv: und.append('index of an argument'); continue
                if not g.ok or g.lo!=('c',0): bad.append(('not all the arguments of a dynamic parameter are compared',e[3])); continue
                raw=lambda y: ld(y) is not None and cal(ld(y)[0],'dyn_par_arg') and len(plus(ld(y)[1])[0])==2 and plus(ld(y)[1])[1]==0 and g.iv in plus(ld(y)[1])[0] and any(z[0]=='phi' and z!=g.iv or ld(z) is not None and ld(z)==(OFF,iv) for z in plus(ld(y)[1])[0])
                def mapped(y):
                    v=ld(y)
                    if v is None or not cal(v[0],'dyn2par_index'): return None
                    k=ld(v[1])
                    if k is None or k[0]!=DP: return None
                    j=ld(k[1])
                    return j[1] if j is not None and j[0]==IND else None
                if raw(x): continue
                y=mapped(x)
                if y is None or not raw(y): bad.append(('a dynamic parameter is compared by another parameter than its arguments',e[3])); continue
                d=pv=None
                for c,t in lits(s):
                    z,tt=lit0(c,t); v=ld(z)
                    if v is not None and cal(v[0],'par_is_dyn') and v[1]==y: d=tt
                    if c[0]=='cmp' and c[1]=='eq' and (c[3]==num or cal(c[3],'size') and cal(c[3][2],'dyn2par_index')) and ld(c[2]) is not None and ld(c[2])[0]==DP: pv=not t
                if d is not True: bad.append(('a constant parameter is replaced by a previous dynamic parameter',e[3]))
                if pv is not True: bad.append(('an argument without a match is replaced by its match',e[3]))
    # independent dynamic parameters
    D=fn.doms()
    if f.lo is None or not cal(f.lo,'n_dyn_independent') and f.lo!=('c',0): und.append('first dynamic parameter')
    elif f.lo!=('c',0):
        ok=False
        for l in [l for l in Aff(fn,lambda I:None).loops if not l.body&L.body]:
            g=Lp(fn,l,visits=2)
            for s in g.full:
                st=[(vec(e[1])[0],vec(e[1])[1],e[2]) for e in s.ev if e[0]=='store' and vec(e[1])]
                if any(v==DP for v,i,x in st):
                    if not g.ok or g.lo!=('c',0) or g.up!=(f.lo,0): bad.append(('not all the independent dynamic parameters start without a match',None)); continue
                    if not any(v==DP and i==g.iv and x==num for v,i,x in st): bad.append(('an independent dynamic parameter is replaced by another one',None))
                    if IND is not None and not any(v==IND and cal(ld(i)[0] if ld(i) else ('u',),'dyn2par_index') and ld(i)[1]==g.iv and x==g.iv for v,i,x in st): bad.append(('the index of an independent dynamic parameter is not kept',None))
                    ok=True
        if not ok: und.append('independent dynamic parameters')
    finishob('match',op+' (dynamic parameter)',bad,und,wh,obs)
