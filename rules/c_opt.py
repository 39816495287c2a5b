"""The optimizer, an operator at a time."""
import core,ir
from aff import Aff
from pathx import Walk
A=['--opaque','const_random_iterator<unsigned short>::','--opaque','^CppAD::local::player<','--opaque','^CppAD::local::pod_vector(_maybe)?<.*>::','--opaque','^CppAD::vector<.*>::','--opaque','^std::(?!min|max|swap)','--opaque','size_setvec<','--opaque','^CppAD::thread_alloc','--opaque','recorder<.*>::','--opaque','call_atomic','--opaque','index_sort','--unroll']
RED=['--redirect','const_random_iterator<unsigned short>::op_info=>h_op_info','--redirect','const_random_iterator<unsigned short>::get_op=>h_get_op2']
RES='op_inc_arg_usage|optimize::(get_cexp_info|get_par_usage|get_dyn_previous|get_op_previous|get_op_usage|record_csum|extract_option|match_op)'
UN=['Abs','Acos','Acosh','Asin','Asinh','Atan','Atanh','Cos','Cosh','Erf','Erfc','Exp','Expm1','Log','Log1p','Neg','Sign','Sin','Sinh','Sqrt','Tan','Tanh']
VARS={u+'Op':[0] for u in UN}
for b in('Add','Sub','Mul','Div','Pow','Zmul'):
    VARS[b+'vvOp']=[0,1]; VARS[b+'pvOp']=[1]; VARS[b+'vpOp']=[0]
del VARS['AddvpOp'],VARS['MulvpOp']
CMP=[]
for b in('Eq','Le','Lt','Ne'):
    for k in('pp','pv','vp','vv'):
        if (b,k) in(('Eq','vp'),('Ne','vp')): continue
        VARS[b+k+'Op']=[i for i in range(2) if k[i]=='v']; CMP.append(b+k+'Op')
VARS.update(DisOp=[1],ParOp=[],InvOp=[],BeginOp=[],EndOp=[],LdpOp=[],LdvOp=[1],StppOp=[],StvpOp=[1],StpvOp=[2],StvvOp=[1,2])
ST=['StppOp','StvpOp','StpvOp','StvvOp']
ALWAYS=['InvOp','BeginOp','EndOp']
CSUM=['AddvvOp','AddpvOp','SubvvOp','SubpvOp','SubvpOp']
K={}; NUM={}
def pure(q):
    s=q.split('::')[-1]
    return s.startswith('operator[]') or s.startswith('num_') or s in('GetVecInd','GetPar','par_ptr','dyn_ind2par_ind','dyn2par','par_all','h_arg','h_var','h_op','h_opof','h_current','var2op','num_var_op','size','GetOp','get_op','par_ptr','n_set','par_is_dyn')
def strip(q): return q.split('::')[-1].split('<')[0]
def vec(e):
    """('call',operator[],v,i) -> (v,i)"""
    if e[0]=='call' and 'operator[]' in e[1]: return e[2],e[3]
    return None
def ld(e): return vec(e[1]) if e[0]=='load' else None
class OW(Walk):
    """a walk where the operator, and some of its arguments, are known"""
    fixed={}; op=None; getop=None
    def step(self,s,I):
        if I['op']=='call' and self.fn.callee(I)=='h_op' and self.op is not None: s.env['%%%d'%I['i']]=('c',self.op); return
        if self.getop is not None and I['op']=='call' and strip(self.fn.callee(I) or '')=='GetOp' and self.val(s,I['o'][1])==self.getop: s.env['%%%d'%I['i']]=('c',self.op); return
        if I['op']=='call' and 'operator[]' in (self.fn.callee(I) or '') and 'vector' in self.fn.callee(I): s.env['%%%d'%I['i']]=('call','operator[]',self.val(s,I['o'][0]),self.val(s,I['o'][1])); return
        n=len(s.ev)
        Walk.step(self,s,I)
        if len(s.ev)>n and s.ev[-1][0]!='store':
            for k in list(s.mem):
                if k[0]=='*' and vec(k[1]) and vec(k[1])[0] in s.ev[-1][1]: s.mem[k]=('load',k[1],'after%d'%n)
    def load(self,s,p,t,I):
        k=argslot(p)
        if k is not None and k[1] in self.fixed and p not in s.mem: return ('c',self.fixed[k[1]])
        v=vec(p)
        if v is not None and ('*',p) not in s.mem: return ('load',p,sum(1 for e in s.ev if (e[0]=='store' and vec(e[1]) and vec(e[1])[0]==v[0]) or (e[0]!='store' and v[0] in e[1])))
        return Walk.load(self,s,p,t,I)
def argslot(p):
    """pointer into the arguments of an operator -> (operator index, slot)"""
    off=0
    if p[0]=='off': off=p[2]; p=p[1]
    if p[0]=='call' and p[1]=='h_arg' and off%4==0: return p[2],off//4
    return None
def slot(e,cur):
    if e[0]!='load': return None
    k=argslot(e[1])
    return k[1] if k is not None and k[0]==cur else None
def argloop(fn,name='h_arg'):
    b={fn.blk[I['i']] for I in fn.calls() if fn.callee(I)==name}
    Ls=[l for l in Aff(fn,lambda I:None).loops if l.body&b]
    if not Ls: raise core.Broken('the loop over the operators is not found in '+fn.dem)
    return max(Ls,key=lambda l:len(l.body))
def curof(fn,L,w,s):
    """the index of the operator of this iteration, a term"""
    k=('hargs',L.h)
    if k not in fn._callee: fn._callee[k]=sorted((I for I in fn.calls() if fn.callee(I)=='h_arg' and fn.blk[I['i']] in L.body),key=lambda I:I['i'])
    for I in fn._callee[k]:
        v=s.env.get('%%%d'%I['i'])
        if v is not None: return v[2]
    return None
def lits(s): return s.conds.items()
def used(s,cur,base,e=None):
    """truth of 'op_usage[cur] is not no_usage' on this path, None when not tested"""
    r=None
    for c,t in lits(s):
        if c[0]=='cmp' and c[1]=='eq' and c[3][0]=='c':
            v=ld(c[2])
            if v is not None and v[0]==base and v[1]==cur:
                if c[3][1]==K['no']: return not t
                if t: return True
        v=ld(c) if c[0]=='load' else None
        if v is not None and v[0]==base and v[1]==cur: return t
    return r
def argtest(s,n):
    for c,t in lits(s):
        if c==('arg',n): return t
    return None
def consts(bc):
    m=ir.Mod(core.irx(bc,['--opaque','.','--entry','^k_'])['module'])
    for k in('no','yes','csum','constant','dynamic','variable','start_atom','arg_atom','ret_atom','end_atom'): K[k]=int(m.fns['k_'+k].blocks[0][-1]['o'][0][1:])
# --------------------------------------------------------------------- usage
def usage(op,fixed,fn,obs,name):
    L=argloop(fn); w=OW(fn,pure,limit=20000,visits=3); w.fixed=fixed; w.op=NUM[op]
    try: ps=w.run_loop(L)
    except OverflowError: obs.append(('used-argument',name,'undecided','too many paths','')); return
    OU=('arg',10); seen=0; bad=[]; und=[]
    wh=[ir.where1(I) for I in fn.calls() if fn.callee(I)=='h_arg'][0]
    want=VARS.get(op)
    if op=='CExpOp': want=[k+2 for k in range(4) if fixed[1]>>k&1]
    if op=='PriOp': want=[[1,3][k] for k in range(2) if fixed[0]>>k&1]
    for s in ps:
        if s.env['exit']!=L.h: continue
        cur=curof(fn,L,w,s)
        if cur is None: continue
        seen+=1
        if op in CMP: act=argtest(s,1)
        elif op=='PriOp': act=argtest(s,2)
        elif op in ST:
            act=None
            for c,t in lits(s):
                x=c; tt=t
                if x[0]=='cmp' and x[1]=='eq' and x[3]==('c',0): x=x[2]; tt=not t
                v=ld(x)
                if v is None or v[0]!=('arg',9): continue
                i=ld(v[1])
                if i is None or slot(i[1],cur)!=0: bad.append(('a store is kept or dropped by the use of another VecAD vector',None)); continue
                act=tt
        elif op in ALWAYS: act=True
        else: act=used(s,cur,OU)
        ev=[e for e in s.ev if isinstance(e[0],str)]
        inc=[e for e in ev if strip(e[0])=='op_inc_arg_usage']
        stu=[e for e in ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==OU]
        for e in stu:
            if e[2]==('c',K['no']): bad.append(('a usage that was recorded is dropped',e[3]))
        marked={}
        for e in inc:
            a=e[1]
            if a[2]!=cur: bad.append(('the usage of an argument is attributed to another result',e[2]))
            x=a[3]
            if x[0]=='call' and strip(x[1])=='var2op': marked[x[3]]=e
            cs=a[1]
            ok=cs==('c',0) or (op in CSUM and (cs==('arg',3) or argtest(s,3))) or argtest(s,3) is False and cs==('arg',3)
            if not ok: bad.append(('an argument of %s can be absorbed in a cumulative summation'%op if op not in CSUM else 'an argument can be absorbed in a cumulative summation although that is disabled',e[2]))
        for e in stu:
            x=vec(e[1])[1]
            if x[0]=='call' and strip(x[1])=='var2op': marked.setdefault(x[3],None)
        if act is False: continue
        if want is not None:
            for k in want:
                h=[v for m,v in marked.items() if slot(m,cur)==k]
                if not h: bad.append(('argument %d is not marked as used when the operator is used'%k,None))
                elif h==[None]: und.append('argument %d marked in another way'%k)
        if op in CMP or op in ST or op=='PriOp' or op in ALWAYS:
            if not any(vec(e[1])[1]==cur and e[2]!=('c',K['no']) for e in stu): bad.append(('the operator is not marked as used',None))
        if op in('LdpOp','LdvOp'):
            ok=[e for e in ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==('arg',9)]
            g=[e for e in ok if ld(vec(e[1])[1]) is not None and slot(ld(vec(e[1])[1])[1],cur)==0 and e[2]==('c',1)]
            if not g: bad.append(('the VecAD vector of a used load is not marked as used',None))
        for e in ev:
            if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==('arg',9) and e[2]==('c',0): bad.append(('a VecAD vector that is used is marked as not used',e[3]))
        post=[e for e in ev if strip(e[0])=='post_element']
        if post and op!='CExpOp': bad.append(('a skip condition is attached by an operator that is not a conditional expression',post[0][2]))
        if op=='CExpOp': cexp(fixed,s,cur,ev,inc,post,OU,bad,und,L)
        # the sets of this operator
        if op!='AFunOp' and argtest(s,0) is True: pass
    if op=='CExpOp': cexpindex(fixed,ps,fn,L,bad)
    if not seen: obs.append(('used-argument',name,'undecided','no complete iteration',wh)); return
    finishob('used-argument',name,bad,und,wh,obs)
def finishob(rule,name,bad,und,wh,obs):
    if bad:
        for t,I in dict((b[0],b) for b in bad).values(): obs.append((rule,name,'viol',t,ir.where(I) if I else wh))
    elif und: obs.append((rule,name,'undecided',und[0],wh))
    else: obs.append((rule,name,'ok','',wh))
def plus(e):
    c=0; t=[]; st=[e]
    while st:
        x=st.pop()
        if x[0]=='add': st+=[x[1],x[2]]
        elif x[0]=='c': c+=x[1]
        elif x[0]=='or' and x[2]==('c',1) and x[1][0] in('shl','mul'): c+=1; st.append(x[1])
        elif x[0]=='shl' and x[2]==('c',1):
            t2,c2=plus(x[1]); c+=2*c2; t+=[('*2',y) for y in t2]
        elif x[0]=='mul' and x[2]==('c',2):
            t2,c2=plus(x[1]); c+=2*c2; t+=[('*2',y) for y in t2]
        else: t.append(x)
    return tuple(sorted(t,key=repr)),c
def cexp(fixed,s,cur,ev,inc,post,OU,bad,und,L):
    mask=fixed[1]; same=None
    for c,t in lits(s):
        if c[0]=='cmp' and c[1]=='eq' and {slot(c[2],cur),slot(c[3],cur)}=={4,5}: same=t
    skip=argtest(s,0)
    idx=None
    nx=s.env['next']
    for e in post:
        j=e[1][1]; el=e[1][2]
        k=slot(j[3],cur) if j[0]=='call' and strip(j[1])=='var2op' else None
        if k not in(4,5): bad.append(('the operator that can be skipped is not the result of a branch',e[2])); continue
        t,c=plus(el)
        if skip is not True: bad.append(('skip conditions are attached although conditional skip is disabled',e[2]))
        if mask&12==12 and same is not False: bad.append(('a variable used in both branches can be skipped',e[2]))
        o=[plus(vec(x[1])[1]) for x in ev if x[0]=='store' and vec(x[1]) and vec(x[1])[0]==('arg',7) and x[2]==cur]
        if not any(len(ti)==len(t)==1 and t[0]==('*2',ti[0]) for ti,ci in o): bad.append(('the index of the conditional expression is not the one of this operator',e[2])); continue
        ci=[ci for ti,ci in o if t[0]==('*2',ti[0])][0]
        if c-2*ci!=(0 if k==4 else 1): bad.append(('the value used when the comparison is %s is skipped when it is %s'%(('true','true') if k==4 else ('false','false')),e[2]))
        # not used elsewhere : op_usage of the branch tested before it is incremented here
        ok=False; p0=s.ev.index(e)
        for cc,tt in lits(s):
            v=ld(cc[2]) if cc[0]=='cmp' and cc[1]=='eq' and cc[3]==('c',K['no']) else None
            if v is not None and v[0]==OU and v[1]==j and tt: ok=True
        if not ok: bad.append(('a branch that is also used elsewhere can be skipped',e[2]))
def cexpindex(fixed,ps,fn,L,bad):
    for s in ps:
        if s.env['exit']!=L.h or argtest(s,0) is not True: continue
        cur=curof(fn,L,None,s)
        if cur is None: continue
        o=[e for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==('arg',7)]
        if len(o)!=1 or o[0][2]!=cur: bad.append(('the conditional expression is not entered in the list of conditional expressions',None)); return
        t,c=plus(vec(o[0][1])[1])
        nx=s.env['next']
        if len(t)!=1 or t[0][0]!='phi' or c!=-1 or nx.get(t[0][1]) is None or plus(nx[t[0][1]])!=(t,-1): bad.append(('the index of a conditional expression is not one less than the next one',o[0][3])); return
# --------------------------------------------------- calls of atomic functions
def lit0(c,t):
    """condition 'x is zero' / 'x' -> (x, truth of x != 0)"""
    if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',0): return c[2],not t
    return c,t
def dec(nx,cur,skip):
    """loop variables one less at the next step"""
    return [p for p,v in nx.items() if p not in skip and plus(v)==((('phi',p),),-1)]
def leaves(v,conds):
    """values a select can have"""
    if v[0]=='sel': return leaves(v[2],conds)|leaves(v[3],conds)
    return {v}
def atomic(fn,obs):
    L=argloop(fn); OU=('arg',10); P={}
    for op in('AFunOp','FunavOp','FunapOp','FunrvOp','FunrpOp'):
        w=OW(fn,pure,limit=60000,visits=3,deref=False); w.op=NUM[op]
        P[op]=[(s,curof(fn,L,w,s)) for s in w.run_loop(L) if s.env['exit']==L.h]
        P[op]=[x for x in P[op] if x[1] is not None]
        if not P[op]: raise core.Broken('no step of %s'%op)
    wh=[ir.where1(I) for I in fn.calls() if fn.callee(I)=='h_arg'][0]
    # the two meanings of AFunOp
    call=lambda s:[e for e in s.ev if isinstance(e[0],str) and 'call_atomic_rev_depend' in e[0]]
    end=[]; start=[]; role=None
    for s,cur in P['AFunOp']:
        nx=s.env['next']; ops={p for x in(cur,) for p in [y[1] for y in plus(x)[0] if y[0]=='phi']}
        r=lambda v:[p for p,x in nx.items() if p not in ops and (x==v if isinstance(v,tuple) else slot(x,cur)==v)]
        if r(2) and r(3) : end.append((s,cur)); role=dict(idx=r(0),old=r(1),n=r(2),m=r(3),last=r(cur),ops=ops)
        else: start.append((s,cur))
    if not end or not start or len(role['last'])!=1: obs.append(('used-argument','atomic call','undecided','loop variables not recognised',wh)); return
    last=('phi',role['last'][0]); bad=[]; und=[]
    # the state that distinguishes the two AFunOp of a call
    st=None
    for c,t in lits(end[0][0]):
        if c[0]=='cmp' and c[1]=='eq' and c[2][0]=='phi' and c[3][0]=='c' and c[2][1] not in role['ops'] and t:
            if all(x.conds.get(c) is False for x,_ in start): st=(c[2][1],c[3])
    if st is None: bad.append(('the first and the last operator of an atomic call are not distinguished',None))
    else:
        for I in fn.blocks[L.h]:
            if I['op']=='phi' and I['i']==st[0]:
                for x,pb in I['o']:
                    if int(str(pb).lstrip('b')) not in L.body and ('c',int(x[1:]))!=st[1]: bad.append(('the first operator of an atomic call is taken for the last one',None))
        if any(st[1] in leaves(s.env['next'][st[0]],0) for s,_ in end): bad.append(('the last operator of an atomic call is taken for the first one',None))
        if any(leaves(s.env['next'][st[0]],0)!={st[1]} for s,_ in start): bad.append(('after an atomic call the next operator is not the last of another call',None))
        for op in('FunavOp','FunapOp','FunrvOp','FunrpOp'):
            if any(st[1] in leaves(s.env['next'][st[0]],0) for s,_ in P[op]): bad.append(('%s ends an atomic call'%op,None))
    # vectors
    V={}
    for s,cur in start:
        for e in call(s):
            a=e[1]
            if len(a)<6: continue
            V=dict(x=a[2],type=a[3],dx=a[4],dy=a[5])
            if not(a[0][0]=='phi' and a[0][1] in role['idx']): bad.append(('the atomic function is not the one of the call',e[2]))
            if not(a[1][0]=='phi' and a[1][1] in role['old']): bad.append(('the call id is not the one of the call',e[2]))
    if not V: bad.append(('the atomic function is never asked which arguments are used',None)); finishob('used-argument','atomic call',bad,und,wh,obs); return
    VAR=K['variable']
    sto=lambda s,v=None:[(vec(e[1])[1],e[2],e) for e in s.ev if e[0]=='store' and vec(e[1]) and (v is None or vec(e[1])[0]==v)]
    ixv=set()
    for op in('FunavOp','FunapOp'):
        for s,cur in P[op]:
            nx=s.env['next']; d=dec(nx,cur,role['ops'])
            if len(d)!=1 or d[0] not in role['n']: bad.append(('%s does not step to the previous argument'%op,None)); continue
            j=nx[d[0]]
            ty=[v for i,v,e in sto(s,V['type']) if i==j]
            if op=='FunavOp':
                if not ty or ty[-1]!=('c',VAR): bad.append(('the type of a variable argument is not variable',None))
                ix=[vec(e[1])[0] for i,v,e in sto(s) if i==j and slot(v,cur)==0]
                if not ix: bad.append(('the variable of an argument is not kept',None))
                ixv|=set(ix)
            else:
                dy=None
                for c,t in lits(s):
                    x,tt=lit0(c,t); v=ld(x)
                    if v is not None and v[0][0]=='call' and strip(v[0][1])=='par_is_dyn':
                        dy=tt if slot(v[1],cur)==0 else 'other'
                if dy=='other': bad.append(('the type of a parameter argument is that of another parameter',None))
                elif dy is not None and (not ty or ty[-1]!=('c',K['dynamic'] if dy else K['constant'])): bad.append(('the type of a parameter argument is wrong',None))
                xs=[v for i,v,e in sto(s,V['x']) if i==j]
                g=[v for v in xs if v[0]=='load' and v[1][0]=='idx' and v[1][1][0]=='call' and strip(v[1][1][1])=='par_ptr' and v[1][2]==0 and len(v[1][3])==1 and slot(v[1][3][0][0],cur)==0]
                if not g: bad.append(('the value of a parameter argument is not the one of its parameter',None))
    for op in('FunrvOp','FunrpOp'):
        for s,cur in P[op]:
            nx=s.env['next']; d=dec(nx,cur,role['ops'])
            if len(d)!=1 or d[0] not in role['m']: bad.append(('%s does not step to the previous result'%op,None)); continue
            i0=nx[d[0]]
            if op=='FunrvOp' and used(s,cur,OU) is not False:
                if not any(i==i0 and v!=('c',0) for i,v,e in sto(s,V['dy'])): bad.append(('a result that is used is not reported to the atomic function',None))
                if not any(strip(e[0])=='op_inc_arg_usage' and e[1][2]==cur and e[1][3]==last for e in s.ev if isinstance(e[0],str)) : bad.append(('an atomic call with a result that is used is not marked as used',None))
            if op=='FunrvOp' and any(i==i0 and v==('c',0) for i,v,e in sto(s,V['dy'])): bad.append(('a result of an atomic function is reported as not used',None))
    if len(ixv)!=1: und.append('vector of argument variables not recognised'); 
    for s,cur in start:
        us=None
        for c,t in lits(s):
            x,tt=lit0(c,t)
            v=ld(x)
            if v is not None and v[0]==OU and v[1]==last: us=tt
        if us is False: 
            pass
        else:
            if not call(s): bad.append(('the atomic function is not asked which arguments are used',None)); continue
            for c,t in lits(s):
                x,tt=lit0(c,t); v=ld(x)
                if v is None or v[0]!=V['dx'] or not tt: continue
                j=v[1]
                tv=None
                for c2,t2 in lits(s):
                    if c2[0]=='cmp' and c2[1]=='eq' and c2[3]==('c',VAR) and ld(c2[2]) and ld(c2[2])==(V['type'],j): tv=t2
                m=[1 for i,v2,e in sto(s,OU) if plus(i)==plus(('add',('add',cur,j),('c',1))) and v2!=('c',K['no'])]
                if not m: bad.append(('an argument the atomic function uses is not marked as used',None))
                if tv is not False and len(ixv)==1:
                    g=[e for e in s.ev if isinstance(e[0],str) and strip(e[0])=='op_inc_arg_usage' and e[1][2]==last and e[1][3][0]=='call' and strip(e[1][3][1])=='var2op' and ld(e[1][3][3])==(list(ixv)[0],j)]
                    if not g: bad.append(('the variable of an argument the atomic function uses is not marked as used',None))
        g=[v for i,v,e in sto(s,OU) if i==cur]
        if not g or ld(g[-1])!=(OU,last) : bad.append(('the first operator of the call does not have the usage of the call',None))
        ns=None
        for c,t in lits(s):
            x,tt=lit0(c,t)
            if x[0]=='call' and strip(x[1])=='n_set': ns=tt
        if ns is not False:
            if not any(strip(e[0])=='assignment' and e[1][1]==cur and e[1][2]==last for e in s.ev if isinstance(e[0],str)): bad.append(('the first operator of the call does not have the skip conditions of the call',None))
        for i,v,e in sto(s,OU):
            if v==('c',K['no']): bad.append(('a usage that was recorded is dropped',e[3]))
    for s,cur in end:
        rs={e[1][0]:e[1][1] for e in s.ev if isinstance(e[0],str) and strip(e[0])=='resize'}
        for k,sl in(('x',2),('type',2),('dx',2),('dy',3)):
            if V[k] not in rs: und.append('size of a vector'); 
            elif slot(rs[V[k]],cur)!=sl: bad.append(('a vector passed to the atomic function has the wrong size',None))
    # depend_y starts as false
    ok=False
    for l in Aff(fn,lambda I:None).loops:
        if l is L or not l.body<L.body: continue
        w=OW(fn,pure,visits=2,deref=False); w.op=NUM['AFunOp']
        for s in w.run_loop(l):
            if s.env['exit']==l.h and any(v==('c',0) and i[0]=='phi' for i,v,e in sto(s,V['dy'])): ok=True
    if not ok: und.append('loop that clears depend_y not recognised')
    finishob('used-argument','atomic call',bad,und,wh,obs)
def csumusage(fn,obs):
    """CSumOp: every variable, arguments 5 to arg[2]"""
    L=argloop(fn); w=OW(fn,pure,visits=4,deref=False); w.op=NUM['CSumOp']; bad=[]; wh=[ir.where1(I) for I in fn.calls() if fn.callee(I)=='h_arg'][0]
    for s in w.run_loop(L):
        if s.env['exit']!=L.h: continue
        cur=curof(fn,L,w,s)
        if cur is None: continue
        if used(s,cur,('arg',10)) is False: continue
        got=set()
        for e in s.ev:
            if isinstance(e[0],str) and strip(e[0])=='op_inc_arg_usage':
                x=e[1][3]
                if e[1][2]==cur and x[0]=='call' and strip(x[1])=='var2op': got.add(slot(x[3],cur))
                if e[1][1]!=('c',0): bad.append(('an argument of CSumOp can be absorbed',e[2]))
        # number of arguments on this path
        n=None
        for c,t in lits(s):
            if c[0]=='cmp' and slot(c[2],cur)==2 and c[3][0]=='c':
                k=c[3][1]
                if c[1]=='ugt' and not t: n=k if n is None else min(n,k)
                if c[1]=='ule' and t: n=k if n is None else min(n,k)
                if c[1]=='uge' and not t or c[1]=='ult' and t: n=k-1 if n is None else min(n,k-1)
                if c[1]=='eq' and t: n=k
            elif c[0]=='cmp' and c[3][0]=='c' and slot(c[2],cur) is not None: bad.append(('the arguments of CSumOp are not those from 5 to its argument 2',None))
            elif c[0]=='cmp' and c[3][0]!='c' and (slot(c[2],cur) is not None or slot(c[3],cur) is not None): bad.append(('the arguments of CSumOp are not those from 5 to its argument 2',None))
        if n is None: continue
        want=set(range(5,n))
        if n>=5 and got-{None}!=want: bad.append(('the arguments of CSumOp marked as used are %s when its argument 2 is %d'%(sorted(got,key=str),n),None))
    finishob('used-argument','CSumOp',bad,[],wh,obs)
# ------------------------------------------------------------- one more usage
def incusage(fn,obs):
    OU=('arg',4); ir_,ia=('arg',2),('arg',3); CS=('arg',5); bad=[]; wh='op_inc_arg_usage'; n=0
    for op in sorted(NUM):
        w=OW(fn,pure,visits=2,deref=False); w.op=NUM[op]; w.getop=ia
        for s in w.run():
            n+=1
            st=[e for e in s.ev if e[0]=='store' and vec(e[1])==(OU,ia)]
            other=[e for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==OU and vec(e[1])[1]!=ia]
            if other: bad.append(('the usage of another operator is changed',other[0][3]))
            prior=None
            for c,t in lits(s):
                if c[0]=='cmp' and c[1]=='eq' and ld(c[2])==(OU,ia) and c[3][0]=='c':
                    if c[3][1]==K['no']: prior=t
                    elif t: prior=False
            vals=leaves(st[-1][2],0) if st else set()
            if not st: bad.append(('the argument is not marked as used',None)); continue
            v=st[-1][2]
            if v==('c',K['csum']):
                if argtest(s,1) is not True: bad.append(('an argument is absorbed although the result is not a summation',st[-1][3]))
                if prior is not True: bad.append(('an argument that is used before is absorbed in a summation',st[-1][3]))
                if op not in CSUM: bad.append(('the result of %s is absorbed in a summation'%op,st[-1][3]))
            elif v!=('c',K['yes']): bad.append(('the argument is not marked as used',st[-1][3]))
            ns=None
            for c,t in lits(s):
                x,tt=lit0(c,t)
                if cal(x,'n_set') and x[2]==CS: ns=tt
            if ns is False: continue
            ev=[(strip(e[0]),e) for e in s.ev if isinstance(e[0],str) and e[0]!='store']
            asg=[e for k,e in ev if k=='assignment' and e[1][:3]==(CS,ia,ir_)]
            inx=[i for i,(k,e) in enumerate(ev) if k=='binary_intersection' and e[1][0]==CS and e[1][1]==ia and set(e[1][2:4])=={ia,ir_}]
            pp=[i for i,(k,e) in enumerate(ev) if k=='process_post' and e[1][:2]==(CS,ia)]
            if asg and prior is not True: bad.append(('the skip conditions of an argument that is already used are replaced',asg[0][2]))
            if not asg and not inx: bad.append(('the skip conditions of the argument are not limited to those of the result',None))
            if inx and not asg and not any(i<inx[-1] for i in pp): bad.append(('skip conditions that are still posted are not taken into account',ev[inx[-1]][1][2]))
    finishob('used-argument','op_inc_arg_usage',bad,[] if n else ['no path'],wh,obs)
# ------------------------------------------------------------- simple loops
class For:
    """for(i = init; i < bound; i += step) with what one iteration stores and calls"""
    def __init__(self,fn,l,op=None,visits=2):
        w=OW(fn,pure,visits=visits,deref=False); w.op=op; self.paths=[]; self.iv=None; self.ok=False; self.l=l
        ps=w.run_loop(l); self.full=[s for s in ps if s.env['exit']==l.h]; self.out=[s for s in ps if s.env['exit']!=l.h]
        init={}
        for I in fn.blocks[l.h]:
            if I['op']=='phi':
                s0=[x for x,pb in I['o'] if int(str(pb).lstrip('b')) not in l.body]
                o=[w.val(self.full[0] if self.full else self.out[0],x) for x in s0] if self.full or self.out else []
                if len(o)==1: init[I['i']]=o[0]
        self.init=init; self.next=self.full[0].env['next'] if self.full else {}
        for s in self.out:
            for c,t in lits(s):
                if c[0]!='cmp': continue
                pr,x,y=c[1:]
                if y[0]=='phi' and y[1] in init: x,y=y,x; pr={'ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}.get(pr,pr)
                if x[0]!='phi' or x[1] not in init: continue
                if (pr=='ult' and not t) or (pr=='uge' and t) or (pr=='eq' and t): self.iv=x; self.bound=y
        if self.iv is not None:
            n=[s.env['next'].get(self.iv[1]) for s in self.full]
            self.ok=bool(n) and all(x is not None and plus(x)==((self.iv,),1) for x in n)
            self.lo=init[self.iv[1]]
    def stores(self,s): return [(vec(e[1])[0],vec(e[1])[1],e[2],e[3]) for e in s.ev if e[0]=='store' and vec(e[1])]
def cal(e,n): return e[0]=='call' and strip(e[1])==n
def usageinit(fn,obs):
    L=argloop(fn); OU=('arg',10); bad=[]; und=[]; D=fn.doms()
    Fs=[]
    for l in Aff(fn,lambda I:None).loops:
        if l is L or l.body&L.body: continue
        try: f=For(fn,l)
        except OverflowError: continue
        if f.full: Fs.append(f)
    wh=[ir.where1(I) for I in fn.calls() if fn.callee(I)=='h_arg'][0]
    everyop=lambda f: f.ok and f.lo==('c',0) and cal(f.bound,'num_var_op')
    def has(f,pred): return f.ok and all(any(pred(*x) for x in f.stores(s)) for s in f.full)
    c=[f for f in Fs if any(v==OU and i==f.iv for s in f.full for v,i,x,I in f.stores(s))]
    good=[f for f in c if everyop(f) and has(f,lambda v,i,x,I: v==OU and i==f.iv and x==('c',K['no']))]
    if c and not good: bad.append(('the usage of an operator is not cleared at the start',None))
    if not c: und.append('loop that clears the usage')
    d=[f for f in Fs if any(v==OU and cal(i,'var2op') for s in f.full for v,i,x,I in f.stores(s))]
    good=[f for f in d if f.ok and f.lo==('c',0) and cal(f.bound,'size') and f.bound[2]==('arg',6) and has(f,lambda v,i,x,I: v==OU and cal(i,'var2op') and ld(i[3])==(('arg',6),f.iv) and x!=('c',K['no']))]
    if not good: bad.append(('a dependent variable is not marked as used',None)) 
    if d and c and good and not any(f.l.h in D[good[0].l.h] for f in c): bad.append(('the usage of the dependent variables is cleared again',None))
    # vecad
    d=[f for f in Fs if any(v==('arg',9) for s in f.full for v,i,x,I in f.stores(s))]
    if d and not [f for f in d if f.ok and f.lo==('c',0) and cal(f.bound,'num_var_vecad') and has(f,lambda v,i,x,I: v==('arg',9) and i==f.iv and x==('c',0))]: bad.append(('the use of VecAD vectors is not cleared at the start',None))
    # map from the offset of a VecAD vector to its index
    mp=None
    w=OW(fn,pure,deref=False); w.op=NUM['LdpOp']
    for s in w.run_loop(L):
        for e in s.ev:
            if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==('arg',9):
                x=ld(vec(e[1])[1])
                if x is not None: mp=x[0]
    if mp is None: und.append('map of VecAD offsets')
    else:
        g=False
        for f in Fs:
            for s in f.full:
                for v,i,x,I in f.stores(s):
                    if v==mp and i[0]=='phi' and i!=f.iv and f.ok:
                        nx=s.env['next'].get(i[1]); tt,cc=plus(nx) if nx else ((),0)
                        o=[y for y in tt if y!=i]
                        g=x==f.iv and f.lo==('c',0) and cal(f.bound,'num_var_vecad') and f.init.get(i[1])==('c',1) and i in tt and cc==1 and len(o)==1 and (cal(o[0],'GetVecInd') or o[0][0]=='ev' and strip(s.ev[o[0][1]][0])=='GetVecInd')
                        if g and o[0][0]=='ev': g=plus(s.ev[o[0][1]][1][1])==((i,),-1)
                        elif g: g=plus(o[0][3])==((i,),-1)
                        if not g: bad.append(('the index of a VecAD vector is not the position of its first element in the list of vectors',I))
                        mp='done'
        if mp!='done': und.append('map of VecAD offsets')
    # operators are taken from the last to the first
    opl=For(fn,L,op=NUM['SinOp'])
    cur=[curof(fn,L,None,s) for s in opl.full]
    for x in cur:
        if x is None: continue
        t,c=plus(x)
        if len(t)!=1 or t[0][0]!='phi' or c!=-1 or opl.init.get(t[0][1]) is None or not cal(opl.init[t[0][1]],'num_var_op') or any(plus(s.env['next'][t[0][1]])!=(t,-1) for s in opl.full): bad.append(('the operators are not taken from the last to the first',None))
    for s in opl.out:
        if not any(c[0]=='cmp' and c[1]=='eq' and c[3]==('c',0) and c[2][0]=='phi' and t for c,t in lits(s)): bad.append(('the pass can end before the first operator',None))
    # conditional expressions are counted, the sets are large enough
    cnt=[]
    for f in Fs:
        for s in f.full:
            for c,t in lits(s):
                if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',NUM['CExpOp']): cnt.append((f,s,t))
    iscx=lambda c: c[0]=='cmp' and c[1]=='eq' and c[3]==('c',NUM['CExpOp'])
    for f in Fs:
        if cnt: break
        for s in f.full:
            for p,v in s.env['next'].items():
                tt,cc=plus(v)
                if ('phi',p)!=f.iv and cc==0 and len(tt)==2 and ('phi',p) in tt and any(iscx(x) for x in tt):
                    if not everyop(f) or f.init.get(p)!=('c',0): bad.append(('not all conditional expressions are counted',None))
                    cnt='done'
                if v[0]=='sel' and ('phi',p)!=f.iv:
                    c=v[1]; a,b=v[2:]
                    if c[0]=='not': c=c[1]; a,b=b,a
                    if iscx(c):
                        cnt='done'
                        if plus(a)!=((('phi',p),),1) or b!=('phi',p) or not everyop(f) or f.init.get(p)!=('c',0): bad.append(('not all conditional expressions are counted',None))
    if not cnt: und.append('count of conditional expressions')
    elif cnt!='done':
        f=cnt[0][0]; ph=None
        for f,s,t in cnt:
            for p,v in s.env['next'].items():
                if ('phi',p)==f.iv: continue
                if plus(v)!=((('phi',p),),1 if t else 0): bad.append(('the conditional expressions are not counted one by one',None))
                ph=('phi',p)
        if not everyop(f) or ph is None or f.init.get(ph[1])!=('c',0): bad.append(('not all conditional expressions are counted',None))
    finishob('used-argument','start of the pass',bad,und,wh,obs)
# ------------------------------------------------------------------- matching
RED2=['--redirect','const_random_iterator<unsigned short>::op_info=>h_op_info2','--redirect','const_random_iterator<unsigned short>::get_op=>h_get_op2','--opaque','optimize_hash_code','--opaque','size_setvec_const_iterator']
NEVER=['BeginOp','CExpOp','CSkipOp','CSumOp','EndOp','InvOp','LdpOp','LdvOp','ParOp','PriOp','StppOp','StpvOp','StvpOp','StvvOp','AFunOp','FunapOp','FunavOp','FunrpOp','FunrvOp']
def match(op,fn,obs):
    CUR=('call','h_current'); OP=('arg',2); V=('arg',5); bad=[]; und=[]; n=0
    w=OW(fn,lambda q: pure(q) and not 'setvec' in q,visits=5,limit=60000,deref=False,readonly=lambda q:True); w.op=NUM[op]
    wh='match_op'
    for s in w.run():
        for e in s.ev:
            if isinstance(e[0],str) and strip(e[0])=='add_element' and e[1][2]!=CUR: bad.append(('another operator is entered in the table of previous operators',e[2]))
        st=[e for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==OP]
        st=[e for e in st if e[2]!=('c',0)]
        for e in st:
            if vec(e[1])[1]!=CUR: bad.append(('the match of another operator is changed',e[3])); continue
            cand=e[2]; n+=1
            if not(cand[0]=='ev' and isinstance(s.ev[cand[1]][0],str)): bad.append(('the match is not a previous operator of the table',e[3])); continue
            # a new look at the same position of the iterator is the same candidate
            same={cand}
            it=s.ev[cand[1]][1]
            for i,x in enumerate(s.ev):
                if isinstance(x[0],str) and strip(x[0])==strip(s.ev[cand[1]][0]) and x[1]==it and not any(isinstance(y[0],str) and strip(y[0])=='operator++' for y in s.ev[min(i,cand[1]):max(i,cand[1])]): same.add(('ev',i))
            eq=[]; opok=False
            for c,t in lits(s):
                if c[0]=='cmp' and c[1]=='eq' and t:
                    a,b=c[2:]
                    if b==('c',NUM[op]) and a[0]=='call' and a[1]=='h_opof' and a[2] in same: opok=True
                    if a in same and b==CUR or b in same and a==CUR: opok=True
                    eq.append((a,b)); eq.append((b,a))
            if not opok: bad.append(('an operator matches a previous operator of another kind',e[3])); continue
            def key(x,who):
                """-> (slot, through var2previous_var)"""
                v=ld(x)
                if v is not None and v[0]==V:
                    k=[slot(v[1],c) for c in who]; k=[y for y in k if y is not None]
                    return (k[0],True) if k else None
                k=[slot(x,c) for c in who]; k=[y for y in k if y is not None]
                return (k[0],False) if k else None
            def same_arg(j,jc,var):
                for a,b in eq:
                    x=key(a,{CUR}); y=key(b,same)
                    if x is None or y is None or x[0]!=j or y[0]!=jc: continue
                    if x[1]==y[1] and (var or not x[1]): return True
                return False
            need=[(j,j in VARS[op]) for j in range(1 if op in('ErfOp','ErfcOp') or len(op)>4 and op[:-2] in UN else 2)]
            good=all(same_arg(j,j,v) for j,v in need)
            if not good and op in('AddvvOp','MulvvOp'): good=same_arg(0,1,True) and same_arg(1,0,True)
            if not good:
                sw=len(need)==2 and same_arg(0,1,True) and same_arg(1,0,True)
                bad.append(('the operands of a match are exchanged although the operator does not commute' if sw else 'an operator matches a previous operator although their arguments %s are not compared'%[j for j,v in need if not same_arg(j,j,v)],e[3]))
        for e in s.ev:
            if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==V:
                i,x=vec(e[1])[1],e[2]
                if i==x: continue
                if i[0]=='call' and i[1]=='h_var' and i[2]==CUR:
                    c=[y for y in s.ev if y[0]=='store' and vec(y[1])==(OP,CUR)]
                    cs={y[2] for y in c}
                    ok=x[0]=='call' and x[1]=='h_var' and x[2][0]=='ev' and any(z[0]=='ev' and s.ev[z[1]][1]==s.ev[x[2][1]][1] for z in cs)
                    if not ok: bad.append(('the variable that replaces the result is not the result of the match',e[3]))
                elif i[0]=='c' and x[0]=='c' or i[0]!=x[0] or i[0]=='call' and i[1]=='h_var': bad.append(('the variable that replaces another variable is changed',e[3]))
    finishob('match',op,bad,und if n else ['no match found'],wh,obs)
def previous(op,fn,obs):
    L=[l for l in Aff(fn,lambda I:None).loops if any((fn.callee(I) or '')=='h_opof' or 'match_op' in (fn.callee(I) or '') for b in l.body for I in fn.blocks[b] if I['op']=='call')]
    if not L: raise core.Broken('loop over the operators not found in get_op_previous')
    L=max(L,key=lambda l:len(l.body)); OU=('arg',5); OP=('arg',4); bad=[]; und=[]; wh='get_op_previous'
    class PW(OW):
        def step(self,s,I):
            if I['op']=='call' and self.fn.callee(I)=='h_opof': s.env['%%%d'%I['i']]=('c',NUM[op]); return
            OW.step(self,s,I)
    w=PW(fn,pure,visits=2,deref=False,readonly=lambda q:True); w.op=NUM[op]; n=0
    for s in w.run_loop(L):
        if s.env['exit']!=L.h: continue
        n+=1; zero=None
        for i,e in enumerate(s.ev):
            if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==OP and e[2]==('c',0) and zero is None: zero=i
            if isinstance(e[0],str) and strip(e[0])=='match_op':
                cur=e[1][3]
                if op in NEVER: bad.append(('%s can be replaced by a previous operator'%op,e[2]))
                if zero is None: bad.append(('the match of an operator is not cleared before it is used',e[2]))
                y=None
                for c,t in lits(s):
                    if c[0]=='cmp' and c[1]=='eq' and ld(c[2])==(OU,cur) and c[3]==('c',K['yes']): y=t
                if y is not True: bad.append(('an operator that is not used by itself can match',e[2]))
                # after the match
                aft=s.ev[i+1:]; m=None
                for c,t in lits(s):
                    x,tt=lit0(c,t)
                    if ld(x)==(OP,cur): m=tt
                if m is not False:
                    g=[a for a in aft if isinstance(a[0],str) and strip(a[0])=='op_inc_arg_usage']
                    if not any(a[1][2]==cur and ld(a[1][3])==(OP,cur) and a[1][1]==('c',0) and a[1][4]==OU for a in g): bad.append(('the previous operator is not marked as used by the operator it replaces',e[2]))
        if zero is None: bad.append(('the match of an operator is not cleared',None))
    finishob('match',op+' in get_op_previous',bad,[] if n else ['no step'],wh,obs)
# ----------------------------------------------------------------------- jobs
CACHE={}
def residual(bc,entry,res,red=RED):
    if entry not in CACHE: CACHE[entry]=ir.Mod(core.irx(bc,A+red+['--opaque',res,'--entry','^%s$'%entry])['module']).fns[entry]
    return CACHE[entry]
def ujob(a):
    op,f=a; obs=[]
    try:
        if op=='atomic': atomic(CACHE['e_usage'],obs); return obs
        if op=='inc': incusage(CACHE['e_inc'],obs); return obs
        if op=='init': usageinit(CACHE['e_usage'],obs); return obs
        if op=='CSumOp': csumusage(CACHE['e_usage'],obs); return obs
    except OverflowError: return [('used-argument',op,'undecided','too many paths','')]
    if op.startswith('previous '): previous(op[9:],CACHE['e_previous'],obs); return obs
    usage(op,f,CACHE['e_usage'],obs,op+(' %d'%list(f.values())[0] if f else ''))
    return obs
def mjob(a):
    bc,ops=a; obs=[]; names={v:k for k,v in ops}
    d=core.irx(bc,A+RED2+['--opaque','XXX','--entry','^e_match$','--spec','h_op='+','.join(str(v) for k,v in ops)])
    for k,m in d['spec'].items():
        try: match(names[int(k)],ir.Mod(m).fns['e_match'],obs)
        except OverflowError: obs.append(('match',names[int(k)],'undecided','too many paths',''))
    return obs
def ops(bc):
    d=core.irx(bc,['--layout','op_code_var$','--opaque','.','--entry','^k_no$'])
    en=[v for k,v in d['layouts'].items() if k.endswith('op_code_var')]
    if not en: raise core.Broken('op_code_var not found')
    return [(n,v) for n,v in en[0]['members'] if n.endswith('Op') and n!='NumberOp']
def rjob(a):
    """the other passes"""
    import c_rerec,c_parus,c_skipop
    k,x=a; obs=[]; rule={'rerec':'re-record','par':'used-parameter','dyn':'match','sum':'summation','skip':'skip','run':'re-record'}[k]
    name=x if isinstance(x,str) else x[0]+(' '+str(list(x[1].values())[0]) if x[1] else '')
    try:
        if k=='rerec': c_rerec.rerecord(x[0],x[1],CACHE['e_run'],obs,name)
        elif k=='run':
            if x=='parameters': c_rerec.params(CACHE['e_run'],obs,None)
            elif x=='atomic calls among dynamic parameters': c_rerec.atomdyn(CACHE['e_run'],obs)
            else: c_rerec.final(CACHE['e_run'],obs)
        elif k=='par':
            if x=='atomic call': c_parus.paratomic(CACHE['e_par'],obs)
            elif x=='dynamic parameters': c_parus.pardyn(CACHE['e_par'],obs)
            else: c_parus.parusage(x[0],x[1],CACHE['e_par'],obs,name)
        elif k=='dyn': c_parus.dynprev(x,CACHE['e_dyn'],obs)
        elif k=='sum':
            lay,stk=K['csumlay']
            if x=='end': c_skipop.csumend(CACHE['e_csum'],lay,stk,obs)
            else: c_skipop.csumop(x,CACHE['e_csum'],lay,stk,obs)
        elif k=='skip':
            I_,N_=K['skiplay']
            if x=='info': c_skipop.cexpinfo(CACHE['e_cexp'],I_,obs)
            elif x=='set': c_skipop.skipset(CACHE['e_cexp'],obs)
            elif x=='place': c_skipop.cskip(CACHE['e_run'],I_,N_,obs)
            else: c_skipop.cskipfill(CACHE['e_run'],I_,N_,obs)
    except OverflowError: return [(rule,name,'undecided','too many paths','')]
    except(core.Broken,KeyError,IndexError,TypeError,ValueError,AttributeError) as e: return [(rule,name,'undecided','%s %s'%(type(e).__name__,e),'')]
    return obs
def p09(prop,tier,t0):
    import c_taylor,c_parus,c_skipop
    bc=core.compile_bc('h_opt.cpp')
    O=ops(bc)
    rep=core.Report(prop)
    consts(bc); NUM.update(O)
    d=core.irx(bc,['--layout','op_code_dyn$','--opaque','.','--entry','^k_no$'])
    K['dyn']={n:v for n,v in [v for k,v in d['layouts'].items() if k.endswith('op_code_dyn')][0]['members']}
    K['csumlay']=c_skipop.csumlay(bc); K['skiplay']=c_skipop.structs(bc)
    jobs=[('e_usage',RES.replace('|get_op_usage',''),RED),('e_inc','XXX',RED),('e_previous',RES.replace('|get_op_previous',''),RED),
          ('e_run',RES,RED+['--globals']+c_skipop.SETQ),('e_par',RES.replace('|get_par_usage',''),RED+['--globals']),
          ('e_dyn',RES.replace('|get_dyn_previous',''),RED+c_parus.DOPQ),('e_csum',RES.replace('|record_csum',''),c_skipop.REDC),
          ('e_cexp',RES.replace('get_cexp_info|',''),RED+c_skipop.SETQ)]
    for e,r,x in jobs: residual(bc,e,r,x)
    U=[]
    for o,_ in O:
        if o=='CExpOp': U+=[(o,{1:m}) for m in range(1,16)]
        elif o=='PriOp': U+=[(o,{0:m}) for m in range(4)]
        elif o in VARS: U.append((o,{}))
    W=U+[(o,{}) for o,_ in O if o in('AFunOp','FunapOp','FunavOp','FunrpOp','FunrvOp','CSumOp')]
    R=[('rerec',x) for x in W]+[('par',x) for x in U+[('CSumOp',{})]]+[('run',x) for x in('parameters','atomic calls among dynamic parameters','dependent variables and VecAD vectors')]
    R+=[('par',x) for x in('atomic call','dynamic parameters')]+[('dyn',x) for x in K['dyn'] if x not in('number_dyn','ind_dyn')]
    R+=[('sum',x) for x in CSUM+['CSumOp','end']]+[('skip',x) for x in('info','set','place','fill')]
    U=[('atomic',None),('inc',None),('init',None),('CSumOp',None)]+U
    U+=[('previous '+o,None) for o,_ in O]
    for o in core.pmap(ujob,U): rep.merge(o)
    for o in core.pmap(rjob,R): rep.merge(o)
    for o in core.pmap(mjob,[(bc,c) for c in c_taylor.chunks([o for o in O if o[0] not in NEVER],16)]): rep.merge(o)
    return core.finish(rep,tier,t0,'value flow through one step of each pass of the optimizer, for every operator',{'used-argument':20,'match':20})
