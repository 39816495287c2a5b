"""After the recording of a function object is replaced, everything the object derives
from its recording belongs to the new recording.

A forward dataflow gives every member of the object, and the recorder, the term that
describes its content; at the end of the routine the terms of the members are compared
with the recording that the player holds."""
import core,ir,c_state,re
from aff import Aff
import c_opt
A=[x for x in c_opt.A if x!='--unroll']
OPQ='list_setvec|pack_setvec|subgraph_info|tape_manage|RecordParOp|::val2fun|::val_optimize|optimize_run|tape_t<|^CppAD::cpp_graph::|extract_option|sweep::dynamic|const_sequential_iterator::|put_con_par|^CppAD::ADFun<.*::(swap|operator=|ADFun|Dependent<|~ADFun|new_dynamic)'
CL={'VB':'class CppAD::ADFun<struct VB>','double':'class CppAD::ADFun<double>'}
# entry -> (routine, not opaque, {argument: its kind}, expected objects)
ENT={'r_dependent':('ADFun::Dependent','|Dependent<','VB',[0]),'r_optimize':('ADFun::optimize','','VB',[0]),'r_valopt':('ADFun::val_optimize','|::val_optimize','VB',[0]),
 'r_val2fun':('ADFun::val2fun','|::val2fun','VB',[0]),'r_abs':('ADFun::abs_normal_fun','','VB',[1,2]),'r_fromgraph':('ADFun::from_graph','','double',[0])}
KEEP={'r_optimize':['check_for_nan_','function_name_','compare_change_count_'],'r_valopt':['check_for_nan_','function_name_','compare_change_count_']}
WHAT={'num_var_tape_':'the number of variables','cskip_op_':'the list of operators to skip','load_op2var_':'the list of VecAD load operators','subgraph_info_':'the subgraph information',
 'for_jac_sparse_pack_':'the packed forward Jacobian sparsity patterns','for_jac_sparse_set_':'the forward Jacobian sparsity patterns','taylor_':'the Taylor coefficients','num_order_taylor_':'the number of Taylor orders','cap_order_taylor_':'the Taylor capacity',
 'dep_parameter_':'which dependent variables are parameters','check_for_nan_':'the nan checking flag','function_name_':'the function name','compare_change_count_':'the compare change count'}
CONST=c_state.CONST|{'num_var','num_var_op','num_var_load','num_var_arg','num_dynamic_par','num_par_all','n_dyn_independent','par_all','par_one','par_is_dyn','dyn_par_op','dyn_par_arg','dyn2par_index','GetOp','GetPar','GetTxt','GetVecInd','GetArg','address_type','begin','num_var_vec_ind','num_var_vecad','find','c_str','Parameter','operator[]','operator==','at'}
def qm(fn,I):
    q=fn.callee(I) or ''
    return c_state.qsplit(q)
class MS:
    def __init__(s,fn,cls,L,objs):
        s.fn=fn; s.L=L; s.aff=Aff(fn,lambda I:None); s.objs={('a%d'%k if isinstance(k,int) else k) for k in objs}
        s.mem={o:n for n,t,o,e in c_state.members(L,cls)}; s.und=[]; s.alt={}; s.dyn={}
        s.refs={}
    def loc(s,o):
        if not isinstance(o,str): return None
        try: r,p=s.aff.addr(o)
        except Exception: return None
        if not p.isconst(): return None
        r=str(r); k=int(p.cval())
        if s.isfun(r): return (r,s.mem.get(k,k)) if k else (r,s.mem.get(0,'*'))
        return (r,k)
    def isfun(s,r): return r in s.objs
    def get(s,st,l):
        return st.get(l,('init',)+l) if l else ('v',None)
    def term(s,vals,o):
        if not isinstance(o,str): return ('v',str(o))
        if o[0]=='c': return ('c',int(o[1:]))
        if o in('true','false'): return ('c',int(o=='true'))
        return vals.get(o,('v',o))
    def run(s):
        fn=s.fn; R=fn.reachable(); ins={}; outs={}; wl=[0]; P=fn.preds(); n=0; ex={}
        vals={}; s.vals=vals; rpo=rpost(fn)
        while wl:
            wl.sort(key=lambda b:rpo.get(b,0)); b=wl.pop(0); n+=1
            if n>40000: s.und.append('no fixed point'); return {}
            ps=[p for p in P.get(b,[]) if p in outs]
            st={}
            if ps:
                keys=set().union(*[set(outs[p]) for p in ps])
                for k in keys:
                    vs=[s.get(outs[p],k) for p in ps]
                    if all(v==vs[0] for v in vs): st[k]=vs[0]
                    else: st[k]=('phi',b,k); s.alt[(b,k)]={p:v for p,v in zip(ps,vs)}
            for I in fn.blocks[b]:
                s.step(st,vals,I)
            t=fn.blocks[b][-1]
            if outs.get(b)!=st or b not in outs:
                outs[b]=st
                for c in fn.succs(b):
                    if c not in wl: wl.append(c)
            if t['op']=='ret': ex[b]=st
        s.outs=outs
        return ex
    def all_members(s,st,F,tok):
        for o,m in s.mem.items(): st[(F,m)]=tok(m)
    def step(s,st,vals,I):
        op=I['op']; o=I.get('o',[]); me='%%%d'%I['i']
        if op=='load':
            l=s.loc(o[0]); vals[me]=s.get(st,l) if l else ('v',me)
        elif op in('zext','trunc','freeze','sext'): vals[me]=s.term(vals,o[0])
        elif op=='phi':
            ts={s.term(vals,x) for x,b in o}
            vals[me]=ts.pop() if len(ts)==1 else ('v',me)
        elif op=='and' and o[1]=='c1': vals[me]=s.term(vals,o[0])
        elif op=='icmp' and I.get('pred')=='ne' and o[1]=='c0': vals[me]=s.term(vals,o[0])
        elif op in('add','sub'): vals[me]=(op,s.term(vals,o[0]),s.term(vals,o[1]))
        elif op=='store':
            l=s.loc(o[1])
            if l: st[l]=s.term(vals,o[0])
        elif op in('call','invoke'): s.call(st,vals,I,o,me)
    def call(s,st,vals,I,o,me):
        q=s.fn.callee(I) or ''
        if q.startswith('llvm.memcpy') or q.startswith('llvm.memmove'):
            d,x=s.loc(o[0]),s.loc(o[1])
            if d: st[d]=s.get(st,x)
            return
        if q.startswith('llvm.'): return
        cb,m=c_state.qsplit(q); a0=s.loc(o[0]) if o else None; a1=s.loc(o[1]) if len(o)>1 else None
        m=m.split('<')[0] if not m.startswith('operator') else m
        F=str(o[0]) if o else None
        ad=cb=='ADFun'
        if ad and m=='ADFun': s.objs.add(F); s.all_members(st,F,lambda k:('new',I['i'],k)); return
        if ad and m=='~ADFun': return
        if ad and m in('operator=','swap') and s.isfun(str(o[1])):
            G=str(o[1]); a={k:s.get(st,(F,k)) for k in s.mem.values()}; b={k:s.get(st,(G,k)) for k in s.mem.values()}
            for k in s.mem.values():
                st[(F,k)]=b[k]
                if m=='swap': st[(G,k)]=a[k]
            return
        if ad and m=='new_dynamic':
            s.dyn[I['i']]=s.get(st,(F,'play_')); st[(F,'num_order_taylor_')]=('c',0); st[(F,'@dyn')]=('dyn',s.loc(o[1]) and s.get(st,s.loc(o[1])),s.get(st,(F,'play_'))); return
        if ad and m in('val_optimize','val2fun','Dependent','from_graph'):
            keep=KEEP.get('r_valopt') if m=='val_optimize' else []
            for k in list(s.mem.values()):
                if k not in keep: st[(F,k)]=('by',I['i'],k)
            if m=='val2fun': st[(F,'@dyn')]=('none',)
            return
        if a0 is None:
            if 't' in I: vals[me]=('v',me)
            return
        cst=m in CONST or m.startswith('operator[]') or 'fn' in I and s.fn.mod.dem(I['fn']).endswith(' const')
        c0=s.get(st,a0)
        if m=='size' and c0[0]=='resized': vals[me]=c0[1][0]
        elif m in('num_var','num_var_op','num_var_load','size'): vals[me]=(m,c0)
        elif m=='get_recording' and a1: st[a0]=('rec',s.get(st,a1)); st[a1]=('moved',I['i']); s.touched=True
        elif m=='resize' or m=='clear': st[a0]=('resized',tuple(s.term(vals,x) for x in o[1:])) if m=='resize' else ('resized',(('c',0),))
        elif m=='operator=' and a1: st[a0]=s.get(st,a1)
        elif m=='operator=' : st[a0]=('set',I['i'])
        elif m==cb and a1 and len(o)>=2: st[a0]=s.get(st,a1)
        elif m=='basic_string' and cb=='basic_string' and a1: st[a0]=s.get(st,a1)
        elif m==cb: st[a0]=('new',I['i'])
        elif m.startswith('~'): pass
        elif m=='swap' and a1: st[a0],st[a1]=s.get(st,a1),s.get(st,a0)
        elif cst: vals[me]=('v',me)
        else:
            st[a0]=('mut',I['i']); vals[me]=('v',me)
            # objects passed by reference to a function that is not a method
        for x in o[1:]:
            l=s.loc(x)
            if l and not cst and m not in('operator=','swap','get_recording','resize','clear') and m!=cb and isinstance(x,str) and x[0] in'%a' and s.ptr(x):
                if not s.isfun(l[0]): st[l]=('mut',I['i'])
                elif not('optimize_run' in q): st[l]=('mut',I['i'])
    def ptr(s,x):
        I=s.fn.get(x)
        return I is None and x[0]=='a' or I is not None and I.get('t')=='ptr'
def rpost(fn):
    seen=set(); out=[]; st=[(0,iter(fn.succs(0)))]; seen.add(0)
    while st:
        b,it=st[-1]
        for c in it:
            if c not in seen: seen.add(c); st.append((c,iter(fn.succs(c)))); break
        else: out.append(b); st.pop()
    out.reverse(); return {b:i for i,b in enumerate(out)}
def content(c):
    """content of the recorder that the player holds"""
    return c[1] if c[0]=='rec' else c
def norm(t):
    if t[0] in('num_var','num_var_op','num_var_load'): return (t[0],content(t[1]))
    return t
def known(t):
    return t[0] in('c','num_var','num_var_op','num_var_load','size','init','new')
def cmp_(t,want,s,depth=0):
    """True / False / None"""
    t,w=norm(t),norm(want)
    if t==w: return True
    if t[0]=='phi' or w[0]=='phi' or any(isinstance(x,tuple) and x and x[0]=='phi' for x in t[1:]+w[1:]):
        r=None
        for (b,k),alts in s.alt.items():
            if depth>3: return None
            if (t==('phi',b,k)) or ('phi',b,k) in w[1:] or ('phi',b,k) in t[1:]:
                res=[]
                for p in alts:
                    tt=sub(t,b,p,s); ww=sub(w,b,p,s)
                    if (tt,ww)==(t,w): return None
                    res.append(cmp_(tt,ww,s,depth+1))
                return False if False in res else None if None in res else True
        return None
    if t[0]=='by' or w[0]=='by': return None
    if known(t) and known(w): return False
    return None
def sub(t,b,p,s):
    if not t: return t
    if t[0]=='phi' and t[1]==b: return s.alt[(b,t[2])].get(p,t)
    return tuple(sub(x,b,p,s) if isinstance(x,tuple) else x for x in t)
def alts(t,s,seen=()):
    """the contents a member can have"""
    if t[0]=='phi' and (t[1],t[2]) in s.alt and t not in seen:
        r=set()
        for x in s.alt[(t[1],t[2])].values(): r|=alts(x,s,seen+(t,))
        return r
    return {t}
def group(t):
    """the call or the object that this content came from, as a whole"""
    if t[0]=='by': return ('by',t[1])
    if t[0]=='init' : return ('init',t[1])
    if t[0]=='new' and len(t)==3: return ('new',t[1])
    return None
def paths(s,st,F):
    """contents of the members, split by the merge points the player's content has"""
    P=s.get(st,(F,'play_'))
    if P[0]!='phi': return [st]
    b=P[1]; r=[]
    for p in s.alt.get((b,P[2]),{}):
        r.append({k:sub(v,b,p,s) for k,v in list(st.items())})
    return r
def objcheck(s,st,F,bad,und,init0):
    g=lambda m:s.get(st,(F,m))
    P=g('play_'); G=group(P)
    if P==('init',F,'play_') and F==init0: return False
    grp=lambda m: G is not None and group(g(m))==G
    # scalars
    def chk(m,ok,why='is not renewed'):
        if ok is False: bad.append((WHAT[m]+' '+why,None))
        elif ok is None: und.append(m)
    for m,q in(('num_var_tape_','num_var'),):
        chk(m,True if grp(m) else cmp_(g(m),(q,P),s),'is not the one of the new recording')
    for m,q in(('cskip_op_','num_var_op'),('load_op2var_','num_var_load')):
        t=g(m)
        if grp(m): continue
        r=[]
        for x in alts(t,s):
            r.append(cmp_(x[1][0],(q,P),s) if x[0]=='resized' else False if x[0] in('init','new') else None)
        chk(m,False if False in r else None if None in r else True,'does not have the size for the new recording')
    for m in('for_jac_sparse_pack_','for_jac_sparse_set_','taylor_'):
        t=g(m)
        if grp(m) : continue
        r=[True if x[0]=='resized' and x[1][0]==('c',0) else None if x[0]=='by' else False if x[0] in('init','resized','new') and not(x[0]=='new') else None for x in alts(t,s)]
        chk(m,False if False in r else None if None in r else True,'of the old recording are kept')
    for m in('num_order_taylor_','cap_order_taylor_'):
        t=g(m)
        if grp(m) and grp('taylor_'): continue
        r=[x==('c',0) if x[0] in('c','init') else None for x in alts(t,s)]
        chk(m,False if False in r else None if None in r else True,'of the old recording is kept')
    def size(m):
        c=g(m)
        return c[1][0] if c[0]=='resized' else ('size',c)
    t=g('subgraph_info_')
    if not(grp('subgraph_info_') and grp('ind_taddr_') and grp('dep_taddr_')):
        if t[0]=='resized' and len(t[1])==4:
            w=[size('ind_taddr_'),size('dep_taddr_'),('num_var_op',P),('num_var',P)]
            r=[cmp_(a,b,s) for a,b in zip(t[1],w)]
            chk('subgraph_info_',False if False in r else None if None in r else True,'does not have the sizes of the new function')
        else:
            r=[False if x[0] in('init','new') or group(x)==G and x[0]=='by' else None for x in alts(t,s)]
            chk('subgraph_info_',False if False in r else None,'does not have the sizes of the new function')
    if not(grp('dep_parameter_') and grp('dep_taddr_')):
        x,y=size('dep_parameter_'),size('dep_taddr_')
        c,d=g('dep_parameter_'),g('dep_taddr_')
        if c[0]=='init' and d[0]=='init': pass
        elif x==y: pass
        elif c[0]=='resized' and d[0]=='resized' and known(x) and known(y) or (c[0]=='resized')!=(d[0]=='resized') and (c[0] in('init','new') or d[0] in('init','new') or grp('dep_parameter_') or grp('dep_taddr_')): chk('dep_parameter_',False,'does not have the size for the dependent variables')
        else: und.append('dep_parameter_')
    return True
def routine(bc,L,e):
    name,inl,base,objs=ENT[e]; rule='renewed'; obs=[]
    # everything but the routine itself is a leaf
    opq=OPQ
    for x in inl.split('|')[1:]: opq=opq.replace('|'+x,'')
    m=ir.Mod(core.irx(bc,A+['--opaque',opq,'--entry','^%s$'%e])['module']); fn=m.fns[e]
    s=MS(fn,CL[base],L,[0,1,2] if e=='r_abs' else [0])
    ex=s.run(); bad=[]; und=list(s.und); kept=[]; ku=[]; n=0
    for b,st in ex.items():
        for k in objs:
            F='a%d'%k
            for st2 in paths(s,st,F):
                if objcheck(s,st2,F,bad,und,F): n+=1
        for mm in KEEP.get(e,[]):
            for x in alts(s.get(st,('a0',mm)),s):
                if x!=('init','a0',mm): (kept if x[0] in('by','new','c','set','init') else ku).append((WHAT[mm]+' that the user chose is lost',None))
        if e=='r_valopt':
            for x in alts(s.get(st,('a0','@dyn')),s):
                if x[0]!='dyn': kept.append(('the values of the dynamic parameters are lost',None))
    w=name+' in include/cppad'
    if not n and not bad: und.append('the recording is not replaced')
    def out(rule,inst,bad,und):
        if bad:
            for t in sorted({x[0] for x in bad}): obs.append((rule,inst,'viol',t,name))
        elif und: obs.append((rule,inst,'undecided',str(und[0]),name))
        else: obs.append((rule,inst,'ok','',name))
    out('renewed',name,bad,und)
    if e in KEEP: out('kept',name,kept,[x[0] for x in ku])
    return obs
def newdyn(bc,L):
    '''new_dynamic : every dynamic parameter is recomputed, the Taylor coefficients are dropped'''
    m=ir.Mod(core.irx(bc,A+['--opaque',OPQ.replace('|new_dynamic',''),'--entry','^r_newdyn$'])['module']); fn=m.fns['r_newdyn']
    s=MS(fn,CL['VB'],L,[0]); ex=s.run(); bad=[]; und=[]
    for b,st in ex.items():
        for x in alts(s.get(st,('a0','num_order_taylor_')),s):
            if x!=('c',0): (bad if x[0] in('init','c') else und).append(('Taylor coefficients for the old dynamic parameters are kept',None))
    cs=[I for I in fn.calls() if (fn.callee(I) or '').split('<')[0].endswith('sweep::dynamic')]
    if not cs: und.append(('sweep::dynamic',None))
    want=['par_all',None,'par_is_dyn','dyn2par_index','dyn_par_op','dyn_par_arg']
    D=fn.doms()
    for I in cs:
        for k,w in enumerate(want):
            if w is None:
                if I['o'][k]!='a1': bad.append(('the dynamic parameters are not set to the values that the user chose',None))
                continue
            J=fn.get(I['o'][k])
            if J is None or J['op'] not in('call','invoke'): und.append((w,None)); continue
            if (fn.callee(J) or '').split('::')[-1]!=w or s.loc(J['o'][0])!=('a0','play_'): bad.append(('%s of the function is not used to set the dynamic parameters'%w,None))
    if cs and not any(all(fn.blk[I['i']] in D[b] for b in ex) for I in cs): bad.append(('the dynamic parameters are not set on some path',None))
    st='viol' if bad else 'undecided' if und else 'ok'
    return [('renewed','ADFun::new_dynamic',st,(bad or und or [('',0)])[0][0],'ADFun::new_dynamic')]
def p18(prop,tier,t0):
    rep=core.Report(prop)
    L=c_state.layouts('h_fun.cpp'); bc=core.compile_bc('h_fun.cpp')
    for o in core.pmap(J,[(bc,L,e) for e in ENT]+[(bc,L,'newdyn')]): rep.merge(o)
    return core.finish(rep,tier,t0,'dataflow of the content of every member of a function object through the routines that replace its recording',{'renewed':3})
def J(a):
    try: return newdyn(a[0],a[1]) if a[2]=='newdyn' else routine(*a)
    except(core.Broken,KeyError,IndexError,TypeError,ValueError,AttributeError,RecursionError) as e:
        import os
        if os.environ.get('VF_DEBUG'): raise
        return [('renewed',a[2],'undecided','%s %s'%(type(e).__name__,e),'')]
