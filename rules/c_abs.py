"""The abs-normal form of a function object: every operator is recorded again with its
arguments mapped, the results of absolute values become independent variables."""
import core,ir,c_state,c_opt,c_fun
from aff import Aff
from c_opt import OW,VARS,ST,UN,K,NUM,slot,ld,vec,strip,plus,finishob,lits,lit0
from c_rerec import spec,gl,Lp,NARG,NORES,ev_,val,truth_of,PW,pure2
import c_rerec
CUR='cur'
def has(q,s): return s in (q or '')
class AW(OW):
    """one operator: mode 'top' the loop starts with the operator that it handles,
    mode 'next' it first advances to it"""
    mode='top'; seen_=0
    def run_loop(self,L): return self.run(L)
    def outer(self,L,s):
        OW.outer(self,L,s); fn=self.fn; top=self.mode=='top'
        src=sources(fn)
        for I in fn.ins.values():
            if I['op']!='phi': continue
            k=src.get(I['i'])
            if k is None: continue
            n=CUR if top else 'prev'
            if k=='h_op': s.env['%%%d'%I['i']]=('c',self.op) if top else ('c',NUM['SinOp'] if self.op!=NUM['SinOp'] else NUM['CosOp'])
            elif k=='h_arg': s.env['%%%d'%I['i']]=('call','h_arg',n)
            elif k=='h_var': s.env['%%%d'%I['i']]=('call','h_var',n)
        for a in varmem(fn): s.mem[(a,0)]=('call','h_var',CUR if top else 'prev')
    def step(self,s,I):
        if I['op']=='call':
            q=self.fn.callee(I)
            if q in('h_op','h_arg','h_var'):
                n='nxt' if self.mode=='top' else CUR
                if q=='h_op':
                    s.env['%%%d'%I['i']]=('u','nxt') if n=='nxt' else ('c',self.op)
                    s.ev.append(('op_info',(),I,('ev',len(s.ev))))
                else: s.env['%%%d'%I['i']]=('call',q,n)
                return
        OW.step(self,s,I)
def sources(fn):
    """phi -> the one harness call all its values come from"""
    k=('src',)
    if k in fn._callee: return fn._callee[k]
    r={}; ph=[I for I in fn.ins.values() if I['op']=='phi']
    c={I['i']:fn.callee(I) for I in fn.calls() if fn.callee(I) in('h_op','h_arg','h_var')}
    r={I['i']:'?' for I in ph}; ch=True
    while ch:
        ch=False
        for I in ph:
            v=set()
            for x,_ in I['o']:
                i=int(x[1:]) if isinstance(x,str) and x[0]=='%' else None
                J=fn.ins.get(i)
                while J is not None and J['op'] in('zext','trunc','sext','freeze'): i=int(J['o'][0][1:]) if str(J['o'][0])[0]=='%' else None; J=fn.ins.get(i)
                if i is None and str(x)[0]=='c' and str(x)[1:].isdigit(): v.add('const'); continue
                v.add(c.get(i) or (r[i] if i in r else None))
            v.discard('?')
            if 'h_op' in v: v.discard('const')
            n='?' if not v else v.pop() if len(v)==1 else None
            if n!=r[I['i']]: r[I['i']]=n; ch=True
    fn._callee[k]={a:b for a,b in r.items() if b in('h_op','h_arg','h_var')}
    return fn._callee[k]
def varmem(fn):
    c={'%%%d'%I['i'] for I in fn.calls() if fn.callee(I)=='h_var'}
    return {I['o'][1] for I in fn.ins.values() if I['op']=='store' and I['o'][0] in c and isinstance(I['o'][1],str) and fn.ins.get(int(I['o'][1][1:]) if I['o'][1][0]=='%' else -1,{}).get('op')=='alloca'}
PURE=lambda q: pure2(q) or strip(q) in('num_var_vec_ind','get_opcode')
RO=lambda q: strip(q) in('push_back','num_var_op','num_var_load','num_var','GetTxt')
def walk(fn,L,op,fixed={},mode='top',visits=3):
    w=AW(fn,PURE,gl(fn),limit=20000,visits=visits,readonly=RO); w.op=NUM[op]; w.fixed=fixed; w.mode=mode
    return w,w.run_loop(L)
def evs(s,*names): return [(i,strip(e[0]),e) for i,e in enumerate(s.ev) if ev_(e) and (not names or strip(e[0]) in names)]
def f2gstores(s): return [e for e in s.ev if e[0]=='store' and vec(e[1])]
class R: pass
def roles(fn):
    r=R(); B=fn.blk; D=fn.doms()
    inc={B[I['i']] for I in fn.calls() if strip(fn.callee(I) or '')=='operator++' and has(fn.callee(I),'iterator')}
    Ls=[l for l in Aff(fn,lambda I:None).loops if l.body&inc]
    Ls=[l for l in Ls if not any(l is not m and l.body<m.body for m in Ls)]
    r.count=r.inv=r.main=None
    for l in Ls:
        for mode in('top','next'):
            def rec(op):
                try: w,ps=walk(fn,l,op,mode=mode,visits=2)
                except OverflowError: return []
                return [s for s in ps if s.env['exit']==l.h and evs(s,'op_info')]
            n=lambda op,*e: any(evs(s,*e) for s in rec(op))
            if r.main is None and n('SinOp','PutOp'): r.main=(l,mode); break
            if r.inv is None and n('InvOp','PutOp') : r.inv=(l,mode); break
            if r.count is None and n('AbsOp','push_back') and not n('SinOp','push_back'): r.count=(l,mode); break
    for k in('count','inv','main'):
        if getattr(r,k) is None: raise core.Broken('the %s pass of abs_normal_fun is not found'%k)
    r.f2g=None
    for s in walk(fn,r.main[0],'SinOp',mode=r.main[1])[1]:
        for e in f2gstores(s):
            if e[2][0]=='ev' and strip(s.ev[e[2][1]][0])=='PutOp': r.f2g=vec(e[1])[0]
    r.absarg=r.absres=None
    for s in walk(fn,r.count[0],'AbsOp',mode=r.count[1])[1]:
        if s.env['exit']!=r.count[0].h: continue
        for i,q,e in evs(s,'push_back'):
            x=e[1][1]
            v=ptr(e[1][0],e,fn)
            if x==('call','h_arg',CUR) or x[0]=='&' and slot(x[1],CUR)==0: r.absarg=v
            if x in(('&',('call','h_var',CUR)),('call','h_var',CUR)): r.absres=v
    if r.f2g is None: raise core.Broken('the map of the variables is not found in abs_normal_fun')
    return r
def ptr(x,e,fn):
    """the object, not its content"""
    o=e[2]['o'][0]
    return ('ptr',o,0)
def same(f,e,s,r,fixed):
    k,n=f
    def raw(x): return slot(x,CUR)==n or (n in fixed and x==('c',fixed[n]))
    if k in('C','P','A','L','K'):
        if raw(e): return True
        return k=='L' and e[0]=='ev' and strip(s.ev[e[1]][0])=='num_var_load'
    if k=='V':
        v=ld(e); return v is not None and v[0]==r.f2g and raw(v[1])
    if k=='T':
        if e[0]!='ev': return False
        x=s.ev[e[1]]
        if not ev_(x) or strip(x[0])!='PutTxt': return False
        y=x[1][1]
        y=y[1] if y[0]=='&' else y
        if y[0]=='ev': y=('call',s.ev[y[1]][0])+tuple(s.ev[y[1]][1])
        return y[0]=='call' and strip(y[1])=='GetTxt' and raw(y[3])
NAME={'V':'the new address of the variable in argument %d','P':'the parameter in argument %d','C':'argument %d','A':'the offset of the VecAD vector in argument %d','K':'argument %d','T':'the text of argument %d','L':'the load index in argument %d'}
def form(op,fixed):
    if op in('ErfOp','ErfcOp'): return [('V',0),('P',1),('P',2)]
    if op=='CSumOp':
        a=fixed
        return [('C',k) for k in range(5)]+[('V',k) for k in range(5,a[2])]+[('P',k) for k in range(a[2],a[4])]+[('C',a[4])]
    return spec(op,fixed)
def csum(a,b,c,d):
    f={1:5+a,2:5+a+b,3:5+a+b+c,4:5+a+b+c+d}; f[f[4]]=f[4]; return f
def iter_(op,s,bad,und,want=True):
    """the iterator goes to the next operator, past the arguments of this one"""
    pp=[i for i,q,e in evs(s,'operator++')]; oi=[i for i,q,e in evs(s,'op_info')]; cb=[i for i,q,e in evs(s,'correct_before_increment')]
    if len(pp)!=1 or len(oi)!=1 or pp[0]>oi[0]: bad.append(('the iterator does not advance by one operator',None)); return
    if op in('CSumOp','CSkipOp'):
        if not cb: bad.append(('the iterator is not corrected for the number of arguments of %s'%op,None))
    elif cb: bad.append(('the iterator is corrected after %s'%op,None))
def order(op,s,mode,bad):
    """the correction belongs to the operator before the increment"""
    if op not in('CSumOp','CSkipOp') or mode=='next': return
    pp=[i for i,q,e in evs(s,'operator++')]; cb=[i for i,q,e in evs(s,'correct_before_increment')]
    if pp and cb and cb[0]>pp[0]: bad.append(('the iterator is corrected after it advanced',None))
def nextstate(s,mode,bad,und):
    if mode!='top': return
    fn=s.fn_; src=sources(fn)
    for i,x in s.env['next'].items():
        k=src.get(i)
        if k=='h_op' and x!=('u','nxt') and x[0]!='c' or k in('h_arg','h_var') and x!=('call',k,'nxt'): und.append('the next operator')
    if any(src.get(i)=='h_var' for i in s.env['next']): return
    for a in varmem(fn):
        if s.mem.get((a,0))!=('call','h_var','nxt'): bad.append(('the index of the next result is not the one of the next operator',None))
def mainop(fn,r,op,fixed,name,obs):
    L,mode=r.main; bad=[]; und=[]; seen=0
    try: w,ps=walk(fn,L,op,fixed,mode,visits=11 if op=='CSumOp' else 6 if op=='CExpOp' else 3)
    except OverflowError: obs.append(('re-record',name,'undecided','too many paths','')); return
    wh=ir.where1(fn.blocks[L.h][0])
    full=[s for s in ps if s.env['exit']==L.h and evs(s,'op_info')]
    if op=='EndOp': return endop(fn,r,ps,L,obs,name)
    for s in full:
        s_ok(fn,s); seen+=1
        iter_(op,s,bad,und); order(op,s,mode,bad); nextstate(s,mode,bad,und)
        puts=evs(s,'PutOp','PutLoadOp'); args=[a for i,q,e in evs(s,'PutArg') for a in e[1][1:]]
        st=[e for e in f2gstores(s) if vec(e[1])[0]==r.f2g]
        if op in('AbsOp','CSkipOp'):
            if puts or args: bad.append(('%s is recorded'%('an absolute value' if op=='AbsOp' else 'a skip operator'),(puts or [(0,0,(0,0,None))])[0][2][2]))
            if st: bad.append(('the address of a variable is changed by %s'%op,st[0][3]))
            continue
        if not puts: bad.append(('the operator is not recorded',None)); continue
        if len(puts)>1: bad.append(('the operator is recorded more than once',puts[1][2][2])); continue
        i,q,e=puts[0]
        if e[1][1]!=('c',NUM[op]): bad.append(('the operator is recorded as another operator',e[2]))
        if (op in('LdpOp','LdvOp'))!=(q=='PutLoadOp'): bad.append(('a load operator is not recorded as a load',e[2]))
        fm=form(op,fixed)
        if len(args)!=len(fm): bad.append(('%d arguments are recorded, %d expected'%(len(args),len(fm)),e[2]))
        else:
            for a,f in zip(args,fm):
                if not same(f,a,s,r,fixed): bad.append(('an argument of the new operator is not '+NAME[f[0]]%f[1],e[2]))
        last=max([j for j,_,_ in evs(s,'PutArg')] or [-1])
        if last>i: bad.append(('arguments are recorded after the operator',e[2]))
        if op in NORES:
            if st: bad.append(('the address of a variable is changed by an operator that has no result',st[0][3]))
        else:
            if len(st)!=1 or vec(st[0][1])[1]!=('call','h_var',CUR) or st[0][2]!=('ev',i): bad.append(('the new address of the result is not the one of the new operator',st[-1][3] if st else e[2]))
    if not seen:
        bad.append(('the pass ends before the end of the recording',None))
    # the pass goes on : a path that leaves after this operator
    for s in ps:
        if s.env['exit']!=L.h and (evs(s,'PutOp') or evs(s,'PutArg')): bad.append(('the pass ends before the end of the recording',None))
    finishob('re-record',name,bad,und,wh,obs)
def s_ok(fn,s): Sfn[0]=fn
Sfn=[None]
import pathx
pathx.St.fn_=property(lambda s: Sfn[0])
def endop(fn,r,ps,L,obs,name):
    bad=[]; und=[]; D=fn.doms(); wh=ir.where1(fn.blocks[L.h][0])
    inl=[s for s in ps if evs(s,'PutOp')]
    if inl:
        for s in inl:
            p=evs(s,'PutOp')
            if len(p)!=1 or p[0][2][1][1]!=('c',NUM['EndOp']): bad.append(('the operator is recorded as another operator',p[0][2][2]))
            if s.env['exit']==L.h:
                if evs(s,'op_info'): bad.append(('the pass continues after the end of the recording',None))
                # does it leave ?
                x=[v for i,v in s.env['next'].items() if sources(fn).get(i) is None]
                if ('c',0) not in x and ('c',1) not in x: und.append('end of the pass')
        for s in ps:
            if s.env['exit']==L.h and not evs(s,'PutOp'): bad.append(('the end of the recording is not recorded',None))
    else:
        h={b for b in fn.blocks if L.h in D.get(b,()) and b not in L.body}
        c=[I for I in fn.calls() if strip(fn.callee(I) or '')=='PutOp' and fn.blk[I['i']] in h]
        if not c: bad.append(('the end of the recording is not recorded',None))
        for I in c:
            if I['o'][1]!='c%d'%NUM['EndOp']: und.append('operator recorded after the pass')
    finishob('re-record',name,bad,und,wh,obs)
def passes(fn,r,obs):
    D=fn.doms(); wh=ir.where1(fn.blocks[r.count[0].h][0])
    # counting
    bad=[]; und=[]; L,mode=r.count; seen=0
    for op in sorted(NUM):
        if op in('NumberOp','BeginOp') or op=='EndOp' and mode=='top': continue
        try: w,ps=walk(fn,L,op,{},mode)
        except OverflowError: und.append('paths'); continue
        for s in ps:
            if s.env['exit']!=L.h: 
                if evs(s,'push_back') and op!='EndOp': bad.append(('absolute values after %s are not found'%op,None))
                continue
            s_ok(fn,s); seen+=1
            if op!='EndOp' :
                iter_(op,s,bad,und); order(op,s,mode,bad); nextstate(s,mode,bad,und)
            pb=evs(s,'push_back')
            if op!='AbsOp':
                if pb: bad.append(('a result of %s is taken for an absolute value'%op,pb[0][2][2]))
            else:
                if len(pb)!=2: bad.append(('an absolute value is not found',pb[0][2][2] if pb else None))
        if not any(s.env['exit']==L.h for s in ps) and op!='EndOp': bad.append(('the search for absolute values ends before the end of the recording',None))
    if r.absarg is None or r.absres is None: bad.append(('the argument and the result of an absolute value are not remembered',None))
    elif r.absarg==r.absres: bad.append(('the argument and the result of an absolute value are mixed up',None))
    if not seen: und.append('no iteration')
    finishob('absolute values','found by the first pass',bad,und,wh,obs)
    # independent variables of f
    bad=[]; und=[]; L,mode=r.inv; wh=ir.where1(fn.blocks[L.h][0])
    for op in('BeginOp','InvOp'):
        w,ps=walk(fn,L,op,{},mode); fs=[s for s in ps if s.env['exit']==L.h and evs(s,'op_info')]
        for s in fs:
            s_ok(fn,s); iter_(op,s,bad,und); nextstate(s,mode,bad,und)
            puts=evs(s,'PutOp'); args=[a for i,q,e in evs(s,'PutArg') for a in e[1][1:]]; st=[e for e in f2gstores(s) if vec(e[1])[0]==r.f2g]
            if len(puts)!=1 or puts[0][2][1][1]!=('c',NUM[op]): bad.append(('%s is not recorded'%op,puts[0][2][2] if puts else None)); continue
            if len(st)!=1 or vec(st[0][1])[1]!=('call','h_var',CUR) or st[0][2]!=('ev',puts[0][0]): bad.append(('the new address of an independent variable is not the one of the new operator',puts[0][2][2]))
            if op=='BeginOp' and not(len(args)==1 and (args[0]==('c',0) or slot(args[0],CUR)==0)): bad.append(('the argument of the first operator is not zero',puts[0][2][2]))
            if op=='InvOp' and args: bad.append(('an independent variable has an argument',puts[0][2][2]))
        if not fs and op=='InvOp': bad.append(('the independent variables are not recorded',None))
    for op in sorted(NUM):
        if op in('NumberOp','BeginOp','InvOp','EndOp'): continue
        w,ps=walk(fn,L,op,{},mode)
        for s in ps:
            if evs(s,'PutOp') or evs(s,'PutLoadOp'): bad.append(('%s is recorded with the independent variables'%op,None))
            if mode=='top' and s.env['exit']==L.h and evs(s,'operator++'): bad.append(('the first operator after the independent variables is skipped',None))
    finishob('absolute values','independent variables',bad,und,wh,obs)
    # results of the absolute values
    bad=[]; und=[]; ok=False
    for l in Aff(fn,lambda I:None).loops:
        if l.h in(r.count[0].h,r.inv[0].h,r.main[0].h) or l.body&(r.count[0].body|r.inv[0].body|r.main[0].body): continue
        try: f=Lp(fn,l,visits=2)
        except OverflowError: continue
        for s in f.full:
            p=evs(s,'PutOp')
            if not p: continue
            if len(p)!=1 or p[0][2][1][1]!=('c',NUM['InvOp']): bad.append(('an absolute value does not become an independent variable',p[0][2][2])); continue
            st=[e for e in f2gstores(s) if vec(e[1])[0]==r.f2g]
            v=ld(vec(st[0][1])[1]) if len(st)==1 else None
            if v is None or v[0]!=r.absres or v[1]!=f.iv or st[0][2]!=('ev',p[0][0]): bad.append(('the new address of an absolute value is not the one of its independent variable',p[0][2][2])); continue
            if not f.ok: und.append('loop over the absolute values'); continue
            if f.lo!=('c',0) or f.up[1] or not sizeof(f.up[0],r.absres,fn): bad.append(('not all absolute values become independent variables',p[0][2][2]))
            if not(r.inv[0].h in D[l.h] and l.h in D[r.main[0].h]): bad.append(('the absolute values are not recorded between the independent variables and the other operators',p[0][2][2]))
            ok=True
    if not ok and not bad: und.append('loop over the absolute values')
    # the second pass starts again
    c,i=r.count[0].h,r.inv[0].h
    it={I['o'][0] for I in fn.calls() if strip(fn.callee(I) or '')=='operator++' and has(fn.callee(I),'iterator') and fn.blk[I['i']] in r.count[0].body}
    j={I['o'][0] for I in fn.calls() if strip(fn.callee(I) or '')=='operator++' and has(fn.callee(I),'iterator') and fn.blk[I['i']] in r.inv[0].body}
    if it==j:
        re=[I for I in fn.calls() if strip(fn.callee(I) or '') in('operator=','begin') and I['o'] and I['o'][0] in j and c in D[fn.blk[I['i']]] and fn.blk[I['i']] in D[i]]
        if not re and not any(I['op']=='call' and has(fn.callee(I),'memcpy') and I['o'][0] in j for I in fn.ins.values()): bad.append(('the second pass does not start at the beginning of the recording',None))
    m={I['o'][0] for I in fn.calls() if strip(fn.callee(I) or '')=='operator++' and has(fn.callee(I),'iterator') and fn.blk[I['i']] in r.main[0].body}
    if m!=j: und.append('iterator of the main pass')
    finishob('absolute values','become independent variables',bad,und,wh,obs)
def sizeof(e,v,fn):
    if e[0]=='call' and strip(e[1])=='size' and e[2]==v: return True
    if e[0]=='pre':
        I=fn.ins[e[1]]; return strip(fn.callee(I) or '')=='size' and ('ptr',I['o'][0],0)==v
    return False
class AP(PW):
    """parameters: the operator of a dynamic parameter is known"""
    def step(self,s,I):
        if I['op'] in('call','invoke') and strip(self.fn.callee(I) or '')=='num_arg_dyn':
            a=self.val(s,I['o'][0])
            if a[0]=='c': s.env['%%%d'%I['i']]=('c',NARG.get(DYN.get(a[1]),1) if DYN.get(a[1])!='ind_dyn' else 0); return
        PW.step(self,s,I)
DYN={}
def params(fn,r,obs):
    bad=[]; und=[]; D=fn.doms(); seen=set(); wh='abs_normal_fun'
    ok=lambda e,n: (e[0]=='call' and strip(e[1])==n) or (e[0]=='pre' and strip(fn.callee(fn.ins[e[1]]) or '')==n) or e[0]=='ev'
    par=None
    for l in Aff(fn,lambda I:None).loops:
        if not any(strip(fn.callee(I) or '') in('put_con_par','put_dyn_par') and fn.blk[I['i']] in l.body for I in fn.calls()): continue
        par=l if par is None or par.body<l.body else par
    if par is None: und.append('the loop over the parameters'); finishob('parameters','copied',bad,und,wh,obs); return
    PDV=lambda e: e[0]=='load' and vec(e[1]) and isq(fn,vec(e[1])[0],'par_is_dyn')
    for n,op in sorted(DYN.items()):
        if op in('number_dyn','atom_dyn','result_dyn'): continue
        try: f=APLp(fn,par,n)
        except OverflowError: und.append('paths of '+op); continue
        if not f.ok: und.append('range of the loop over the parameters'); break
        if f.lo!=('c',0) or f.up[1] or not ok(f.up[0],'num_par_all'): bad.append(('not all the parameters are copied',None))
        na=NARG.get(op,1) if op!='ind_dyn' else 0
        for s in f.full:
            d=None
            for c,t in lits(s):
                x,tt=lit0(c,t)
                if PDV(x) and vec(x[1])[1]==f.iv: d=tt
            pc=evs(s,'put_con_par'); pd=evs(s,'put_dyn_par','put_dyn_cond_exp')
            if d is None: und.append('whether the parameter is dynamic'); continue
            cnt={p:plus(x) for p,x in s.env['next'].items() if ('phi',p)!=f.iv}
            if not d:
                if len(pc)!=1 or pd: bad.append(('a constant parameter is not copied as a constant',(pd or pc or [(0,0,(0,0,None))])[0][2][2])); continue
                if not parval(s,pc[0][2][1][1],f.iv): bad.append(('the value of another parameter is recorded',pc[0][2][2]))
                if any(x!=((('phi',p),),0) for p,x in cnt.items()): bad.append(('the position in the dynamic parameters is changed by a constant',None))
                continue
            if len(pd)!=1 or pc: bad.append(('a dynamic parameter is not copied: '+op,(pc or pd or [(0,0,(0,0,None))])[0][2][2])); continue
            i,q,e=pd[0]; a=e[1][1:]
            if not parval(s,a[0],f.iv): bad.append(('the value of another parameter is recorded',e[2]))
            if q=='put_dyn_par':
                if op=='cond_exp_dyn': bad.append(('a dynamic parameter is recorded as another operator',e[2])); continue
                if a[1]!=('c',n): bad.append(('a dynamic parameter is recorded as another operator',e[2]))
                xs=a[2:]
            else:
                if op!='cond_exp_dyn': bad.append(('a dynamic parameter is recorded as another operator',e[2])); continue
                xs=a[1:]
            if len(xs)!=na: bad.append(('%s is recorded with %d arguments'%(op,len(xs)),e[2])); continue
            ctr=set(); 
            for k,x in enumerate(xs):
                v=ld(x)
                if v is None or not isq(fn,v[0],'dyn_par_arg'): bad.append(('argument %d of a dynamic parameter is not copied'%k,e[2])); continue
                t,c=plus(v[1])
                if len(t)!=1 or t[0][0]!='phi' or c!=k: bad.append(('argument %d of a dynamic parameter is not copied'%k,e[2])); continue
                ctr.add(t[0])
            if len(ctr)>1: und.append('positions of the arguments')
            opi=f.opix
            for p,x in cnt.items():
                if ('phi',p) in ctr: want=na
                elif ('phi',p)==opi: want=1
                else: continue
                if x!=((('phi',p),),want): bad.append(('the arguments of the dynamic parameters are not advanced by %d for %s'%(want,op) if ('phi',p) in ctr else 'the index of the dynamic parameters is not advanced',None))
                if f.init.get(p)!=('c',0): bad.append(('the dynamic parameters are not read from the first one',None))
            seen.add(op)
    # number of independent dynamic parameters
    nd=[I for I in fn.calls() if strip(fn.callee(I) or '')=='set_n_dyn_independent']
    if not nd: bad.append(('the number of independent dynamic parameters is not set',None))
    for I in nd:
        J=fn.ins.get(int(I['o'][1][1:]) if str(I['o'][1])[0]=='%' else -1)
        if J is None or J['op']!='call': und.append('number of independent dynamic parameters')
        elif strip(fn.callee(J) or '')!='n_dyn_independent': bad.append(('the number of independent dynamic parameters is not the one of the function',I))
    if len(seen)<10: und.append('dynamic parameters')
    finishob('parameters','copied',bad,und,wh,obs)
    # VecAD
    bad=[]; und=[]; ok_=False
    for l in Aff(fn,lambda I:None).loops:
        if not any(strip(fn.callee(I) or '')=='put_var_vecad_ind' and fn.blk[I['i']] in l.body for I in fn.calls()): continue
        f=Lp(fn,l,visits=2)
        for s in f.full:
            p=evs(s,'put_var_vecad_ind')
            if not p: continue
            a=p[0][2][1][1]
            if a[0]=='ev': a=('call',s.ev[a[1]][0])+tuple(s.ev[a[1]][1])
            if not(a[0]=='call' and strip(a[1])=='GetVecInd' and a[3]==f.iv): bad.append(('an element of a VecAD vector is not the one of the function',p[0][2][2]))
            if not f.ok: und.append('range of the VecAD vectors'); continue
            if f.lo!=('c',0) or f.up[1] or not ok(f.up[0],'num_var_vec_ind'): bad.append(('not all the elements of the VecAD vectors are copied',p[0][2][2]))
            ok_=True
    if not ok_ and not bad:
        if any(strip(fn.callee(I) or '')=='put_var_vecad_ind' for I in fn.calls()): und.append('loop over the VecAD vectors')
        else: bad.append(('the VecAD vectors are not copied',None))
    finishob('parameters','VecAD vectors copied',bad,und,wh,obs)
def isq(fn,e,n): return e[0]=='call' and strip(e[1])==n or e[0]=='pre' and strip(fn.callee(fn.ins[e[1]]) or '')==n
def parval(s,x,iv):
    x=val(x)
    if x[0]=='ev': x=('call',s.ev[x[1]][0])+tuple(s.ev[x[1]][1])
    return x[0]=='call' and strip(x[1])=='par_one' and x[3]==iv
class APLp(Lp):
    def __init__(self,fn,l,dop):
        import c_rerec as C
        old=C.PW; C.PW=AP
        try: Lp.__init__(self,fn,l,dop,visits=3)
        finally: C.PW=old
        # index of the operator
        self.opix=None
        for I in fn.ins.values():
            if I['op']=='call' and 'operator[]' in (fn.callee(I) or '') and fn.blk[I['i']] in l.body:
                o=I['o'][0]; J=fn.ins.get(int(o[1:]) if str(o)[0]=='%' else -1)
                if J is not None and J['op']=='call' and strip(fn.callee(J) or '')=='dyn_par_op':
                    x=I['o'][1]; self.opix=('phi',int(x[1:])) if str(x)[0]=='%' else None
def maps(fn,r,L,obs):
    """independent and dependent variables of g and a"""
    mem={n:o for n,t,o,e in c_state.members(L,'class CppAD::ADFun<struct VB>')}; I_,DP,DPAR=mem['ind_taddr_'],mem['dep_taddr_'],mem['dep_parameter_']
    bad=[]; und=[]; D=fn.doms(); got=set()
    off=lambda k,o: ('off',('arg',k),o)
    def szof(e):
        """the number an upper limit stands for"""
        if e[0]=='pre':
            J=fn.ins[e[1]]; 
            if strip(fn.callee(J) or '')!='size': return None
            if ('ptr',J['o'][0],0)==r.absres or ('ptr',J['o'][0],0)==r.absarg: return 's'
            o=J['o'][0]; G=fn.ins.get(int(o[1:]) if o[0]=='%' else -1)
            if G is not None and G['op']=='getelementptr' and G['base']=='a0': return 'n' if G['off']==I_ else 'm' if G['off']==DP else None
        if e[0]=='call' and strip(e[1])=='size':
            v=e[2]
            return 's' if v in(r.absres,r.absarg) else 'n' if v==off(0,I_) else 'm' if v==off(0,DP) else None
        return None
    for l in Aff(fn,lambda I:None).loops:
        if r.main[0].h not in D[l.h] or l.h==r.main[0].h or l.body&r.main[0].body: continue
        try: f=Lp(fn,l,visits=2)
        except OverflowError: continue
        for s in f.full:
            for e in s.ev:
                if e[0]!='store' or not vec(e[1]): continue
                v,i=vec(e[1]); t,c=plus(i); x=e[2]
                key={off(1,I_):'g.ind',off(1,DP):'g.dep',off(1,DPAR):'g.par',off(2,DP):'a.dep',off(2,DPAR):'a.par',off(2,I_):'a.ind'}.get(v)
                if key is None: continue
                if not f.ok or f.lo!=('c',0) or f.up[1]: und.append('range of the loop over '+key); continue
                n=szof(f.up[0]); rest=[y for y in t if y!=f.iv]
                if n is None or c or f.iv not in t: und.append('range of the loop over '+key); continue
                at=None
                if not rest: at='0'
                elif len(rest)==1: at=szof(rest[0])
                y=ld(x)
                src=None
                if key in('g.ind','g.dep'):
                    z=ld(y[1]) if y is not None and y[0]==r.f2g else None
                    if z is not None and z[1]==f.iv: src='ind' if z[0]==off(0,I_) else 'dep' if z[0]==off(0,DP) else 'res' if z[0]==r.absres else 'arg' if z[0]==r.absarg else None
                elif key=='a.dep':
                    if y is not None and y[1]==f.iv: src='res' if y[0]==r.absres else 'arg' if y[0]==r.absarg else None
                else:
                    if x==('c',0): src='false'
                    elif y is not None and y[0]==off(0,DPAR) and y[1]==f.iv: src='par'
                W={'g.ind':{('0','n','ind'),('n','s','res')},'g.dep':{('0','m','dep'),('m','s','arg')},'g.par':{('0','m','par'),('m','s','false')},'a.dep':{('0','s','res')},'a.par':{('0','s','false')}}.get(key,set())
                if (at,n,src) in W: got.add((key,at))
                else: bad.append(({'g.ind':'the independent variables of g are not (x, u)','g.dep':'the dependent variables of g are not (y, z)','a.dep':'the dependent variables of a are not the absolute values','a.ind':'the independent variables of a are changed'}.get(key,'a dependent variable is wrongly said to be a parameter, or not to be one'),e[3]))
    for k in(('g.ind','0'),('g.ind','n'),('g.dep','0'),('g.dep','m'),('a.dep','0')):
        if k not in got and not bad and not und: und.append('loop that sets %s'%k[0])
    # number of independent variables of the recording
    for I in fn.calls():
        if strip(fn.callee(I) or '')=='get_recording':
            w=c_opt.OW(fn,PURE)
            J=fn.ins.get(int(I['o'][2][1:]) if str(I['o'][2])[0]=='%' else -1)
            if J is None: und.append('number of independent variables'); continue
            o=set()
            for x in (J['o'] if J['op']=='add' else ['%%%d'%J['i']]):
                Z=fn.ins.get(int(x[1:]) if str(x)[0]=='%' else -1)
                if Z is None or Z['op']!='call': o.add('?'); continue
                o.add(szof(('pre',Z['i'])))
            if o=={'n','s'}: continue
            if '?' in o or None in o: und.append('number of independent variables')
            else: bad.append(('the number of independent variables of g is not n + s',I))
    finishob('absolute values','variables of g and a',bad,und,'abs_normal_fun',obs)
FN={}
def load():
    if 'fn' in FN: return FN['fn'],FN['L']
    bc=core.compile_bc('h_fun.cpp')
    L=c_state.layouts('h_fun.cpp')
    d=core.irx(bc,['--layout','op_code_dyn$','--opaque','.','--entry','^k_no$'])
    DYN.update({v:n for n,v in [v for k,v in d['layouts'].items() if k.endswith('op_code_dyn')][0]['members']})
    K['dyn']={n:v for v,n in DYN.items()}
    NUM.update(c_opt.ops(bc))
    m=ir.Mod(core.irx(bc,c_fun.A+['--opaque',c_fun.OPQ+'|num_arg_dyn','--redirect','^CppAD::local::play::const_sequential_iterator::op_info=>h_op_info','--globals','--entry','^r_abs$'])['module'])
    FN['fn']=m.fns['r_abs']; FN['L']=L
    return FN['fn'],L
def job(a):
    fn,L=load(); r=roles(fn); obs=[]
    try:
        if a[0]=='op': mainop(fn,r,a[1],a[2],a[1]+('' if not a[2] else ' '+' '.join('%d=%d'%x for x in sorted(a[2].items()))),obs)
        else: passes(fn,r,obs); params(fn,r,obs); maps(fn,r,L,obs)
    except(KeyError,IndexError,TypeError,ValueError,AttributeError,RecursionError) as e:
        import os
        if os.environ.get('VF_DEBUG'): raise
        obs.append(('re-record',str(a[1]),'undecided','%s %s'%(type(e).__name__,e),''))
    return obs
def p17(prop,tier,t0):
    rep=core.Report(prop); fn,L=load(); roles(fn)
    J=[('x',None,None)]
    for op in sorted(NUM):
        if op in('NumberOp','BeginOp','InvOp'): continue
        if op=='CExpOp': J+=[('op',op,{1:m}) for m in range(1,16)]
        elif op=='PriOp': J+=[('op',op,{0:m}) for m in range(4)]
        elif op=='CSumOp': J+=[('op',op,csum(*x)) for x in((1,1,1,1),(2,0,0,0),(0,2,0,1),(1,0,2,0),(0,1,0,2),(2,1,0,1))]
        else: J.append(('op',op,{}))
    for o in core.pmap(job,J): rep.merge(o)
    return core.finish(rep,tier,t0,'value flow through one step of each pass of abs_normal_fun, for every operator',{'re-record':20})
