"""from_graph: every operator of a graph becomes the tape operator, the dynamic parameter
or the constant with the same meaning, whatever the types of its arguments."""
import itertools,math
import core,ir,c_state,c_opt,c_fun,c_graph
from aff import Aff
from c_opt import OW,VARS,UN,NUM,ld,vec,strip,plus,finishob,lits,lit0
from c_rerec import gl,Lp,ev_,val
from c_abs import evs,DYN
from c_graph import GOP,COP,TYP,kind,through,L_init
from pathx import resolve,isbool
MATH={'sin':'sin','cos':'cos','tan':'tan','asin':'asin','acos':'acos','atan':'atan','sinh':'sinh','cosh':'cosh','tanh':'tanh','asinh':'asinh','acosh':'acosh','atanh':'atanh','exp':'exp','log':'log','expm1':'expm1','log1p':'log1p','sqrt':'sqrt','erf':'erf','erfc':'erfc','abs':'llvm.fabs.f64'}
FPURE=set(MATH.values())|{'pow','llvm.sqrt.f64','fabs','llvm.exp.f64','llvm.log.f64','llvm.sin.f64','llvm.cos.f64','llvm.pow.f64'}
def fcanon(q):
    if q.startswith('llvm.'):
        q=q.split('.')[1]
    return {'fabs':'abs'}.get(q,q)
PU=lambda q: c_opt.pure(q) and strip(q) not in('num_var_op','num_var','num_var_load') or q in FPURE or strip(q) in('par_all','quiet_NaN','h_gop','h_nres','h_callid','h_str','h_argn','dependent_vec_get','constant_vec_get','discrete_name_vec_size','atomic_name_vec_size','constant_vec_size','dependent_vec_size','n_dynamic_ind_get','n_variable_ind_get','operator_vec_size','print_text_vec_size','print_text_vec_get[abi:cxx11]','function_name_get[abi:cxx11]')
RO=lambda q: strip(q) in('PutOp','PutArg','put_con_par','put_dyn_par','put_dyn_cond_exp','push_back','comp_eq','comp_lt','comp_le','eval','forward','for_type','put_dyn_atomic','put_var_atomic')
class FW(OW):
    swconds=True; gop=None; nres=1; narg=0; types=(); tvec=None
    def step(self,s,I):
        op=I['op']
        if op=='fcmp':
            a,b=self.val(s,I['o'][0]),self.val(s,I['o'][1]); s.env['%%%d'%I['i']]=('fcmp',I['pred'],a,b); return
        if op in('call','invoke'):
            q=self.fn.callee(I) or ''; me='%%%d'%I['i']
            if q=='h_gop' and self.gop is not None: s.env[me]=('c',self.gop); return
            if q=='h_nres' and self.gop is not None: s.env[me]=('c',self.nres); return
            if strip(q)=='size':
                x=self.val(s,I['o'][0])
                if x==('call','h_argn') and self.gop is not None: s.env[me]=('c',self.narg); return
                n=s.env.get(('len',x))
                if n is not None: s.env[me]=('c',n); return
            if 'operator[]' in q and 'ad_type_enum' in q:
                if self.tvec is None: self.tvec=set()
                self.tvec.add(self.val(s,I['o'][0]))
            x=self.val(s,I['o'][0]) if I.get('o') else None
            if strip(q)=='resize' and x is not None and x[0]=='ptr':
                n=self.val(s,I['o'][1]); OW.step(self,s,I)
                if n[0]=='c': s.env[('len',x)]=n[1]
                else: s.env.pop(('len',x),None)
                return
            if strip(q)=='push_back' and x is not None and ('len',x) in s.env and x[0]=='ptr':
                y=self.val(s,I['o'][1]); y=self.load(s,y,None,I) if y[0]=='ptr' or vec(y) else y
                keep={k:v for k,v in s.mem.items() if k[0]=='*' and vec(k[1]) and vec(k[1])[0]==x}
                OW.step(self,s,I); s.mem.update(keep)
                n=s.env[('len',x)]; s.mem[('*',('call','operator[]',x,('c',n)))]=y; s.env[('len',x)]=n+1; return
            if sn(q)=='atomic_index' and len(I['o'])>1:
                # the index is passed as a reference to a constant
                y=self.val(s,I['o'][1]); keep={k:v for k,v in s.mem.items() if y[0]=='ptr' and k[0]==y[1]}
                OW.step(self,s,I); s.mem.update(keep); return
        OW.step(self,s,I)
    def load(self,s,p,t,I):
        v=vec(p)
        if v is not None and self.types and ('*',p) not in s.mem and v[0] in (self.tvec or ()):
            j=argn(v[1])
            if j is not None and j<len(self.types): return ('c',self.types[j])
        return OW.load(self,s,p,t,I)
    def outer(self,L,s):
        OW.outer(self,L,s)
        for I in self.fn.calls():
            q=self.fn.callee(I) or ''
            if 'operator[]' in q and 'ad_type_enum' in q:
                if self.tvec is None: self.tvec=set()
                v=self.val(s,I['o'][0])
                if v[0]=='ptr': self.tvec.add(v)
def argn(e):
    """e is the node of argument j of the operator"""
    v=ld(e)
    return v[1][1] if v is not None and v[0]==('call','h_argn') and v[1][0]=='c' else None
def num(e):
    """the number a constant expression stands for"""
    if e[0]=='f': return e[1]
    if e[0]=='c': return float(e[1])
    if e[0]=='call' and len(e)==3:
        x=num(e[2]); f=getattr(math,fcanon(e[1]),None)
        return f(x) if x is not None and f else None
    if e[0] in('fadd','fsub','fmul','fdiv') and len(e)==3:
        a,b=num(e[1]),num(e[2])
        if a is None or b is None or e[0]=='fdiv' and b==0: return None
        return {'fadd':a+b,'fsub':a-b,'fmul':a*b,'fdiv':a/b if e[0]=='fdiv' else 0}[e[0]]
    if e[0]=='fneg': x=num(e[1]); return -x if x is not None else None
    return None
class R: pass
ROLE={}
def roles(fn):
    if id(fn) not in ROLE: ROLE[id(fn)]=roles1(fn)
    return ROLE[id(fn)]
def sn(q):
    """name of a function without its template arguments"""
    o='';d=0
    for i,c in enumerate(q):
        if c=='<' : d+=1
        elif c=='>': d-=1
        elif not d: o+=c
    return o.split('::')[-1].split('[')[0]
def roles1(fn):
    mem=[{n:o for n,t,o,e in c_state.members(c_graph.FN['L'],k)} for k in c_graph.FN['L'] if k.startswith('class CppAD::ADFun<double')][0]
    r=R(); r.DP,r.DT=mem['dep_parameter_'],mem['dep_taddr_']; r.TXT=r.DIS=r.ATM=None; r.side={}
    Ls=[l for l in Aff(fn,lambda I:None).loops if any(fn.callee(I)=='h_gop' and fn.blk[I['i']] in l.body for I in fn.calls())]
    if not Ls: raise core.Broken('the loop of from_graph over the operators is not found')
    r.L=max(Ls,key=lambda l:len(l.body)); r.N2F=r.NT=r.PAR=None
    T={n:v for v,n in NT.items()}
    for s in walk(fn,r.L,'sin',(T['variable'],)):
        for i,q,e in evs(s,'push_back'):
            if 'ad_type_enum' in e[0]: r.NT=('ptr',e[2]['o'][0],0)
            elif val(e[1][-1])[0]=='ev': r.N2F=('ptr',e[2]['o'][0],0)
    for l in Aff(fn,lambda I:None).loops:
        if l.body&r.L.body: continue
        try: f=c_graph.GLp(fn,l)
        except OverflowError: continue
        r.side[l.h]=f
        for s in f.full:
            n=[sn(e[0]) for e in s.ev if isinstance(e[0],str) and e[0]!='store']
            st=[e for e in s.ev if e[0]=='store' and vec(e[1])]
            for k,w in(('PutTxt','TXT'),('discrete_name_vec_find','DIS'),('atomic_name_vec_find','ATM')):
                if k in n and st: setattr(r,w,vec(st[0][1])[0])
    if r.N2F is None or r.NT is None: raise core.Broken('the maps of the nodes are not found in from_graph')
    return r
NT={}
def walk(fn,L,g,types,nres=1,limit=3000):
    w=FW(fn,PU,gl(fn),limit=limit,visits=14,readonly=RO); w.gop=GOP[g]; w.nres=nres; w.types=types; w.narg=len(types)
    return [s for s in w.run_loop(L)]
def nf(e,r):
    v=ld(e)
    return argn(v[1]) if v is not None and v[0]==r.N2F else None
def par(e,r,fn):
    """the value of the parameter that argument j is"""
    v=ld(e)
    if v is None: return None
    if c_graph.cname(fn,v[0],'par_all'): return nf(v[1],r)
    return None
REL={'lt':{'lt'},'le':{'lt','eq'},'eq':{'eq'}}
def prel(pr,sw):
    s={'lt':{'lt'},'le':{'lt','eq'},'eq':{'eq'},'gt':{'gt'},'ge':{'gt','eq'},'ne':{'lt','gt'}}.get(pr[1:])
    if s is None: return None
    if sw: s={{'lt':'gt','gt':'lt'}.get(x,x) for x in s}
    return s|({'un'} if pr[0]=='u' else set())
def cases(e,more=()):
    """the leaves of a selection with the literals that lead to them"""
    if e[0]=='sel': return cases(e[2],more+((e[1],True),))+cases(e[3],more+((e[1],False),))
    return [(e,more)]
def reached(s,r,fn,a,b,more=()):
    """outcomes of the comparison of parameters a and b that lead here"""
    o={'lt','eq','gt','un'}
    for c,t in list(lits(s))+list(more):
        n=c
        while n[0]=='not': n=n[1]; t=not t
        if n[0]!='fcmp': continue
        x,y=par(n[2],r,fn),par(n[3],r,fn)
        if (x,y)==(a,b): z=prel(n[1],False)
        elif (x,y)==(b,a): z=prel(n[1],True)
        else: continue
        if z is None: return None
        o&=z if t else {'lt','eq','gt','un'}-z
    return o
def zeroed(s,r,fn,a,more=()):
    """signs of parameter a that lead here"""
    o={'lt','eq','gt','un'}
    for c,t in list(lits(s))+list(more):
        n=c
        while n[0]=='not': n=n[1]; t=not t
        if n[0]!='fcmp': continue
        if par(n[2],r,fn)==a and num(n[3])==0: z=prel(n[1],False)
        elif par(n[3],r,fn)==a and num(n[2])==0: z=prel(n[1],True)
        else: continue
        if z is None: return None
        o&=z if t else {'lt','eq','gt','un'}-z
    return o
TN={}
CMPG={'comp_eq':('comp_eq',1),'comp_le':('comp_le',1),'comp_lt':('comp_lt',1),'comp_ne':('comp_eq',0)}
def op(fn,g,types,obs,nres=None):
    r=roles(fn); bad=[]; und=[]; wh=ir.where1(fn.blocks[r.L.h][0]); kd=kind(g)
    name='%s(%s)%s'%(g,','.join(NT[t][:3] for t in types),'' if nres is None else ' with %d results'%nres); T={n:v for v,n in NT.items()}
    nres=nres if nres is not None else 0 if kd in('comp','print') else 1
    hi='variable' if T['variable'] in types else 'dynamic' if T['dynamic'] in types else 'constant'
    isv=[t==T['variable'] for t in types]
    try: ps=walk(fn,r.L,g,types,nres)
    except OverflowError: obs.append(('from_graph',name,'undecided','too many paths','')); return
    full=[s for s in ps if s.env['exit']==r.L.h]; seen=0
    for s in full:
        if evs(s,'Call'): continue
        seen+=1
        puts=evs(s,'PutOp'); args=[a for i,q,e in evs(s,'PutArg') for a in e[1][1:]]; con=evs(s,'put_con_par'); dyn=evs(s,'put_dyn_par','put_dyn_cond_exp'); cmp_=evs(s,'comp_eq','comp_le','comp_lt','comp_ne')
        pt=[(i,e) for i,q,e in evs(s,'push_back') if ('ptr',e[2]['o'][0],0)==r.NT]; pf=[(i,e) for i,q,e in evs(s,'push_back') if ('ptr',e[2]['o'][0],0)==r.N2F]
        # the result
        if kd in('atom','atom4'): atomop(fn,s,r,types,nres,T,pt,pf,puts,dyn,cmp_,bad,und); continue
        if len(pt)!=nres or len(pf)!=nres: bad.append(('the number of nodes after the operator is not that of its results',(pt or pf or [(0,(0,0,None))])[-1][1][2])); continue
        res=None
        if nres:
            t=val(pt[0][1][1][-1])
            if t!=('c',T[hi]): bad.append(('the result of an operator with these types is not a %s'%hi,pt[0][1][2]))
            res=val(pf[0][1][1][-1])
        last=None
        # what is recorded
        def only(*lists):
            n=sum(len(l) for l in (puts,con,dyn,cmp_)); m=sum(len(l) for l in lists); return n==m
        def isres(i): return res==('ev',i)
        if kd=='comp':
            want,rv=CMPG[g]
            if hi=='constant':
                if puts or con or dyn: bad.append(('a comparison of constants is recorded',(puts or con or dyn)[0][2][2]))
            if len(cmp_)!=1:
                if hi!='constant': bad.append(('a comparison is not recorded',None))
                continue
            i,q,e=cmp_[0]; a=e[1]
            # rec,var_l,var_r,dyn_l,dyn_r,left,right,result
            fl=[x==('c',1) or x==('c',-1) for x in a[1:5]]; wf=[isv[0],isv[1],types[0]==T['dynamic'],types[1]==T['dynamic']]
            if any(x[0]!='c' for x in a[1:5]): und.append('flags of a comparison'); continue
            if fl!=wf: bad.append(('the operands of a comparison have other types than the nodes',e[2])); continue
            if q!=want or len(a)<8 or bool(a[7][1] if a[7][0]=='c' else None)!=bool(rv): bad.append(('the comparison is recorded as another one',e[2])); continue
            for k in(0,1):
                o=a[5+k]; tv=member(s,o,'taddr'); vv=member(s,o,'value')
                if o[0]!='call' or vec(o) is None: und.append('operand of a comparison'); continue
                st={x[1][2] if x[1][0]=='off' else 0:x[2] for x in s.ev if x[0]=='store' and (x[1][1] if x[1][0]=='off' else x[1])==o}
                if types[k]==T['constant']:
                    if not any(par(x,r,fn)==k for x in st.values()): bad.append(('the value of operand %d of a comparison is not that of its node'%k,e[2]))
                elif not any(nf(x,r)==k for x in st.values()): bad.append(('the address of operand %d of a comparison is not that of its node'%k,e[2]))
            continue
        if kd=='print':
            if len(puts)!=1 or puts[0][2][1][1]!=('c',NUM['PriOp']) or not only(puts): bad.append(('a print operator is not recorded as one',puts[0][2][2] if puts else None)); continue
            e=puts[0][2]
            if len(args)!=5: bad.append(('a print operator is recorded with %d arguments'%len(args),e[2])); continue
            if args[0]!=('c',sum(1<<k for k in(0,1) if isv[k])): bad.append(('a print operator has other types than its nodes',e[2]))
            for k,n in((1,0),(3,1)):
                if nf(args[k],r)!=n: bad.append(('%s of a print operator is not that of its node'%('notpos','value')[n],e[2]))
            for k,n in((2,0),(4,1)):
                v=ld(args[k]); j=ld(v[1]) if v is not None else None
                if v is not None and v[0]==('call','h_str'): bad.append(('the text of a print operator is not taken from the texts of the recording',e[2]))
                elif j is None: und.append('text of a print operator')
                elif r.TXT is not None and v[0]!=r.TXT: bad.append(('the text of a print operator is not taken from the texts of the recording',e[2]))
                elif j!=(('call','h_str'),('c',n)): bad.append(('the text %s the value is another one'%('before','after')[n],e[2]))
            continue
        if kd=='discrete':
            idx=None
            if hi=='variable':
                if len(puts)!=1 or not only(puts) or puts[0][2][1][1]!=('c',NUM['DisOp']): bad.append(('a discrete function is not recorded as one',None)); continue
                i,q,e=puts[0]
                if len(args)!=2 or nf(args[1],r)!=0: bad.append(('the argument of a discrete function is not that of its node',e[2])); continue
                idx=args[0]
            elif hi=='dynamic':
                if len(dyn)!=1 or not only(dyn) or dyn[0][2][1][2]!=('c',TN['dis_dyn']): bad.append(('a discrete function is not recorded as one',None)); continue
                i,q,e=dyn[0]; x=e[1][3:]
                if len(x)!=2 or nf(x[1],r)!=0: bad.append(('the argument of a discrete function is not that of its node',e[2])); continue
                idx=x[0]
            else:
                ee=evs(s,'eval')
                if len(con)!=1 or len(ee)!=1 or not only(con): bad.append(('a discrete function of a constant is not a constant',None)); continue
                i,q,e=con[0]; x=ee[0][2][1]
                if val(e[1][1])!=('ev',ee[0][0]): bad.append(('the value of a discrete function of a constant is not recorded',e[2])); continue
                y=val(x[1]); y=y if y[0]=='load' else ('load',y,0)
                if par(y,r,fn)!=0: bad.append(('the argument of a discrete function is not that of its node',e[2])); continue
                idx=x[0]
            if not isres(i): bad.append(('the result is not the one that is recorded',e[2]))
            v=ld(val(idx)); j=ld(v[1]) if v is not None else None
            if v is not None and v[0]==('call','h_str'): bad.append(('the index of a discrete function is not taken from the list of discrete functions',e[2]))
            elif j is None: und.append('index of a discrete function')
            elif r.DIS is not None and v[0]!=r.DIS: bad.append(('the index of a discrete function is not taken from the list of discrete functions',e[2]))
            elif j!=(('call','h_str'),('c',0)): bad.append(('another discrete function is called',e[2]))
            continue
        if kd=='cexp':
            cop=g[5:]
            if hi=='variable':
                if len(puts)!=1 or not only(puts) or puts[0][2][1][1]!=('c',NUM['CExpOp']): bad.append(('a conditional expression is not recorded as one',None)); continue
                i,q,e=puts[0]
                if len(args)!=6: bad.append(('a conditional expression is recorded with %d arguments'%len(args),e[2])); continue
                m=sum(1<<k for k in range(4) if isv[k])
                if not any(args[0]==('c',COP[c]) and args[1]==('c',sum(1<<k for k in range(4) if isv[q_[1+k]])) and [nf(x,r) for x in args[2:]]==list(q_[1:]) for c,q_ in ceq(cop)):
                    if args[1]!=('c',m): bad.append(('a conditional expression has other types than its nodes',e[2]))
                    else: bad.append(('a conditional expression is recorded with another comparison or other operands',e[2]))
            elif hi=='dynamic':
                if len(dyn)!=1 or not only(dyn) or dyn[0][1]!='put_dyn_cond_exp': bad.append(('a conditional expression is not recorded as one',None)); continue
                i,q,e=dyn[0]; x=e[1][2:]
                if not any(x[0]==('c',COP[c]) and [nf(y,r) for y in x[1:]]==list(q_[1:]) for c,q_ in ceq(cop)): bad.append(('a conditional expression is recorded with another comparison or other operands',e[2]))
            else:
                if len(con)!=1 or not only(con): bad.append(('a conditional expression of constants is not a constant',None)); continue
                i,q,e=con[0]
                for x,more in cases(resolve(val(e[1][1]),s.conds)):
                    k=par(x,r,fn); o=reached(s,r,fn,0,1,more)
                    if k is None or o is None: und.append('value of a conditional expression of constants')
                    elif k not in(2,3): bad.append(('the value of a conditional expression of constants is not one of its cases',e[2]))
                    elif (o&REL[cop] and k!=2) or (o-REL[cop] and k!=3): bad.append(('the value of a conditional expression of constants is that of the other case',e[2]))
            if not isres(i): bad.append(('the result is not the one that is recorded',e[2]))
            continue
        if kd=='sum': sumop(fn,s,r,types,T,hi,puts,args,con,dyn,res,only,bad,und); continue
        # unary and binary
        n=len(types)
        if hi=='variable':
            if len(puts)!=1 or con and not g.startswith('erf') or dyn or cmp_: bad.append(('the operator is not recorded as one operator of variables',(puts or con or dyn or [(0,0,(0,0,None))])[0][2][2])); continue
            i,q,e=puts[0]; o=e[1][1]; oc=next((x for x in NUM if ('c',NUM[x])==o),'?')
            if kd=='unary':
                w={'abs':'Abs'}.get(g,g.capitalize())+'Op'
                if oc!=w: bad.append(('the graph operator %s becomes %s'%(g,oc),e[2])); continue
                if not args or nf(args[0],r)!=0: bad.append(('the operand is not that of the node',e[2])); continue
                if g in('erf','erfc'):
                    cv=[]
                    for x in args[1:]:
                        c_=[cc for j,qq,cc in con if x==('ev',j)]
                        cv.append(num(val(c_[0][1][1])) if c_ else None)
                    if len(args)!=3 or None in cv or cv[0]!=0.0 or abs(cv[1]-1.1283791670955126)>1e-14: bad.append(('the constants of %s are wrong'%g,e[2]))
                elif len(args)!=1: bad.append(('%s is recorded with %d arguments'%(oc,len(args)),e[2]))
            else:
                b={'azmul':'Zmul'}.get(g,g.capitalize())
                ok=False
                for perm in((0,1),(1,0)):
                    if perm==(1,0) and g not in('add','mul'): continue
                    w=b+''.join('v' if isv[k] else 'p' for k in perm)+'Op'
                    if oc==w and [nf(x,r) for x in args]==list(perm): ok=True
                if not ok: bad.append(('the graph operator %s of these types becomes %s, or with other operands'%(g,oc),e[2]))
            if not isres(i): bad.append(('the result is not the one that is recorded',e[2]))
        elif hi=='dynamic':
            if len(dyn)!=1 or not only(dyn) or dyn[0][1]!='put_dyn_par': bad.append(('the operator is not recorded as one dynamic parameter',(puts or con or dyn or [(0,0,(0,0,None))])[0][2][2])); continue
            i,q,e=dyn[0]; w={'azmul':'zmul'}.get(g,g)+'_dyn'; x=e[1][3:]
            if e[1][2] not in(('c',TN[w]),)+((('c',TN['fabs_dyn']),) if g=='abs' else ()): bad.append(('the graph operator %s becomes another dynamic parameter operator'%g,e[2]))
            k=[nf(y,r) for y in x]
            if k!=list(range(n)) and not(g in('add','mul') and k==[1,0]): bad.append(('the operands of the dynamic parameter are not those of the nodes',e[2]))
            if not isres(i): bad.append(('the result is not the one that is recorded',e[2]))
        else:
            if len(con)!=1 or not only(con): bad.append(('the operator is not recorded as one constant',(puts or con or dyn or [(0,0,(0,0,None))])[0][2][2])); continue
            i,q,e=con[0]
            for x,more in cases(resolve(val(e[1][1]),s.conds)):
                z=conval(fn,s,r,g,x,more)
                if z is None: und.append('value of a constant')
                elif not z: bad.append(('the value of the constant is not %s of its operands'%g,e[2]))
            if not isres(i): bad.append(('the result is not the one that is recorded',e[2]))
    if not seen:
        (und if kd in('atom','atom4') else bad).append(('the operator is not recorded',None) if kd not in('atom','atom4') else 'no path')
    finishob('from_graph',name,bad,und,wh,obs)
def addr(e):
    """the object whose address is passed"""
    if e[0]=='&': e=e[1]
    return ('ptr',e[1],0) if e[0]=='mem0' else e
def atomop(fn,s,r,types,nres,T,pt,pf,puts,dyn,cmp_,bad,und):
    ev=[(i,sn(e[0]),e) for i,e in enumerate(s.ev) if isinstance(e[0],str) and e[0]!='store']
    ind=[(i,e) for i,n,e in ev if n=='INDIRECT']; n=len(types)
    if len(ind)!=2: und.append('calls of an atomic function'); return
    three=None
    for c,t in lits(s):
        x,tt=lit0(c,t)
        if x[0]=='cmp' and x[1]=='eq' and x[3] in(('c',3),('c',4)) and x[2][0]=='mem0': three=tt==(x[3]==('c',3))
    if three is None: und.append('kind of an atomic function'); return
    (i0,a),(i1,b)=ind; A=[addr(x) for x in a[1]]; B=[addr(x) for x in b[1]]
    if len(A)!=4 or len(B)!=(8 if three else 7): bad.append(('another function of an atomic object is called',a[2])); return
    TX,TY=A[2],A[3]
    if three:
        PX,Y=B[6],B[7]
        if A[1]!=PX or B[1]!=PX: bad.append(('the parameters of an atomic function are not those of the call',a[2]))
        if B[2]!=TX: bad.append(('the types of an atomic function are not those of the call',b[2]))
        if B[3][0]!='c' or B[3][1]!=T['constant'] : bad.append(('the constant results of an atomic function are not calculated',b[2]))
        lo,up=B[4],B[5]
    else:
        PX,Y=B[5],B[6]; SEL=B[2]; lo,up=B[3],B[4]
        if A[1]!=('call','h_callid') or B[1]!=('call','h_callid'): bad.append(('an atomic function is called with another call_id',a[2]))
    if lo!=('c',0) or up!=('c',0): bad.append(('an atomic function is not called for order zero',b[2]))
    def last(v,j,before,also=None):
        z=None
        for e in s.ev[:before]:
            if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==v and vec(e[1])[1]==('c',j): z=e
        return z
    zero={}
    for c,t in lits(s):
        x,tt=lit0(c,t); m=x
        while m[0]=='not': m=m[1]; tt=not tt
        if m[0]=='fcmp' and num(m[3])==0:
            k=par(m[2],r,fn)
            if k is not None: zero[k]=(prel(m[1],False)=={'eq'})==tt if prel(m[1],False) in({'eq'},{'lt','gt','un'}) else None
    ty={}
    for j in range(n):
        x=last(PX,j,i0)
        if x is None: bad.append(('an argument of an atomic function is not set',a[2]))
        elif types[j]==T['constant'] and par(x[2],r,fn)!=j: bad.append(('a constant argument of an atomic function is not the value of its node',x[3]))
        x=last(TX,j,i0)
        w=('c',0) if not three and types[j]==T['constant'] and zero.get(j) else ('c',types[j])
        if x is None or x[2]!=w: bad.append(('the type of an argument of an atomic function is not that of its node',x[3] if x else a[2]))
    # the types of the results
    def ev1(e,asg):
        if e[0]=='c': return e[1]
        v=ld(e)
        if v is not None and v[0]==TY and v[1][0]=='c': return asg[v[1][1]]
        if e[0] in('not','and','or','xor','zext','sext','trunc','sel'):
            o=[ev1(x,asg) for x in e[1:] if isinstance(x,tuple)]
            if None in o: return None
            if e[0]=='not': return 0 if o[0] else 1
            if e[0]=='and': return o[0]&o[1]
            if e[0]=='or': return o[0]|o[1]
            if e[0]=='xor': return o[0]^o[1]
            if e[0]=='sel': return o[1] if o[0] else o[2]
            return o[0]
        if e[0]=='cmp':
            x,y=ev1(e[2],asg),ev1(e[3],asg)
            if x is None or y is None: return None
            return int({'eq':x==y,'ne':x!=y,'ult':x<y,'ule':x<=y,'ugt':x>y,'uge':x>=y,'slt':x<y,'sle':x<=y,'sgt':x>y,'sge':x>=y}[e[1]])
        return None
    for raw in itertools.product((1,2,3) if three else (0,1,2,3),repeat=nres):
        fin=list(raw); good=True
        for i in range(nres):
            x=last(TY,i,len(s.ev))
            if x is not None and x[2][0]=='c': fin[i]=x[2][1]
            if raw[i]==0 and x is None: good=False
        for c,t in lits(s):
            x,tt=lit0(c,t)
            z=ev1(x,raw); w=ev1(x,fin)
            if z is not None and bool(z)!=tt and bool(w)!=tt: good=False
        if not good: continue
        for i in range(nres):
            if fin[i]!=(raw[i] or 1): bad.append(('the type of a result of an atomic function is changed',last(TY,i,len(s.ev))[3]))
        if not three:
            for i in range(nres):
                x=last(SEL,i,i1)
                if x is None: bad.append(('the results of an atomic function are not selected',b[2])); continue
                z=ev1(x[2],fin)
                if z is None: und.append('selection of a result')
                elif fin[i]==1 and not z: bad.append(('the constant results of an atomic function are not selected',b[2]))
        calls={k:[(i,e) for i,m,e in ev if m==k] for k in('put_dyn_atomic','put_var_atomic')}; AY=None; firstpush=min((i for i,e in pt+pf),default=0)
        for k,t in(('put_dyn_atomic',2),('put_var_atomic',3)):
            if bool(calls[k])!=(t in fin): bad.append(('the call of an atomic function is %s recorded for its %s results'%('not' if t in fin else 'also',NT[t]),calls[k][0][1][2] if calls[k] else b[2])); continue
            if len(calls[k])>1: bad.append(('the call of an atomic function is recorded twice',calls[k][1][1][2]))
            for i,e in calls[k]:
                x=[addr(y) for y in e[1]]
                if len(x)!=8: und.append('arguments of '+k); continue
                if i>firstpush and nres: bad.append(('the results of an atomic function are taken before they are recorded',e[2]))
                v=ld(x[2]); j=ld(v[1]) if v is not None else None
                if v is not None and v[0]==('call','h_str'): bad.append(('the index of an atomic function is not taken from the list of atomic functions',e[2]))
                elif j is None: und.append('index of an atomic function')
                elif j!=(('call','h_str'),('c',0)) or r.ATM is not None and v[0]!=r.ATM: bad.append(('another atomic function is recorded',e[2]))
                if x[3]!=('call','h_callid'): bad.append(('an atomic function is recorded with another call_id',e[2]))
                if x[4]!=TX or x[5]!=TY: bad.append(('an atomic function is recorded with other types',e[2]))
                AX,AY=x[6],x[7]
                for j in range(n):
                    w=last(TX,j,i)
                    if w is None or w[2]!=('c',types[j]): bad.append(('the type of an argument of an atomic function is not that of its node',w[3] if w else e[2]))
                    st={}
                    for y in s.ev[:i]:
                        if y[0]=='store':
                            q=y[1][1] if y[1][0]=='off' else y[1]; o=y[1][2] if y[1][0]=='off' else 0
                            if vec(q) and vec(q)[0]==AX and vec(q)[1]==('c',j): st[o]=y[2]
                    if types[j]==T['constant']:
                        if not any(par(y,r,fn)==j or ld(y)==(PX,('c',j)) for y in st.values()): bad.append(('a constant argument of an atomic function is not recorded with its value',e[2]))
                    elif not any(nf(y,r)==j for y in st.values()): bad.append(('an argument of an atomic function is not recorded with its address',e[2]))
        if len(pt)!=nres or len(pf)!=nres: bad.append(('the number of nodes after the operator is not that of its results',(pt or pf or [(0,(0,0,None))])[-1][1][2])); continue
        con=[(i,e) for i,m,e in ev if m=='put_con_par']
        for i in range(nres):
            x=pt[i][1][1][-1]; x=x[1] if x[0]=='&' else x
            if vec(x)!=(TY,('c',i)) and ld(x)!=(TY,('c',i)) and x!=('c',fin[i]): bad.append(('the type of a result of an atomic function is not the one of its node',pt[i][1][2]))
            x=pf[i][1][1][-1]; x=x[1] if x[0]=='&' else x
            if fin[i]==1:
                c=[e for k,e in con if x==('ev',k)]
                if len(c)!=1: bad.append(('a constant result of an atomic function is not recorded',pf[i][1][2])); continue
                y=c[0][1][1]; y=y[1] if y[0]=='&' else y
                if (vec(y) or ld(y))!=(Y,('c',i)): bad.append(('the value of a constant result of an atomic function is not the one it calculates',c[0][2]))
            else:
                y=x[1] if x[0]=='off' else x[1][1] if x[0]=='load' and x[1][0]=='off' else None
                if y is None or AY is None or vec(y)!=(AY,('c',i)): bad.append(('the node of a result of an atomic function is not its address',pf[i][1][2]))
        if len(con)!=sum(1 for t in fin if t==1): bad.append(('a result of an atomic function is also recorded as a constant',b[2]))
    if puts or [1 for i,q,e in dyn] or cmp_: bad.append(('more than the call of an atomic function is recorded',None))
def fframe(fn,obs):
    r=roles(fn); bad=[]; und=[]; D=fn.doms(); got={}; T={n:v for v,n in NT.items()}
    def src(e):
        """what a number stands for"""
        while e[0]=='load': e=e[1]
        n=sn(fn.callee(fn.ins[e[1]]) or '') if e[0]=='pre' and fn.ins[e[1]]['op'] in('call','invoke') else sn(e[1]) if e[0]=='call' else None
        return n
    def rng(f,name,what):
        if not f.ok: und.append('range of the loop over '+what); return
        lo,up=plus(f.lo),plus(f.up[0])
        if lo[0] or len(up[0])!=1: und.append('range of the loop over '+what); return
        n=src(up[0][0])
        if lo!=((),0) or up[1]+f.up[1]!=0 or (n is not None and not n.startswith('ev') and n!=name): bad.append(('not all of the %s of the graph are used'%what,fn.blocks[f.l.h][0] if hasattr(f,'l') else None))
    heads={}
    for h,f in sorted(r.side.items()):
        if not f.full: continue
        kinds=set()
        for s in f.full:
            ev=[(i,sn(e[0]),e) for i,e in enumerate(s.ev) if isinstance(e[0],str) and e[0]!='store']
            nm=[m for i,m,e in ev]; st=[e for e in s.ev if e[0]=='store' and vec(e[1])]
            L_=[lit0(c,t) for c,t in lits(s)]
            pt=[(i,e) for i,m,e in ev if m=='push_back' and addr(e[1][0])==r.NT]; pf=[(i,e) for i,m,e in ev if m=='push_back' and addr(e[1][0])==r.N2F]
            if 'Call' in nm: continue
            if 'PutTxt' in nm:
                kinds.add('text'); k=nm.count('PutTxt'); i,e=[(i,e) for i,m,e in ev if m=='PutTxt'][0]
                g=[(j,x) for j,m,x in ev if m=='print_text_vec_get']
                if not f.ok: continue
                if k!=1 or len(g)!=1 or g[0][1][1][1]!=f.iv: bad.append(('another text is recorded',e[2])); continue
                if len(st)!=1 or vec(st[0][1])[1]!=f.iv or st[0][2]!=('ev',i): bad.append(('the index of a text is not the one it is recorded with',e[2]))
            elif 'constant_vec_get' in nm:
                kinds.add('constant')
                if not f.ok: continue
                g=[(j,x) for j,m,x in ev if m=='constant_vec_get']; c=[(j,x) for j,m,x in ev if m=='put_con_par']
                if len(g)!=1 or g[0][1][1][1]!=f.iv: bad.append(('another constant is recorded',g[0][1][2])); continue
                if len(c)!=1 or val(c[0][1][1][1]) not in(('load',('ev',g[0][0]),0),('ev',g[0][0])): bad.append(('a constant is not recorded with its value',g[0][1][2])); continue
                if len(pt)!=1 or len(pf)!=1 or val(pt[0][1][1][1])!=('c',T['constant']) or val(pf[0][1][1][1])!=('ev',c[0][0]): bad.append(('the node of a constant is not the constant that is recorded',c[0][1][2]))
            elif pt or pf:
                d=None
                for x,t in L_:
                    v=ld(x) 
                    if v is None and x[0]=='cmp' and x[1]=='eq' and x[3]==('c',0): v=ld(x[2]); t=not t
                    if v is not None and v[0] in(('arg',2),('arg',3)) and f.ok and v[1]==f.iv: d=(v[0][1],t)
                if d is None: und.append('whether an independent is a variable'); continue
                kinds.add('ind%d'%d[0])
                var=d[1] if d[0]==2 else not d[1]; what='dynamic parameter' if d[0]==2 else 'variable'
                rec=[(i,m,e) for i,m,e in ev if m in('PutOp','put_dyn_par','put_con_par')]
                if len(rec)!=1 or len(pt)!=1 or len(pf)!=1: bad.append(('an independent %s of the graph is not recorded as one'%what,ev[0][2][2])); continue
                i,m,e=rec[0]
                if var and (m!='PutOp' or e[1][1]!=('c',NUM['InvOp'])) or not var and (m!='put_dyn_par' or e[1][2]!=('c',TN['ind_dyn'])): bad.append(('an independent %s of the graph is recorded with the wrong kind'%what,e[2]))
                if val(pt[0][1][1][1])!=('c',T['variable' if var else 'dynamic']): bad.append(('the type of an independent node is not the one that is recorded',pt[0][1][2]))
                if val(pf[0][1][1][1])!=('ev',i): bad.append(('the node of an independent is not the one that is recorded',pf[0][1][2]))
            elif 'dependent_vec_get' in nm:
                kinds.add('dependent')
                if not f.ok: continue
                g=[j for j,m,x in ev if m=='dependent_vec_get']
                if any(x[1][1]!=f.iv for j,m,x in ev if m=='dependent_vec_get'): bad.append(('another dependent variable is used',ev[0][2][2])); continue
                def nodeof(e,v):
                    z=ld(e); return z is not None and z[0]==v and (z[1][0]=='load' and z[1][1] in[('ev',j) for j in g] or z[1] in[('ev',j) for j in g])
                isv=None
                for x,t in L_:
                    if x[0]=='cmp' and x[1]=='eq' and x[3]==('c',T['variable']) and nodeof(x[2],r.NT): isv=t
                    elif x[0]=='cmp' and nodeof(x[2],r.NT): isv='?'
                if isv is None or isv=='?': (bad if isv is None else und).append(('the type of a dependent node is not looked at',ev[0][2][2]) if isv is None else 'type of a dependent node'); continue
                fl=[e for e in st if vec(e[1])[0]==('off',('arg',0),r.DP)]; ad=[e for e in st if vec(e[1])[0]==('off',('arg',0),r.DT)]
                if len(fl)!=1 or len(ad)!=1 or vec(fl[0][1])[1]!=f.iv or vec(ad[0][1])[1]!=f.iv: bad.append(('the address of a dependent variable is not set',ev[0][2][2])); continue
                if fl[0][2] not in(('c',0),('c',1),('c',-1)): und.append('dep_parameter_')
                elif (fl[0][2]!=('c',0))==isv: bad.append(('a dependent %s is marked as a %s'%(('variable','parameter') if isv else ('parameter','variable')),fl[0][3]))
                po=[(i,e) for i,m,e in ev if m=='PutOp']; pa=[(i,e) for i,m,e in ev if m=='PutArg']
                if isv:
                    if po or pa: bad.append(('a dependent variable is recorded again',(po or pa)[0][1][2]))
                    if not nodeof(ad[0][2],r.N2F): bad.append(('the address of a dependent variable is not that of its node',ad[0][3]))
                else:
                    if len(po)!=1 or po[0][1][1][1]!=('c',NUM['ParOp']) or len(pa)!=1 or len(pa[0][1][1])!=2 or not nodeof(pa[0][1][1][1],r.N2F): bad.append(('a dependent parameter is not recorded as one',ev[0][2][2])); continue
                    if ad[0][2]!=('ev',po[0][0]): bad.append(('the address of a dependent parameter is not that of its operator',ad[0][3]))
            elif 'discrete_name_vec_find' in nm:
                kinds.add('discrete')
                fi=[(j,x) for j,m,x in ev if m=='discrete_name_vec_find']; na=[(j,x) for j,m,x in ev if m=='name' or m=='atomic_index']
                if not f.ok: continue
                if len(na)!=1 or na[0][1][1][0]!=f.iv or len(fi)!=1 or fi[0][1][1][1]!=('ev',na[0][0]): bad.append(('the discrete functions are not found by their names',fi[0][1][2])); continue
                found=[t for x,t in L_ if x[0]=='cmp' and x[1]=='eq' and ('ev',fi[0][0]) in x[2:4]]
                for e in st:
                    if vec(e[1])[1]!=('ev',fi[0][0]) or e[2]!=f.iv: bad.append(('the index of a discrete function is not the one with its name',e[3]))
                if not st and found!=[True]: bad.append(('a discrete function of the graph is not found',fi[0][1][2]))
                if st and found==[True]: bad.append(('a discrete function that is not in the graph is used',fi[0][1][2]))
            elif 'atomic_name_vec_find' in nm:
                kinds.add('atomic')
                fi=[(j,x) for j,m,x in ev if m=='atomic_name_vec_find']; na=[(j,x) for j,m,x in ev if m=='atomic_index']
                if len(na)!=1 or len(na[0][1][1])!=5 or na[0][1][1][0]!=('c',0): und.append('names of the atomic functions'); continue
                if len(fi)!=1 or addr(fi[0][1][1][1])!=addr(na[0][1][1][3]): bad.append(('the atomic functions are not found by their names',fi[0][1][2])); continue
                found=[t for x,t in L_ if x[0]=='cmp' and x[1]=='eq' and ('ev',fi[0][0]) in x[2:4]]
                ix=val(na[0][1][1][1])
                for e in st:
                    if vec(e[1])[1]!=('ev',fi[0][0]) or e[2][0] in('c','pre','arg','ev') or e[2][0]=='phi' and e[2]!=ix or e[2][0] in('add','sub') and any(z[0]=='c' for z in e[2][1:]): bad.append(('the index of an atomic function is not the one with its name',e[3]))
                if not st and found!=[True]: bad.append(('an atomic function of the graph is not found',fi[0][1][2]))
        for k in kinds: got[k]=(h,f)
    for k,nme,what in(('text','print_text_vec_size','texts'),('constant','constant_vec_size','constants'),('ind2','n_dynamic_ind_get','independent dynamic parameters'),('ind3','n_variable_ind_get','independent variables'),('dependent','dependent_vec_size','dependent variables'),('discrete','list_size','discrete functions')):
        if k not in got: und.append('loop over the '+what); continue
        rng(got[k][1],nme,what)
    order=[got[k][0] for k in('ind2','ind3','constant') if k in got]+[r.L.h]+([got['dependent'][0]] if 'dependent' in got else [])
    for a,b in zip(order,order[1:]):
        if a not in D[b]: bad.append(('the nodes of the graph are not numbered in order',fn.blocks[b][0]))
    for k in('text','discrete','atomic'):
        if k in got and got[k][0] not in D[r.L.h]: bad.append(('the %s of the graph are not known when they are used'%{'text':'texts'}.get(k,k+' functions'),fn.blocks[r.L.h][0]))
    # the loop over the operators
    T_=T['constant']
    begins=0
    for s in walk(fn,r.L,'sin',(T_,)):
        if s.env['exit']!=r.L.h: continue
        nm=[sn(e[0]) for e in s.ev if isinstance(e[0],str) and e[0]!='store']; iv=None
        for c,t in lits(s):
            x,tt=lit0(c,t)
            if x[0]=='cmp' and len(x)==4 and x[1] in('ult','ugt','ne','eq') :
                a,b=(x[2],x[3]) if x[1]!='ugt' else (x[3],x[2])
                if a[0]=='phi' and sn(str(b[1]))=='operator_vec_size' or a[0]=='phi' and src(b)=='operator_vec_size': iv=a
        if iv is None: und.append('range of the loop over the operators'); continue
        nx=plus(s.env['next'][iv[1]]); ini=L_init(fn,r.L,('phi',iv[1]))
        if nx!=((iv,),1): bad.append(('not all the operators of the graph are used',None))
        can={0,1,2}
        for x,tt in lits(s):
            while x[0]=='not': x=x[1]; tt=not tt
            if x[0]=='cmp' and len(x)==4 and iv in x[2:4] and (x[2][0]=='c' or x[3][0]=='c'):
                for k in(0,1,2):
                    a,b=(k if y==iv else y[1] for y in x[2:4])
                    if {'eq':a==b,'ne':a!=b,'ult':a<b,'ule':a<=b,'ugt':a>b,'uge':a>=b}.get(x[1],tt)!=tt: can.discard(k)
        inc='operator++' in nm
        if inc and 0 in can or not inc and can-{0}: bad.append(('the iterator over the operators is not moved to the next operator',None))
    ends=[I for I in fn.calls() if sn(fn.callee(I) or '')=='PutOp' and fn.const(I['o'][1])==NUM['EndOp']] if hasattr(fn,'const') else []
    finishob('from_graph','nodes, texts, functions and dependent variables',bad,und,'from_graph',obs)
def member(s,o,n): return None
def ceq(cop):
    """(compare operator, permutation) with the meaning of cexp_cop(0,1,2,3)"""
    n='Compare'+cop.capitalize(); out=[]
    R_={'CompareLt':'lt','CompareLe':'le','CompareEq':'eq','CompareGe':'ge','CompareGt':'gt','CompareNe':'ne'}
    alt={'lt':[('lt',0,1,2,3),('ge',0,1,3,2),('gt',1,0,2,3),('le',1,0,3,2)],'le':[('le',0,1,2,3),('gt',0,1,3,2),('ge',1,0,2,3),('lt',1,0,3,2)],'eq':[('eq',0,1,2,3),('eq',1,0,2,3),('ne',0,1,3,2),('ne',1,0,3,2)]}[cop]
    return [('Compare'+q[0].capitalize(),q) for q in alt]
def conval(fn,s,r,g,x,more=()):
    p=lambda e,k: par(e,r,fn)==k
    if g=='sign':
        v=num(x); o=zeroed(s,r,fn,0,more)
        if v is None or o is None: return None
        o=o-{'un'}
        if not o: return True
        if len(o)!=1: return False
        return v=={'lt':-1,'eq':0,'gt':1}[o.pop()]
    if g=='neg':
        if x[0]=='fneg': return p(x[1],0)
        if x[0]=='fsub' and num(x[1])==0: return p(x[2],0)
        return False
    if g=='azmul':
        o=zeroed(s,r,fn,0,more)
        if o is None: return None
        if num(x)==0: return not(o-{'eq'})
        if x[0]=='fmul': return {par(x[1],r,fn),par(x[2],r,fn)}=={0,1} and 'eq' not in o
        return None
    if g in('add','sub','mul','div'):
        if x[0]!={'add':'fadd','sub':'fsub','mul':'fmul','div':'fdiv'}[g]: return False
        k=[par(x[1],r,fn),par(x[2],r,fn)]
        return k==[0,1] or g in('add','mul') and k==[1,0]
    if g=='pow':
        return x[0]=='call' and fcanon(x[1])=='pow' and p(x[2],0) and p(x[3],1)
    if x[0]=='call': return fcanon(x[1])==g and p(x[2],0)
    return None
def consum(x,r,fn):
    """multiset of the parameters in a sum that starts with zero"""
    if num(x)==0: return []
    k=par(x,r,fn)
    if k is not None: return [k]
    if x[0]=='fadd':
        a,b=consum(x[1],r,fn),consum(x[2],r,fn)
        return None if a is None or b is None else a+b
    return None
def sumop(fn,s,r,types,T,hi,puts,args,con,dyn,res,only,bad,und):
    C=sorted(k for k,t in enumerate(types) if t==T['constant']); D=sorted(k for k,t in enumerate(types) if t==T['dynamic']); V=sorted(k for k,t in enumerate(types) if t==T['variable'])
    # the sum of the constants
    if len(con)!=1: bad.append(('the constants of a summation are not recorded',None)); return
    ci,_,ce=con[0]; k=consum(val(ce[1][1]),r,fn)
    if k is None: und.append('constants of a summation')
    elif sorted(k)!=C: bad.append(('the constants of a summation are not all there, once',ce[2]))
    if hi=='variable':
        if len(puts)!=1 or puts[0][2][1][1]!=('c',NUM['CSumOp']) or dyn: bad.append(('a summation is not recorded as one',None)); return
        i,q,e=puts[0]; a=args; n=len(a)
        if n<6 or any(x[0]!='c' for x in a[1:5]): und.append('layout of a summation'); return
        o=[x[1] for x in a[1:5]]
        if not(5<=o[0]<=o[1]<=o[2]<=o[3]==n-1): bad.append(('the layout of a cumulative summation is wrong',e[2])); return
        if a[-1]!=('c',n): bad.append(('a cumulative summation does not end with its number of arguments',e[2]))
        if a[0]!=('ev',ci): bad.append(('the constant of a summation is not its sum of constants',e[2]))
        av=[nf(x,r) for x in a[5:o[0]]]; sv=[nf(x,r) for x in a[o[0]:o[1]]]; ad=[nf(x,r) for x in a[o[1]:o[2]]]; sd=[nf(x,r) for x in a[o[2]:o[3]]]
        if None in av+sv+ad+sd: und.append('terms of a summation')
        elif sorted(av)!=V or sorted(ad)!=D or sv or sd: bad.append(('the terms of a cumulative summation are not those of the nodes',e[2]))
        if res!=('ev',i): bad.append(('the result is not the one that is recorded',e[2]))
        return
    if puts: bad.append(('a summation of parameters is recorded as a variable',puts[0][2][2])); return
    cur=('ev',ci); left=list(D)
    for i,q,e in dyn:
        x=e[1][2:]
        if q!='put_dyn_par' or x[0]!=('c',TN['add_dyn']) or len(x)!=3: bad.append(('a term of a summation of parameters is not added',e[2])); return
        k=[nf(y,r) for y in x[1:] if y!=cur]
        if len(k)!=1 or cur not in x[1:]: bad.append(('the terms of a summation of parameters are not added to each other',e[2])); return
        if k[0] not in left: bad.append(('the terms of a summation are not those of the nodes',e[2])); return
        left.remove(k[0]); cur=('ev',i)
    if left: bad.append(('a term of a summation is left out',None))
    if res!=cur: bad.append(('the result is not the one that is recorded',ce[2]))
def load():
    F=c_graph.load()
    if 'from' in F: return F
    NT.update({v:n for n,v in TYP.items()}); TN.update({n:v for v,n in DYN.items()})
    bc=core.compile_bc('h_graph.cpp')
    F['from']=ir.Mod(core.irx(bc,c_fun.A+['--opaque',c_graph.OPQ+'|cpp_graph_itr::(?!operator\\*)|vector<CppAD::ad_type_enum>','--redirect','cpp_graph_itr::operator\\*=>h_gval','--globals','--entry','^g_from$'])['module']).fns['g_from']
    M=ir.Mod(core.irx(bc,c_fun.A+['--opaque','vector<','--globals','--entry','^g_(set|inc|begin)$'])['module']); F['set'],F['inc'],F['begin']=M.fns['g_set'],M.fns['g_inc'],M.fns['g_begin']
    return F
def jobs():
    load(); T={n:v for v,n in NT.items()}; K3=[T['constant'],T['dynamic'],T['variable']]; J=[]
    for g in sorted(GOP):
        kd=kind(g)
        if kd in('atom','atom4'):
            for n in(1,2): J+=[('from',g,t,m) for t in itertools.product(K3,repeat=n) for m in((1,2) if n==1 else (1,))]
            continue
        if kd=='sum':
            for n in(1,2,3): J+=[('from',g,t) for t in itertools.product(K3,repeat=n)]
            continue
        n={'unary':1,'binary':2,'cexp':4,'comp':2,'discrete':1,'print':2}[kd]
        J+=[('from',g,t) for t in itertools.product(K3,repeat=n)]
    J.append(('from','frame'))
    J+=[('from','itr:set',g) for g in sorted(GOP)]+[('from','itr:inc',g) for g in sorted(GOP)]+[('from','itr:begin')]
    return J
def job(a):
    F=load(); obs=[]
    try:
        if a[1]=='frame': fframe(F['from'],obs)
        elif a[1]=='itr:set': setop(F['set'],a[2],obs)
        elif a[1]=='itr:inc': setop(F['inc'],a[2],obs,True)
        elif a[1]=='itr:begin': beginop(F['begin'],obs)
        else: op(F['from'],a[1],a[2],obs,*a[3:])
    except(KeyError,IndexError,TypeError,ValueError,AttributeError,RecursionError) as e:
        import os
        if os.environ.get('VF_DEBUG'): raise
        obs.append(('from_graph',str(a[1]),'undecided','%s %s'%(type(e).__name__,e),''))
    return obs
# the iterator over the operators of a graph
HEAD={'discrete':1,'atom':3,'atom4':4,'print':2,'sum':1}
STR={'discrete':[0],'atom':[0],'atom4':[0],'print':[0,1]}
class IW(OW):
    swconds=True; gop=None; mem_=None
    def load(self,s,p,t,I):
        v=vec(p)
        if v is not None and self.gop is not None and v[0]==('load',at(self.mem_['operator_vec_']),0) and ('*',p) not in s.mem: self.idx.add(v[1]); return ('c',self.gop)
        return OW.load(self,s,p,t,I)
def at(o): return ('off',('arg',0),o) if o else ('arg',0)
def imem():
    L=c_graph.FN['L']
    return next({n:o for n,t,o,e in c_state.members(L,k)} for k in L if k.endswith('cpp_graph_itr'))
def setop(fn,g,obs,inc=False):
    m=imem(); bad=[]; und=[]; kd=kind(g); h=HEAD.get(g,0); wh=ir.where1(fn.blocks[0][0])
    w=IW(fn,lambda q: strip(q) in('operator[]','size'),gl(fn),limit=3000,visits=5); w.gop=GOP[g]; w.mem_=m; w.idx=set()
    ps=w.run(); A=at(m['first_arg_']); O=('load',at(m['op_index_']),0)
    first=[('load',A,0)]; want=O
    if inc: first=[('load',at(m['first_node_']),0),('call',next((x for x in('CppAD::vector<unsigned long>::size',)),''),at(m['arg_node_']))]
    def k_of(e):
        t,c=plus(e)
        if inc:
            return c if len(t)==2 and any(x==first[0] for x in t) and any(x[0]=='call' and strip(x[1])=='size' and x[2]==at(m['arg_node_']) for x in t) else None
        return c if t==(first[0],) else None
    def argat(e):
        v=ld(e)
        return k_of(v[1]) if v is not None and v[0]==('load',at(m['operator_arg_']),0) else None
    def fld(s,n):
        z=None
        for e in s.ev:
            if e[0]=='store' and e[1]==at(m[n]): z=e
        return z
    if not w.idx or any(plus(i)!=((O,),1 if inc else 0) for i in w.idx): bad.append(('the operator is not the one at the current index',None))
    if not ps: und.append('no path')
    for s in ps:
        # the fields
        def want_(n,f,txt):
            e=fld(s,n)
            if e is None or not f(e[2]): bad.append((txt+' of a graph operator is read wrongly',e[3] if e and len(e)>3 else None))
        want_('op_enum_',lambda v: v==('c',GOP[g]),'the kind')
        want_('first_node_',lambda v: k_of(v)==h,'the first argument')
        nres=0 if kd in('comp','print') else 1
        if kd in('atom','atom4'):
            want_('n_result_',lambda v: argat(v)==h-2,'the number of results')
            want_('call_id_',lambda v: v==('c',0) if g=='atom' else argat(v)==1,'the call_id')
        else: want_('n_result_',lambda v: v==('c',nres),'the number of results')
        if inc:
            want_('op_index_',lambda v: plus(v)==((O,),1),'the index')
        st=[e for e in s.ev if isinstance(e[0],str) and e[0]!='store' and strip(e[0]) in('push_back','resize') and e[1][0]==at(m['str_index_'])]
        got=[]
        for e in st:
            if strip(e[0])=='resize':
                if e[1][1]==('c',0): got=[]
                else: und.append('size of str_index_')
            else:
                y=e[1][1]; y=y[1] if y[0]=='&' else y
                got.append(argat(y) if y[0]=='load' else argat(('load',y,0)))
        if not any(strip(e[0])=='resize' for e in st): bad.append(('the texts of the previous operator are kept',None))
        if got!=STR.get(g,[]): bad.append(('the texts or the function of a graph operator are read wrongly',st[-1][2] if st else None))
        # arguments
        rs=[e for e in s.ev if isinstance(e[0],str) and e[0]!='store' and strip(e[0])=='resize' and e[1][0]==at(m['arg_node_'])]
        n={'unary':1,'binary':2,'cexp':4,'comp':2,'print':2,'discrete':1}.get(kd)
        N=rs[-1][1][1] if rs else None
        if N is None or (N!=('c',n) if n is not None else argat(N)!=h-1): bad.append(('the number of arguments of a graph operator is read wrongly',rs[-1][2] if rs else None)); continue
        an=[e for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==at(m['arg_node_'])]
        for j,e in enumerate(an):
            if vec(e[1])[1]!=('c',j) or argat(e[2])!=h+j: bad.append(('an argument of a graph operator is read wrongly',e[3] if len(e)>3 else None))
        if n is not None and len(an)!=n: bad.append(('not all the arguments of a graph operator are read',None))
        if n is None:
            for c,t in lits(s):
                x=c
                while x[0]=='not': x=x[1]; t=not t
                if x[0]=='cmp' and len(x)==4 and x[1] in('ugt','ult') and not t:
                    a,b=(x[2],x[3]) if x[1]=='ugt' else (x[3],x[2])
                    if a==N and b[0]=='c' and b[1]!=len(an): bad.append(('not all the arguments of a graph operator are read',None))
    finishob('cpp_graph_itr',('++ to ' if inc else '')+g,bad,und,wh,obs)
def beginop(fn,obs):
    m=imem(); bad=[]; und=[]; wh=ir.where1(fn.blocks[0][0]); ok=False
    w=IW(fn,lambda q: strip(q) in('operator[]','size'),gl(fn),limit=4000,visits=3); w.mem_=m; w.gop=GOP['sin']; w.idx=set(); B=('arg',1)
    ps=w.run()
    def f(n): return ('off',B,m[n]) if m[n] else B
    for s in ps:
        d={}
        for e in s.ev:
            if e[0]=='store': d[e[1]]=e[2]
        if d.get(f('op_index_'))!=('c',0): bad.append(('the iterator does not start at the first operator',None))
        if f('op_enum_') in d:
            ok=True
            if d.get(f('first_arg_'))!=('c',0): bad.append(('the iterator does not start at the first argument',None))
    if not ok: und.append('no operator at the start')
    finishob('cpp_graph_itr','begin',bad,und,wh,obs)
