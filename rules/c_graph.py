"""The AD graph of a function and the function of an AD graph: every operator becomes
the graph operator (tape operator) with the same meaning, the same operands in the same
places, and the results keep their identity."""
import core,ir,c_state,c_opt,c_fun,c_abs
from aff import Aff
from c_opt import OW,VARS,ST,UN,K,NUM,slot,ld,vec,strip,plus,finishob,lits,lit0
from c_rerec import gl,Lp,NARG,ev_,val,PW,pure2
from c_abs import AW,CUR,PURE,RO,evs,sources,varmem,csum,DYN,iter_,order
from pathx import resolve
GOP={}; COP={}; TYP={}
OPQ='^CppAD::cpp_graph::(?!begin)|atomic_index|discrete<|ErrorHandler|put_con_par|const_sequential_iterator::(?!op_info)|subgraph_info|tape_manage|list_setvec|pack_setvec|local::recorder<|dyn_recorder<|num_arg_dyn|numeric_limits|player<'
ALIAS={'zmul':'azmul','dis':'discrete','fabs':'abs'}
BIN=['add','sub','mul','div','pow','azmul']
def gname(v): return next((n for n,k in GOP.items() if ('c',k)==v),None)
def kind(g):
    """unary, binary .. of a graph operator"""
    if g in BIN: return 'binary'
    for p in('cexp_','comp_'):
        if g.startswith(p): return p[:-1]
    if g in('sum','discrete','atom','atom4','print'): return g
    return 'unary'
class GW(AW):
    """a std::string is known by the call that made it"""
def ops_args(s,at=''):
    o=[(i,e[1][-1],e) for i,q,e in evs(s,at+'operator_vec_push_back')]
    a=[(i,val(e[1][-1]),e) for i,q,e in evs(s,at+'operator_arg_push_back')]
    return o,a
def decode(s,obs_bad):
    """-> [(graph operator, [arguments], event)], None when the layout is not followed"""
    o,a=ops_args(s); k=0; r=[]
    for i,v,e in o:
        g=gname(v)
        if g is None: return None,('a graph operator is not known here',e[2])
        kd=kind(g)
        n={'unary':1,'binary':2,'cexp':4,'comp':2,'discrete':2,'print':4}.get(kd)
        if kd=='sum':
            if k>=len(a): return None,('the number of arguments of a summation is not in the graph',e[2])
            x=a[k][1]
            if x[0]!='c': return None,('u',e[2])
            n=1+x[1]
        if kd in('atom','atom4'): n=len(a)-k
        if k+n>len(a): return None,('the %s operator has %d arguments in the graph, %d expected'%(g,len(a)-k,n),e[2])
        r.append((g,[x[1] for x in a[k+(kd=='sum'):k+n]],e)); k+=n
    if k!=len(a): return None,('the %s operator has %d arguments in the graph, %d expected'%(r[-1][0] if r else 'missing',len(a)-k+(len(r[-1][1]) if r else 0),len(r[-1][1]) if r else 0),a[k][2][2])
    return r,None
NOD=('comp','print')
def where_node(e,R,phi):
    """a node: ('v',index) ('p',index) of a map, ('n',k) k-th node after the previous one"""
    v=ld(e) or vec(e)
    if v is not None and v[0]==R.V2N: return 'v',v[1]
    if v is not None and v[0]==R.P2N: return 'p',v[1]
    t,c=plus(e)
    if t==(phi,): return 'n',c
    return None
def argnode(e,R,phi):
    x=where_node(e,R,phi)
    if x is None or x[0]=='n': return x
    k=slot(x[1],CUR)
    return None if k is None else (x[0],k)
class Roles: pass
def lins(x,defs,sg=1,out=None):
    """a node as a sum of nodes"""
    if out is None: out={}
    if x is not None and x[0]=='n' and x[1] in defs:
        g,a=defs[x[1]]
        if g=='sum':
            for y in a: lins(y,defs,sg,out)
            return out
        if g in('add','sub'): lins(a[0],defs,sg,out); lins(a[1],defs,sg if g=='add' else -sg,out); return out
        if g=='neg': return lins(a[0],defs,-sg,out)
    out[x]=out.get(x,0)+sg
    return out
CMPN={'eq':'comp_eq','ne':'comp_ne','lt':'comp_lt','le':'comp_le'}
CEQ={'CompareLt':[('lt',0,1,2,3),('le',1,0,3,2)],'CompareLe':[('le',0,1,2,3),('lt',1,0,3,2)],'CompareEq':[('eq',0,1,2,3),('eq',1,0,2,3)],
     'CompareGe':[('lt',0,1,3,2),('le',1,0,2,3)],'CompareGt':[('le',0,1,3,2),('lt',1,0,2,3)],'CompareNe':[('eq',0,1,3,2),('eq',1,0,3,2)]}
def origin(fn,s,ptr,i):
    """what a string object holds before event i: ('txt',slot expr) ('dis',e) ('atom',e)"""
    for j in range(i-1,-1,-1):
        e=s.ev[j]
        if not ev_(e): continue
        o=e[2]['o']
        if ptr not in o: continue
        q=strip(e[0])
        if q in('print_text_vec_find','discrete_name_vec_find','atomic_name_vec_find','print_text_vec_push_back','discrete_name_vec_push_back','atomic_name_vec_push_back'): continue
        if q.startswith('name') and 'discrete' in e[0]: return ('dis',e[1][-1])
        if q=='atomic_index': return ('atom',val(e[1][1]))
        if 'basic_string' in (fn.callee(e[2]) or '') or q in('basic_string','allocator'):
            for x in e[1]:
                if x[0]=='ev' and strip(s.ev[x[1]][0])=='GetTxt': return ('txt',s.ev[x[1]][1][-1])
                if x[0]=='ev' and strip(s.ev[x[1]][0]).startswith('name') and 'discrete' in s.ev[x[1]][0]: return ('dis',s.ev[x[1]][1][-1])
            for x in o[1:]:
                if x!=ptr and isinstance(x,str) and x[:1]=='%':
                    y=origin(fn,s,x,j)
                    if y is not None: return y
            return None
    return None
def named(fn,s,x,kind_,bad,e):
    """x is the index of a name in the graph: -> origin of the name"""
    if x[0]=='sel': x=resolve(x,s.conds)
    if x[0]!='ev': return None
    c=s.ev[x[1]]; q=strip(c[0])
    if q not in('print_text_vec_find','discrete_name_vec_find','atomic_name_vec_find'): return None
    if not q.startswith(kind_): bad.append(('an index in another list of names is used',e[2])); return None
    o=origin(fn,s,c[2]['o'][-1],x[1])
    # a name that is not there is added
    new=None
    for cc,t in lits(s):
        if cc[0]=='cmp' and x in cc[2:4]:
            y=cc[3] if cc[2]==x else cc[2]
            if y[0]=='ev' and strip(s.ev[y[1]][0])==q.replace('find','size'):
                p=cc[1]
                if p=='eq': new=t
                if p in('ult','uge') and cc[2]==x: new=(not t) if p=='ult' else t
    pb=[(j,f) for j,n,f in evs(s,q.replace('find','push_back')) if f[2]['o'][-1]==c[2]['o'][-1]]
    if new is True and not pb: bad.append(('a name is used that is not added to the graph',e[2]))
    if new is True and pb and origin(fn,s,pb[0][1][2]['o'][-1],pb[0][0])!=o: bad.append(('another name is added to the graph',e[2]))
    if new is False and pb: bad.append(('a name is added to the graph twice',e[2]))
    if new is None: return None
    return o
# ------------------------------------------------------------------- variables
def walk(fn,L,op,fixed={},mode='next',visits=3):
    w=GW(fn,PURE,gl(fn),limit=20000,visits=visits,readonly=RO); w.op=NUM[op]; w.fixed=fixed; w.mode=mode
    return [s for s in w.run_loop(L)]
def roles(fn):
    R=Roles(); R.L=R.mode=R.V2N=R.P2N=R.phi=None
    for l in sorted(Aff(fn,lambda I:None).loops,key=lambda l:-len(l.body)):
        if not any(fn.callee(I)=='h_op' and fn.blk[I['i']] in l.body for I in fn.calls()): continue
        for mode in('next','top'):
            for s in walk(fn,l,'SinOp',mode=mode):
                o,a=ops_args(s)
                if s.env['exit']!=l.h or len(o)!=1: continue
                for e in s.ev:
                    if e[0]=='store' and vec(e[1]) and vec(e[1])[1]==('call','h_var',CUR):
                        t,c=plus(e[2])
                        if len(t)==1 and t[0][0]=='phi': R.L=l; R.mode=mode; R.V2N=vec(e[1])[0]; R.phi=t[0]
            if R.L: break
        if R.L: break
    if R.L is None: raise core.Broken('the pass of to_graph over the variable operators is not found')
    for s in walk(fn,R.L,'DivpvOp',mode=R.mode):
        for i,x,e in ops_args(s)[1]:
            v=ld(x)
            if v is not None and v[0]!=R.V2N and slot(v[1],CUR) is not None: R.P2N=v[0]
    if R.P2N is None:
        for s in walk(fn,R.L,'ParOp',mode=R.mode):
            for e in s.ev:
                if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==R.V2N and ld(e[2]): R.P2N=ld(e[2])[0]
    if R.P2N is None: raise core.Broken('the map of the parameters is not found in to_graph')
    return R
def fullpaths(fn,R,op,fixed):
    ps=walk(fn,R.L,op,fixed,R.mode,11 if op=='CSumOp' else 4)
    return ps,[s for s in ps if s.env['exit']==R.L.h and evs(s,'op_info')]
def want_arg(op,k): return ('v',k) if k in VARS.get(op,()) else ('p',k)
def toop(fn,op,fixed,name,obs):
    R=roles(fn); L=R.L; bad=[]; und=[]; wh=ir.where1(fn.blocks[L.h][0])
    try: ps,full=fullpaths(fn,R,op,fixed)
    except OverflowError: obs.append(('to_graph',name,'undecided','too many paths','')); return
    base=op[:-2]; phi=R.phi; ap=None
    for s in full:
        c_abs.Sfn[0]=fn
        if op=='EndOp':
            o,a=ops_args(s)
            if o or a: bad.append(('the end of the recording has an operator in the graph',(o or a)[0][2][2]))
            continue
        iter_(op,s,bad,und); order(op,s,R.mode,bad)
        r,why=decode(s,bad)
        if r is None and not(op=='AFunOp'):
            if why[0]=='u': und.append('number of terms')
            else: bad.append(why)
            continue
        st=[e for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0] in(R.V2N,R.P2N)]
        defs={}; n=0; pos=[]
        for g,a,e in r or []:
            if kind(g) not in NOD: n+=1; defs[n]=(g,[argnode(x,R,phi) for x in a]); pos.append(n)
            else: pos.append(None)
        nx=s.env['next'].get(phi[1]); 
        nx=plus(resolve(nx,s.conds)) if nx is not None else None
        if op in('FunrvOp','FunrpOp'): n=1
        if op=='AFunOp': n=0
        if nx is None: und.append('the number of nodes')
        elif nx!=((phi,),n): bad.append(('the number of nodes is advanced by %s, %d expected'%(nx[1] if nx[0]==(phi,) else '?',n),r[0][2][2] if r else None))
        res=[e for e in st if vec(e[1])[0]==R.V2N and vec(e[1])[1]==('call','h_var',CUR)]
        oth=[e for e in st if e not in res]
        if op=='FunrpOp':
            if len(oth)!=1 or vec(oth[0][1])[0]!=R.P2N or slot(vec(oth[0][1])[1],CUR)!=0 or where_node(oth[0][2],R,phi)!=('n',1) or res: bad.append(('the node of a parameter result of an atomic call is not the next one',(oth or res or [(0,0,0,None)])[0][3]))
            continue
        if oth: bad.append(('the node of something else is changed by %s'%op,oth[0][3]))
        noresult=op in('PriOp','CSkipOp','InvOp','AFunOp','FunapOp','FunavOp') or op[:2] in('Eq','Ne','Lt','Le') and len(op)==6
        if noresult and res: bad.append(('the node of a variable is changed by %s that has no result'%op,res[0][3]))
        if op in('InvOp','CSkipOp'):
            if r: bad.append(('%s has an operator in the graph'%op,r[0][2][2]))
            continue
        if op=='ParOp':
            if r: bad.append(('a parameter has an operator in the graph',r[0][2][2]))
            if len(res)!=1 or where_node(res[0][2],R,phi) is None or argnode(res[0][2],R,phi)!=('p',0): bad.append(('the node of a variable that is equal to a parameter is not the node of the parameter',res[0][3] if res else None))
            continue
        if op=='FunrvOp':
            if r or len(res)!=1 or where_node(res[0][2],R,phi)!=('n',1): bad.append(('the node of a variable result of an atomic call is not the next one',res[0][3] if res else None))
            continue
        if op in('FunapOp','FunavOp'):
            pb=evs(s,'push_back')
            if r: bad.append(('an argument of an atomic call has an operator in the graph',r[0][2][2]))
            x=val(pb[0][2][1][-1]) if len(pb)==1 else None
            if x is None: und.append('arguments of atomic calls')
            elif argnode(x,R,phi)!=('v' if op=='FunavOp' else 'p',0): bad.append(('an argument of an atomic call is not the node of argument 0 of %s'%op,pb[0][2][2]))
            continue
        if op=='AFunOp': atomicop(fn,s,R,bad,und); continue
        if not r: bad.append(('the operator is not in the graph',None)); continue
        # the value
        if not noresult:
            if len(res)!=1: bad.append(('the node of the result is not set',r[0][2][2])); continue
            w=where_node(res[0][2],R,phi)
            if w is None or w[0]!='n' or w[1] not in defs: bad.append(('the node of the result is not the one of the operator',res[0][3])); continue
            g,a=defs[w[1]]; e=r[pos.index(w[1])][2]; raw=r[pos.index(w[1])][1]
            if op!='CSumOp' and len(r)!=1: und.append('several graph operators'); continue
        else:
            if len(r)!=1: bad.append(('the operator is in the graph %d times'%len(r),r[1][2][2])); continue
            g,raw,e=r[0]; a=[argnode(x,R,phi) for x in raw]
        if op=='CSumOp':
            W={('p',0):1}
            for k in range(5,fixed[1]): W[('v',k)]=W.get(('v',k),0)+1
            for k in range(fixed[1],fixed[2]): W[('v',k)]=-1
            for k in range(fixed[2],fixed[3]): W[('p',k)]=1
            for k in range(fixed[3],fixed[4]): W[('p',k)]=-1
            if any(x is None for x in lins(w,defs)): und.append('terms of a summation')
            elif lins(w,defs)!=W: bad.append(('the graph has not the terms of the cumulative summation',e[2]))
            continue
        if op=='CExpOp':
            if not g.startswith('cexp_'): bad.append(('a conditional expression is another operator in the graph',e[2])); continue
            c=CNAME[fixed[0]]; wn=[('v' if fixed[1]>>k&1 else 'p',k+2) for k in range(4)]
            if not any(g=='cexp_'+q[0] and a==[wn[j] for j in q[1:]] for q in CEQ[c]): bad.append(('a conditional expression with %s has another meaning in the graph'%c,e[2]))
            continue
        if op=='PriOp':
            if g!='print': bad.append(('a print operator is another operator in the graph',e[2])); continue
            for k,sl,nm in((0,2,'before'),(1,4,'after')):
                x=named(fn,s,raw[k],'print_text',bad,e)
                if x is None: und.append('text of a print operator')
                elif x[0]!='txt' or slot(x[1],CUR)!=sl: bad.append(('the text %s the value is another one'%nm,e[2]))
            for k,sl,m,nm in((2,1,1,'notpos'),(3,3,2,'value')):
                if a[k]!=('v' if fixed[0]&m else 'p',sl): bad.append(('the node %s of a print operator is not the one of argument %d'%(nm,sl),e[2]))
            continue
        if op=='DisOp':
            if g!='discrete': bad.append(('a discrete function is another operator in the graph',e[2])); continue
            x=named(fn,s,raw[0],'discrete_name',bad,e)
            if x is None: und.append('name of a discrete function')
            elif x[0]!='dis' or slot(x[1],CUR)!=0: bad.append(('the name of another discrete function is used',e[2]))
            if a[1]!=('v',1): bad.append(('the argument of a discrete function is not argument 1',e[2]))
            continue
        if noresult:
            wg=CMPN[base[:2].lower()]; wa=[('v' if c=='v' else 'p',k) for k,c in enumerate(base[2:])]
            if g!=wg: bad.append(('%s becomes the graph operator %s'%(op,g),e[2]))
            elif a!=wa and not(wg in('comp_eq','comp_ne') and a==wa[::-1]): bad.append(('the operands of a comparison are not the ones of %s'%op,e[2]))
            continue
        b=base if base in UN or op in('ErfOp','ErfcOp') else base[:-2]
        wg=ALIAS.get(b.lower(),b.lower())
        wa=[('v',0)] if base in UN or op in('ErfOp','ErfcOp') else [('v' if c=='v' else 'p',k) for k,c in enumerate(base[-2:])]
        if g!=wg: bad.append(('%s becomes the graph operator %s'%(op,g),e[2]))
        elif a!=wa and not(wg in('add','mul') and a==wa[::-1]): bad.append(('the operands of the graph operator are not the ones of %s'%op,e[2]))
    if op!='EndOp' and not full: bad.append(('the pass ends before the end of the recording',None))
    for s in ps:
        if op!='EndOp' and s.env['exit']!=L.h and (evs(s,'operator_vec_push_back')): bad.append(('the pass ends before the end of the recording',None))
    finishob('to_graph',name,bad,und,wh,obs)
CNAME={}
def atype(s):
    """type of the atomic function on this path"""
    t={}
    for c,v in lits(s):
        if c[0]=='cmp' and c[1]=='eq' and c[3] in(('c',3),('c',4)): t[c[3][1]]=v
    r={k for k,v in t.items() if v}
    if len(r)==1: return r.pop()
    f=[k for k,v in t.items() if not v]
    if len(r)==0 and len(f)==1: return 7-f[0]
    return None
def atomicop(fn,s,R,bad,und):
    o,a=ops_args(s)
    if not o and not a: return
    ty=atype(s)
    if ty is None: return
    if len(o)!=1: bad.append(('an atomic call is in the graph %d times'%len(o),o[1][2][2] if o else a[0][2][2])); return
    cd={c if c[3]==('c',ty) else c[:3]+(('c',ty),):True for c,t in lits(s) if c[0]=='cmp' and c[1]=='eq' and c[3] in(('c',3),('c',4))}
    cd.update({c[:3]+(('c',7-ty),):False for c in list(cd)})
    g=gname(resolve(o[0][1],cd)); e=o[0][2]
    if g!=('atom4' if ty==4 else 'atom'): bad.append(('an atomic function of type %d becomes the graph operator %s'%(ty,g),e[2])); return
    x=named(fn,s,a[0][1],'atomic_name',bad,e) if a else None
    if x is None: und.append('name of an atomic function')
    elif x[0]!='atom' or slot(x[1],CUR)!=0: bad.append(('the name of another atomic function is used',e[2]))
    W=[None]+([1] if ty==4 else [])+[3,2]
    for k in range(1,len(W)):
        if k>=len(a): bad.append(('an atomic call has too few arguments in the graph',e[2])); break
        if slot(a[k][1],CUR)!=W[k]: bad.append(('%s of an atomic call is not at its place in the graph'%{1:'the call id',3:'the number of results',2:'the number of arguments'}[W[k]],a[k][2][2]))
    # the arguments
    j=0
    for i,x,ee in a[len(W):]:
        v=ld(x)
        if v is None: und.append('arguments of an atomic call'); return
        if v[1]!=('c',j): bad.append(('argument %d of an atomic call is not at its place'%j,ee[2]))
        j+=1
def topass(fn,obs):
    """state of the pass: atomic calls, start"""
    R=roles(fn); L=R.L; bad=[]; und=[]; wh=ir.where1(fn.blocks[L.h][0])
    # every atomic call has a first and a last AFunOp
    ps,full=fullpaths(fn,R,'AFunOp',{})
    em=[s for s in full if ops_args(s)[0]]; ne=[s for s in full if not ops_args(s)[0]]
    if not em: bad.append(('atomic calls are not in the graph',None))
    flag=None
    for s in em+ne:
        for p,x in s.env['next'].items():
            x=resolve(x,s.conds)
            if ('phi',p)!=R.phi and x!=('phi',p) and x[0] in('not','xor','c'): flag=('phi',p)
    if flag is None: und.append('inside an atomic call')
    else:
        def st(s):
            for c,t in lits(s):
                y,tt=lit0(c,t)
                if y==flag or y==('and',flag,('c',1)): return tt
            return None
        a,b={st(s) for s in em},{st(s) for s in ne}
        if None in a|b: und.append('inside an atomic call')
        elif a&b: bad.append(('the first and the last AFunOp of an atomic call are not distinguished',None))
        else:
            i=Lp_init(fn,L,flag)
            if i is None: und.append('inside an atomic call')
            elif bool(i) in a: bad.append(('the first AFunOp of an atomic call is taken for its end',None))
        for s in ne:
            if not any(strip(e[0])=='resize' and e[1][-1]==('c',0) or strip(e[0])=='clear' for e in s.ev if ev_(e)): bad.append(('the arguments of the previous atomic call are kept',None))
    i=L_init(fn,L,R.phi)
    finishob('to_graph','atomic calls',bad,und,wh,obs)
def L_init(fn,L,phi):
    for I in fn.blocks[L.h]:
        if I['op']=='phi' and I['i']==phi[1]:
            o=[x for x,pb in I['o'] if int(str(pb).lstrip('b')) not in L.body]
            return o[0] if len(o)==1 else None
def Lp_init(fn,L,phi):
    x=L_init(fn,L,phi)
    return {'c0':0,'c1':1,'false':0,'true':1,'c-1':1}.get(x)

# ------------------------------------------------------------ dynamic parameters
NX,NY=2,2
class DW(GW):
    """one dynamic parameter: its operator and the dimensions of an atomic call are known"""
    dop=None; iarg=None; dims={}
    def step(self,s,I):
        if I['op'] in('call','invoke'):
            q=strip(self.fn.callee(I) or '')
            if q in('num_arg_dyn','num_non_par_arg_dyn'):
                a=self.val(s,I['o'][0]); n=DYN.get(a[1]) if a[0]=='c' else None
                if n is not None:
                    s.env['%%%d'%I['i']]=('c',(0 if n in('ind_dyn','atom_dyn') else NARG.get(n,1)) if q=='num_arg_dyn' else {'atom_dyn':6,'cond_exp_dyn':1,'dis_dyn':1}.get(n,0)); return
        OW.step(self,s,I)
    def outer(self,L,s): OW.outer(self,L,s)
    def load(self,s,p,t,I):
        v=vec(p)
        if v is not None and cname(self.fn,v[0],'dyn_par_op') and self.dop is not None: return ('c',self.dop)
        if v is not None and self.dims and cname(self.fn,v[0],'dyn_par_arg'):
            t_,c=plus(v[1])
            if len(t_)==1 and t_[0][0]=='phi' and c in self.dims: return ('c',self.dims[c])
        return OW.load(self,s,p,t,I)
def cname(fn,e,n): return e[0]=='call' and strip(e[1])==n or e[0]=='pre' and strip(fn.callee(fn.ins[e[1]]) or '')==n
def dynloop(fn,R):
    b={fn.blk[I['i']] for I in fn.calls() if strip(fn.callee(I) or '')=='operator_vec_push_back'}
    Ls=[l for l in Aff(fn,lambda I:None).loops if l.body&b and not l.body&R.L.body]
    if not Ls: raise core.Broken('the loop of to_graph over the dynamic parameters is not found')
    return max(Ls,key=lambda l:len(l.body))
class GLp(Lp):
    def __init__(self,fn,l,visits=2,limit=6000,dop=None,dims={}):
        import c_rerec as C
        class X(DW):
            def __init__(w,*a,**k): DW.__init__(w,*a,**k); w.dims=dims
        old=C.PW; C.PW=X
        try: Lp.__init__(self,fn,l,dop,visits=visits,limit=limit)
        finally: C.PW=old
        self.w.dims=dims
def dynop(fn,dop,cop,name,obs):
    R=roles(fn); l=dynloop(fn,R); bad=[]; und=[]; wh=ir.where1(fn.blocks[l.h][0]); op=DYN[dop]
    dims={2:NX,3:NY} if op=='atom_dyn' else {0:cop} if op=='cond_exp_dyn' else {}
    try: f=GLp(fn,l,visits=6,limit=20000,dop=dop,dims=dims)
    except OverflowError: obs.append(('to_graph',name,'undecided','too many paths','')); return
    if not f.ok: obs.append(('to_graph',name,'undecided','range of the loop over the dynamic parameters','')); return
    prev=None; iarg=None
    na=6+NX+NY if op=='atom_dyn' else NARG.get(op,1)
    for p in f.init:
        if ('phi',p)==f.iv: continue
        if f.init[p]==('c',0): iarg=('phi',p)
        else: prev=('phi',p)
    if prev is None or iarg is None: obs.append(('to_graph',name,'undecided','positions of the arguments','')); return
    def darg(e):
        """slot of an argument of the dynamic operator"""
        v=ld(e)
        if v is None or not cname(fn,v[0],'dyn_par_arg'): return None
        t,c=plus(v[1])
        return c if t==(iarg,) else None
    def par(x):
        w=where_node(x,R,prev)
        return darg(w[1]) if w is not None and w[0]=='p' else None
    def isres(i):
        v=ld(i); return v is not None and cname(fn,v[0],'dyn2par_index') and v[1]==f.iv
    seen=0
    for s in f.full:
        seen+=1
        r,why=decode(s,bad) if op!='atom_dyn' else (None,None)
        nx={p:plus(resolve(x,s.conds)) for p,x in s.env['next'].items()}
        if nx.get(iarg[1])!=((iarg,),na): bad.append(('the arguments of the dynamic parameters are not advanced by %d for %s'%(na,op),None))
        n=NY if op=='atom_dyn' else 0 if op=='result_dyn' else 1
        if nx.get(prev[1])!=((prev,),n): bad.append(('the number of nodes is not advanced by %d for %s'%(n,op),None))
        st=[e for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==R.P2N]
        if op=='atom_dyn':
            o,a=ops_args(s); ty=atype(s)
            if ty is None: continue
            dynatom(fn,s,R,bad,und,ty,o,a,darg,par)
            want={}
            for e in st:
                k=darg(vec(e[1])[1]); w=where_node(e[2],R,prev)
                if k is None or w is None: und.append('results of an atomic call'); continue
                want[k]=w
                if not 5+NX<=k<5+NX+NY or w!=('n',k-4-NX): bad.append(('the node of result %d of an atomic call is not its own'%(k-5-NX),e[3]))
            for c,t in lits(s):
                if c[0]!='cmp' or c[1]!='eq' or c[3]!=('c',0): continue
                k=darg(c[2])
                if k is None or k<5+NX: continue
                if not t and k not in want: bad.append(('the node of result %d of an atomic call is not set'%(k-5-NX),None))
                if t and k in want: bad.append(('a result of an atomic call that is not dynamic is taken for parameter zero',None))
            continue
        if op=='result_dyn':
            if r: bad.append(('a result of an atomic call has an operator in the graph',r[0][2][2]))
            if st: bad.append(('the node of a result of an atomic call is changed',st[0][3]))
            continue
        if r is None:
            if why[0]=='u': und.append('number of terms')
            else: bad.append(why)
            continue
        if len(r)!=1: bad.append(('%s is in the graph %d times'%(op,len(r)),r[0][2][2] if r else None)); continue
        g,raw,e=r[0]
        if len(st)!=1 or not isres(vec(st[0][1])[1]) or where_node(st[0][2],R,prev)!=('n',1): bad.append(('the node of a dynamic parameter is not the one of its operator',st[0][3] if st else e[2]))
        a=[par(x) for x in raw]
        if op=='cond_exp_dyn':
            if not g.startswith('cexp_') or not any(g=='cexp_'+q[0] and a==[j+1 for j in q[1:]] for q in CEQ[CNAME[cop]]): bad.append(('a conditional expression with %s has another meaning in the graph'%CNAME[cop],e[2]))
            continue
        if op=='dis_dyn':
            if g!='discrete': bad.append(('a discrete function is another operator in the graph',e[2])); continue
            x=named(fn,s,raw[0],'discrete_name',bad,e)
            if x is None: und.append('name of a discrete function')
            elif x[0]!='dis' or darg(val(x[1]))!=0: bad.append(('the name of another discrete function is used',e[2]))
            if a[1]!=1: bad.append(('the argument of a discrete function is not argument 1',e[2]))
            continue
        wg=ALIAS.get(op[:-4],op[:-4]); wa=list(range(na))
        if g!=wg: bad.append(('%s becomes the graph operator %s'%(op,g),e[2]))
        elif a!=wa and not(wg in('add','mul') and a==wa[::-1]): bad.append(('the operands of the graph operator are not the ones of %s'%op,e[2]))
    if not seen: bad.append(('the pass over the dynamic parameters ends before the last one',None)) if op not in('atom_dyn','ind_dyn') else und.append('no complete iteration')
    finishob('to_graph',name,bad,und,wh,obs)
def dynatom(fn,s,R,bad,und,ty,o,a,darg,par):
    if len(o)!=1: bad.append(('an atomic call is in the graph %d times'%len(o),None)); return
    cd={c if c[3]==('c',ty) else c[:3]+(('c',ty),):True for c,t in lits(s) if c[0]=='cmp' and c[1]=='eq' and c[3] in(('c',3),('c',4))}
    cd.update({c[:3]+(('c',7-ty),):False for c in list(cd)})
    g=gname(resolve(o[0][1],cd)); e=o[0][2]
    if g!=('atom4' if ty==4 else 'atom'): bad.append(('an atomic function of type %d becomes the graph operator %s'%(ty,g),e[2])); return
    x=named(fn,s,a[0][1],'atomic_name',bad,e) if a else None
    if x is None: und.append('name of an atomic function')
    elif x[0]!='atom' or darg(x[1])!=0: bad.append(('the name of another atomic function is used',e[2]))
    W=[None]+([1] if ty==4 else [])+[('c',NY,3),('c',NX,2)]
    if len(a)!=len(W)+NX: bad.append(('an atomic call has %d arguments in the graph, %d expected'%(len(a),len(W)+NX),e[2])); return
    for k in range(1,len(W)):
        x=a[k][1]
        if isinstance(W[k],tuple):
            if x!=('c',W[k][1]): bad.append(('the number of %s of an atomic call is not at its place in the graph'%('results' if W[k][2]==3 else 'arguments'),a[k][2][2]))
        elif darg(x)!=W[k]: bad.append(('the call id of an atomic call is not at its place in the graph',a[k][2][2]))
    for j in range(NX):
        x=a[len(W)+j]
        if par(x[1])!=5+j: bad.append(('argument %d of an atomic call is not at its place'%j,x[2][2]))
# ---------------------------------------------------------------------- frame
def through(fn,x,stop):
    """an operand through merges of one value"""
    seen=set()
    while isinstance(x,str) and x[:1]=='%' and x not in seen:
        seen.add(x); i=int(x[1:])
        if i in stop: return i
        J=fn.ins.get(i)
        if J is None or J['op']!='phi' or len(J['o'])!=1: return None
        x=J['o'][0][0]
    return None
def frame(fn,L,obs):
    R=roles(fn); dl=dynloop(fn,R); bad=[]; und=[]; wh='to_graph'; D=fn.doms()
    mem=[{n:o for n,t,o,e in c_state.members(L,k)} for k in L if k.startswith('class CppAD::ADFun<double')][0]
    IND,DEP,NAME=mem['ind_taddr_'],mem['dep_taddr_'],mem.get('function_name_')
    def q(e):
        """nd, ni, .. : what a size stands for"""
        if e[0]=='pre':
            J=fn.ins[e[1]]; n=strip(fn.callee(J) or ''); o=J['o'][0] if J['o'] else ''
            G=fn.ins.get(int(o[1:]) if str(o)[0]=='%' else -1)
            b=('off',('arg',0),G['off']) if G is not None and G['op']=='getelementptr' and G['base']=='a0' else ('pre',G['i']) if G is not None and G['op']=='call' else None
            return {'n_dyn_independent':'nd','num_par_all':'np','num_var':'nv'}.get(n) or (n=='size' and b and szname(b)) or None
        if e[0]=='call':
            n=strip(e[1])
            return {'n_dyn_independent':'nd','num_par_all':'np','num_var':'nv'}.get(n) or (n=='size' and szname(e[2])) or None
        return None
    def szname(b):
        if b==('off',('arg',0),IND): return 'ni'
        if b==('off',('arg',0),DEP): return 'ny'
        if cname(fn,b,'dyn2par_index') or cname(fn,b,'dyn_par_op'): return 'ndyn'
        return None
    def lin(e):
        t,c=plus(e); return tuple(sorted((q(x) or '?') if x[0]!='phi' else repr(x) for x in t)),c
    got={}
    loops=[l for l in Aff(fn,lambda I:None).loops if not l.body&R.L.body and l.h!=dl.h and not(l.body<dl.body)]
    loops=[l for l in loops if not any(l.body<m.body for m in loops)]
    cons=None
    for l in loops:
        try: f=GLp(fn,l)
        except OverflowError: continue
        for s in f.full:
            for e in s.ev:
                if e[0]=='store' and vec(e[1]) and vec(e[1])[0] in(R.P2N,R.V2N):
                    if e[2]==('c',0): continue
                    v,i=vec(e[1]); 
                    if not f.ok: und.append('range of a loop'); continue
                    it,ic=plus(i); vt,vc=plus(e[2])
                    if it!=(f.iv,): und.append('index of an initial node'); continue
                    lo=plus(f.lo); up=(lin(f.up[0]),f.up[1])
                    rng=(lo[1]+ic if not lo[0] else None,(up[0][0],up[0][1]+up[1]+ic))
                    rest=tuple(sorted(q(x) or '?' for x in vt if x!=f.iv))
                    if v==R.P2N and f.iv in vt:
                        if rest or vc!=ic: bad.append(('the node of an independent dynamic parameter is not its index',e[3]))
                        if rng!=(1,(('nd',),1)): bad.append(('not exactly the independent dynamic parameters have the first nodes',e[3]))
                        got['ind dyn']=1
                    elif v==R.V2N:
                        if f.iv not in vt: bad.append(('the node of an independent variable is not its own',e[3])); continue
                        if rest!=('nd',) or vc!=ic: bad.append(('the node of an independent variable does not follow the ones of the dynamic parameters',e[3]))
                        if rng!=(1,(('ni',),1)): bad.append(('not exactly the independent variables have the nodes after the dynamic parameters',e[3]))
                        got['ind var']=1
        # constants
        if any(evs(s,'constant_vec_push_back') for s in f.full):
            if not f.ok: und.append('range of the loop over the constants'); continue
            cons=l
            if plus(f.lo)!=((),1): bad.append(('the loop over the constants does not start at parameter one',None))
            if (lin(f.up[0]),f.up[1])!=((('np',),0),0): bad.append(('not all the constants are in the graph',None))
            ph=[('phi',p) for p in f.init if ('phi',p)!=f.iv]
            ph=[p for p in ph if lin(f.init[p[1]])==(('nd','ni'),0)]
            if not ph: bad.append(('the nodes of the constants do not follow the ones of the independent variables',None)); continue
            ph=ph[0]
            for s in f.full:
                d=None
                for c,t in lits(s):
                    x,tt=lit0(c,t); v=ld(x)
                    if v is not None and cname(fn,v[0],'par_is_dyn') and v[1]==f.iv: d=tt
                pb=evs(s,'constant_vec_push_back'); st=[e for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==R.P2N]; nx=plus(s.env['next'][ph[1]])
                if d is None:
                    if pb: und.append('whether a parameter is dynamic')
                    continue
                if d:
                    if pb or st or nx!=((ph,),0): bad.append(('a dynamic parameter is a constant in the graph',None))
                    continue
                if len(pb)!=1: bad.append(('a constant is not in the graph',None)); continue
                x=val(pb[0][2][1][-1])
                okv=x[0]=='idx' and cname(fn,x[1],'par_ptr') and x[2]==0 and len(x[3])==1 and x[3][0][0]==f.iv or x[0]=='load' and x[1][0]=='idx' and cname(fn,x[1][1],'par_ptr') and x[1][2]==0 and x[1][3][0][0]==f.iv
                if not okv:
                    if x[0] in('idx','load'): bad.append(('the value of another parameter is in the graph',pb[0][2][2]))
                    else: und.append('value of a constant')
                if len(st)!=1 or vec(st[0][1])[1]!=f.iv or plus(st[0][2])!=((ph,),1) or nx!=((ph,),1): bad.append(('the node of a constant is not the one after the previous constant',st[0][3] if st else pb[0][2][2]))
            got['constants']=1
        if any(evs(s,'dependent_vec_push_back') for s in f.full):
            if not f.ok: und.append('range of the loop over the dependent variables'); continue
            if f.lo!=('c',0) or (lin(f.up[0]),f.up[1])!=((('ny',),0),0): bad.append(('not all the dependent variables are in the graph',None))
            for s in f.full:
                pb=evs(s,'dependent_vec_push_back')
                x=val(pb[0][2][1][-1]) if len(pb)==1 else None
                x=(ld(x) or vec(x)) if x is not None else None
                y=ld(x[1]) if x is not None and x[0]==R.V2N else None
                if y is None or y[0]!=('off',('arg',0),DEP) or y[1]!=f.iv: bad.append(('the node of a dependent variable is not the one of its address',pb[0][2][2] if pb else None))
            if R.L.h not in D[l.h]: bad.append(('the dependent variables are taken before the operators are done',None))
            got['dependent']=1
    # dynamic parameters
    f=GLp(fn,dl,visits=2,limit=60000,dop=next(k for k,v in DYN.items() if v=='sin_dyn'))
    if not f.ok: und.append('range of the loop over the dynamic parameters')
    else:
        if lin(f.lo)!=(('nd',),0): bad.append(('the loop over the dynamic parameters does not start after the independent ones',None))
        if (lin(f.up[0]),f.up[1])!=((('ndyn',),0),0): bad.append(('not all the dynamic parameters are in the graph',None))
    # numbering goes on
    if cons is not None:
        ph=[I['i'] for I in fn.blocks[dl.h] if I['op']=='phi']
        x=L_init(fn,R.L,R.phi); i=through(fn,x,ph)
        if i is None: und.append('number of the first node of a variable')
        elif ('phi',i)==f.iv: bad.append(('the nodes of the variables do not follow the ones of the parameters',None))
    # counts
    for nm,k in(('n_dynamic_ind_set','nd'),('n_variable_ind_set','ni')):
        c=[I for I in fn.calls() if strip(fn.callee(I) or '')==nm]
        if not c: bad.append(('%s is not called'%nm,None))
        for I in c:
            o=I['o'][-1]; J=fn.ins.get(int(o[1:]) if str(o)[0]=='%' else -1)
            if J is not None and J['op']=='alloca':
                ss=[S for S in fn.ins.values() if S['op']=='store' and S['o'][1]==o]
                J=fn.ins.get(int(ss[0]['o'][0][1:])) if len(ss)==1 and str(ss[0]['o'][0])[0]=='%' else None
            z=q(('pre',J['i'])) if J is not None and J['op']=='call' else None
            if z is None: und.append(nm)
            elif z!=k: bad.append(('%s has another number'%nm,I))
    c=[I for I in fn.calls() if strip(fn.callee(I) or '')=='function_name_set']
    if not c: bad.append(('the name of the function is not in the graph',None))
    c=[I for I in fn.calls() if strip(fn.callee(I) or '')=='initialize']
    p=[I for I in fn.calls() if strip(fn.callee(I) or '').endswith('_push_back') and 'cpp_graph' in fn.callee(I)]
    if not c: bad.append(('a graph that is used again keeps its old content',None))
    elif not all(any(fn.blk[k['i']] in D[fn.blk[I['i']]] and (fn.blk[k['i']]!=fn.blk[I['i']] or k['i']<I['i']) for k in c) for I in p): bad.append(('the graph is cleared after something was put in it',c[0]))
    for k in('ind dyn','ind var','constants','dependent'):
        if k not in got and not bad: und.append('loop: '+k)
    finishob('to_graph','nodes, constants and dependent variables',bad,und,wh,obs)
FN={}
def load():
    if 'to' in FN: return FN
    bc=core.compile_bc('h_graph.cpp')
    d=core.irx(bc,['--layout','op_code_dyn$','--layout','graph_op_enum$','--layout','CompareOp$','--layout','ad_type_enum$','--opaque','.','--entry','^k_'])
    for k,v in d['layouts'].items():
        if k.endswith('op_code_dyn'): DYN.update({v:n for n,v in v['members']})
        if k.endswith('graph_op_enum'): GOP.update({n[:-9]:x for n,x in v['members'] if n!='n_graph_op'})
        if k.endswith('CompareOp'): COP.update(dict(v['members']))
    CNAME.update({v:n for n,v in COP.items()})
    m=ir.Mod(core.irx(bc,['--entry','^k_t_','--opaque','.'])['module'])
    for n in('constant','dynamic','variable'): TYP[n]=int(m.fns['k_t_'+n].blocks[0][-1]['o'][0][1:])
    NUM.update(c_opt.ops(bc))
    FN['L']=c_state.layouts('h_graph.cpp')
    FN['to']=ir.Mod(core.irx(bc,c_fun.A+['--opaque',OPQ,'--redirect','^CppAD::local::play::const_sequential_iterator::op_info=>h_op_info','--globals','--entry','^g_to$'])['module']).fns['g_to']
    return FN
def job(a):
    F=load(); obs=[]
    try:
        if a[0]=='to': toop(F['to'],a[1],a[2],a[1]+('' if not a[2] else ' '+' '.join('%d=%d'%x for x in sorted(a[2].items()))),obs)
        elif a[0]=='topass': topass(F['to'],obs); frame(F['to'],F['L'],obs)
        elif a[0]=='dyn': dynop(F['to'],a[1],a[2],DYN[a[1]]+('' if a[2] is None else ' '+CNAME[a[2]]),obs)
    except(KeyError,IndexError,TypeError,ValueError,AttributeError,RecursionError) as e:
        import os
        if os.environ.get('VF_DEBUG'): raise
        obs.append(('to_graph',str(a[1]),'undecided','%s %s'%(type(e).__name__,e),''))
    return obs
def tojobs():
    J=[('topass','x',None)]
    for op in sorted(NUM):
        if op in('NumberOp','BeginOp') or op[:2] in('Ld','St') and op[2:] in('ppOp','pvOp','vpOp','vvOp','pOp','vOp'): continue
        if op=='CExpOp': J+=[('to',op,{0:c,1:m}) for c in range(6) for m in range(1,16)]
        elif op=='PriOp': J+=[('to',op,{0:m}) for m in range(4)]
        elif op=='CSumOp': J+=[('to',op,csum(*x)) for x in((1,1,1,1),(2,0,0,0),(0,2,0,1),(1,0,2,0),(0,1,0,2),(2,1,0,1),(0,0,2,0),(1,0,0,1))]
        else: J.append(('to',op,{}))
    for n,op in sorted(DYN.items()):
        if op in('number_dyn','ind_dyn'): continue
        J+=[('dyn',n,c) for c in range(6)] if op=='cond_exp_dyn' else [('dyn',n,None)]
    return J
def anyjob(a):
    import c_graphf
    return c_graphf.job(a) if a[0]=='from' else job(a)
def p19(prop,tier,t0):
    rep=core.Report(prop); load()
    import c_graphf
    for o in core.pmap(anyjob,tojobs()+c_graphf.jobs()): rep.merge(o)
    return core.finish(rep,tier,t0,'value flow through one step of each pass between tape and graph, for every operator',{'to_graph':20,'from_graph':20})
