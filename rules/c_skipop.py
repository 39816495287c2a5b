"""The optimizer : cumulative summations and conditional skip operators."""
import core,ir
from aff import Aff
import c_opt,c_rerec
from c_opt import OW,VARS,CSUM,K,NUM,argloop,slot,ld,vec,strip,cal,plus,curof,finishob,lits,lit0,residual
from c_rerec import pure2,gl,Lp,roles,ev_,at_state,nextof,truth_of,NARG
from pathx import resolve
CP=lambda q: pure2(q) or q.startswith('vb_')
REDC=['--redirect','const_random_iterator<unsigned short>::op_info=>h_op_info3','--redirect','const_random_iterator<unsigned short>::get_op=>h_opof']
# ------------------------------------------------------- cumulative summations
class CW(OW):
    """the operator taken from the stack is known"""
    lay=None; sign=None; noloop=False; opstack=None
    def top(self,s):
        return {i for i,e in enumerate(s.ev) if ev_(e) and strip(e[0])=='top' and e[1][0]==self.opstack}
    def field(self,off): return {self.lay['arg']:('ARG',),self.lay['add']:('c',self.sign),self.lay['op']:('c',self.op)}.get(off)
    def load(self,s,p,t,I):
        b=p[1] if p[0]=='off' else p; o=p[2] if p[0]=='off' else 0
        if b[0]=='ev' and b[1] in self.top(s) and self.field(o): return self.field(o)
        if b==('ARG',) and o%4==0 and ('*',p) not in s.mem: return ('A',('c',o//4))
        if p[0]=='idx' and p[1]==('ARG',) and len(p[3])==1 and p[3][0][1]==4 and p[2]%4==0: return ('A',p[3][0][0] if p[2]==0 else ('add',p[3][0][0],('c',p[2]//4)))
        return OW.load(self,s,p,t,I)
    def step(self,s,I):
        if I['op'] in('call','invoke'):
            q=self.fn.callee(I) or ''
            if q.startswith('llvm.memcpy'):
                d,x=self.val(s,I['o'][0]),self.val(s,I['o'][1])
                if d[0]=='ptr' and x[0]=='ev' and x[1] in self.top(s):
                    for o in self.lay.values():
                        if self.field(o): s.mem[(d[1],d[2]+o)]=self.field(o)
                    return
            if strip(q)=='push':
                st,p=self.val(s,I['o'][0]),self.val(s,I['o'][1])
                if st==self.opstack: c={n:self.load(s,('ptr',p[1],p[2]+o) if p[0]=='ptr' else ('off',p,o) if o else p,None,I) for n,o in self.lay.items()}
                else: c=self.load(s,p,None,I)
                s.ev.append(('push',(st,c),I,None)); return
            if strip(q)=='empty' and self.val(s,I['o'][0])==self.opstack and self.noloop: s.env['%%%d'%I['i']]=('c',1); return
        if I['op'] in('fadd','fsub','fneg'):
            s.env['%%%d'%I['i']]=(I['op'],)+tuple(self.val(s,x) for x in I['o']); return
        OW.step(self,s,I)
def csumlay(bc):
    d=core.irx(bc,['--layout','struct_csum_(stacks|op_info)$','--opaque','.','--entry','^k_no$'])['layouts']
    f=lambda n:{m[0]:m[1] for k,v in d.items() if k.endswith(n) for m in v['members']}
    return f('struct_csum_op_info'),f('struct_csum_stacks')
RO=lambda q: strip(q) in('push','top','empty','pop','size','num_var_op')
def ctop(e): return e[0]=='off' and e[2]
def csumop(op,fn,lay,stk,obs):
    LL=[l for l in Aff(fn,lambda I:None).loops if any(strip(fn.callee(I) or '') in('empty','top') and fn.callee(I).find('csum_op_info')>=0 for b in l.body for I in fn.blocks[b] if I['op'] in('call','invoke'))]
    if not LL: raise core.Broken('the loop over the operators of a summation is not found in record_csum')
    L=max(LL,key=lambda l:len(l.body)); bad=[]; und=[]; wh='record_csum'; n=0; seen=set()
    ST=lambda nm: ('off',('arg',7),stk[nm]) if stk[nm] else ('arg',7)
    names={ST(k):k for k in('add_var','sub_var','add_dyn','sub_dyn')}
    for sign in(1,0):
        w=CW(fn,CP,gl(fn),limit=60000,visits=5 if op=='CSumOp' else 3,deref=False,readonly=RO); w.op=NUM[op]; w.sign=sign; w.lay=lay; w.opstack=ST('op_info')
        sg=lambda a: 'add' if a else 'sub'
        for s in w.run_loop(L):
            if s.env['exit']!=L.h: continue
            n+=1
            push=[(e[1],e[2]) for e in s.ev if e[0]=='push']
            def parv(v):
                """par[ arg[k] ] -> index"""
                if v[0]!='load': return None
                q=v[1]
                if q[0]=='idx' and cal(q[1],'par_ptr') and q[2]==0 and len(q[3])==1 and q[3][0][1]==8 and q[3][0][0][0]=='A': return q[3][0][0][1]
                return None
            terms=[]   # (sign, value)
            for p,x in s.env['next'].items():
                y=x
                while y!=('phi',p):
                    if y[0]=='call' and y[1]=='vb_add' and parv(y[2]) is not None and parv(y[3]) is None: terms.append((1,y[2])); y=y[3]
                    elif y[0]=='call' and y[1] in('vb_add','vb_sub'): terms.append((1 if y[1]=='vb_add' else 0,y[3])); y=y[2]
                    elif y[0] in('fadd','fsub'): terms.append((1 if y[0]=='fadd' else 0,y[2])); y=y[1]
                    elif y[0]=='sel': y=resolve(y,s.conds); 
                    else: break
                    if y[0]=='sel': break
                if y!=('phi',p): und.append('value of the constant term')
            def opened(i):
                for c,t in lits(s):
                    if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',K['csum']):
                        v=ld(c[2])
                        if v is not None and v[0]==('arg',2) and cal(v[1],'var2op') and v[1][3]==('A',i): return t
                return None
            def isdyn(i):
                for c,t in lits(s):
                    x,tt=lit0(c,t); v=ld(x)
                    if v is not None and cal(v[0],'par_is_dyn') and v[1]==('A',i): return tt
                return None
            def down(i):
                """pushes of the operator that computes argument i"""
                r=[]
                for (st,c),I in push:
                    if st==ST('op_info') and cal(c['arg'],'h_arg') and cal(c['arg'][2],'var2op') and c['arg'][2][3]==('A',i):
                        r.append((c,I))
                return r
            if op!='CSumOp':
                sub=op.startswith('Sub')
                for k in range(2):
                    want=sign if k==0 or not sub else 1-sign; i=('c',k)
                    leafs=[(names[st],I) for (st,c),I in push if st in names and c==('A',i)]
                    dn=down(i); cs=[(sg_,v) for sg_,v in terms if parv(v)==i]
                    W=sg(want)
                    if k in VARS[op]:
                        o=opened(i)
                        if o is None: bad.append(('whether argument %d of %s is part of the summation is not tested'%(k,op),None)); continue
                        if o:
                            if leafs or len(dn)!=1: bad.append(('an argument of %s that is a summation is not expanded once'%op,None)); continue
                            c,I=dn[0]
                            if not(c['op'][0]=='call' and c['op'][1]=='h_opof' and c['op'][2]==c['arg'][2]): bad.append(('an argument of a summation is expanded as another operator',I))
                            ad=c['add']
                            if ad[0]=='c' and (ad[1]&1)!=want: bad.append(('argument %d of %s has the wrong sign in the summation'%(k,op),I))
                            if ad[0]!='c': und.append('sign of an argument that is expanded')
                        else:
                            if dn: bad.append(('an argument of %s that has its own result is expanded'%op,dn[0][1]))
                            if len(leafs)!=1: bad.append(('argument %d of %s is %s in the summation'%(k,op,'not' if not leafs else 'more than once'),leafs and leafs[0][1] or None))
                            elif leafs[0][0]!=W+'_var': bad.append(('argument %d of %s has the wrong sign in the summation'%(k,op) if leafs[0][0].endswith('var') else 'argument %d of %s is not a dynamic parameter'%(k,op),leafs[0][1]))
                    else:
                        d=isdyn(i)
                        if d is None: bad.append(('whether argument %d of %s is a dynamic parameter is not tested'%(k,op),None)); continue
                        if d:
                            if cs or len(leafs)!=1: bad.append(('the dynamic parameter of %s is not in the summation'%op if not cs else 'the value of a dynamic parameter is a constant of the summation',None))
                            elif leafs[0][0]!=W+'_dyn': bad.append(('argument %d of %s has the wrong sign in the summation'%(k,op) if leafs[0][0].endswith('dyn') else 'the dynamic parameter of %s is taken for a variable'%op,leafs[0][1]))
                        else:
                            if leafs: bad.append(('the constant of %s is taken for another term'%op,leafs[0][1]))
                            if len(cs)!=1: bad.append(('the constant of %s is not in the summation'%op,None))
                            elif cs[0][0]!=want: bad.append(('the constant of %s has the wrong sign in the summation'%op,None))
                    seen.add(k)
                ex=[I for (st,c),I in push if st in names and c not in(('A',('c',0)),('A',('c',1)))]
                if ex: bad.append(('a term of the summation is not an argument of %s'%op,ex[0]))
            else:
                cs=[(sg_,v) for sg_,v in terms if parv(v)==('c',0)]
                if len(cs)!=1: bad.append(('the constant of CSumOp is not in the summation',None))
                elif cs[0][0]!=sign: bad.append(('the constant of CSumOp has the wrong sign in the summation',None))
                for (st,c),I in push:
                    if st not in names or c[0]!='A': continue
                    t,k=plus(c[1])
                    base=5 if not t else (t[0][1][1] if len(t)==1 and t[0][0]=='A' and t[0][1][0]=='c' else None)
                    if base is None or (not t and k<5): und.append('an argument of CSumOp'); continue
                    W={5:sg(sign)+'_var',1:sg(not sign)+'_var',2:sg(sign)+'_dyn',3:sg(not sign)+'_dyn'}.get(base)
                    seen.add(base)
                    if names[st]!=W: bad.append(('an argument of CSumOp is a term of another kind or with another sign',I))
                    bnd=None
                    for cc,tt in lits(s):
                        if cc[0]!='cmp' or cc[3][0]!='A' and cc[2][0]!='A': continue
                        pr,x,y=cc[1:]
                        if x[0]=='A' and plus(y)==(t,k) and x!=c[1]: x,y=y,x; pr={'ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}.get(pr,pr)
                        if plus(x)==(t,k) and y[0]=='A' and (pr=='ult' and tt or pr=='uge' and not tt): bnd=y[1][1] if y[1][0]=='c' else None
                        if pr=='eq' and not tt and plus(x)==(t,k) and y[0]=='A': bnd=y[1][1] if y[1][0]=='c' else bnd
                    if bnd is not None and bnd!={5:1,1:2,2:3,3:4}[base]: bad.append(('the end of a kind of arguments of CSumOp is the end of another kind',I))
    if not n: und.append('no complete iteration')
    want={5,1,2,3} if op=='CSumOp' else {0,1}
    if n and not bad and not want<=seen:
        (bad if not und else und).append(('not all the arguments of %s are terms of the summation'%op,None) if not und else 'arguments')
    finishob('summation',op,bad,und,wh,obs)
def csumend(fn,lay,stk,obs):
    bad=[]; und=[]; wh='record_csum'
    ST=lambda nm: ('off',('arg',7),stk[nm]) if stk[nm] else ('arg',7)
    w=CW(fn,CP,gl(fn),limit=2000,visits=2,deref=False,readonly=RO); w.op=None; w.sign=None; w.lay=lay; w.opstack=ST('op_info'); w.noloop=True
    w.field=lambda off: None
    order=['add_var','sub_var','add_dyn','sub_dyn']; n=0
    sz=lambda k: lambda x: cal(x,'size') and x[2]==ST(k)
    for s in w.run():
        ev=[(i,strip(e[0]),e) for i,e in enumerate(s.ev) if ev_(e)]
        puts=[(i,e) for i,q,e in ev if q=='PutArg']; n+=1
        args=[(i,a,e) for i,e in puts for a in e[1][1:]]
        root=[e for i,q,e in ev if q=='push' and e[1][0]==ST('op_info')]
        if len(root)!=1 or not(cal(root[0][1][1]['arg'],'h_arg') and cal(root[0][1][1]['arg'][2],'var2op') and root[0][1][1]['arg'][2][3]==('arg',5)): bad.append(('the summation does not start with the operator of its result',None)); continue
        r=root[0][1][1]
        if r['op']!=('call','h_opof',r['arg'][2]): bad.append(('the summation does not start with the operator of its result',None))
        if r['add']!=('c',1) and r['add']!=('c',-1) and r['add']!=('c',255): bad.append(('the operator of the result of a summation is subtracted',None))
        if len(args)<6: bad.append(('a summation has less than six arguments',None)); continue
        a0=args[0][1]
        if not(a0[0]=='ev' and strip(s.ev[a0[1]][0])=='put_con_par'): bad.append(('the first argument of a summation is not its constant',args[0][2][2]))
        tot=[]
        for k in range(4):
            tot.append(order[k]); t,c=plus(args[k+1][1])
            if c!=5 or len(t)!=k+1 or not all(any(sz(o)(x) for x in t) for o in tot): bad.append(('argument %d of a summation is not the end of its terms of kind %d'%(k+1,k+1),args[k+1][2][2]))
        t,c=plus(args[-1][1])
        if c!=6 or len(t)!=4 or not all(any(sz(o)(x) for x in t) for o in order): bad.append(('the last argument of a summation is not its number of arguments',args[-1][2][2]))
        last=-1
        for i,a,e in args[5:-1]:
            v=ld(a); k=None
            if a[0]=='load' and a[1][0]=='ev' and strip(s.ev[a[1][1]][0])=='top': bad.append(('a term of a summation is not mapped to the new recording',e[2])); continue
            if v is not None:
                x=v[1]
                if cal(x,'var2op'): x=x[3]
                if x[0]=='load' and x[1][0]=='ev' and strip(s.ev[x[1][1]][0])=='top':
                    st=s.ev[x[1][1]][1][0]; k=[o for o in order if ST(o)==st]
                    if k:
                        k=k[0]; isv=k.endswith('var')
                        if v[0]!=(('arg',4) if isv else ('arg',3)) or cal(v[1],'var2op')!=isv: bad.append(('a term of a summation is not mapped to the new recording',e[2]))
                        if order.index(k)<last: bad.append(('the terms of a summation are not in order',e[2]))
                        last=max(last,order.index(k))
            if not k: und.append('term of a summation')
        pop=[e for i,q,e in ev if q=='pop' and e[1][0]!=ST('op_info')]
        if len(pop)!=len(args)-6: bad.append(('a term of a summation is not removed after it is recorded',None))
        po=[(i,e) for i,q,e in ev if q=='PutOp']
        if len(po)!=1 or po[0][1][1][1]!=('c',NUM['CSumOp']): bad.append(('a summation is not recorded as CSumOp',None)); continue
        nv=[i for i,q,e in ev if q=='num_var_op' and i<po[0][0]]
        ret={k[1] if k[0]!='*' else None:v for k,v in s.mem.items()}
        outs=[e[2] for e in s.ev if e[0]=='store' and e[1] in(('arg',8),('off',('arg',8),8))]+list(s.mem.values())
        if nv and ('ev',nv[-1]) not in outs and not any(('ev',nv[-1])==x for x in outs): bad.append(('the new index of the summation is not the one of its operator',None))
        if not nv: bad.append(('the new index of the summation is not the one of its operator',None))
        if ('ev',po[0][0]) not in outs: bad.append(('the new address of the summation is not the one of its operator',None))
    kinds=set()
    for l in Aff(fn,lambda I:None).loops:
        f=Lp(fn,l,visits=2)
        for s in f.full:
            for e in s.ev:
                if ev_(e) and strip(e[0])=='PutArg' and f.ok:
                    st=[x[1][0] for x in s.ev if ev_(x) and strip(x[0])=='top']; k=[o for o in order if st and ST(o)==st[0]]
                    if not k: continue
                    kinds.add(k[0])
                    if f.lo!=('c',0) or f.up[1] or not sz(k[0])(f.up[0]): bad.append(('not all the terms of a kind are recorded',e[2]))
                    if len(f.full)!=1: bad.append(('a term of a summation can be dropped',e[2]))
    # the constant is the one the loop computes
    for I in fn.calls():
        if strip(fn.callee(I) or '')!='put_con_par': continue
        p=I['o'][1]
        sv=[J for b in fn.blocks for J in b if J['op']=='store' and J['o'][1]==p]
        if sv and all(str(J['o'][0]).startswith('f') for J in sv): bad.append(('the constant of a summation is not the one of its operators',I))
    if not n: und.append('no path')
    finishob('summation','recording of the terms',bad,und,wh,obs)
# ------------------------------------------------------------ conditional skip
SETQ=['--opaque','size_setvec_const_iterator']
def SP(q): return pure2(q) or strip(q).startswith('llvm.') and strip(q).split('.')[1] in('umax','umin','smax','smin')
class SW(OW):
    """looking twice at the same position of an iterator gives the same element"""
    def step(self,s,I):
        if I['op'] in('call','invoke'):
            q=strip(self.fn.callee(I) or '')
            if q=='operator*':
                it=self.val(s,I['o'][0])
                for i in range(len(s.ev)-1,-1,-1):
                    e=s.ev[i]
                    if not ev_(e) or it not in e[1]: continue
                    if strip(e[0])=='operator*': s.env['%%%d'%I['i']]=('ev',i); return
                    break
        OW.step(self,s,I)
def maxof(e,conds):
    """e = max of these values"""
    e=resolve(e,conds)
    if e[0]=='call' and 'umax' in e[1] or e[0]=='call' and 'smax' in e[1]: return maxof(e[2],conds)|maxof(e[3],conds)
    if e[0]=='sel' and e[1][0] in('cmp','not'):
        c=e[1]; a,b=e[2],e[3]
        while c[0]=='not': c=c[1]; a,b=b,a
        if c[0]=='cmp' and {c[2],c[3]}=={a,b}:
            if c[1] in('ult','ule','slt','sle') and a==c[3] or c[1] in('ugt','uge','sgt','sge') and a==c[2]: return maxof(a,conds)|maxof(b,conds)
        return {('u','?')}
    return {e}
def structs(bc):
    d=core.irx(bc,['--layout','struct_c(exp_info|skip_new)$','--opaque','.','--entry','^k_no$'])['layouts']
    f=lambda n:{m[0]:m[1] for k,v in d.items() if k.endswith(n) for m in v['members']}
    return f('struct_cexp_info'),f('struct_cskip_new')
def fld(e,v=None):
    """address of a member of an element of a vector -> (vector, index, offset)"""
    o=0
    if e[0]=='off': o=e[2]; e=e[1]
    x=vec(e)
    return (x[0],x[1],o) if x else None
def fld1(e,info):
    """address of a member of a local structure that is stored as a whole"""
    return None
def cexpinfo(fn,I_,obs):
    bad=[]; und=[]; wh='get_cexp_info'; INFO=('arg',6); C2=('arg',4); n=0
    for l in Aff(fn,lambda I:None).loops:
        if not any((fn.callee(I) or '')=='h_arg' for b in l.body for I in fn.blocks[b] if I['op']=='call'): continue
        for mask in range(4):
            f=Lp(fn,l,visits=2)
            w=OW(fn,SP,gl(fn),limit=4000,visits=2); w.fixed={1:mask}; w.op=NUM['CExpOp']
            if not f.ok or f.lo!=('c',0) or not(cal(f.up[0],'size') and f.up[0][2] in(C2,INFO)) or f.up[1]:
                bad.append(('not all the conditional expressions have their information',None)); continue
            for s in w.run_loop(l):
                if s.env['exit']!=l.h: continue
                cur=curof(fn,l,w,s)
                if cur is None: continue
                if ld(cur)!=(C2,f.iv): bad.append(('the information of a conditional expression is the one of another operator',None)); continue
                got={}; n+=1
                for e in s.ev:
                    if e[0]=='store':
                        x=fld(e[1])
                        if x and x[0]==INFO:
                            if x[1]!=f.iv: bad.append(('the information of another conditional expression is changed',e[3]))
                            got[x[2]]=(e[2],e[3])
                if not got: und.append('information of a conditional expression'); continue
                def need(k,ok,t):
                    if I_[k] not in got: und.append('member '+k); return
                    if not ok(got[I_[k]][0]): bad.append((t,got[I_[k]][1]))
                need('i_op',lambda v:v==cur or ld(v)==(C2,f.iv),'the operator of a conditional expression is another operator')
                need('left',lambda v:slot(v,cur)==2,'the left operand of the comparison is not argument 2')
                need('right',lambda v:slot(v,cur)==3,'the right operand of the comparison is not argument 3')
                need('cop',lambda v:slot(v,cur)==0,'the comparison is not argument 0')
                need('flag',lambda v:v==('c',mask),'the flag is not argument 1')
                def mx(v):
                    m=maxof(v,s.conds)
                    return {2+k for k in range(2) if mask>>k&1}<={slot(x,cur) for x in m}
                need('max_left_right',mx,'a skip can come before the variables of its comparison (variables %s)'%['none','left','right','left and right'][mask])
    if not n: und.append('information of the conditional expressions')
    finishob('skip','information of a conditional expression',bad,und,wh,obs)
def skipset(fn,obs):
    bad=[]; und=[]; wh='get_cexp_info'; T,F=('arg',7),('arg',8); OU,OP,CS=('arg',3),('arg',2),('arg',5)
    post=[I for I in fn.calls() if strip(fn.callee(I) or '')=='post_element']
    if not post: raise core.Broken('post_element is not called in get_cexp_info')
    Ls=[l for l in Aff(fn,lambda I:None).loops if all(fn.blk[I['i']] in l.body for I in post)]
    L=max(Ls,key=lambda l:len(l.body)); n=0; kinds=set()
    w=SW(fn,lambda q: pure2(q) and 'setvec' not in q or strip(q)=='end',gl(fn),limit=20000,visits=2,deref=False,readonly=lambda q:True); w.op=0
    for s in w.run_loop(L):
        if s.env['exit']!=L.h: continue
        ops={p for p in s.env['next']}
        for e in s.ev:
            if not ev_(e) or strip(e[0])!='post_element': continue
            n+=1; st,ix,o=e[1][:3]
            if st not in(T,F): bad.append(('an operator is entered in another set',e[2])); continue
            ok={}; atom=None; base=None
            el=None
            if ix[0]=='lshr' and ix[2]==('c',1) or ix[0]=='udiv' and ix[2]==('c',2): el=ix[1]
            if el is None or el[0]!='ev': bad.append(('the conditional expression of a skip is not the one of the element',e[2])) ; continue
            it=s.ev[el[1]][1][0]
            con=[x for x in s.ev if ev_(x) and 'const_iterator' in strip(x[0]) and x[1][0]==it]
            if not con or len(con[-1][1])<3: und.append('iterator over the conditions'); continue
            if con[-1][1][1]!=CS: bad.append(('the conditions of an operator are taken from another set',e[2]))
            base=con[-1][1][2]
            par=None
            same={x for x in range(len(s.ev)) if ev_(s.ev[x]) and strip(s.ev[x][0])=='operator*' and s.ev[x][1][0]==it}
            for c,t in lits(s):
                x,tt=lit0(c,t)
                if x[0]=='and' and x[2]==('c',1) and x[1]==el: par=tt
                if x[0]=='cmp' and x[1]=='eq' and x[2][0]=='and' and x[2][1]==el and x[2][2]==('c',1) and x[3]==('c',1): par=tt
                if c[0]=='cmp' and c[1]=='eq' and c[3][0]=='c' and ld(c[2])==(OU,base):
                    if c[3][1]==K['no']: ok['no']=not t
                    if c[3][1]==K['csum']: ok['csum']=not t
                    if c[3][1]==K['yes'] and t: ok['no']=ok['csum']=True
                if ld(x)==(OP,base): ok['prev']=not tt
                if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',NUM['AFunOp']) and cal(c[2],'GetOp') and c[2][3]==base: atom=t
            if par is None: bad.append(('the value of the comparison for which an operator is skipped is not tested',e[2]))
            elif (st==T)!=par: bad.append(('an operator that is not used when the comparison is %s is skipped when it is %s'%(('true','false') if par else ('false','true')),e[2]))
            for k,tx in(('no','an operator that is not used is skipped'),('csum','an operator that is part of a summation is skipped'),('prev','an operator that is replaced by a previous one is skipped')):
                if not ok.get(k): bad.append((tx,e[2]))
            if o!=base:
                t,k=plus(o); tb,kb=plus(base)
                if t!=tb or k<=kb or atom is not True: bad.append(('another operator is skipped',e[2])); continue
                fin=[tt for c,tt in lits(s) if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',NUM['AFunOp']) and cal(c[2],'GetOp') and plus(c[2][3])==(t,k)]
                if fin!=[True]: bad.append(('the end of an atomic call that is skipped is not its second AFunOp',e[2]))
                kinds.add('end')
                mine=[x for x in s.ev if ev_(x) and strip(x[0])=='post_element' and x[1][:2]==e[1][:2]]
                if not any(x[1][2]==base for x in mine): bad.append(('the end of an atomic call is skipped without its start',e[2]))
            else:
                if atom is not False:
                    mine=[x for x in s.ev if ev_(x) and strip(x[0])=='post_element' and x[1][:2]==e[1][:2] and x[1][2]!=base]
                    if not mine:
                        if atom:
                            bad.append(('the start of an atomic call is skipped without its end',e[2]))
                        else: bad.append(('an operator is skipped without a test that it is an atomic call',e[2]))
                kinds.add('op')
    if not n: und.append('no operator is skipped')
    if n and 'end' not in kinds and not bad: bad.append(('the end of an atomic call is not skipped',None))
    # postings are processed
    pp={}
    for l in Aff(fn,lambda I:None).loops:
        f=Lp(fn,l,visits=2)
        for s in f.full:
            for e in s.ev:
                if ev_(e) and strip(e[0])=='process_post' and f.ok and f.lo==('c',0) and e[1][1]==f.iv and cal(f.up[0],'size'): pp[e[1][0]]=1
    for v,t in((T,'true'),(F,'false')):
        if v not in pp: bad.append(('the operators skipped when a comparison is %s are not all in the set'%t,None))
    finishob('skip','operators that can be skipped',bad,und,wh,obs)
def cskip(fn,I_,N_,obs,names=None):
    """a skip operator is entered after the variables of its comparison and outside of an atomic call"""
    L=argloop(fn); R=roles(fn,L); bad=[]; und=[]; wh='optimize_run'; tot=0
    INFO=TR=FA=None
    for I in fn.calls():
        if strip(fn.callee(I) or '')=='get_cexp_info': INFO,TR,FA=(('ptr',x,0) for x in I['o'][6:9])
    if INFO is None: raise core.Broken('call of get_cexp_info not found in optimize_run')
    w=OW(fn,pure2,gl(fn),limit=30000,visits=2,deref=False); w.op=NUM['SinOp']; last=None
    for s in w.run_loop(L):
        if s.env['exit']!=L.h: continue
        cur=curof(fn,L,w,s)
        v={p for p,x in s.env['next'].items() if cal(x,'h_var') and x[2]==cur}
        last=v if last is None else last&v
    for op in names or ['SinOp','SincosOp','BeginOp','InvOp','StppOp','EndOp','AFunOp','FunavOp','FunapOp','FunrvOp','FunrpOp','LepvOp','CExpOp']:
        if op not in NUM: continue
        w=OW(fn,pure2,gl(fn),limit=30000,visits=2,deref=False,readonly=lambda q: strip(q) in('num_var_op','num_var_load','number_elements')); w.op=NUM[op]
        if op=='CExpOp': w.fixed={1:15}
        nres=0 if op in c_rerec.NORES else 1
        try: ps=w.run_loop(L)
        except OverflowError: und.append('paths'); continue
        for s in ps:
            if s.env['exit']!=L.h: continue
            cur=curof(fn,L,w,s)
            if cur is None: continue
            sk=[(i,e) for i,e in enumerate(s.ev) if ev_(e) and strip(e[0])=='PutOp' and e[1][1]==('c',NUM['CSkipOp'])]
            res=[(i,e) for i,e in enumerate(s.ev) if ev_(e) and strip(e[0])=='ReserveArg']
            if len(sk)!=len(res): bad.append(('space for the arguments of a skip operator without the operator, or the operator without the space',(sk+res)[0][1][2])); continue
            if not sk: continue
            tot+=1; i,e=sk[0]; ri,re_=res[0]
            if len(sk)>1: und.append('more than one skip operator'); continue
            if op in('BeginOp','InvOp'): bad.append(('a skip operator comes before the last independent variable',e[2])); continue
            for st in(K['arg_atom'],K['ret_atom'],K['end_atom']):
                if at_state(s,R.st,st): bad.append(('a skip operator comes inside of an atomic call',e[2]))
            other=[j for j,x in enumerate(s.ev) if ev_(x) and strip(x[0]) in('PutOp','PutLoadOp','PutArg') and min(ri,i)<j<max(ri,i)]
            if other: bad.append(('another operator is recorded between a skip operator and its arguments',e[2]))
            js=[(vec(x[1][1])[1] if False else fld(x[1]),x[2],x[3]) for x in s.ev if x[0]=='store' and fld(x[1]) and x[2]==('ev',ri)]
            if not js: bad.append(('the place of the arguments of a skip operator is not kept',re_[2])); continue
            (NV,j,o),_,I=js[0]
            if o!=N_['i_arg']: bad.append(('the place of the arguments of a skip operator is not kept',I))
            t,c=plus(re_[1][1])
            ne=lambda x,S: x[0]=='ev' and strip(s.ev[x[1]][0])=='number_elements' and s.ev[x[1]][1][0]==S and s.ev[x[1]][1][1]==j or cal(x,'number_elements') and x[2]==S and x[3]==j
            if c!=7 or len(t)!=2 or not(any(ne(x,TR) for x in t) and any(ne(x,FA) for x in t)): bad.append(('the number of arguments of a skip operator is not 7 and the operators it can skip',re_[2]))
            # its comparison
            want=None
            for cc,tt in lits(s):
                if cc[0]!='cmp': continue
                pr,x,y=cc[1:]
                if y[0]=='load' and fld(y[1]) and fld(y[1])[0]==INFO: x,y=y,x; pr={'ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}.get(pr,pr)
                if x[0]=='load' and fld(x[1]) and fld(x[1])[0]==INFO and (cal(y,'h_var') and y[2]==cur or nres==0 and y[0]=='phi' and y[1] in(last or ()) and s.env['next'].get(y[1])==y):
                    if fld(x[1])[1]!=j: bad.append(('a skip operator is entered when the variables of another comparison are defined',e[2])); continue
                    if fld(x[1])[2]!=I_['max_left_right']: bad.append(('a skip operator does not wait for the variables of its comparison',e[2])); continue
                    want=(pr,tt)
            # i_var is the result of this operator (nres 1), or the last result so far (nres 0)
            okp={('ult',True),('uge',False)} if nres else {('ult',True),('uge',False),('ule',True),('ugt',False)}
            if want is None: bad.append(('a skip operator does not wait for the variables of its comparison',e[2]))
            elif want not in okp: bad.append(('a skip operator can come before the variables of its comparison',e[2]))
            # next one
            v=ld(j)
            if v is not None and v[1][0]=='phi':
                if plus(s.env['next'].get(v[1][1],('u',)))!=((v[1],),1): bad.append(('a skip operator can be entered twice for one conditional expression',e[2]))
            else: und.append('order of the skip operators')
    if not tot: und.append('no skip operator')
    finishob('skip','place of a skip operator',bad,und,wh,obs)
    # operands of the comparison
    bad=[]; und=[]; n=0
    for mask in(15,1,2,3):
        w=OW(fn,pure2,gl(fn),limit=30000,visits=6,deref=False,readonly=lambda q: strip(q) in('num_var_op','num_var_load','number_elements')); w.op=NUM['CExpOp']; w.fixed={1:mask}
        try: ps=w.run_loop(L)
        except OverflowError: und.append('paths'); continue
        cnt=set()
        for s in ps:
            if s.env['exit']!=L.h or not at_state(s,R.st,K['start_atom']): continue
            cur=curof(fn,L,w,s)
            if cur is None: continue
            put=[e for e in s.ev if ev_(e) and strip(e[0])=='PutArg']
            st=[(fld(e[1]),e[2],e[3]) for e in s.ev if e[0]=='store' and fld(e[1]) and fld(e[1])[2] in(N_['left'],N_['right']) and fld(e[1])[1][0]=='phi']
            st=[x for x in st if x[0][0][0]=='ptr' and x[0][0] not in(R.NV,R.PREV,R.NP,R.OU)]
            args=[a for e in put for a in e[1][1:]]
            # is conditional skip enabled ? then the member is stored
            for (v,i,o),x,I in st:
                n+=1; cnt.add(i)
                k=2 if o==N_['left'] else 3
                if len(args)!=6: und.append('arguments of CExpOp'); continue
                if x!=args[k]: bad.append(('the %s operand of a skip operator is not the one of its conditional expression'%('left' if k==2 else 'right'),I))
                if i[0]!='phi' or plus(s.env['next'].get(i[1],('u',)))!=((i,),1): bad.append(('the operands of a skip operator are the ones of another conditional expression',I))
    if not n: und.append('operands of the skip operators')
    finishob('skip','operands of a skip operator',bad,und,wh,obs)
    countcexp(fn,L,R,obs,N_)
def countcexp(fn,L,R,obs,N_):
    """every conditional expression is counted, also the ones that are not recorded"""
    bad=[]; und=[]; wh='optimize_run'; n=0; ctr=None; W={}
    for op in('CExpOp','SinOp','StppOp'):
        w=OW(fn,pure2,gl(fn),limit=30000,visits=6,deref=False,readonly=lambda q:True); w.op=NUM[op]
        if op=='CExpOp': w.fixed={1:15}
        W[op]=[s for s in w.run_loop(L) if s.env['exit']==L.h and at_state(s,R.st,K['start_atom'])]
    for s in W['CExpOp']:
        for e in s.ev:
            if e[0]=='store' and fld(e[1]) and fld(e[1])[2]==N_['right'] and fld(e[1])[1][0]=='phi' and fld(e[1])[0][0]=='ptr': ctr=fld(e[1])[1]
    if ctr is None: und.append('count of the conditional expressions')
    else:
        # literals that hold whenever the counter is not increased and differ otherwise : the option
        inc=[s for s in W['CExpOp'] if plus(s.env['next'][ctr[1]])==((ctr,),1)]; no=[s for s in W['CExpOp'] if s.env['next'][ctr[1]]==ctr]
        oth=[s for s in W['CExpOp'] if s not in inc and s not in no]
        sto=[s for s in W['CExpOp'] if any(e[0]=='store' and fld(e[1]) and fld(e[1])[2]==N_['right'] and fld(e[1])[1]==ctr for e in s.ev)]
        for s in no:
            ok=any(c[0]=='cmp' and ld(c[2]) is None and all(x.conds.get(c)==(not t) for x in sto) for c,t in lits(s))
            if not ok: bad.append(('a conditional expression is not counted',None))
        for op in('SinOp','StppOp'):
            if any(s.env['next'][ctr[1]]!=ctr for s in W[op]): bad.append(('%s is counted as a conditional expression'%op,None))
    finishob('skip','count of the conditional expressions',bad,und,wh,obs)
def cskipfill(fn,I_,N_,obs):
    M=argloop(fn); R=roles(fn,M); bad=[]; und=[]; wh='optimize_run'; n=0
    for I in fn.calls():
        if strip(fn.callee(I) or '')=='get_cexp_info': INFO,TR,FA=(('ptr',x,0) for x in I['o'][6:9])
    Ls=[l for l in Aff(fn,lambda I:None).loops if not l.body&M.body and any(strip(fn.callee(I) or '')=='ReplaceArg' for b in l.body for I in fn.blocks[b] if I['op'] in('call','invoke'))]
    if not Ls: raise core.Broken('the arguments of the skip operators are not set in optimize_run')
    L=max(Ls,key=lambda l:len(l.body))
    f=Lp(fn,L,visits=2)
    if not f.ok or f.lo!=('c',0) or not cal(f.up[0],'size') or f.up[1]: und.append('loop over the skip operators'); finishob('skip','arguments of a skip operator',bad,und,wh,obs); return
    j=f.iv; w=SW(fn,lambda q: pure2(q) and 'setvec' not in q or strip(q)=='end',gl(fn),limit=20000,visits=3,deref=False,readonly=lambda q:True); w.op=None
    for s in w.run_loop(L):
        if s.env['exit']!=L.h: continue
        rep=[(e[1][1],e[1][2],e[2],i) for i,e in enumerate(s.ev) if ev_(e) and strip(e[0])=='ReplaceArg']
        def new(x,o): return x[0]=='load' and fld(x[1]) and fld(x[1])[1]==j and fld(x[1])[2]==o and fld(x[1])[0]!=INFO
        def inf(x,o): return x[0]=='load' and fld(x[1])==(INFO,j,o)
        if not rep: continue
        z=None
        for c,t in lits(s):
            x,tt=lit0(c,t)
            if new(x,N_['i_arg']): z=tt
        n+=1
        if z is not True: bad.append(('the arguments of a skip operator that was not entered are set',rep[0][2]))
        def ne(x,S): return x[0]=='ev' and strip(s.ev[x[1]][0])=='number_elements' and s.ev[x[1]][1][0]==S and s.ev[x[1]][1][1]==j
        what=[('the comparison',lambda x:inf(x,I_['cop'])),('the flag',lambda x:inf(x,I_['flag'])),('the left operand',lambda x:new(x,N_['left'])),('the right operand',lambda x:new(x,N_['right'])),('the number of operators skipped when true',lambda x:ne(x,TR)),('the number of operators skipped when false',lambda x:ne(x,FA))]
        if len(rep)<7: bad.append(('a skip operator has less than 7 arguments',rep[0][2])); continue
        for k,(ix,x,I,_) in enumerate(rep):
            t,c=plus(ix)
            if len(t)!=1 or not new(t[0],N_['i_arg']) or c!=k: bad.append(('an argument of a skip operator is not at its place',I))
        for k,(nm,ok) in enumerate(what):
            if not ok(rep[k][1]): bad.append(('argument %d of a skip operator is not %s'%(k,nm),rep[k][2]))
        last=0
        for ix,x,I,i in rep[6:-1]:
            v=ld(x); S=None
            if v is None or v[0]!=R.PREV or v[1][0]!='ev': bad.append(('an operator that is skipped is not mapped to the new recording',I)); continue
            it=s.ev[v[1][1]][1][0]
            con=[y for y in s.ev if ev_(y) and 'const_iterator' in strip(y[0]) and y[1][0]==it]
            if con and con[-1][1][2]==j: S={TR:1,FA:2}.get(con[-1][1][1])
            if S is None: bad.append(('an operator of another skip operator is skipped',I)); continue
            if S<last: bad.append(('the operators skipped when the comparison is false come before those skipped when it is true',I))
            last=S
        its=[y[1][1] for y in s.ev if ev_(y) and 'const_iterator' in strip(y[0]) and len(y[1])>2 and y[1][2]==j]
        if {TR,FA}-set(its): bad.append(('not all the operators that can be skipped are arguments of a skip operator',None))
        t,c=plus(rep[-1][1])
        if c!=7 or len(t)!=2 or not(any(ne(x,TR) for x in t) and any(ne(x,FA) for x in t)): bad.append(('the last argument of a skip operator is not its number of arguments',rep[-1][2]))
    if not n: und.append('no skip operator')
    finishob('skip','arguments of a skip operator',bad,und,wh,obs)
