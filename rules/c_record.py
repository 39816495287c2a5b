"""Recording of AD operations (P10) and of comparisons (P11)."""
import core,ir,itertools
from pathx import Walk,resolve
PURE=lambda q: q.startswith('vb_') or q[:3] in('h_v','h_t','h_k') or q in('atan','sqrt','log','exp','llvm.sqrt.f64')
REC='^CppAD::local::(dyn_)?recorder<.*>::(Put|put_|Reserve|Replace|Add|get_record_compare)'
ARGS=['--redirect','^CppAD::AD<VB>::tape_ptr\\(\\)=>h_tape','--opaque',REC,'--opaque','^std::','--opaque','^CppAD::thread_alloc']
def gl(name,off):
    if name=='g:h_tape_obj' and off==0: return ('c',7)
    if 'tape_id_table' in name: return ('c',7)
    return None
def enums(bc):
    d=core.irx(bc,['--layout','op_code_(var|dyn)$|ad_type_enum|CompareOp','--opaque','.','--entry','^r_plus$'])
    r={}
    for k,v in d['layouts'].items():
        if v['kind']=='enum': r[k.split('::')[-1]]={n:x for n,x in v['members']}
    d=core.irx(bc,ARGS+['--entry','^r_enum$']); f=ir.Mod(d['module']).fns['r_enum']
    c=[I for I in f.calls() if f.callee(I)=='h_enum'][0]
    r['ad_type_enum']=dict(zip(('constant_enum','dynamic_enum','variable_enum'),(int(x[1:]) for x in c['o'])))
    for k in('op_code_var','op_code_dyn','CompareOp'):
        if k not in r: raise core.Broken('enumeration %s not found'%k)
    return r
# terms: ('x',k) operand k ; ('n',float) ; (fname, args...)
COMM={'add','mul','azmul'}
def simp(e):
    if e[0] in('x','n','?'): return e
    f=e[0]; a=tuple(simp(x) for x in e[1:]); Z=('n',0.0); O=('n',1.0)
    if f=='add':
        if a[0]==Z: return a[1]
        if a[1]==Z: return a[0]
    if f=='sub' and a[1]==Z: return a[0]
    if f in('mul','azmul'):
        if Z in a: return Z
        if a[0]==O: return a[1]
        if a[1]==O: return a[0]
    if f=='div':
        if a[0]==Z: return Z
        if a[1]==O: return a[0]
    if f=='pow':
        if a[1]==Z: return O
        if a[0]==Z: return Z
        if a[0]==O: return O
        if a[1]==O: return a[0]
    if f in COMM: a=tuple(sorted(a,key=repr))
    return (f,)+a
def vb(e):
    """value term -> operation term"""
    if e[0]=='call':
        q=e[1]
        if q=='vb_cexp': return ('cexp',e[2][1])+tuple(vb(x) for x in e[3:])
        if q.startswith('vb_'): return (q[3:],)+tuple(vb(x) for x in e[2:])
        if q[:3]=='h_v': return ('v',int(q[3:]))
    if e[0]=='f': return ('n',e[1])
    if e[0]=='&': return vb(e[1])
    return ('?',e)
def subst(e,m):
    if e in m: return m[e]
    return tuple(subst(x,m) if isinstance(x,tuple) else x for x in e)
NAME={'Abs':'abs','Neg':'neg','Sub':'sub','Add':'add','Mul':'mul','Div':'div','Zmul':'azmul','Pow':'pow','Expm1':'expm1','Log1p':'log1p'}
class Bad(Exception): pass
class PathDen:
    def __init__(self,s,kinds,en):
        self.s=s; self.k=kinds; self.var={v:k for k,v in en['op_code_var'].items()}; self.dyn={v:k for k,v in en['op_code_dyn'].items()}; self.en=en
        self.ops={}; self.pend=[]; self.used=[]
        # group PutArg lists with their PutOp
        pa=[]; po=None; self.cmp=[]
        for e in s.ev:
            q=e[0].split('::')[-1]
            if e[0]=='clobber' or not isinstance(e[0],str): continue
            if q=='PutArg': pa+=[(x,e[2]) for x in e[1][1:]]
            elif q=='PutOp':
                if e[1][1][0]!='c': raise Bad('operator recorded is not a constant')
                po=(self.var.get(e[1][1][1],'?'),e[3],e[2])
            else: continue
            if po is not None:
                n=self.narg(po[0])
                if len(pa)==n: self.ops[po[1]]=(po[0],[x for x,_ in pa],po[2]); pa=[]; po=None
                elif len(pa)>n: raise Bad('%s is recorded with %d arguments'%(po[0],len(pa)))
        if pa or po: raise Bad('arguments and operators recorded do not match')
    def narg(self,op):
        if op in NARG: return NARG[op]
        return 1
    def ev(self,r): return self.s.ev[r[1]]
    def par(self,a):
        """meaning of a parameter address"""
        if a[0]=='call' and a[1][:3]=='h_t':
            k=int(a[1][3:])
            if self.k[k]!=1: raise Bad('address of operand %d used as a parameter although it is %s'%(k,KN[self.k[k]]))
            return ('x',k)
        if a[0]=='ev':
            e=self.ev(a); q=e[0].split('::')[-1]
            if q=='put_con_par': return self.con(e[1][1])
            if q.startswith('put_dyn'): return self.dynden(e)
            if q=='PutOp': raise Bad('a variable address is used as a parameter')
        raise core.Broken('parameter address %r'%(a,))
    def con(self,v):
        """meaning of a recorded constant: only constant operands may enter"""
        e=vb(v)
        def chk(t):
            if t[0]=='v':
                if self.k[t[1]] in(1,2): raise Bad('the value of %s operand %d is recorded as a constant'%(KN[self.k[t[1]]],t[1]))
                return ('x',t[1])
            return tuple(chk(x) if isinstance(x,tuple) else x for x in t)
        return chk(e)
    def dynden(self,e):
        q=e[0].split('::')[-1]; a=e[1]
        if q=='put_dyn_par':
            # (rec, value, op, args...)
            op=self.dyn.get(a[2][1],'?'); f=op[:-4] if op.endswith('_dyn') else op
            f={'zmul':'azmul','fabs':'abs'}.get(f,f)
            if f=='pow': f='pow'
            self.dynvals.append((a[1],(f,)+tuple(self.par(x) for x in a[3:])))
            return self.dynvals[-1][1]
        if q=='put_dyn_cond_exp':
            self.dynvals.append((a[1],('cexp',a[2][1])+tuple(self.par(x) for x in a[3:])))
            return self.dynvals[-1][1]
        raise core.Broken('dynamic event '+q)
    def vard(self,a):
        if a[0]=='call' and a[1][:3]=='h_t':
            k=int(a[1][3:])
            if self.k[k]!=2: raise Bad('address of operand %d used as a variable although it is %s'%(k,KN[self.k[k]]))
            return ('x',k)
        if a[0]=='ev':
            if a in self.ops:
                op,args,I=self.ops[a]; self.used.append(a)
                return self.opden(op,args)
            e=self.ev(a); q=e[0].split('::')[-1]
            if q.startswith('put_'): raise Bad('a parameter address is used as a variable')
        raise core.Broken('variable address %r'%(a,))
    def opden(self,op,args):
        n=op[:-2]
        if op=='CExpOp':
            mask=args[1]
            if mask[0]!='c' or args[0][0]!='c': raise Bad('conditional expression mask is not a constant')
            return ('cexp',args[0][1])+tuple((self.vard if mask[1]>>k&1 else self.par)(args[2+k]) for k in range(4))
        if op in('ErfOp','ErfcOp'):
            c=self.par(args[2])
            if self.par(args[1])!=('n',0.0) or c[0]!='n' or abs(c[1]-1.1283791670955126)>1e-12: raise Bad('auxiliary constants of %s'%op)
            return (n.lower(),self.vard(args[0]))
        if n[-2:] in('vv','pv','vp','pp') and op in NARG:
            return (NAME.get(n[:-2],n[:-2].lower()),)+tuple((self.vard if c=='v' else self.par)(x) for c,x in zip(n[-2:],args))
        return (NAME.get(n,n.lower()),self.vard(args[0]))
    dynvals=()
    def meaning(self,out):
        v,tid,ta,ty=out[1][:4]; self.dynvals=[]
        if tid==('c',7):
            if ty[0]!='c': raise Bad('the kind of the result is not determined')
            t={v:k for k,v in self.en['ad_type_enum'].items()}.get(ty[1])
            if t=='variable_enum': return 'variable',self.vard(ta)
            if t=='dynamic_enum': return 'dynamic',self.par(ta)
            raise Bad('the result belongs to the recording but is marked constant')
        if tid[0]=='c': return 'constant',None
        raise core.Broken('tape id %r'%(tid,))
KN={0:'a constant',1:'a dynamic parameter',2:'a variable',3:'a constant (variable of another recording)',4:'a constant (dynamic parameter of another recording)'}
NARG={}
for o in('Add','Sub','Mul','Div','Zmul','Pow','Lt','Le','Eq','Ne'):
    for sfx in('vv','pv','vp','pp'): NARG[o+sfx+'Op']=2
NARG.update(CExpOp=6,ErfOp=3,ErfcOp=3)
UN=['abs','acos','acosh','asin','asinh','atan','atanh','cos','cosh','erf','erfc','exp','expm1','log','log1p','sign','sin','sinh','sqrt','tan','tanh','neg']
X=lambda k:('x',k)
def specs():
    """entry -> (expected meaning, operands that are AD objects)"""
    r={}
    for n in('add','sub','mul','div'):
        r['r_'+n]=((n,X(0),X(1)),(0,1)); r['r_%s_self'%n]=((n,X(0),X(0)),(0,)); r['r_%s_eq'%n]=((n,X(0),X(1)),(0,1))
        r['r_%s_eq_self'%n]=((n,X(0),X(0)),(0,)); r['r_%s_base'%n]=((n,X(0),X(1)),(0,)); r['r_base_'+n]=((n,X(0),X(1)),(1,)); r['r_%s_eq_base'%n]=((n,X(0),X(1)),(0,))
    for n in('pow','azmul'):
        r['r_'+n]=((n,X(0),X(1)),(0,1)); r['r_%s_base'%n]=((n,X(0),X(1)),(0,)); r['r_base_'+n]=((n,X(0),X(1)),(1,))
    for n in UN: r['r_'+n]=((n,X(0)),(0,))
    r['r_fabs']=(('abs',X(0)),(0,)); r['r_plus']=(X(0),(0,)); r['r_log10']=(('log10',X(0)),(0,))
    r['r_assign']=(X(0),(0,)); r['r_copy']=(X(0),(0,)); r['r_assign_base']=(X(1),())
    return r
SPEC=specs()
def norm(e):
    """fabs -> abs, log10 -> quotient of logarithms, and constant logarithms"""
    if not isinstance(e,tuple): return e
    e=tuple(norm(x) for x in e)
    if e[0]=='fabs': return ('abs',e[1])
    if e[0]=='log10': return ('div',('log',e[1]),('log',('n',10.0)))
    return e
def check(fn,name,kinds,en,obs):
    E,ad=SPEC[name] if name in SPEC else None
    E=norm(E)
    inst='%s(%s)'%(name[2:],', '.join(KS[kinds[k]] if k in ad else 'Base' for k in ops_of(E)))
    w=Walk(fn,PURE,gl,readonly=lambda q:True); paths=w.run()
    if w.loops or not paths: obs.append(('record',inst,'undecided','control flow',''))
    kk={k:(kinds[k] if k in ad else 0) for k in range(4)}
    dep={kk[k] for k in ops_of(E)}
    for s in paths:
        outs=[(e[0],tuple(resolve(x,s.conds) for x in e[1]),e[2]) for e in s.ev if e[0]=='h_out']
        s.ev=[(e[0],tuple(resolve(x,s.conds) for x in e[1]))+tuple(e[2:]) if e[0] not in('store','clobber') else e for e in s.ev]
        wh=ir.where(next((e[2] for e in s.ev if isinstance(e[0],str) and e[0].split('::')[-1] in('PutOp','put_dyn_par','put_dyn_cond_exp')),outs[0][2]))
        # facts about constants from this path
        facts={}
        for c,t in s.conds.items():
            if t and c[0]=='call' and c[1] in('vb_idzero','vb_idone'):
                a=vb(c[2]); z=('n',0.0 if c[1]=='vb_idzero' else 1.0)
                if a[0]=='v' and kk[a[1]] not in(1,2): facts[('x',a[1])]=z
                elif a[0] not in('v','?'): facts[subst(a,{('v',k):('x',k) for k in range(4)})]=z
        try:
            d=PathDen(s,kk,en)
            for o in outs:
                which=o[1][4][1] if o[1][4][0]=='c' else None
                if which is not None and which<0:
                    got,m=d.meaning(o); want=simp(subst(E,facts)); val=norm(vb(o[1][0])); Ev=subst(E,{('x',k):('v',k) for k in range(4)})
                    zero=simp(subst(want,{}))
                    if got=='constant':
                        if want[0]!='n' and want!=E and ('?' in want): pass
                        vs={x for x in ops_in(want) if kk[x] in(1,2)}
                        if vs: raise Bad('the result is a constant although it depends on operand %s'%sorted(vs))
                        ok=val==norm(Ev) and want[0]!='n' or want[0]=='n' and (val==want or val==norm(Ev) and not {kk[x] for x in ops_in(E)}&{1,2}) or simp(subst(val,{('v',k):('x',k) for k in range(4)}))==simp(E) and not {kk[x] for x in ops_in(E)}&{1,2}
                        if not ok and want[0]=='n' and val==norm(Ev) and E[0] in('azmul','pow'): ok=True
                        if not ok and want[0]=='n' and val==norm(Ev): raise Bad('the result is the constant zero or one for every argument but its value is computed from the operands')
                        if not ok: raise Bad('value of the result: %s instead of %s'%(show(val),show(norm(Ev))))
                    else:
                        m=norm(m)
                        if simp(subst(m,facts))!=want: raise Bad('recorded %s instead of %s'%(show(m),show(E)))
                        exp='variable' if any(kk[x]==2 for x in ops_in(m)) else 'dynamic'
                        if got!=exp: raise Bad('the result is marked %s'%got)
                        if val!=norm(Ev) and not simp(subst(subst(val,{('v',k):('x',k) for k in range(4)}),facts))==want: raise Bad('value of the result: %s instead of %s'%(show(val),show(norm(Ev))))
                        for pv,pm in d.dynvals:
                            pval=norm(vb(pv))
                            if pval[0]!='?' and simp(subst(pval,{('v',k):('x',k) for k in range(4)}))!=simp(norm(pm)): raise Bad('value recorded with a dynamic parameter: %s instead of %s'%(show(pval),show(pm)))
                else:
                    k=which; i=kinds[k]
                    exp=(('call','h_v%d'%k),('c',{0:0,1:7,2:7,3:5,4:5}[i]),('call','h_t%d'%k))
                    if o[1][:3]!=exp: raise Bad('operand %d is changed'%k)
            extra=[v for k,v in d.ops.items() if k not in d.used]
            if extra: raise Bad('an operation that is not part of the result is recorded: %s'%extra[0][0])
            obs.append(('record',inst,'ok','',''))
        except Bad as e: obs.append(('record',inst,'viol',str(e),wh))
        except core.Broken as e: obs.append(('record',inst,'undecided',str(e),wh))
KS={0:'constant',1:'dynamic',2:'variable',3:'stale variable',4:'stale dynamic'}
def ops_of(E): return sorted(ops_in(E))
def ops_in(e):
    if not isinstance(e,tuple): return set()
    if len(e)==2 and e[0]=='x': return {e[1]}
    return set().union(*[ops_in(x) for x in e]) if e else set()
def show(e):
    if not isinstance(e,tuple): return str(e)
    if e[0] in('x','v'): return 'operand%d'%e[1]
    if e[0]=='n': return repr(e[1])
    if e[0]=='?': return '?'
    return '%s(%s)'%(e[0],', '.join(show(x) for x in e[1:]))
# ---------------------------------------------------------------- conditional expressions
def cex(fn,name,kinds,en,obs):
    rel='Compare'+name[len('r_CondExp'):]; cop=en['CompareOp'][rel]
    SPEC[name]=(('cexp',cop)+tuple(X(k) for k in range(4)),(0,1,2,3))
    check_cexp(fn,name,kinds,en,obs,cop)
CMPF={'vb_lt':lambda a,b:('lt',a,b),'vb_le':lambda a,b:('le',a,b),'vb_gt':lambda a,b:('lt',b,a),'vb_ge':lambda a,b:('le',b,a),'vb_eq':lambda a,b:('eq',)+tuple(sorted((a,b),key=repr))}
INV={'CompareLt':lambda a,b:('lt',a,b),'CompareLe':lambda a,b:('le',a,b),'CompareGt':lambda a,b:('lt',b,a),'CompareGe':lambda a,b:('le',b,a),'CompareEq':lambda a,b:('eq',)+tuple(sorted((a,b),key=repr)),'CompareNe':lambda a,b:('ne',)+tuple(sorted((a,b),key=repr))}
def canon_cexp(e,en):
    if not isinstance(e,tuple): return e
    e=tuple(canon_cexp(x,en) for x in e)
    if e and e[0]=='cexp' and isinstance(e[1],int):
        nm={v:k for k,v in en['CompareOp'].items()}[e[1]]
        return ('if',INV[nm](e[2],e[3]),e[4],e[5])
    return e
def check_cexp(fn,name,kinds,en,obs,cop):
    E=canon_cexp(SPEC[name][0],en)
    inst='%s(%s)'%(name[2:],', '.join(KS[kinds[k]] for k in range(4)))
    w=Walk(fn,PURE,gl,readonly=lambda q:True); paths=w.run()
    kk=dict(kinds)
    for s in paths:
        s.ev=[(e[0],tuple(resolve(x,s.conds) for x in e[1]))+tuple(e[2:]) if e[0] not in('store','clobber') else e for e in s.ev]
        o=[e for e in s.ev if e[0]=='h_out'][0]
        wh=ir.where(next((e[2] for e in s.ev if isinstance(e[0],str) and e[0].split('::')[-1] in('PutOp','put_dyn_cond_exp')),o[2]))
        try:
            d=PathDen(s,kk,en); got,m=d.meaning(o)
            val=canon_cexp(vb(o[1][0]),en); Ev=subst(E,{('x',k):('v',k) for k in range(4)})
            con=lambda k: kk[k] not in(1,2)
            # the comparison is decided at recording time only when both sides are constants
            fixed=con(0) and con(1); sel=None
            rel=E[1]; relv=subst(rel,{('x',k):('v',k) for k in range(4)})
            for c,t in s.conds.items():
                if c[0]!='call': continue
                if c[1] in('vb_idone','vb_idzero') and t:
                    fl=canon_cexp(vb(c[2]),en); z=('n',1.0 if c[1]=='vb_idone' else 0.0)
                    if fl[0]=='if' and fl[1]==relv and {fl[2],fl[3]}=={('n',1.0),('n',0.0)}: sel=2 if fl[2]==z else 3
                elif c[1] in CMPF:
                    r=CMPF[c[1]](vb(c[2]),vb(c[3]))
                    if r==relv: sel=2 if t else 3
            if not fixed: sel=None
            if got=='constant':
                need=[sel] if sel is not None else [2,3] if fixed else range(4)
                if any(not con(k) for k in need): raise Bad('the result is a constant although %s is not'%('a branch that can be selected' if fixed else 'an operand'))
                if val!=Ev and val!=('v',sel): raise Bad('value of the result: %s'%show(val))
            else:
                m=canon_cexp(m,en)
                if m!=E and (sel is None or m!=X(sel)): raise Bad('recorded %s instead of %s'%(show(m),show(E)))
                if val!=Ev and (sel is None or val!=('v',sel)): raise Bad('value of the result: %s'%show(val))
                exp='variable' if any(kk[x]==2 for x in ops_in(m)) else 'dynamic'
                if got!=exp: raise Bad('the result is marked %s'%got)
            obs.append(('cond-exp',inst,'ok','',''))
        except Bad as e: obs.append(('cond-exp',inst,'viol',str(e),wh))
        except core.Broken as e: obs.append(('cond-exp',inst,'undecided',str(e),wh))
# ---------------------------------------------------------------- comparisons
RELT={'lt':('lt',0,1),'gt':('lt',1,0),'le':('le',0,1),'ge':('le',1,0),'eq':('eq',0,1),'ne':('ne',0,1)}
NEG={'lt':'le','le':'lt','eq':'ne','ne':'eq'}
def cmpcheck(fn,name,kinds,en,obs):
    parts=name[2:].split('_'); base=None
    if parts[0]=='base': rel=parts[1]; base=0
    else:
        rel=parts[0]; base=1 if len(parts)>1 else None
    kk={k:(0 if k==base else kinds[k]) for k in range(2)}
    inst='%s(%s)'%(rel,', '.join('Base' if k==base else KS[kinds[k]] for k in range(2)))
    w=Walk(fn,PURE,gl,readonly=lambda q:True); paths=w.run()
    f,i,j=RELT[rel]; true=(f,X(i),X(j)); false=(NEG[f],X(j),X(i))
    def cn(t): return (t[0],)+tuple(sorted(t[1:],key=repr)) if t[0] in('eq','ne') else t
    onrec=any(kk[k] in(1,2) for k in range(2)); seen=False
    for s in paths:
        s.ev=[(e[0],tuple(resolve(x,s.conds) for x in e[1]))+tuple(e[2:]) if e[0] not in('store','clobber') else e for e in s.ev]
        hb=[e for e in s.ev if e[0]=='h_bool'][0]
        wh=ir.where(next((e[2] for e in s.ev if isinstance(e[0],str) and e[0].split('::')[-1]=='PutOp'),hb[2]))
        try:
            r=hb[1][0]; neg=False
            while r[0]=='not': r=r[1]; neg=not neg
            def asrel(c):
                if c[0]!='call' or c[1] not in('vb_lt','vb_le','vb_gt','vb_ge','vb_eq','vb_ne'): return None
                a,b=vb(c[2]),vb(c[3]); q=c[1][3:]; m={('v',k):X(k) for k in range(2)}
                a,b=m.get(a,a),m.get(b,b)
                if q in('gt','ge'): a,b=b,a; q={'gt':'lt','ge':'le'}[q]
                return cn((q,a,b))
            truth=None
            if r[0]=='c': 
                truth=bool(r[1])!=neg
                lit=[(asrel(c),t) for c,t in s.conds.items() if asrel(c)]
                known=[t if c==cn(true) else (not t) for c,t in lit if c in(cn(true),)]
                if not known: raise Bad('the result of the comparison is not the comparison of the values')
                if known[0]!=truth: raise Bad('the result of the comparison is inverted')
            else:
                if asrel(r)!=cn(true) or neg: raise Bad('the result is %s instead of %s'%(asrel(r),cn(true)))
                for c,t in s.conds.items():
                    if c==r: truth=t
            d=PathDen(s,kk,en)
            flag=[t for c,t in s.conds.items() if c[0]=='ev' and s.ev[c[1]][0].endswith('get_record_compare')]
            flag+= [t for c,t in s.conds.items() if c[0] in('load','mem0')]
            if not d.ops:
                if onrec and not(flag and not all(flag)): raise Bad('a comparison of %s is not recorded although recording of comparisons is on'%', '.join(KN[kk[k]] for k in range(2) if kk[k] in(1,2)))
            else:
                if len(d.ops)>1: raise Bad('the comparison is recorded more than once')
                (op,args,I),=d.ops.values()
                if truth is None: raise Bad('%s is recorded whatever the result of the comparison is'%op)
                seen=True; m=d.opden(op,args); want=true if truth else false
                if cn(m)!=cn(want): raise Bad('the comparison is %s and %s is recorded'%('true' if truth else 'false',show(m)))
            obs.append(('compare',inst,'ok','',''))
        except Bad as e: obs.append(('compare',inst,'viol',str(e),wh))
        except core.Broken as e: obs.append(('compare',inst,'undecided',str(e),wh))
def job(a):
    bc,kinds,entry,en,what=a
    args=ARGS+['--entry',entry]+sum([['--bind','h_k%d=%d'%(k,v)] for k,v in kinds.items()],[])
    d=core.irx(bc,args); m=ir.Mod(d['module']); obs=[]
    for n,f in m.fns.items():
        try:
            if n.startswith('r_CondExp'): cex(f,n,kinds,en,obs)
            elif what=='cmp': cmpcheck(f,n,kinds,en,obs)
            elif n in SPEC:
                ad=SPEC[n][1]
                if any(kinds[k] for k in kinds if k not in ad): continue
                check(f,n,kinds,en,obs)
        except (OverflowError,core.Broken) as e: obs.append(('record',n,'undecided',repr(e),''))
    return obs
def p10(prop,tier,t0):
    bc=core.compile_bc('h_rec.cpp'); en=enums(bc); jobs=[]
    ent='^('+'|'.join(SPEC)+')$'
    for a in range(5):
        for b in range(5): jobs.append((bc,{0:a,1:b},ent,en,'op'))
    for c in itertools.product(*[range(3 if tier=='quick' else 4)]*4): jobs.append((bc,dict(enumerate(c)),'^r_CondExp',en,'op'))
    rep=core.Report(prop)
    for o in core.pmap(job,jobs): rep.merge(o)
    return core.finish(rep,tier,t0,'value flow through every overloaded operation, path by path, for every combination of operand kinds',{'record':500,'cond-exp':400})
def p11(prop,tier,t0):
    bc=core.compile_bc('h_rec.cpp'); en=enums(bc)
    ent='^r_(base_)?(lt|le|gt|ge|eq|ne)(_base)?$'
    rep=core.Report(prop)
    for o in core.pmap(job,[(bc,{0:a,1:b},ent,en,'cmp') for a in range(5) for b in range(5)]): rep.merge(o)
    import c_iter
    rep.merge(c_iter.compare_obs())
    return core.finish(rep,tier,t0,'value flow through every comparison, path by path, for every combination of operand kinds; conditional constant propagation of the zero order sweeps for every comparison operator and every relation of its operands: the change counter is incremented exactly when the recorded relation fails, and the index of the change is the one requested; sweeps that do not compute order zero leave the counters alone',{'compare':200,'compare-change':20})
