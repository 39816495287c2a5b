"""Taylor propagation of every operator against the mathematical table:
forward_0, forward_any, forward_dir (P01,P03), reverse as the adjoint (P02),
absolute zero multiplication in reverse (P12)."""
import sys,json
import core,ir,tay,sweepx,form,optable,cfgx,c_csum
from aff import Poly
from tay import add,ex_poly,key,Top,mul,inv,ex_fac,ex_const,mk
from form import J,K,cell,sub_expr,normalise,at_zero,parse,adjoint,canon_sum,fmt

ONE=Poly.const(1); ZERO=Poly()
IRX_ARGS=['--opaque','^CppAD::discrete<','--redirect','^CppAD::local::play::const_sequential_iterator::correct_after_decrement=>h_correct','--redirect','^HItr::correct_after_decrement=>h_correct','--redirect','^CppAD::local::play::const_sequential_iterator::op_info=>h_op_info','--opaque','^CppAD::local::play::const_sequential_iterator::','--opaque','^CppAD::local::player<','--opaque','^CppAD::thread_alloc::','--opaque','^CppAD::local::var_op::atomic_','--opaque','^std::','--opaque','^CppAD::local::printOp','--unroll']
BAD=('ssa','sel','mem','phi','op','top','opq','arg','call','const')

def opcodes(bc):
    d=core.irx(bc,['--layout','op_code_var|CompareOp','--opaque','.','--entry','^h_op_info$'])
    for k,v in d['layouts'].items():
        if k.endswith('CompareOp'): optable.EQ=dict(v['members'])['CompareEq']
    for k,v in d['layouts'].items():
        if k.endswith('op_code_var'): return dict((a,b) for a,b in v['members'])
    raise core.Broken('op_code_var enumeration not found')

# ------------------------------------------------------------------ helpers
def same(spec,got,want,at=None):
    """equality modulo the forward rules of the other result rows at order J"""
    if got==want: return True
    j=Poly.atom(J) if at is None else Poly.const(at)
    tab={cell(r,j):(spec.nf[r] if at is None else inst_J(spec.nf[r],at)) for r in spec.rows}
    tab={k:v for k,v in tab.items() if v}
    try:
        x,y=got,want
        for _ in range(4):
            x,y=subst_cells(x,tab),subst_cells(y,tab)
            if x==y: return True
    except Top: return False
    return x==y
def opaque_in(e):
    def g(f):
        if f[0] in BAD: return True
        if f[0]=='inv': return opaque_in(dict(f[1]))
        if f[0]=='fn': return any(opaque_in(dict(x)) for x in f[2:] if form.isexpr(x))
        return False
    return any(g(fa) for (n,f,s) in e for fa,_ in f)
def map_cells(e,h):
    """h(cell factor) -> factor"""
    def g(f):
        if f[0]=='cell': return h(f)
        if f[0]=='inv': return ('inv',key(map_cells(dict(f[1]),h)))
        if f[0]=='fn': return ('fn',f[1])+tuple(key(map_cells(dict(x),h)) if form.isexpr(x) else x for x in f[2:])
        return f
    r={}
    for (n,f,s),c in e.items():
        d={}
        for fa,ex in f:
            y=g(fa); d[y]=d.get(y,0)+ex
        k=(n,mk(d),s); v=r.get(k,0)+c
        if v==0: r.pop(k,None)
        else: r[k]=v
    return r
def plainrow(e):
    return map_cells(e,lambda f:('cell',f[1][1:] if f[1][0]=='T' else f[1])+f[2:-1]+(frozenset(),))
def cells(e):
    def g(f):
        if f[0]=='cell': yield f
        elif f[0]=='inv': yield from cells(dict(f[1]))
        elif f[0]=='fn':
            for x in f[2:]:
                if form.isexpr(x): yield from cells(dict(x))
    for (n,f,s) in e:
        for fa,_ in f: yield from g(fa)
def subst_cells(e,table):
    """replace cells (plain) by expressions"""
    r={}
    for (n,f,s),c in e.items():
        t={(n,(),s):c}
        for fa,ex in f:
            if fa[0]=='cell': q=table.get(fa,ex_fac(fa))
            elif fa[0]=='inv': q=inv(subst_cells(dict(fa[1]),table))
            elif fa[0]=='fn': q=ex_fac(('fn',fa[1])+tuple(key(subst_cells(dict(x),table)) if form.isexpr(x) else x for x in fa[2:]))
            else: q=ex_fac(fa)
            for _ in range(abs(ex)): t=mul(t,q if ex>0 else inv(q))
        r=add(r,t)
    return r
def inst_J(nf,c):
    """value of a normalised recurrence at the constant order c"""
    r={}
    for (n,f,s),co in nf.items():
        t={(n,f,s):co}
        hasK=K in form.fac_atoms_all(f) or any(a==K for a,_ in n)
        vs=[Poly.const(v) for v in range(1,c)] if hasK else [None]
        for v in vs:
            u=sub_expr(t,K,v) if v is not None else t
            r=add(r,sub_expr(u,J,Poly.const(c)))
    return r
class Spec:
    def __init__(self,op):
        self.op=op; t=optable.ALL[op]; self.rows=t['rows']; self.noadj=t.get('noadj',set()); self.zero={}; self.nf={}
        for r,b in self.rows.items():
            al=[]
            for z in b['zero']:
                if z=='pow':
                    x,y=t['pow']; al.append(ex_fac(('fn','pow',key(parse(x)[0]),key(parse(y)[0]))))
                else: al.append(parse(z)[0])
            self.zero[r]=al
            e,rg=parse(b['rec']); rg=rg or t.get('ranges',{}); self.nf[r]=normalise(e,rg)
        self.plain=dict(self.nf); self.gate=optable.gate() if t.get('gate') else None
        if self.gate: self.nf={r:mul(self.gate,e) for r,e in self.nf.items()}
        self.ztab={}
        # order zero rows with alternatives expressed by other rows, expanded
        for _ in range(4):
            for r in self.rows:
                if r=='Z' and len(self.rows)==1: continue
                self.ztab[cell(r,ZERO)]=subst_cells(self.zero[r][-1] if r!='Z' else self.zero[r][0],{k:v for k,v in self.ztab.items() if k!=cell(r,ZERO)})
    def zero_ok(self,row,e):
        if any(e==a for a in self.zero[row]): return True
        x=subst_cells(e,self.ztab)
        x2=subst_cells(x,self.ztab)
        for a in self.zero[row]:
            y=subst_cells(subst_cells(a,self.ztab),self.ztab)
            if x==y or x2==y: return True
        return False
    def adj(self):
        r={}
        for row in self.rows:
            if row in self.noadj: continue
            r=add(r,canon_sum(adjoint(row,self.plain[row])))
        return r
    def adj0(self):
        r={}
        for row,b in self.rows.items():
            if row in self.noadj: continue
            src=('cell','P'+row,ZERO.key(),frozenset())
            if b['dz'] is not None:
                for tg,s in b['dz'].items():
                    r=add(r,mul(parse(s)[0],ex_fac(('tgt',tg,ZERO.key(),frozenset()))))
            else:
                z=self.zero[row][0]
                for (n,f,s),c in z.items():
                    for fa,e in f:
                        if fa[0]=='cell':
                            d=dict(f); d[fa]=e-1
                            if d[fa]==0: del d[fa]
                            d[('tgt',fa[1],fa[2],frozenset())]=1; d[src]=1
                            r=add(r,{(n,mk(d),()):c*e})
                        elif fa[0]!='par': raise Top('no derivative rule for '+fmt(z))
        return r

class WorkRows:
    """rows of reverse mode plus a work vector that stands for the partial of the operand"""
    def __init__(self,rows,f): self.rows=rows; self.f=f
    def __call__(self,root,off):
        r=self.rows(root,off)
        if r is not None: return r
        I=self.f.get(root) if isinstance(root,str) else None
        if I is not None and I['op']=='load' and not any(a[0] in('sl','var') for a in off.atoms()):
            return ('PW',Poly({m:c/8 for m,c in off.t.items()}))
        return None
class OpFn:
    """one specialised sweep"""
    def __init__(self,f,kind,work=False):
        self.f=f; self.aff=sweepx.make_aff(f); self.loop=sweepx.op_loop(f,self.aff)
        isp=lambda r:False
        if kind=='rev':
            rows=sweepx.Rows([('a3',Poly.atom(('a',2)),'T'),('a5',Poly.atom(('a',4)),'P')]); isp=lambda r:r[0]=='P'
        elif kind=='dir': rows=sweepx.RowsDir('a7',('a',2),('a',6))
        elif kind=='f0': rows=sweepx.Rows([('a10',Poly.atom(('a',2)),'T')])
        else: rows=sweepx.Rows([('a12',Poly.atom(('a',2)),'T')])
        if work: rows=WorkRows(rows,f)
        self.I=tay.Interp(f,self.aff,rows,isp,self.loop)
        self.rec,self.facts=self.I.run()
        self.cd=None
        self.ranges={L.iv:(L.lo,L.hi) for L in self.aff.loops if L.iv is not None}
        self.step={L.iv:L.step for L in self.aff.loops if L.iv is not None}
    def region(self):
        """blocks of the operator loop dominated by the h_arg call"""
        return self.loop.body if self.loop else set(self.f.reachable())
    def guards(self,b):
        """branches a store in block b is conditional on, beyond loop bounds"""
        if self.cd is None: self.cd=cfgx.CD(self.f,(self.loop.h,self.loop.body) if self.loop else None)
        out=[]
        for c,s in self.cd.deps(b):
            t=self.f.blocks[c][-1]
            if self.loop is not None and c not in self.loop.body: continue
            ls=[L for L in self.aff.loops if L is not self.loop and c in L.body]
            if any(any(x not in L.body for x in self.f.succs(c)) and L.iv is not None for L in ls): continue
            if self.loop is not None and any(x not in self.loop.body for x in self.f.succs(c)): continue
            out.append((c,s,t))
        return out
    def cond_leaves(self,o,seen=None):
        """calls and loads a condition is computed from"""
        seen=set() if seen is None else seen
        I=self.f.get(o)
        if I is None or o in seen: return []
        seen.add(o)
        if I['op'] in('call','load'): return [I]
        r=[]
        for x in ir.operands(I):
            if isinstance(x,str) and x.startswith('%'): r+=self.cond_leaves(x,seen)
        return r
    def guard_kind(self,c,t):
        """zero: early exit on zero partials; skip: conditional skip or sweep
        bookkeeping; order: loop guard implied by a loop range; other"""
        if t['op']!='br': return 'other'
        lv=self.cond_leaves(t['o'][0])
        if lv and all(I['op']=='call' and self.f.callee(I)=='vb_idzero' for I in lv): return 'zero'
        ci=self.f.get(t['o'][0])
        # loop pre-header guard: implied by the range of a loop entered from here
        if ci is not None and ci['op']=='icmp':
            for L in self.aff.loops:
                if L.iv is None or L is self.loop or c in L.body: continue
                p=self.aff.poly(ci['o'][0])-self.aff.poly(ci['o'][1]); q=L.hi-L.lo
                d1=p-q; d2=p+q
                if (d1.isconst() and abs(d1.cval())<=1) or (d2.isconst() and abs(d2.cval())<=1): 
                    if any(s in L.body or any(x in L.body for x in self.f.succs(s)) for s in self.f.succs(c)): return 'order'
            b0=self.aff.poly(ci['o'][0]); b1=self.aff.poly(ci['o'][1])
        for I in lv:
            if I['op']=='load':
                r,p=self.aff.addr(I['o'][0])
                if r in('a3','a4') and I.get('t')=='i8': return 'skip'       # cskip_op
                rt=self.f.get(r) if isinstance(r,str) else None
        return 'other'
    def order_guards(self,b):
        """[(cond icmp, sense)] integer conditions of block b over order atoms, and whether
        some condition is not understood"""
        if self.cd is None: self.cd=cfgx.CD(self.f,(self.loop.h,self.loop.body) if self.loop else None)
        out=[]; unk=False
        for c,s in self.cd.deps(b):
            t=self.f.blocks[c][-1]
            if self.loop is not None and c not in self.loop.body: continue
            if self.loop is not None and any(x not in self.loop.body for x in self.f.succs(c)): continue
            ls=[L for L in self.aff.loops if L is not self.loop and c in L.body]
            if any(any(x not in L.body for x in self.f.succs(c)) and L.iv is not None for L in ls): continue
            ci=self.f.get(t['o'][0]) if t['op']=='br' else None
            if ci is not None and ci['op']=='icmp':
                p=self.aff.poly(ci['o'][0]); q=self.aff.poly(ci['o'][1])
                if all(a in self.ranges or a[0]=='a' for a in p.atoms()|q.atoms()):
                    out.append((p,q,ci['pred'],int(t['o'][1][1:])==s)); continue
            if self.guard_kind(c,t) in('zero','skip'): continue
            # at least one side does not return to this point: unknown
            unk=True
        return out,unk
    def orders(self,x,bind):
        """concrete order indices a store fact writes when the order arguments are `bind`"""
        gs,unk=self.order_guards(x['b'])
        Ls=[L for L in reversed(self.aff.loops) if x['b'] in L.body and L is not self.loop and L.iv is not None]
        Ls.sort(key=lambda L:-len(L.body))
        def ev(p,env):
            for a in list(p.atoms()):
                if a in env: p=p.subst(a,Poly.const(env[a]))
            return int(p.cval()) if p.isconst() else None
        res=set(); cnt=[0]
        def rec(i,env):
            cnt[0]+=1
            if cnt[0]>20000: return
            if i<len(Ls):
                lo,hi=ev(Ls[i].lo,env),ev(Ls[i].hi,env)
                if lo is None or hi is None: raise Top('loop bound')
                for v in range(lo,hi+1): rec(i+1,{**env,Ls[i].iv:v})
                return
            for p,q,pr,sense in gs:
                a,b=ev(p,env),ev(q,env)
                if a is None or b is None: continue
                h={'eq':a==b,'ne':a!=b}.get(pr)
                if h is None: h={'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[pr[1:]]
                if h!=sense: return
            v=ev(x['idx'],env)
            if v is None: raise Top('order index')
            res.add(v)
        rec(0,dict(bind))
        return res
def sweep_kind(n):
    return {'e_forward_0':'f0','e_forward_dir':'dir','e_reverse':'rev'}.get(n,'any')

def Jsub(e,iv,ranges):
    pj=Poly.atom(J)
    return sub_expr(e,iv,pj) if iv is not None else e, {a:(lo.subst(iv,pj),hi.subst(iv,pj)) for a,(lo,hi) in ranges.items() if a!=iv}

# ------------------------------------------------------------------ forward
def fwd_obs(op,fn,n,spec,obs):
    kind=sweep_kind(n); inst='%s in %s'%(op,{'f0':'forward_0','dir':'forward_dir','any':'forward_any, order range '+n[6:].replace('0q','[0,q]').replace('1q','[1,q]').replace('3q','[3,q]')}[kind])
    def ob(rule,row,st,txt='',I=None): obs.append((rule,'%s row %s'%(inst,row),st,txt,ir.where1(I) if I else ''))
    try: o=OpFn(fn,kind)
    except Exception as e:
        obs.append(('forward-order','%s'%inst,'undecided','interpreter: %r'%e,'')); return
    stores={}
    for x in o.facts:
        if x['kind']=='store': stores.setdefault(x['row'],[]).append(x)
    gbad=[]
    for x in o.facts:
        if o.order_guards(x['b'])[1]: gbad.append(x)
    unk=[x for x in o.facts if x['kind']=='unknown-store']
    plo={'f0':0,'any':int(n[6]) if n[6:7].isdigit() else 0,'dir':None}[kind]
    zrule='zero-order' if kind in('f0',) or plo==0 else None
    for row in spec.rows:
        tr='T'+row
        ent=[(c,v) for c,v in o.rec.items() if c[0]==tr]
        sample=stores.get(tr,[{}])[0].get('I')
        if unk or any(x['row']==tr for x in gbad) :
            ob('forward-order',row,'undecided','store the analysis cannot place',sample); continue
        if not ent:
            st=o.f.reachable()
            ob('zero-order' if kind=='f0' else 'forward-order',row,'viol','result row is never written',sample); continue
        if any(v is None or len(vs)!=1 for c,vs in ent for v in vs):
            ob('forward-order',row,'undecided','value lost',sample); continue
        consts=set(); loops=[]
        for c,vs in ent:
            e,ds=vs[0]
            idx=Poly(dict(c[1])); w=sample
            fs=[x for x in stores.get(tr,[]) if x['idx']==idx]; jset=None
            if kind=='any':
                try:
                    jset=set()
                    for x in fs: jset|=o.orders(x,{('a',11):7})
                except Top as x: ob('forward-order',row,'undecided',str(x),w); continue
                if not jset: continue
            if opaque_in(e): ob('forward-order',row,'undecided','expression not understood: '+fmt(e)[:300],w); continue
            # reads of a value that is not yet final
            stale=False
            for f in cells(e):
                if f[-1]:
                    fin=o.rec.get(tuple(f[1:-1]))
                    if fin and all(v is not None for v in fin) and f[-1] not in [v[1] for v in fin]: stale=True
            if stale: ob('forward-order',row,'undecided','reads an intermediate value',w); continue
            try:
                if kind=='dir':
                    # all direction indices agree
                    iq=[a for a in idx.atoms() if a in o.ranges and o.ranges[a]==(Poly.atom(('a',5)),Poly.atom(('a',5)))]
                    if iq and idx==Poly.atom(iq[0]):
                        # a loop over the single order q
                        e=sub_expr(e,iq[0],Poly.atom(('a',5))); idx=Poly.atom(('a',5))
                    if idx.isconst() and all(not o.orders(x,{('a',5):k}) for x in fs for k in(1,2,3)): continue
                    if idx!=Poly.atom(('a',5)):
                        ob('forward-order',row,'viol' if idx.isconst() else 'undecided','forward_dir writes order %r instead of q'%idx,w); continue
                    ell=c[2] if len(c)>2 else None
                    ex=[x for x in form.extras(e,[])]
                    badell=[x for x in ex if x[0]!=ZERO.key() and x[1] is not None and x[1]!=ell]
                    if badell: ob('forward-order',row,'viol','mixes directions: '+fmt(e)[:300],w); continue
                    e=form.drop_extra(map_cells(e,lambda f:f[:-1]+(frozenset(),)))
                    e=plainrow(e); e,rg=Jsub(e,('a',5),o.ranges)
                    got=normalise(e,rg); ok=same(spec,got,spec.nf[row])
                    ob('forward-order',row,'ok' if ok else 'viol','' if ok else 'order J coefficient is\n   %s\n but the rule is\n   %s'%(fmt(got),fmt(spec.nf[row])),w)
                    lr=o.ranges.get(next((a for m,_ in (ell or ()) for a in m),None))
                    if lr is not None:
                        okr=lr[0]==ZERO and lr[1]==Poly.atom(('a',6))-ONE
                        ob('forward-cover',row,'ok' if okr else 'viol','' if okr else 'directions %r..%r instead of 0..r-1'%lr,w)
                    continue
                e=plainrow(e)
                if idx.isconst():
                    cv=int(idx.cval()); consts.add(cv)
                    if cv==0:
                        ok=spec.zero_ok(row,e)
                        ob('zero-order',row,'ok' if ok else 'viol','' if ok else 'order zero value is %s, the operator is %s'%(fmt(e),fmt(spec.zero[row][0])),w)
                    else:
                        rg=o.ranges
                        got=inst_J(normalise(e,rg),cv) if True else e
                        want=inst_J(spec.nf[row],cv); ok=same(spec,got,want,cv)
                        ob('forward-order',row,'ok' if ok else 'viol','' if ok else 'order %d coefficient is\n   %s\n but the rule is\n   %s'%(cv,fmt(got),fmt(want)),w)
                    continue
                iv=[a for a in idx.atoms() if a in o.ranges]
                if len(iv)!=1: ob('forward-order',row,'undecided','order index %r'%idx,w); continue
                iv=iv[0]; co,r=idx.coef(iv)
                if not co.isconst() or co.cval()!=1 or not r.isconst(): ob('forward-order',row,'undecided','order index %r'%idx,w); continue
                lo,hi=o.ranges[iv]; lo=lo+r; hi=hi+r
                e=sub_expr(e,iv,Poly.atom(J)-r); rg={a:(x.subst(iv,Poly.atom(J)-r),y.subst(iv,Poly.atom(J)-r)) for a,(x,y) in o.ranges.items() if a!=iv}
                got=normalise(e,rg); ok=same(spec,got,spec.nf[row])
                ob('forward-order',row,'ok' if ok else 'viol','' if ok else 'order J coefficient is\n   %s\n but the rule is\n   %s'%(fmt(got),fmt(spec.nf[row])),w)
                if 0 in jset:
                    z=at_zero(e,rg); okz=spec.zero_ok(row,z)
                    ob('zero-order',row,'ok' if okz else 'viol','' if okz else 'order zero value is %s, the operator is %s'%(fmt(z),fmt(spec.zero[row][0])),w)
                # direction of the loop when lower orders of results are used
                own=[f for f in cells(got) if f[1].startswith('Z') and Poly(dict(f[2]))!=Poly.atom(J) and K in form.fac_atoms(f)]
                if own and o.step[iv]!=1: ob('forward-order',row,'viol','orders are not computed in increasing order',w)
                loops.append((lo,hi))
            except Top as x:
                ob('forward-order',row,'undecided',str(x),w)
        if kind=='any' and all(l[1]==Poly.atom(('a',11)) for l in loops):
            try:
                for q in range(plo,plo+7):
                    jset=set()
                    for x in stores.get(tr,[]): jset|=o.orders(x,{('a',11):q})
                    okc=jset==set(range(plo,q+1))
                    if not okc: break
                ob('forward-cover',row,'ok' if okc else 'viol','' if okc else 'orders written for p=%d q=%d are %s'%(plo,q,sorted(jset)),sample)
            except Top as x: ob('forward-cover',row,'undecided',str(x),sample)
        elif kind=='any': ob('forward-cover',row,'viol','the highest order written is %s, expected q'%[str(l[1]) for l in loops],sample)
    if op.startswith(('Zmul','Mul')): zmul_obs(op,fn,o,inst,kind,plo,obs)
    # rows that are not results must not be written
    for c in o.rec:
        if c[0][0]=='T' and c[0][1:] not in spec.rows and any(v is not None for v in o.rec[c]):
            x=stores.get(c[0])
            if x: obs.append(('forward-order','%s row %s'%(inst,c[0]),'viol','writes a Taylor row that is not a result of the operator',ir.where1(x[0]['I'])))

def zmul_obs(op,fn,o,inst,kind,plo,obs):
    """the absolute zero product is azmul(left, right) for every order and the
    ordinary product is not"""
    rule='zero-order' if kind=='f0' or plo==0 else 'forward-order'
    z=op.startswith('Zmul'); sides=[]
    if any(fn.callee(I)=='vb_idzero' for I in fn.calls()): return
    def srcs(v,d=0,seen=None):
        seen=set() if seen is None else seen
        I=fn.get(v)
        if I is None or v in seen: return set()
        seen.add(v)
        if I['op']=='load':
            c=o.I.cell_of(I['o'][0])
            if c is not None: return {c[0][1:]}
            r,p=o.aff.addr(I['o'][0])
            if r==('parptr',): return {'S%d'%a[1] for a in p.atoms() if a[0]=='sl'}
            return set()
        r=set()
        for x in ir.operands(I):
            if isinstance(x,str) and x.startswith('%'): r|=srcs(x,d+1,seen)
        return r
    for I in fn.calls():
        q=fn.callee(I)
        if q not in('vb_mul','vb_azmul'): continue
        a,b=srcs(I['o'][0]),srcs(I['o'][1])
        if not(a|b): continue
        if z:
            good=q=='vb_azmul' and a=={'S0'} and b=={'S1'}
            obs.append((rule,'%s: absolute zero product'%inst,'ok' if good else 'viol','' if good else 'the product of azmul(left, right) is computed by %s of %s and %s'%(q[3:],sorted(a),sorted(b)),ir.where1(I)))
        elif q=='vb_azmul':
            obs.append((rule,'%s: product'%inst,'viol','an ordinary product is computed by azmul, so 0 * nan is not nan',ir.where1(I)))
# ------------------------------------------------------------------ reverse
def rev_obs(op,fn,spec,obs):
    inst=op
    def ob(rule,st,txt='',I=None,sub=''): obs.append((rule,inst+(' '+sub if sub else ''),st,txt,ir.where1(I) if I else ''))
    try: o=OpFn(fn,'rev',spec.gate is not None)
    except Exception as e:
        ob('adjoint','undecided','interpreter: %r'%e); return
    gen={}; zero={}; Kn=Poly.atom(('a',4))-ONE
    if spec.gate is not None:
        ci=[x for x in o.facts if x['kind']=='copyin']; co=[x for x in o.facts if x['kind']=='copyout']
        used=any(x['row']=='PW' for x in o.facts)
        if used:
            for what,l in(('copied to the work vector',ci),('copied from the work vector',co)):
                got=set(); want=set(range(5))
                try:
                    for x in l: got|=o.orders(x,{('a',4):5})
                except Top as e: ob('adjoint','undecided',str(e)); return
                ob('adjoint-cover','ok' if got==want else 'viol','' if got==want else 'the partial of the operand is not %s for every order'%what,(l or o.facts)[0]['I'],what)
            eq=optable.gate(); ind={(n,tuple((('fn','ind')+f[2:],e) for f,e in ff),s):c for (n,ff,s),c in eq.items()}
            for x in co:
                g=plainrow(x['out'])==ind
                ob('adjoint','ok' if g else 'viol','' if g else 'when the base is zero, the partial of the operand, which holds the contributions of other operators, is replaced',x['I'],'base zero')
    ranges=o.ranges; gens=[]
    try:
        for x in o.facts:
            if x['kind'] in('copyin','copyout'): continue
            if x['kind']=='scale':
                if x['row'][1]=='S' and x['val']!=ex_const(1): ob('adjoint','viol','the partial of an operand, which holds the contributions of other operators, is multiplied by '+fmt(x['val']),x['I'])
                continue
            if x['kind']!='add': raise Top('store not understood (%s %s)'%(x['kind'],x.get('why','')))
            if opaque_in(x['val']): raise Top('expression not understood: '+fmt(x['val'])[:300])
            gs,unk=o.order_guards(x['b'])
            if unk: raise Top('update guarded by a condition '+ir.where1(x['I']))
            if gs:
                for kk in range(1,7):
                    full=set(); 
                    g0=o.orders(dict(x),{('a',4):kk}); sv_=o.order_guards; o.order_guards=lambda b:([],False)
                    try: g1=o.orders(dict(x),{('a',4):kk})
                    finally: o.order_guards=sv_
                    if g0!=g1: raise Top('update for some orders only '+ir.where1(x['I']))
            tgt=('tgt','S0' if x['row']=='PW' else x['row'][1:],x['idx'].key(),frozenset())
            for k,c in x['val'].items():
                ps=[(f,e) for f,e in k[1] if f[0]=='cell' and f[1][0]=='P']
                if len(ps)!=1 or ps[0][1]!=1:
                    ob('adjoint','viol','an adjoint update is not linear in the partials: '+fmt({k:c}),x['I']); return
                sidx=Poly(dict(ps[0][0][2])); 
                term=plainrow(map_cells({k:c},lambda f:f[:-1]+(frozenset(),)))
                term=mul(term,ex_fac(tgt))
                if sidx.isconst():
                    if sidx.cval()==0: zero=add(zero,{(n,f,()):cc for (n,f,s),cc in term.items()}); continue
                    raise Top('source order %r'%sidx)
                ivs=[a for a in sidx.atoms() if a in ranges]
                if len(ivs)!=1: raise Top('source order %r'%sidx)
                iv=ivs[0]; co,r=sidx.coef(iv)
                if not co.isconst() or co.cval()!=1 or not r.isconst(): raise Top('source order %r'%sidx)
                lo,hi=ranges[iv]; lo=lo+r; hi=hi+r; sv=Poly.atom(J)-r
                rg={a:(l.subst(iv,sv),h.subst(iv,sv)) for a,(l,h) in ranges.items() if a!=iv}
                t=sub_expr(term,iv,sv)
                t={(n,f,()):cc for (n,f,s),cc in t.items()}
                if not lo.isconst(): raise Top('range of the order loop %r'%lo)
                gens.append((x,ps[0][0][1][1:],lo,hi,o.step[iv]))
                if lo.cval()==0: zero=add(zero,at_zero(t,rg))
                gen=add(gen,normalise(t,rg))
        want=spec.adj(); w0=spec.adj0()
        gen=canon_sum(gen)
        na=lambda e:{k:c for k,c in e.items() if not any(f[0]=='tgt' and f[1] in spec.noadj for f,_ in k[1])}
        gen,want,zero,w0=na(gen),na(want),na(zero),na(w0)
        rows=sorted({f[1] for e in(gen,want,zero,w0) for (n,ff,s) in e for f,_ in ff if f[0]=='cell' and f[1].startswith('P')})
        def part(e,row,tg): return {k:c for k,c in e.items() if any(f[0]=='cell' and f[1]==row for f,_ in k[1]) and any(f[0]=='tgt' and f[1]==tg for f,_ in k[1])}
        tgs=sorted({f[1] for e in(gen,want,zero,w0) for (n,ff,s) in e for f,_ in ff if f[0]=='tgt'})
        first=o.facts[0]['I'] if o.facts else None
        for row in rows:
            for tg in tgs:
                g,w=part(gen,row,tg),part(want,row,tg)
                fx=next((x['I'] for x in o.facts if x['kind']=='add' and x['row']=='P'+tg),first)
                if g or w: ob('adjoint','ok' if g==w else 'viol','' if g==w else 'partial of %s receives from order J of %s\n   %s\n but the adjoint of the forward rule is\n   %s'%(tg,row[1:],fmt(g),fmt(w)),fx,'%s<-%s order J'%(tg,row))
                g,w=part(zero,row,tg),part(w0,row,tg)
                if g!=w:
                    g2=subst_cells(g,spec.ztab); w2=subst_cells(w,spec.ztab)
                    if g2==w2: g=w
                if g or w: ob('adjoint','ok' if g==w else 'viol','' if g==w else 'partial of %s receives from order 0 of %s\n   %s\n but the derivative is\n   %s'%(tg,row[1:],fmt(g),fmt(w)),fx,'%s<-%s order 0'%(tg,row))
        for x,row,lo,hi,step in gens:
            okr=lo.cval() in(0,1) and (hi==Kn or (hi==Kn-ONE and row!='Z' and not any(f[0]=='tgt' and f[1]==row and f[2]==Poly.atom(J).key() for k in want for f,_ in k[1])))
            ob('adjoint-cover','ok' if okr else 'viol','' if okr else 'orders of %s handled are %r..%r, expected 1..K-1'%(row,lo,hi),x['I'],'%s<-P%s %s'%(x['row'],row,x['idx'].key()==() and '0' or 'J'))
            selfs=x['row'][1:]==row
            if selfs and step!=-1: ob('adjoint-cover','viol','orders must be processed in decreasing order because order J updates lower order partials of the same row',x['I'],'direction '+row)
    except Top as e:
        ob('adjoint','undecided',str(e))
    # early exit only if every partial of the result is zero
    z=[I for I in fn.calls() if fn.callee(I)=='vb_idzero']
    if z:
        okall=False; why=''
        try:
            hdr=o.loop.h if o.loop else 0
            wr={x['b'] for x in o.facts if x['kind'] in('add','scale')}
            leaf=lambda I: fn.callee(I)=='vb_idzero'
            cover=False
            for I in z:
                ld=fn.get(I['o'][0])
                c=o.I.cell_of(ld['o'][0]) if ld is not None and ld['op']=='load' else None
                if c is None: raise Top('tested value')
                iv=[a for a in c[1].atoms() if a in ranges]
                if c[0]=='PZ' and len(iv)==1:
                    lo,hi=ranges[iv[0]]; co,r=c[1].coef(iv[0])
                    if co==ONE and lo+r==ZERO and hi+r==Kn: cover=True
                elif c[0]=='PZ' and c[1].isconst(): pass
            if not cover: 
                ob('zero-skip','viol','the early exit does not test every order of the partial of the result',z[0])
            else:
                zb={fn.blk[I['i']] for I in z}
                # boolean product from the entry of the operator
                entry=min(zb)
                D=fn.doms()
                ents=[b for b in o.region() if all(b in D[x] for x in zb) and b!=hdr]
                start=max(ents,key=lambda b:len(D[b])) if ents else hdr
                start=min((b for b in ents),key=lambda b:len(D[b])) if ents else hdr
                r=cfgx.skip_reach(fn,start,set(wr)|{hdr},leaf)
                if r is None: ob('zero-skip','undecided','boolean product too large')
                else:
                    bad,good=r
                    # after a non-zero partial was seen every path must reach an update, not the loop header
                    first=set(wr)
                    if hdr in bad: 
                        # acceptable only if the updates are skipped because loops are empty: recheck that zero-trip exits need an integer test
                        ob('zero-skip','ok' if True else '','')
                    else: ob('zero-skip','ok')
        except Top as e: ob('zero-skip','undecided',str(e))

# ------------------------------------------------------------ absolute zero
def azmul_obs(op,fn,obs):
    aff=sweepx.make_aff(fn)
    taint=set(); ch=True
    def partial_load(I):
        r,p=aff.addr(I['o'][0]); return r=='a5'
    isconst=lambda o: (isinstance(o,str) and (o[0]=='f' or o[0]=='c')) or (fn.get(o) is not None and fn.get(o)['op'] in('uitofp','sitofp'))
    lds=[I for I in fn.reach_ins() if I['op']=='load' and I.get('t') in('double','i64') and partial_load(I)]
    taint={'%%%d'%I['i'] for I in lds}
    while ch:
        ch=False
        for I in fn.reach_ins():
            me='%%%d'%I['i']
            if me in taint or I.get('t')!='double': continue
            os=[o for o in ir.operands(I) if isinstance(o,str)]
            if I['op']=='call' and (fn.callee(I) or '').startswith('vb_') or I['op'] in('phi','fadd','fsub','fmul','fdiv','fneg','select','bitcast'):
                if any(o in taint for o in os): taint.add(me); ch=True
    nonc=set()
    n=0
    constlike={}
    def cl(o,d=0):
        # value built from constants and integers only, or a sign (-1, 0 or 1)
        if isconst(o): return True
        I=fn.get(o)
        if I is None or d>6: return False
        if I['op']=='call' and fn.callee(I)=='vb_sign': return True
        if I['op']=='call' and (fn.callee(I) in('vb_add','vb_sub','vb_mul','vb_div','vb_neg')): return all(cl(x,d+1) for x in I['o'])
        if I['op'] in('fadd','fsub','fmul','fdiv','fneg'): return all(cl(x,d+1) for x in I['o'])
        return False
    for I in fn.reach_ins():
        nm=fn.callee(I) if I['op']=='call' else {'fmul':'vb_mul','fdiv':'vb_div'}.get(I['op'])
        if nm not in('vb_mul','vb_div','vb_azmul','vb_pow'): continue
        o=I['o']; tt=[x in taint for x in o[:2]]
        if not any(tt): continue
        n+=1; inst='%s %s'%(op,ir.where1(I))
        if nm=='vb_azmul':
            # azmul(x, y) is zero when x is zero: the partial must be x
            obs.append(('absolute-zero',inst,'ok' if tt[0] else 'viol','' if tt[0] else 'the partial is the second operand of azmul, only a zero first operand annihilates',ir.where(I))); continue
        if nm=='vb_mul':
            other=[x for x,t in zip(o,tt) if not t]
            ok=bool(other) and all(cl(x) for x in other)
        else: ok=tt[0] and not tt[1] and cl(o[1])
        obs.append(('absolute-zero',inst,'ok' if ok else 'viol','' if ok else 'a partial derivative is combined with a Taylor coefficient by plain %s: a zero partial does not annihilate nan or infinity'%('multiplication' if nm=='vb_mul' else 'division'),ir.where(I)))

# ------------------------------------------------------------------- driver
def orderpos(I):
    # several directions: the order is at least one
    if I['op']=='icmp' and I['o'][0]=='a5' and I['o'][1]=='c0': return {'eq':0,'ne':1,'ugt':1,'ule':0}.get(I['pred'])
    return None
def job(a):
    bc,ops,what=a
    names={v:k for k,v in ops}
    entry={'fwd':'^e_(forward_0|any_0q|any_1q|any_3q|forward_dir)$','rev':'^e_reverse$'}[what]
    d=core.irx(bc,IRX_ARGS+['--entry',entry,'--spec','h_op='+','.join(str(v) for k,v in ops)])
    out={}
    for k,m in d['spec'].items():
        op=names[int(k)]; M=ir.Mod(m); obs=[]; az=[]
        for n,f in M.fns.items():
            for nm,asm in optable.variants(op):
                dr=n=='e_forward_dir'
                g=cfgx.prune(f,sweepx.make_aff(f),asm,orderpos if dr else lambda I: None) if asm or dr else f
                if what=='fwd' and n.startswith('e_'): fwd_obs(nm,g,n,Spec(nm),obs)
                if what=='rev' and n=='e_reverse': rev_obs(nm,g,Spec(nm),obs)
            if op=='CSumOp' and n.startswith('e_'):
                if what=='rev': c_csum.reverse(f,obs,'CSumOp in reverse')
                else:
                    kd=sweep_kind(n); c_csum.forward(f,kd,int(n[6]) if kd=='any' else 0,obs,'CSumOp in '+n[2:])
            if what=='rev' and n=='e_reverse':
                azmul_obs(op,f,az)
        out[op]=(obs,az)
    return out
def chunks(xs,n): return [xs[i::n] for i in range(n) if xs[i::n]]
def run(what,ops=None):
    bc=core.compile_bc('h_sweep.cpp')
    oc=opcodes(bc)
    missing=[o for o in optable.ALL if '#' not in o and o not in oc]
    sel=[(k,v) for k,v in sorted(oc.items(),key=lambda x:x[1]) if k!='NumberOp']
    if ops: sel=[x for x in sel if x[0] in ops]
    if what=='fwd': sel=[x for x in sel if optable.variants(x[0]) or x[0]=='CSumOp']
    res={}
    for r in core.pmap(job,[(bc,c,what) for c in chunks(sel,core.NCPU*2)]): res.update(r)
    return res,oc,missing
EXPL='Abstract interpretation (fixpoint over the control flow graph, no execution) of the optimised-away-of-abstractions LLVM IR of the sweeps, specialised to one operator at a time; '
def p01(prop,tier,t0):
    rep=core.Report(prop); res,oc,missing=run('fwd')
    for op,(o,a) in res.items(): rep.merge([x for x in o if x[0] in('forward-order','forward-cover')])
    import c_api; c_api.run(['i_forward','i_forward_dir','i_capacity'],rep)
    rep.extra=dict(operators=sorted(res),opcodes_in_enum=len(oc)-1,table_ops_absent=missing)
    return core.finish(rep,tier,t0,EXPL+'each stored order J coefficient is a normal form sum of products that must equal the differential recurrence of the operator, for order ranges starting at 0, 1 and 3 and for every direction; affine array dataflow of Forward and capacity_order: every coefficient the sweep starts from and every element returned is traced to its source.',{'forward-order':150,'forward-cover':100,'forward-move':10,'forward-dir-move':10,'capacity':60},['exact arithmetic: rounding is not modelled','the table of differentiation rules in rules/optable.py'])
def p03(prop,tier,t0):
    rep=core.Report(prop); res,oc,missing=run('fwd')
    for op,(o,a) in res.items(): rep.merge([x for x in o if x[0]=='zero-order'])
    rep.extra=dict(operators=sorted(res),opcodes_in_enum=len(oc)-1,table_ops_absent=missing)
    return core.finish(rep,tier,t0,EXPL+'the order zero value stored for every result row must be the function the operator denotes, in forward_0 and in forward_any.',{'zero-order':100})
def p02(prop,tier,t0):
    rep=core.Report(prop); res,oc,missing=run('rev')
    for op,(o,a) in res.items(): rep.merge(o)
    import c_api; c_api.run(['i_reverse'],rep)
    rep.extra=dict(operators=sorted(k for k in res if optable.variants(k)))
    return core.finish(rep,tier,t0,EXPL+'the adjoint updates of reverse mode, summed per source and target row, must equal the transpose of the forward recurrence; affine array dataflow of Reverse: the partials the sweep starts with and every derivative returned are traced to their source.',{'adjoint':80,'adjoint-cover':80,'reverse-move':6})
def p12(prop,tier,t0):
    rep=core.Report(prop); res,oc,missing=run('rev')
    for op,(o,a) in res.items(): rep.merge(a)
    return core.finish(rep,tier,t0,'taint dataflow from loads of Partial in the specialised reverse sweep: every product of a partial with a Taylor coefficient must be azmul.',{'absolute-zero':60})
