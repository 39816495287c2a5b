"""Abstract interpretation of the Taylor-coefficient loops of one operator.

Abstract value of a Base expression: a finite set of product terms
  coef * prod(integer symbols) * prod(factors)
where a factor is a memory cell (row, order index polynomial) or an opaque
function of such values, and loop variables stand for every iteration.
No path is enumerated and nothing is executed: the interpretation is a
fixpoint over the control flow graph of the compiled operator.
"""
from fractions import Fraction
from aff import Aff, Poly

class Top(Exception): pass

# ---------------------------------------------------------------- expressions
# Expr: dict key -> Fraction ; key=(nums,facs,sums,az)
#  nums: tuple of ((numtoken),exp) ; facs: tuple of (factor,exp) ; sums: tuple of loop variables summed over
def ex_const(c): return {((),(),()):Fraction(c)} if c!=0 else {}
def ex_fac(f): return {((),((f,1),),()):Fraction(1)}
def ex_poly(p):
    r={}
    for m,c in p.t.items():
        n={}
        for a in m: n[a]=n.get(a,0)+1
        r[(mk(n),(),())]=c
    return r
def mk(d): return tuple(sorted(((k,e) for k,e in d.items() if e!=0),key=str))
def add(x,y,s=1):
    r=dict(x)
    for k,c in y.items():
        v=r.get(k,0)+s*c
        if v==0: r.pop(k,None)
        else: r[k]=v
    return r
def neg(x): return {k:-c for k,c in x.items()}
def kmul(a,b):
    n=dict(a[0])
    for k,e in b[0]: n[k]=n.get(k,0)+e
    f=dict(a[1])
    for k,e in b[1]: f[k]=f.get(k,0)+e
    if set(a[2])&set(b[2]): raise Top('product of two sums over the same loop variable')
    return (mk(n),mk(f),tuple(sorted(set(a[2])|set(b[2]),key=str)))
def mul(x,y):
    if len(x)*len(y)>400: raise Top('expression too large')
    r={}
    for a,c in x.items():
        for b,d in y.items():
            k=kmul(a,b); v=r.get(k,0)+c*d
            if v==0: r.pop(k,None)
            else: r[k]=v
    return r
def key(x): return tuple(sorted(x.items(),key=str))
def inv(x):
    if len(x)==1:
        (k,c),=x.items()
        if not k[2]: return {(tuple((a,-e) for a,e in k[0]),tuple((a,-e) for a,e in k[1]),()):1/c}
    if not x: raise Top('division by zero')
    # pull out a common factor so that a/(c*b) and (a/c)/b agree
    k0=None
    common=None
    for k in x:
        d=dict(k[0])
        common=d if common is None else {a:min(e,d[a]) for a,e in common.items() if a in d}
    ks=sorted(x,key=str); lead=x[ks[0]]
    cm=tuple((a,-e) for a,e in common.items() if e)
    y=mul(x,{(cm,(),()):1/lead})
    return {(cm,((('inv',key(y)),1),),()):1/lead}
def ipow(x,n): 
    r=ex_const(1)
    for _ in range(n): r=mul(r,x)
    return r

def sel(cop,a,b,x,y):
    if x==y: return x
    return add(mul(ex_fac(('fn','ind',cop,key(a),key(b))),x),mul(ex_fac(('fn','nind',cop,key(a),key(b))),y))
class Interp:
    """rows: function (root, byte offset Poly) -> (rowname, order Poly, extra) or None
       is_partial(rowname) -> values of these rows are expanded on load."""
    def __init__(self, fn, aff, rows, is_partial=lambda r: False, op_loop=None, region=None):
        self.fn=fn; self.aff=aff; self.rows=rows; self.is_partial=is_partial
        self.op_loop=op_loop; self.warn=[]; self.region=region
        self.vers={}
    # cells are keyed (row, order key)
    def cell_of(self,ptr):
        root,off=self.aff.addr(ptr)
        return self.rows(root,off)
    def ckey(self,c):
        return (c[0],c[1].key()) + ((c[2].key(),) if len(c)>2 and c[2] is not None else ())
    def closeL(self,L,ex):
        r={}
        for k,c in ex.items():
            if L.iv is not None and self._mentions(k,L.iv) and L.iv not in k[2]:
                k2=(k[0],k[1],tuple(sorted(k[2]+(L.iv,),key=str)))
            else: k2=k
            if k2 in r:
                if r[k2]!=c: r[k2]='T'
            else: r[k2]=c
        if any(v=='T' for v in r.values()): raise Top('accumulation not idempotent')
        return r
    def _mentions(self,k,a):
        return mentions(k[0],a) or mentions(k[1],a)
    def edge(self,b,s,st,rec=None):
        """state carried along edge b->s"""
        st=dict(st)
        for L in self.aff.loops:
            if b in L.body and (s not in L.body or s==L.h):
                if L is self.op_loop:
                    if s==L.h:
                        if rec is not None: self.final(st,rec)
                        return None
                    continue
                for c in list(st):
                    if c[0]=='phi':
                        if st[c] is not None:
                            try: st[c]=(self.closeL(L,st[c][0]),st[c][1])
                            except Top as e: st[c]=None
                        continue
                    if L.iv is not None and mentions(c,L.iv):
                        if rec is not None: self.final({c:st[c]},rec)
                        del st[c]; continue
                    v=st[c]
                    if v is None: continue
                    try: st[c]=(self.closeL(L,v[0]),v[1])
                    except Top as e: st[c]=None
        return st
    def final(self,st,rec):
        for c,v in st.items():
            if c[0]=='phi' or v is None and False: continue
            rec.setdefault(c,[])
            if v not in rec[c]: rec[c].append(v)
    def join(self,a,b,header,rec=None):
        r={}
        for c in set(a)|set(b):
            x=a.get(c,'abs'); y=b.get(c,'abs')
            if x==y: r[c]=x; continue
            if x=='abs' or y=='abs':
                # absent: the initial value of the cell
                z=x if y=='abs' else y
                if self.is_partial(c[0]):
                    r[c]=z if z is not None and z[0]==ex_const(1) else None
                    continue
                if header:
                    if z is None: r[c]=None; continue
                    init=({**ex_fac(('cell',)+c+(frozenset(),))},frozenset())
                    r[c]=self.j1(init,z)
                    continue
                # the store happens on one side only: its value is final there
                if rec is not None: self.final({c:z},rec)
                continue
            if x is None or y is None: r[c]=None; continue
            if self.is_partial(c[0]): r[c]=(x[0],x[1]|y[1]) if x[0]==y[0] else None; continue
            j=self.j1(x,y)
            r[c]=j
            if j is None: self.conf.add((c,))
        return r
    def j1(self,x,y):
        e=dict(x[0])
        for k,c in y[0].items():
            if k in e and e[k]!=c: return None
            e[k]=c
        return (e,x[1]|y[1])
    # -------------------------------------------------------------- fixpoint
    def run(self):
        f=self.fn; R=f.reachable()
        order=[]; seen=set()
        def dfs(b):
            st=[(b,iter(f.succs(b)))]; seen.add(b)
            while st:
                x,it=st[-1]
                for s in it:
                    if s not in seen: seen.add(s); st.append((s,iter(f.succs(s)))); break
                else: order.append(x); st.pop()
        dfs(0); order.reverse()
        P=f.preds(); out={}; ins={}
        self.env={}; self.conf=set()
        for rnd in range(12):
            ch=False
            for b in order:
                sts=[]
                for p in P.get(b,[]):
                    if p in out:
                        s=self.edge(p,b,out[p])
                        if s is not None: sts.append((p,s))
                if not sts: st={}
                else:
                    st=sts[0][1]
                    for p,s in sts[1:]: st=self.join(st,s,b in self.aff.byhead)
                if self.region is not None and b not in self.region: st={}
                o=self.block(b,st,out,None)
                if out.get(b)!=o: out[b]=o; ch=True
            if not ch: break
        else: self.warn.append('no fixpoint')
        # recording pass
        rec={}; facts=[]
        for b in order:
            sts=[]
            for p in P.get(b,[]):
                if p in out:
                    s=self.edge(p,b,out[p],rec)
                    if s is not None: sts.append((p,s))
            st={}
            if sts:
                st=sts[0][1]
                for p,s in sts[1:]: st=self.join(st,s,b in self.aff.byhead,rec)
            if self.region is not None and b not in self.region: st={}
            self.block(b,st,out,facts)
            if not f.succs(b): self.final(out[b],rec)
        self.rec=rec; self.facts=facts
        return rec,facts
    def val(self,o):
        if o is None: return None
        if o=='c0': return {}
        if o[0]=='f':
            try: return ex_const(Fraction(o[1:]))
            except ValueError: return ex_fac(('const',o))
        if o[0]=='%':
            v=self.env.get(int(o[1:]))
            if v is None: return ex_fac(('ssa',o))
            return v
        if o[0]=='a': return ex_fac(('arg',o))
        return ex_fac(('opq',str(o)))
    def expand_same(self,ex,cell,depth=0):
        """replace older versions of the same cell by their value"""
        if depth>6: raise Top('version chain')
        r={}
        for k,c in ex.items():
            t={(k[0],(),k[2]):c}; hit=False
            for fa,e in k[1]:
                if fa[0]=='cell' and fa[1:-1]==cell and fa[-1] and e==1:
                    v=self.vers.get((cell,fa[-1]))
                    if v is None: raise Top('unknown version')
                    t=mul(t,v); hit=True
                else: t=mul(t,{((),((fa,e),),()):Fraction(1)})
            r=add(r,t)
        return r
    def expand_acc(self,v,ex):
        """a memory accumulator the compiler keeps in a register: replace the
        older versions of the cell it is stored to"""
        for U in self.fn.users.get(v,[]):
            if U['op']=='store' and U['o'][0]==v:
                c=self.cell_of(U['o'][1])
                if c is not None: ex=self.expand_same(ex,self.ckey(c))
        return ex
    def block(self,b,st,out,facts):
        f=self.fn; st=dict(st); env=self.env
        for I in f.blocks[b]:
            op=I['op']; i=I['i']
            if op=='phi' and I.get('t')=='double':
                hd=self.aff.byhead.get(b)
                res=None; vals=[]
                for v,pb in I['o']:
                    pbn=int(pb[1:])
                    if pbn not in out: continue
                    if hd is not None and pbn in hd.body:
                        if hd is self.op_loop: vals=[None]; break
                        e=self.val(v)
                        try: e=self.closeL(hd,self.expand_acc(v,e))
                        except Top: e=None
                        vals.append(e)
                    else:
                        e=self.val(v)
                        for L in self.aff.loops:
                            if pbn in L.body and b not in L.body and e is not None and L is not self.op_loop:
                                try: e=self.closeL(L,e)
                                except Top: e=None
                        vals.append(e)
                if vals and all(x is not None for x in vals):
                    if hd is not None:
                        res=(dict(vals[0]),frozenset())
                        for x in vals[1:]:
                            if res is not None: res=self.j1(res,(x,frozenset()))
                        res=res[0] if res else None
                    else:
                        ks={key(x) for x in vals}
                        res=vals[0] if len(ks)==1 else ex_fac(('sel',tuple(sorted(ks,key=str))))
                env[i]=res if res is not None else ex_fac(('phi',i))
                continue
            if I.get('t')=='double' or (op=='load' and I.get('t')=='i64' and (self.cell_of(I['o'][0]) is not None or self.aff.addr(I['o'][0])[0]==('parptr',))):
                try: env[i]=self.ev(I,st)
                except Top as e:
                    self.warn.append('%s'%e); env[i]=ex_fac(('top',i))
                continue
            if op=='store':
                c=self.cell_of(I['o'][1])
                if c is None and I.get('vt')!='double': continue
                if c is None:
                    if facts is not None: facts.append(dict(kind='unknown-store',I=I,b=b))
                    continue
                cell=self.ckey(c)
                if self.is_partial(c[0]):
                    self.pstore(I,b,c,cell,st,facts); continue
                try:
                    v=self.val(I['o'][0])
                    v=self.expand_same(v,cell)
                    ds=frozenset([i])
                    old=st.get(cell,(ex_fac(('cell',)+cell+(frozenset(),)),frozenset()))
                    st[cell]=(v,ds); self.vers[(cell,ds)]=v
                except Top as e:
                    self.warn.append(str(e)); st[cell]=None; old=None; v=None
                if facts is not None:
                    fx=dict(kind='store',I=I,b=b,row=c[0],idx=c[1],val=v,old=old[0] if old else None)
                    facts.append(fx)
        return st
    def pstore(self,I,b,c,cell,st,facts):
        """store to an adjoint cell: val = A*T + B, T the running adjoint"""
        T=('cell',)+cell+(frozenset(),)
        sc=st.get(cell,(ex_const(1),frozenset()))
        fx=dict(I=I,b=b,row=c[0],idx=c[1],kind='bad')
        try:
            if sc is None: raise Top('scale lost')
            v=self.val(I['o'][0])
            A={};B={}
            for k,co in v.items():
                e=dict(k[1]).get(T,0)
                if e==1:
                    f=dict(k[1]); del f[T]; A[(k[0],mk(f),k[2])]=co
                elif e==0 and not mentions(k[1],T): B[k]=co
                else: raise Top('adjoint used nonlinearly')
            W=('cell','PW')+cell[1:]+(frozenset(),); S0=('cell','PS0')+cell[1:]+(frozenset(),)
            if cell[0]=='PW' and not A and B==ex_fac(S0): fx.update(kind='copyin')
            elif cell[0]=='PS0' and B and all(dict(k[1]).get(W)==1 and len(k[1])==2 and any(f[0]=='fn' and f[1]=='nind' for f,_ in k[1]) for k in B): fx.update(kind='copyout',out=A,val=B)
            elif A==sc[0]:
                fx.update(kind='add',val=B,scale=sc[0])
                o=I['o'][0]
                if o[0]=='%': self.env[int(o[1:])]=mul(sc[0],ex_fac(T))
            elif A and not B:
                fx.update(kind='scale',val=A); st[cell]=(A,frozenset([I['i']]))
            elif A and B:
                raise Top('scaled and added')
            else:
                fx.update(kind='assign',val=B); raise Top('adjoint overwritten')
        except Top as e:
            self.warn.append(str(e)); st[cell]=None; fx['why']=str(e)
        if facts is not None: facts.append(fx)
    def load(self,c,st,I):
        cell=self.ckey(c)
        if self.is_partial(c[0]):
            t=ex_fac(('cell',)+cell+(frozenset(),))
            if cell in st:
                if st[cell] is None: raise Top('cell value lost %s'%(cell,))
                return mul(st[cell][0],t)
            return t
        if cell in st and st[cell] is not None:
            self.vers[(cell,st[cell][1])]=st[cell][0]
            return ex_fac(('cell',)+cell+(st[cell][1],))
        return ex_fac(('cell',)+cell+(frozenset(),))
    def ev(self,I,st):
        op=I['op']; V=self.val
        if op=='load':
            c=self.cell_of(I['o'][0])
            if c is None:
                root,off=self.aff.addr(I['o'][0])
                if root==('parptr',):
                    for a in off.atoms():
                        if a[0]=='sl' and off==Poly({(a,):Fraction(8)}): return ex_fac(('par',a[1]))
                return ex_fac(('mem',)+self.memname(I['o'][0]))
            return self.load(c,st,I)
        if op in('uitofp','sitofp'): return ex_poly(self.aff.poly(I['o'][0]))
        if op in('bitcast','freeze'): return V(I['o'][0])
        if op=='fneg': return neg(V(I['o'][0]))
        if op=='fadd': return add(V(I['o'][0]),V(I['o'][1]))
        if op=='fsub': return add(V(I['o'][0]),V(I['o'][1]),-1)
        if op=='fmul': return mul(V(I['o'][0]),V(I['o'][1]))
        if op=='fdiv': return mul(V(I['o'][0]),inv(V(I['o'][1])))
        if op=='select':
            x,y=V(I['o'][1]),V(I['o'][2])
            if x==y: return x
            return ex_fac(('sel',tuple(sorted((key(x),key(y)),key=str))))
        if op=='call':
            n=I.get('fn','?')
            q=self.fn.mod.qn(n)
            if q=='vb_add': return add(V(I['o'][0]),V(I['o'][1]))
            if q=='vb_sub': return add(V(I['o'][0]),V(I['o'][1]),-1)
            if q in('vb_mul','vb_azmul'): return mul(V(I['o'][0]),V(I['o'][1]))
            if q=='vb_div': return mul(V(I['o'][0]),inv(V(I['o'][1])))
            if q=='vb_neg': return neg(V(I['o'][0]))
            if q=='vb_cexp':
                # a selection is linear in the values it selects from
                a,b,x,y=[V(o) for o in I['o'][1:]]
                return sel(('i',str(self.aff.poly(I['o'][0]))),a,b,x,y)
            if q.endswith('::eval') and 'discrete<' in q:
                c=self.cell_of(I['o'][1])
                if c is None: raise Top('argument of a discrete function')
                return ex_fac(('fn','discrete',('i',str(self.aff.poly(I['o'][0]))),key(self.load(c,st,I))))
            if q.startswith('vb_'):
                return ex_fac(('fn',q[3:])+tuple(key(V(o)) if self._isd(o) else ('i',str(self.aff.poly(o))) for o in I['o']))
            return ex_fac(('call',q))
        return ex_fac(('op',op,I['i']))
    def _isd(self,o):
        if o[0]=='f': return True
        if o[0]=='%':
            J=self.fn.get(o); return J is not None and J.get('t')=='double'
        if o[0]=='a' and o[1:].isdigit(): return self.fn.args[int(o[1:])]['t']=='double'
        return False
    def memname(self,ptr):
        root,off=self.aff.addr(ptr)
        return (str(root),str(off))

def mentions(x,a):
    if x==a: return True
    if isinstance(x,(tuple,frozenset)): return any(mentions(y,a) for y in x)
    return False
