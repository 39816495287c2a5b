"""Integer polynomials over SSA atoms, natural loops and induction ranges."""
from fractions import Fraction
import ir

class Poly:
    """Polynomial with Fraction coefficients; monomial = sorted tuple of atoms."""
    __slots__=('t',)
    def __init__(self, t=None): self.t={m:c for m,c in (t or {}).items() if c!=0}
    @staticmethod
    def const(c): return Poly({():Fraction(c)})
    @staticmethod
    def atom(a): return Poly({(a,):Fraction(1)})
    def __add__(s,o):
        r=dict(s.t)
        for m,c in o.t.items(): r[m]=r.get(m,0)+c
        return Poly(r)
    def __neg__(s): return Poly({m:-c for m,c in s.t.items()})
    def __sub__(s,o): return s+(-o)
    def __mul__(s,o):
        r={}
        for m,c in s.t.items():
            for n,d in o.t.items():
                k=tuple(sorted(m+n,key=str)); r[k]=r.get(k,0)+c*d
        return Poly(r)
    def scale(s,c): return Poly({m:k*Fraction(c) for m,k in s.t.items()})
    def isconst(s): return all(m==() for m in s.t)
    def cval(s): return s.t.get((),Fraction(0))
    def atoms(s): return {a for m in s.t for a in m}
    def key(s): return tuple(sorted(((m,c) for m,c in s.t.items()),key=str))
    def __eq__(s,o): return isinstance(o,Poly) and s.t==o.t
    def __hash__(s): return hash(frozenset(s.t.items()))
    def subst(s,a,p):
        r=Poly()
        for m,c in s.t.items():
            q=Poly.const(c)
            for x in m: q=q*(p if x==a else Poly.atom(x))
            r=r+q
        return r
    def coef(s,a):
        """coefficient polynomial of atom a (linear part), remainder"""
        c={}; r={}
        for m,k in s.t.items():
            n=m.count(a)
            if n==0: r[m]=k
            elif n==1:
                l=list(m); l.remove(a); c[tuple(l)]=k
            else: return None,s
        return Poly(c),Poly(r)
    def __repr__(s):
        if not s.t: return '0'
        o=[]
        for m,c in sorted(s.t.items(),key=lambda x:str(x[0])):
            nm='*'.join(aname(a) for a in m)
            if not nm: o.append(str(c))
            elif c==1: o.append(nm)
            elif c==-1: o.append('-'+nm)
            else: o.append('%s*%s'%(c,nm))
        return '+'.join(o).replace('+-','-')

def c32(v):
    # a small negative offset computed in 32 bit arithmetic
    return v-(1<<32) if (1<<32)-4096<=v<(1<<32) else v
def aname(a):
    if isinstance(a,tuple): return ''.join(str(x) for x in a)
    return str(a)

class Loop:
    def __init__(s,h): s.h=h; s.body=set(); s.latches=[]; s.iv=None; s.lo=None; s.hi=None; s.step=None

class Aff:
    """fn: ir.Fn; classify(I) -> atom or None for call/load instructions."""
    def __init__(self, fn, classify):
        self.fn=fn; self.classify=classify; self.memo={}; self.inprog=set()
        self._loops()
        self.ivs={}
        for L in self.loops: self._induction(L)
        self.memo={}
    # -------------------------------------------------------------- loops
    def _loops(self):
        f=self.fn; D=f.doms(); R=f.reachable(); P=f.preds(); self.P=P
        heads={}
        for b in R:
            for s in f.succs(b):
                if s in D[b]: heads.setdefault(s,[]).append(b)
        self.loops=[]; self.loop_of={}
        for h,ls in heads.items():
            L=Loop(h); L.latches=ls; L.body={h}; st=list(ls)
            while st:
                b=st.pop()
                if b in L.body: continue
                L.body.add(b); st+=[p for p in P.get(b,[]) if p in R]
            self.loops.append(L)
        self.loops.sort(key=lambda L:-len(L.body))
        self.byhead={L.h:L for L in self.loops}
    def loops_at(self,b): return [L for L in self.loops if b in L.body]
    def phis(self,b): return [I for I in self.fn.blocks[b] if I['op']=='phi']
    def _blk(self,x): return int(x[1:]) if isinstance(x,str) else x
    def _induction(self,L):
        f=self.fn
        cand={}
        for I in self.phis(L.h):
            if not I.get('t','').startswith('i') or I['t']=='i1': continue
            init=[v for v,b in I['o'] if self._blk(b) not in L.body]
            back=[v for v,b in I['o'] if self._blk(b) in L.body]
            if len(set(map(str,init)))!=1 or len(set(map(str,back)))!=1: continue
            a=('%',I['i']); self.memo={}
            pb=self.poly(back[0]); d=pb-Poly.atom(a)
            if a in d.atoms() or not d.isconst(): continue
            cand[a]=(I,init[0],d.cval())
        # exit conditions
        for b in sorted(L.body):
            t=f.blocks[b][-1]
            if t['op']!='br' or len(t['o'])<3: continue
            ss=[int(x[1:]) for x in t['o'][1:]]
            # br [cond, else?]: operand order printed by irx is [cond, b_true, b_false]
            outs=[s for s in ss if s not in L.body]
            if len(outs)!=1: continue
            cond=f.get(t['o'][0])
            if cond is None or cond['op']!='icmp': continue
            stay_true = ss[0] in L.body
            p=self.poly(cond['o'][0]); q=self.poly(cond['o'][1])
            for a,(I,init,step) in cand.items():
                c,r=(p-q).coef(a)
                if c is None or not c.isconst() or c.cval()==0: continue
                if any(self._defined_in(x,L) for x in r.atoms()): continue
                # c*a + r  PRED 0
                cv=c.cval(); bound=r.scale(-1/cv)   # a PRED' bound
                pred=cond['pred']
                if cv<0: pred={'ult':'ugt','ugt':'ult','ule':'uge','uge':'ule','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle'}.get(pred,pred)
                pred=pred.lstrip('us') if pred[0] in 'us' else pred
                if not stay_true: pred={'eq':'ne','ne':'eq','lt':'ge','ge':'lt','gt':'le','le':'gt'}[pred]
                top = (b==L.h)
                init_p=self.poly(init)
                if abs(step)!=1: continue
                one=Poly.const(1)
                if step==1:
                    last={'lt':bound-one,'le':bound,'ne':bound-one}.get(pred)
                    if last is None: continue
                    # bottom test: condition on the value a at the test
                    if not top and b in L.latches: last=last+one
                    elif not top: pass
                    lo,hi=init_p,last
                else:
                    first={'gt':bound+one,'ge':bound,'ne':bound+one}.get(pred)
                    if first is None: continue
                    if not top and b in L.latches: first=first-one
                    lo,hi=first,init_p
                if L.iv is None or top:
                    L.iv=a; L.lo=lo; L.hi=hi; L.step=step; L.init=init_p; self.ivs[a]=L
        if L.iv is not None:
            # other phis: derived induction variables
            L.derived={}
            it=(Poly.atom(L.iv)-L.init).scale(1/L.step)
            for a,(I,init,step) in cand.items():
                if a!=L.iv: L.derived[a]=self.poly(init)+it.scale(step)
    def _defined_in(self,a,L):
        if isinstance(a,tuple) and a[0]=='%':
            b=self.fn.blk.get(a[1]); return b in L.body
        return False
    # -------------------------------------------------------------- polys
    def poly(self,o):
        if isinstance(o,str):
            if o[0]=='c' and (o[1:].lstrip('-').isdigit()): return Poly.const(c32(int(o[1:])))
            if o[0]=='a' and o[1:].isdigit(): return Poly.atom(('a',int(o[1:])))
            if o=='null': return Poly.const(0)
            if o[0]=='%':
                k=int(o[1:])
                if k in self.memo: return self.memo[k]
                if k in self.inprog: return Poly.atom(('%',k))
                self.inprog.add(k)
                try: r=self._poly(self.fn.ins[k])
                finally: self.inprog.discard(k)
                self.memo[k]=r; return r
        return Poly.atom(('o',str(o)))
    def _poly(self,I):
        op=I['op']; me=Poly.atom(('%',I['i']))
        c=self.classify(I)
        if c is not None: return Poly.atom(c)
        P=self.poly
        if op in('zext','sext','trunc','freeze','bitcast','ptrtoint','inttoptr'): return P(I['o'][0])
        if op=='add': return P(I['o'][0])+P(I['o'][1])
        if op=='sub': return P(I['o'][0])-P(I['o'][1])
        if op=='mul': return P(I['o'][0])*P(I['o'][1])
        if op=='shl':
            s=P(I['o'][1])
            if s.isconst(): return P(I['o'][0]).scale(2**int(s.cval()))
        if op=='xor':
            s=P(I['o'][1])
            if s.isconst() and s.cval()==-1 and I.get('t')!='i1': return -P(I['o'][0])-Poly.const(1)
        if op=='and':
            s=P(I['o'][1])
            if s.isconst() and s.cval() in (-1,4294967295): return P(I['o'][0])
        if op=='or' and I.get('disjoint'): return P(I['o'][0])+P(I['o'][1])
        if op=='phi':
            a=('%',I['i'])
            for L in self.loops:
                if L.iv is not None and L.h==self.fn.blk[I['i']]:
                    if a==L.iv: return me
                    if a in getattr(L,'derived',{}): return L.derived[a]
            vs=[P(v) for v,b in I['o']]
            vs=[v for v in vs if v!=me]
            if vs and all(v==vs[0] for v in vs) and a not in vs[0].atoms(): return vs[0]
            return me
        if op=='select':
            x,y=P(I['o'][1]),P(I['o'][2])
            if x==y: return x
        return me
    def addr(self,o):
        """pointer -> (root, byte offset Poly)"""
        if isinstance(o,str) and o[0]=='%':
            I=self.fn.get(o)
            if I['op']=='getelementptr':
                r,p=self.addr(I['base']); p=p+Poly.const(I['off'])
                for x,s in I['idx']: p=p+self.poly(x).scale(s)
                return r,p
            if I['op'] in('bitcast','freeze'): return self.addr(I['o'][0])
            if I['op']=='phi':
                k=('ad',I['i'])
                if k in self.inprog: return o,Poly()
                self.inprog.add(k)
                try: vs=[self.addr(v) for v,b in I['o']]
                finally: self.inprog.discard(k)
                vs=[v for v in vs if v[0]!=o]
                if vs and all(v[0]==vs[0][0] and v[1]==vs[0][1] for v in vs): return vs[0]
                # pointer induction: init + step per iteration
                d=self._ptr_iv(I)
                if d: return d
            c=self.classify(I)
            if c is not None: return c,Poly()
            return o,Poly()
        if isinstance(o,str) and o.startswith('g:'): return o,Poly()
        return o,Poly()
    def _ptr_iv(self,I):
        for L in self.loops:
            if L.h!=self.fn.blk[I['i']] or L.iv is None: continue
            init=[v for v,b in I['o'] if self._blk(b) not in L.body]; back=[v for v,b in I['o'] if self._blk(b) in L.body]
            if len(init)!=1 or len(set(back))!=1: return None
            k=('ad',I['i']); self.inprog.add(k)
            try: r,p=self.addr(back[0])
            finally: self.inprog.discard(k)
            if r!='%%%d'%I['i']: return None
            if any(self._defined_in(a,L) for a in p.atoms()): return None
            r0,p0=self.addr(init[0]); it=(Poly.atom(L.iv)-L.init).scale(1/L.step)
            return r0,p0+it*p
        return None
