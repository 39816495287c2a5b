"""Store facts of additive updates: every stored value as a signed sum of loads,
each with the loops it is summed over.  Used for cumulative sums, VecAD loads and
the code that moves coefficients between vectors."""
import ir,sweepx
from aff import Poly,Aff
ONE=Poly.const(1)
class Und(Exception): pass
def key8(p): return Poly({m:c/8 for m,c in p.t.items()})
class Facts:
    def __init__(self,fn,aff=None,op_loop=None,eltypes=('double','i64'),isel=None):
        self.fn=fn; self.aff=aff or sweepx.make_aff(fn); self.loop=op_loop; self.memo={}
        self.isel=isel or (lambda root:True)
        self.byiv={L.iv:L for L in self.aff.loops if L.iv is not None}
        self.stores=[]
        for b in sorted(fn.reachable()):
            if op_loop is not None and b not in op_loop.body: continue
            for I in fn.blocks[b]:
                if I['op']=='store':
                    r,p=self.aff.addr(I['o'][1]); 
                    if not self.isel(self.root(r)): continue
                    self.stores.append(dict(I=I,b=b,root=self.root(r),off=self.poly(p),v=I['o'][0]))
    def root(self,r):
        if isinstance(r,str) and r[0]=='%':
            I=self.fn.get(r)
            if I['op']=='load':
                q,p=self.aff.addr(I['o'][0]); return ('ld',self.root(q),self.poly(p).key())
            if I['op']=='call': return ('call',self.fn.callee(I),I['i'])
        return r
    def poly(self,p):
        if not isinstance(p,Poly): p=self.aff.poly(p)
        for a in list(p.atoms()):
            if a[0]=='%' and a[1] in self.fn.ins and a not in self.byiv:
                I=self.fn.ins[a[1]]
                if I['op']=='load':
                    r,q=self.aff.addr(I['o'][0]); p=p.subst(a,Poly.atom(('ld',self.root(r),self.poly(q).key())))
        return p
    def loops(self,b):
        return [L for L in self.aff.loops if b in L.body and L is not self.loop]
    def nf(self,o,d=0):
        """-> list of (sign, atom, loops) ; atom = ('L',root,offkey) | ('k',const) | ('x',ssa)"""
        if d>60: raise Und('deep')
        if o=='c0' or (isinstance(o,str) and o[0]=='f' and float_of(o)==0): return []
        if isinstance(o,str) and o[0]=='f': return [(1,('k',o),())]
        I=self.fn.get(o)
        if I is None: return [(1,('x',o),())]
        if o in self.memo: return self.memo[o]
        r=self._nf(o,I,d); self.memo[o]=r; return r
    def _nf(self,o,I,d):
        op=I['op']
        if op=='load':
            r,p=self.aff.addr(I['o'][0]); return [(1,('L',self.root(r),self.poly(p).key(),I['i']),())]
        if op in('bitcast','freeze'): return self.nf(I['o'][0],d+1)
        q=self.fn.callee(I) if op=='call' else {'fadd':'vb_add','fsub':'vb_sub','fneg':'vb_neg'}.get(op)
        if q=='vb_add': return self.nf(I['o'][0],d+1)+self.nf(I['o'][1],d+1)
        if q=='vb_sub': return self.nf(I['o'][0],d+1)+[(-s,a,l) for s,a,l in self.nf(I['o'][1],d+1)]
        if q=='vb_neg': return [(-s,a,l) for s,a,l in self.nf(I['o'][0],d+1)]
        if op=='phi':
            b=self.fn.blk[I['i']]; L=self.aff.byhead.get(b)
            if L is not None and L is not self.loop:
                init=[v for v,x in I['o'] if int(str(x).lstrip('b')) not in L.body]; back=[v for v,x in I['o'] if int(str(x).lstrip('b')) in L.body]
                if len(init)==1 and len(set(back))==1:
                    self.memo[o]=[(1,('x',o),())]
                    n=self.nf(back[0],d+1)
                    self.memo={k:v for k,v in self.memo.items() if not any(a==('x',o) for s,a,l in v)}
                    me=[t for t in n if t[1]==('x',o)]
                    if len(me)==1 and me[0][0]==1 and not me[0][2]:
                        return self.nf(init[0],d+1)+[(s,a,l+(L.h,)) for s,a,l in n if a!=('x',o)]
            vs=[v for v,x in I['o']]
            if len(set(vs))==1: return self.nf(vs[0],d+1)
        return [(1,('x',o),())]
    def conds(self,b,cd):
        """(branch block, successor) conditions of b inside the operator loop that are not loop tests"""
        out=[]
        for c,s in cd.deps(b):
            if self.loop is not None and (c not in self.loop.body or any(x not in self.loop.body for x in self.fn.succs(c))): continue
            if any(c in L.body and L.iv is not None and any(x not in L.body for x in self.fn.succs(c)) for L in self.loops(c)): continue
            # pre-header test of a loop
            ci=self.fn.get(self.fn.blocks[c][-1]['o'][0])
            ok=False
            if ci is not None and ci['op']=='icmp':
                p=self.aff.poly(ci['o'][0])-self.aff.poly(ci['o'][1])
                for L in self.aff.loops:
                    if L.iv is None or L is self.loop or c in L.body: continue
                    q=L.hi-L.lo
                    for e in(p-q,p+q):
                        if e.isconst() and abs(e.cval())<=1 and any(x in L.body or any(y in L.body for y in self.fn.succs(x)) for x in self.fn.succs(c)): ok=True
            if not ok: out.append((c,s))
        return out
    def reach(self,b):
        """blocks reachable from b without the back edge of the operator loop"""
        seen=set(); st=[b]
        while st:
            x=st.pop()
            for s in self.fn.succs(x):
                if self.loop is not None and s==self.loop.h: continue
                if s not in seen: seen.add(s); st.append(s)
        return seen
def float_of(o):
    try: return float(o[1:])
    except ValueError: return None
class Content:
    """For one cell (address key): per block, the SSA values equal to the cell's content
    (undoes the promotion of a cell to a register over loops)."""
    def __init__(self,F,root,key,blocks):
        self.F=F; fn=F.fn; self.key=(root,key)
        st={}
        for s in F.stores:
            if s['root']==root: st.setdefault(s['b'],[]).append(s)
        P={b:[p for p in fn.preds().get(b,[]) if p in blocks] for b in blocks}
        self.out={b:None for b in blocks}; self.inn={b:None for b in blocks}
        h=F.loop.h if F.loop else 0
        work=True
        while work:
            work=False
            for b in sorted(blocks):
                ps=[p for p in P[b] if self.out[p] is not None] if b!=h else []
                if b==h or not P[b]: i=frozenset()
                elif not ps: continue
                else:
                    i=frozenset.intersection(*[self.out[p] for p in ps])
                    ph=set()
                    for I in fn.blocks[b]:
                        if I['op']!='phi': continue
                        inc={int(str(x).lstrip('b')):v for v,x in I['o']}
                        if all(self.canon(inc.get(p)) in self.out[p] for p in ps): ph.add('%%%d'%I['i'])
                    i=i|ph
                if self.inn[b] is not None: i=i&self.inn[b]
                o=i
                for s in st.get(b,[]): o=self.after(s,o)
                if i!=self.inn[b] or o!=self.out[b]: self.inn[b]=i; self.out[b]=o; work=True
    def canon(self,v):
        while isinstance(v,str) and v[0]=='%' and self.F.fn.get(v)['op'] in('bitcast','freeze'): v=self.F.fn.get(v)['o'][0]
        return v
    def after(self,s,o):
        if s['off'].key()==self.key[1]: return frozenset([self.canon(s['v'])])
        return frozenset()
    def at(self,s):
        """content just before store s"""
        o=self.inn[s['b']] or frozenset()
        for t in self.F.stores:
            if t['b']==s['b'] and t['root']==self.key[0]:
                if t is s: return o
                o=self.after(t,o)
        return o
def terms(F,s,content,d=0):
    """value of store s as (accumulate?, [(sign, atom, sum loops)]); atoms equal to the
    present content of the cell are recognised"""
    root,key=s['root'],s['off'].key(); acc=[0]; out=[]
    def go(o,sg,d):
        if d>40: raise Und('deep')
        if content is not None and content.canon(o) in cur: acc[0]+=sg; return
        I=F.fn.get(o) if isinstance(o,str) and o[0]=='%' else None
        if I is not None:
            op=I['op']; q=F.fn.callee(I) if op=='call' else {'fadd':'vb_add','fsub':'vb_sub','fneg':'vb_neg'}.get(op)
            if op in('bitcast','freeze'): return go(I['o'][0],sg,d+1)
            if q=='vb_add': go(I['o'][0],sg,d+1); go(I['o'][1],sg,d+1); return
            if q=='vb_sub': go(I['o'][0],sg,d+1); go(I['o'][1],-sg,d+1); return
            if q=='vb_neg': go(I['o'][0],-sg,d+1); return
        for x,a,l in F.nf(o):
            if a[0]=='L' and a[1]==root and a[2]==key and not l: acc[0]+=x*sg
            else: out.append((x*sg,a,l))
    cur=content.at(s) if content is not None else frozenset()
    go(s['v'],1,0)
    return acc[0],out
