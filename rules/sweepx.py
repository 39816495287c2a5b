"""Row/slot decoding for the specialised sweeps."""
from aff import Aff, Poly
import ir, tay

ONE=Poly.const(1)
def classify_for(fn):
    box={}
    def classify(I):
        if I['op']=='call':
            q=fn.mod.qn(I.get('fn','')) if 'fn' in I else ''
            if q=='h_arg': return ('harg',)
            if q=='h_arg_corrected': return ('hargc',)
            if q=='h_var': return ('var',)
            if q=='h_index': return ('opi',)
            if q.endswith('::par_ptr'): return ('parptr',)
            return None
        if I['op']=='load':
            r,p=box['aff'].addr(I['o'][0])
            if r in(('harg',),('hargc',)) and p.isconst() and I.get('t')=='i32': return ('sl' if r==('harg',) else 'slc',int(p.cval())//4)
        return None
    return classify,box
def make_aff(fn):
    c,box=classify_for(fn)
    a=Aff.__new__(Aff); box['aff']=a
    Aff.__init__(a,fn,c)
    return a
def op_loop(fn,aff):
    """outermost loop containing a call of h_arg"""
    bl={fn.blk[I['i']] for I in fn.calls() if fn.callee(I)=='h_arg'}
    c=[L for L in aff.loops if L.body&bl]
    return max(c,key=lambda L:len(L.body)) if c else None
def row_decode(off, stride, rowname):
    """off: byte offset poly of an 8 byte element.  stride: Poly.
       -> (row, order poly, extra)"""
    p=off.scale(1)
    q=Poly({m:c/8 for m,c in p.t.items()})
    base=None
    for a in sorted(q.atoms(),key=str):
        if a[0] in('sl','var'):
            c,r=q.coef(a)
            if c is None: return None
            if c==stride:
                if base is not None: return None
                base=a; q=r
            elif not c.t: pass
            else: return None
    if base is None: return None
    # constant multiple of the stride
    for k in range(-8,9):
        s=q-stride.scale(k)
        if not (s.atoms() & stride_atoms(stride)) : 
            return base,k,s
    return None
def stride_atoms(s): return {a for a in s.atoms()}
class Rows:
    def __init__(self, table):
        """table: list of (root, stride Poly, name)"""
        self.table=table
    def __call__(self,root,off):
        for r,stride,name in self.table:
            if root==r:
                d=row_decode(off,stride,name)
                if d is None: return None
                base,k,idx=d
                bn = 'Z' if base==('var',) else 'S%d'%base[1]
                return (name+bn+('%+d'%k if k else ''), idx)
        return None
class RowsDir:
    """one taylor root, stride (J-1)*r+1"""
    def __init__(self, root, J, r):
        self.root=root; self.J=Poly.atom(J); self.r=Poly.atom(r); self.ra=r; self.Ja=J
        self.stride=self.J*self.r-self.r+ONE
    def __call__(self,root,off):
        if root!=self.root: return None
        q=Poly({m:c/8 for m,c in off.t.items()}); base=None
        for a in sorted(q.atoms(),key=str):
            if a[0] in('sl','var'):
                c,r=q.coef(a)
                if c is None or c!=self.stride: return None
                if base is not None: return None
                base=a; q=r
        if base is None: return None
        for k in range(-8,9):
            s=q-self.stride.scale(k)
            if self.Ja in s.atoms(): continue
            c,rem=s.coef(self.ra)
            if c is None: return None
            if not s.t: order=Poly()
            elif not c.t and not rem.t: order=Poly()
            else:
                # s = (order-1)*r + 1 + ell
                order=c+ONE; ell=rem-ONE
                bn='Z' if base==('var',) else 'S%d'%base[1]
                return ('T'+bn+('%+d'%k if k else ''), order, ell)
            bn='Z' if base==('var',) else 'S%d'%base[1]
            return ('T'+bn+('%+d'%k if k else ''), Poly(), None)
        return None
