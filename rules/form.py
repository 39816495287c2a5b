"""Normal form of Taylor recurrences, the specification language, and the
adjoint (reverse mode) of a recurrence."""
import re
from fractions import Fraction
from aff import Poly
import tay
from tay import ex_const, ex_fac, ex_poly, add, mul, inv, key, mk, Top

J=('J',); K=('K',)
def cell(row,idx,extra=None): return ('cell',row,idx.key())+((extra,) if extra is not None else ())+(frozenset(),)

# ------------------------------------------------------------- substitution
def sub_poly_key(k,a,p): return Poly(dict(k)).subst(a,p).key()
def sub_fac(f,a,p):
    if f[0] in('cell','tgt'): return ex_fac((f[0],f[1])+tuple(sub_poly_key(x,a,p) for x in f[2:-1])+(f[-1],))
    if f[0]=='inv': return inv(sub_expr(dict(f[1]),a,p))
    if f[0]=='fn': return ex_fac(('fn',f[1])+tuple((key(sub_expr(dict(x),a,p)) if isexpr(x) else x) for x in f[2:]))
    return ex_fac(f)
def isexpr(x): return isinstance(x,tuple) and (x==() or (isinstance(x[0],tuple) and len(x[0])==2 and isinstance(x[0][1],Fraction)))
def sub_expr(e,a,p):
    r={}
    for (n,f,s),c in e.items():
        t={((),(),tuple(x for x in s if x!=a)):c}
        for tok,ex in n:
            q=ex_poly(p) if tok==a else {(((tok,1),),(),()):Fraction(1)}
            for _ in range(abs(ex)): t=mul(t, q if ex>0 else inv(q))
        for fa,ex in f:
            q=sub_fac(fa,a,p)
            if abs(ex)==1 or len(q)==1:
                for _ in range(abs(ex)): t=mul(t, q if ex>0 else inv(q))
            else: raise Top('power of a sum')
        r=add(r,t)
    return r
def strip_versions(e, final):
    """tokens whose version is the final one become plain cells"""
    r={}
    for (n,f,s),c in e.items():
        t={(n,(),s):c}
        for fa,ex in f: 
            q=ex_fac(plain(fa)); 
            if ex<0: q=inv(q)
            for _ in range(abs(ex)): t=mul(t,q)
        r=add(r,t)
    return r
def plain(f):
    if f[0]=='cell': return f[:-1]+(frozenset(),)
    if f[0] in('inv',): return ('inv',key(strip_versions(dict(f[1]),None)))
    if f[0]=='fn': return ('fn',f[1])+tuple(key(strip_versions(dict(x),None)) if isexpr(x) else x for x in f[2:])
    return f
def drop_extra(e):
    """forget the direction index of forward_dir cells"""
    def g(f):
        if f[0]=='cell' and len(f)>4: return ('cell',f[1],f[2],f[-1])
        if f[0]=='inv': return ('inv',key(drop_extra(dict(f[1]))))
        if f[0]=='fn': return ('fn',f[1])+tuple(key(drop_extra(dict(x))) if isexpr(x) else x for x in f[2:])
        return f
    r={}
    for (n,f,s),c in e.items():
        d={}
        for fa,ex in f:
            y=g(fa); d[y]=d.get(y,0)+ex
        r=add(r,{(n,mk(d),s):c})
    return r
def extras(e,out):
    for (n,f,s),c in e.items():
        for fa,ex in f:
            if fa[0]=='cell': out.append((fa[2], fa[3] if len(fa)>4 else None))
            elif fa[0]=='inv': extras(dict(fa[1]),out)
            elif fa[0]=='fn':
                for x in fa[2:]:
                    if isexpr(x): extras(dict(x),out)
    return out

# ---------------------------------------------------------------- normal form
def idxs(fs): return [f for f,e in fs if f[0]=='cell']
def normalise(terms, ranges):
    """terms: Expr whose integer symbols are J and loop variables a with
    ranges[a]=(lo,hi) Polys in J.  Result: Expr over J and K, every K-term
    meaning the sum over K=1..J-1."""
    out={}
    for (n,f,s),c in terms.items():
        ivs=set(s)|{a for fa,_ in f for a in fac_atoms(fa)}|{a for a,_ in n}
        ivs={a for a in ivs if a in ranges}
        if not ivs:
            out=add(out,{(n,f,()):c}); continue
        if len(ivs)>1: raise Top('more than one summation index')
        a=ivs.pop(); lo,hi=ranges[a]
        # candidates for the canonical index
        cand=[]
        for fa,ex in f:
            if fa[0] in('cell','tgt'):
                p=Poly(dict(fa[2])); co,r=p.coef(a)
                if co is not None and co.isconst() and abs(co.cval())==1: cand.append((('0' if fa[0]=='tgt' else '1')+fa[1]+('' if int(co.cval())==1 else '~'),p,int(co.cval()),r))
        if not cand: raise Top('summation index not used as an order')
        cand.sort(key=lambda x:str(x[0]))
        row,p,sg,r=cand[0]
        newa=(Poly.atom(K)-r).scale(sg)      # a = sg*(K-r)
        t=sub_expr({(n,f,()):c},a,newa)
        l=lo.scale(sg)+r; h=hi.scale(sg)+r
        if sg<0: l,h=h,l
        out=add(out,peel(t,l,h))
    # symmetrise products of the same row at K and J-K
    res={}
    for (n,f,s),c in out.items():
        t={(n,f,s):c}
        if K in fac_atoms_all(f) or any(a==K for a,_ in n):
            rows=sorted((fa[1],) for fa,ex in f if fa[0]=='cell' and K in fac_atoms(fa) for _ in range(abs(ex)))
            if len(rows)==2 and rows[0]==rows[1] and not any(fa[0]=='tgt' and K in fac_atoms(fa) for fa,_ in f):
                t2=sub_expr(t,K,Poly.atom(J)-Poly.atom(K))
                t=add({k:v/2 for k,v in t.items()},{k:v/2 for k,v in t2.items()})
        res=add(res,t)
    return res
def fac_atoms(f):
    if f[0] in('cell','tgt'): return {a for k in f[2:-1] for m,_ in k for a in m}
    if f[0]=='inv': return {a for (n,ff,s),c in f[1] for a in ([x for x,_ in n]+[y for g,_ in ff for y in fac_atoms(g)])}
    if f[0]=='fn': return {a for x in f[2:] if isexpr(x) for (n,ff,s),c in x for a in ([z for z,_ in n]+[y for g,_ in ff for y in fac_atoms(g)])}
    return set()
def fac_atoms_all(f): return {a for fa,_ in f for a in fac_atoms(fa)}
def inst(t,v): return sub_expr(t,K,v)
def peel(t,lo,hi):
    """sum of t over K=lo..hi written with the range 1..J-1"""
    d=hi-Poly.atom(J)
    if not lo.isconst() or not d.isconst(): raise Top('summation range %r..%r'%(lo,hi))
    l=int(lo.cval()); h=int(d.cval())      # K from l to J+h
    if abs(l)>4 or abs(h)>4: raise Top('summation range')
    r=dict(t)
    k=l
    while k<1: r=add(r,inst(t,Poly.const(k))); k+=1
    k=1
    while k<l: r=add(r,inst(t,Poly.const(k)),-1); k+=1
    k=-1
    while k<h: k+=1; r=add(r,inst(t,Poly.atom(J)+Poly.const(k)))
    k=-1
    while k>h: r=add(r,inst(t,Poly.atom(J)+Poly.const(k)),-1); k-=1
    return r
def at_zero(terms, ranges):
    """value of the recurrence at J=0"""
    r={}
    for k,c in terms.items():
        t={k:c}
        ivs={a for a in (set(k[2])|fac_atoms_all(k[1])|{a for a,_ in k[0]}) if a in ranges}
        t=sub_expr(t,J,Poly()) if J not in [a for a,e in k[0] if e<0] else None
        if t is None: raise Top('division by the order at order zero')
        for a in ivs:
            lo,hi=[x.subst(J,Poly()) for x in ranges[a]]
            if not lo.isconst() or not hi.isconst(): raise Top('range at order zero')
            u={}
            for v in range(int(lo.cval()),int(hi.cval())+1): u=add(u,sub_expr(t,a,Poly.const(v)))
            t=u
        r=add(r,{(n,f,()):c for (n,f,s),c in t.items()})
    return r

# -------------------------------------------------------------- specification
TOK=re.compile(r'\s*(sum\([^)]*\)|[A-Za-z_]\w*\(|[A-Z]\w*(?:[-+]\d)?\[[^\]]*\]|[A-Za-z_]\w*|\d+(?:/\d+)?|\^-?\d+|[-+*/()])')
def parse_idx(s):
    p=Poly(); 
    for sg,x in re.findall(r'([-+]?)\s*(\w+)',s):
        q=Poly.const(int(x)) if x.isdigit() else Poly.atom((x,))
        p=p-q if sg=='-' else p+q
    return p
class Spec:
    """parses e.g.  'sum(1,J) K/J S0[K] Z-1[J-K] + 2 sin(S0[0]) P0'"""
    def __init__(self,s): self.t=TOK.findall(s); self.i=0; self.s=s; self.ranges={}; self.nk=0
        
    def peek(self): return self.t[self.i] if self.i<len(self.t) else None
    def next(self): x=self.peek(); self.i+=1; return x
    def expr(self,stop=None):
        r={}; sg=1
        if self.peek()=='-': self.next(); sg=-1
        while True:
            t=self.term(); r=add(r,t,sg)
            p=self.peek()
            if p in('+','-'): sg=1 if self.next()=='+' else -1
            else: break
        return r
    def term(self):
        r=ex_const(1); kv=None; e=1
        while True:
            p=self.peek()
            if p is None or p in('+','-',')'): break
            p=self.next()
            if p=='/': e=-1; continue
            if p=='*': continue
            if p.startswith('sum('):
                lo,hi=p[4:-1].split(','); self.nk+=1; kv=('K%d'%self.nk,)
                self.ranges[kv]=(parse_idx(lo),parse_idx(hi)); continue
            if p=='(':
                q=self.expr(); assert self.next()==')'
            elif p.endswith('('):
                q=self.expr(); assert self.next()==')'
                q=ex_fac(('fn',p[:-1],key(q)))
            elif '[' in p:
                row,ix=p[:-1].split('['); q=ex_fac(cell(row,self.bind(parse_idx(ix),kv)))
            elif p[0].isdigit(): q=ex_const(Fraction(p))
            elif re.match(r'P\d$',p): q=ex_fac(('par',int(p[1:])))
            else: q=ex_poly(self.bind(Poly.atom((p,)),kv))
            if self.peek() and self.peek().startswith('^'):
                n=int(self.next()[1:]); b=q; q=ex_const(1)
                for _ in range(abs(n)): q=mul(q,b if n>0 else inv(b))
            r=mul(r, q if e>0 else inv(q)); e=1
        if kv: r={(n,f,s+(kv,)):c for (n,f,s),c in r.items()}
        return r
    def bind(self,p,kv): return p.subst(K,Poly.atom(kv)) if kv else p
def parse(s):
    """-> (Expr, ranges)"""
    if isinstance(s,dict): return s,{}
    x=Spec(s); e=x.expr()
    assert x.peek() is None,(s,x.t[x.i:])
    return e,x.ranges

# ------------------------------------------------------------------- adjoint
def adjoint(row, nf):
    """row[J] = nf (normalised, K in 1..J-1).  Expected reverse updates as an
    Expr whose terms contain a ('tgt',row,idx) factor and the source P<row>[J]"""
    out={}
    src=('cell','P'+row,Poly.atom(J).key(),frozenset())
    terms=list(nf.items())
    def common(fa):
        es={dict(f).get(fa,0) for (n,f,s),c in terms}
        return es.pop() if len(es)==1 else None
    done=set()
    for (n,f,s),c in terms:
        for fa,e in f:
            rest=dict(f); 
            if fa[0]=='cell':
                ce=common(fa) if e<0 else None
                if ce is not None:
                    if fa in done: continue
                    done.add(fa)
                    out=add(out,{((),mk({('tgt',fa[1],fa[2],frozenset()):1, src:1, cell(row,Poly.atom(J)):1, fa:-1}),()):Fraction(ce)})
                    continue
                rest[fa]=e-1
                rest[('tgt',fa[1],fa[2],frozenset())]=1; rest[src]=1
                out=add(out,{(n,mk(rest),()):c*e})
            elif fa[0]=='inv':
                inner=dict(fa[1])
                if common(fa)!=e: raise Top('denominator not common')
                if fa in done: continue
                done.add(fa)
                for (n2,f2,s2),c2 in inner.items():
                    if not f2: continue
                    if len(f2)!=1 or f2[0][1]!=1 or f2[0][0][0]!='cell': raise Top('denominator')
                    g=f2[0][0]
                    out=add(out,{(n2,mk({('tgt',g[1],g[2],frozenset()):1,src:1,cell(row,Poly.atom(J)):1,fa:1}),()):-c2})
    return out
def canon_sum(e):
    """canonical K for terms summed over K=1..J-1"""
    k=('k0',)
    t=sub_expr(e,K,Poly.atom(k))
    return normalise(t,{k:(Poly.const(1),Poly.atom(J)-Poly.const(1))})
def fmt(e):
    if e is None: return '?'
    def pk(k): return repr(Poly(dict(k)))
    def fk(fa):
        if fa[0]=='cell': return '%s[%s]'%(fa[1],pk(fa[2]))
        if fa[0]=='tgt': return 'P%s[%s] <-'%(fa[1],pk(fa[2]))
        if fa[0]=='fn': return '%s(%s)'%(fa[1],','.join(fmt(dict(x)) if isexpr(x) else str(x) for x in fa[2:]))
        if fa[0]=='inv': return '1/(%s)'%fmt(dict(fa[1]))
        if fa[0]=='par': return 'P%d'%fa[1]
        return str(fa)
    o=[]
    for (n,f,s),c in sorted(e.items(),key=str):
        fs=sorted(f,key=lambda x:(x[0][0]!='tgt',str(x[0])))
        o.append(' '.join(['%s'%c]+['%s%s'%(''.join(map(str,a)),'' if x==1 else '^%d'%x) for a,x in n]+['%s%s'%(fk(a),'^%d'%x if x!=1 else '') for a,x in fs]))
    return ' + '.join(o) or '0'
