"""Affine array dataflow: where the elements of the vectors that an interface routine
hands to a sweep, or returns, come from.

Every store and every opaque call becomes a fact: array, index polynomial over the
induction variables of the loops around it, domain of these loops, guards, value, and a
schedule (position and iteration for every loop level, then position in the block).
The last fact in the schedule that defines an element gives its source.  Equality of the
resulting maps is decided at sample sizes; data stays symbolic."""
import ir,re,cfgx
from aff import Aff,Poly
class Und(Exception): pass
LL=('llvm.lifetime','llvm.dbg','llvm.assume','llvm.experimental')
class Mov:
    def __init__(self,fn,env,ind,width={}):
        """env: atom -> int; ind: (root, index) -> int, contents of index arrays"""
        self.fn=fn; self.env=env; self.ind=ind
        box={}
        def classify(I):
            if I['op']!='load' or I.get('t') not in('i64','i32','i8','i1','ptr'): return None
            r,p=box['a'].addr(I['o'][0])
            if isinstance(r,str) and (r[0]=='a' and r[1:].isdigit() or r[0]=='%' and fn.get(r)['op']=='alloca') and p.isconst(): return ('fld',r,int(p.cval()))
            if isinstance(r,tuple): return ('ix',r,p.key())
            return None
        a=Aff.__new__(Aff); box['a']=a; self.classify=classify
        Aff.__init__(a,fn,classify); self.aff=a
        # atoms met before their loops were known
        a.memo={}
        self.rpo=self._rpo(); self.cd=cfgx.CD(fn)
        self.byiv={L.iv:L for L in a.loops if L.iv is not None}
        self._facts()
    def _rpo(self):
        fn=self.fn; seen=set(); out=[]
        D=fn.doms()
        def go(b):
            st=[(b,iter(fn.succs(b)))]; seen.add(b)
            while st:
                x,it=st[-1]
                for s in it:
                    if s not in seen and s not in D[x]: seen.add(s); st.append((s,iter(fn.succs(s)))); break
                else: st.pop(); out.append(x)
        go(0); return {b:i for i,b in enumerate(reversed(out))}
    def loops(self,b): return [L for L in self.aff.loops if b in L.body]   # outermost first
    # ---- evaluation of extracted index expressions at a sample point
    def ev(self,p,asg):
        if not isinstance(p,Poly): p=self.aff.poly(p)
        v=0
        for m,c in p.t.items():
            x=c
            for a in m: x*=self.atom(a,asg)
            v+=x
        if v!=int(v): raise Und('fraction')
        return int(v)
    def atom(self,a,asg):
        if a in asg: return asg[a]
        if a in self.env: return self.env[a]
        if a[0]=='ix': return self.ind(a[1],self.ev(Poly(dict(a[2])),asg))
        if a in self.byiv and self.byiv[a].iv==a:
            x=self.atexit(self.byiv[a],asg)
            if x is not None: return x
        if a[0]=='%': return self.scalar(self.fn.ins[a[1]],asg)
        raise Und('value of %s'%(a,))
    def scalar(self,I,asg,d=0):
        op=I['op']; o=I.get('o',[])
        E=lambda k:self.ev(o[k],asg)
        if op in('udiv','sdiv'): return E(0)//E(1)
        if op in('urem','srem'): return E(0)%E(1)
        if op=='lshr': return E(0)>>E(1)
        if op in('zext','sext','trunc','freeze'): return E(0)
        if op=='select': return E(1) if self.truth(o[0],asg) else E(2)
        if op=='icmp': return int(self.truth('%%%d'%I['i'],asg))
        if op in('and','or','xor') and I.get('t')=='i1':
            x,y=self.truth(o[0],asg),self.truth(o[1],asg); return int({'and':x and y,'or':x or y,'xor':x!=y}[op])
        if op in('and','or','xor'):
            x,y=E(0),E(1); return x&y if op=='and' else x|y if op=='or' else x^y
        if op=='call':
            q=self.fn.callee(I) or ''
            if q.startswith('llvm.umax') or q.startswith('llvm.smax'): return max(E(0),E(1))
            if q.startswith('llvm.umin') or q.startswith('llvm.smin'): return min(E(0),E(1))
            if q.startswith('llvm.usub.sat'): return max(0,E(0)-E(1))
            k=('call',q)
            if k in self.env:
                v=self.env[k]; return v(self,I,asg) if callable(v) else v
        if op=='phi':
            b=self.fn.blk[I['i']]
            L=self.aff.byhead.get(b)
            if L is not None:
                init=[v for v,x in I['o'] if int(str(x).lstrip('b')) not in L.body]; back=[v for v,x in I['o'] if int(str(x).lstrip('b')) in L.body]
                if L.iv not in asg and L.iv is not None:
                    # used after the loop: the value at its exit
                    x=self.atexit(L,asg)
                    if x is not None: return self.scalar(I,{**asg,L.iv:x},d+1)
                if L.iv not in asg or len(set(map(str,init)))!=1: raise Und('value carried by a loop')
                if asg[L.iv]==self.ev(L.init,asg): return self.ev(init[0],{k:v for k,v in asg.items() if k!=L.iv})
                return self.ev(self.backval(I,L,asg),{**asg,L.iv:asg[L.iv]-L.step})
            vs=[v for v,pb in I['o'] if self.edge(int(str(pb).lstrip('b')),b,asg)]
            if len(set(map(str,vs)))==1: return self.ev(vs[0],asg)
        raise Und('scalar %s %s'%(op,self.fn.callee(I) if op=='call' else ''))
    def atexit(self,L,asg):
        """value of the induction variable when the loop is left at its head (None: left elsewhere)"""
        for b in L.body:
            if b!=L.h and any(x not in L.body for x in self.fn.succs(b)): return None
        lo,hi=self.ev(L.lo,asg),self.ev(L.hi,asg)
        if hi<lo: return self.ev(L.init,asg)
        return (hi if L.step==1 else lo)+int(L.step)
    def backval(self,I,L,asg):
        prev={**asg,L.iv:asg[L.iv]-L.step}
        back=[(v,int(str(x).lstrip('b'))) for v,x in I['o'] if int(str(x).lstrip('b')) in L.body]
        if len({str(v) for v,x in back})==1: return back[0][0]
        vs={v for v,x in back if self.edge(x,L.h,prev)}
        if len(vs)!=1: raise Und('value carried by a loop %s %s %s'%(I['i'],back,vs))
        return vs.pop()
    def truth(self,o,asg):
        if o in('true','c1','c-1'): return True
        if o in('false','c0'): return False
        I=self.fn.get(o)
        if I is None:
            return bool(self.ev(o,asg))
        if I['op']=='icmp':
            a,b=self.ptrval(I['o'][0],asg),self.ptrval(I['o'][1],asg); pr=I['pred']
            if pr in('eq','ne'): return (a==b)==(pr=='eq')
            if not isinstance(a,int) or not isinstance(b,int): raise Und('order of pointers')
            return {'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[pr[1:]]
        if I['op'] in('and','or','xor') and I.get('t')=='i1':
            f=lambda k:self.truth(I['o'][k],asg)
            if I['op']=='and': return f(0) and f(1)
            if I['op']=='or': return f(0) or f(1)
            return f(0)!=f(1)
        if I['op']=='select': return self.truth(I['o'][1] if self.truth(I['o'][0],asg) else I['o'][2],asg)
        if I['op'] in('freeze','trunc','zext'): return self.truth(I['o'][0],asg)
        if I['op']=='phi': return bool(self.scalar(I,asg))
        if I['op']=='load' and isinstance(self.aff.addr(I['o'][0])[0],tuple):
            v=self.val(o,asg,None)
            if v[0]=='k': return bool(v[1])
        return bool(self.ev(o,asg))
    def ptrval(self,o,asg): return self.ev(o,asg)
    def edge(self,p,b,asg):
        """the edge p -> b is taken (the exit of an inner loop: after its last iteration)"""
        inner=[M for M in self.aff.loops if p in M.body and b not in M.body]
        if inner: return self.executed(inner[0].h,asg)
        if not self.executed(p,asg): return False
        t=self.fn.blocks[p][-1]
        if t['op']=='br' and len(t['o'])==3:
            k=1 if self.truth(t['o'][0],asg) else 2
            return int(t['o'][k][1:])==b
        return True
    def executed(self,b,asg):
        """b is executed at the iteration asg of the loops around it"""
        key=(b,tuple(sorted(asg.items())))
        if key in self.xm: 
            if self.xm[key] is None: return False
            return self.xm[key]
        self.xm[key]=None
        r=self._executed(b,asg); self.xm[key]=r; return r
    xm={}
    def _executed(self,b,asg):
        if b==0: return True
        L=self.aff.byhead.get(b)
        ok=False
        for p in self.fn.preds().get(b,[]):
            if L is not None and p in L.body: continue
            if self.edge(p,b,asg): ok=True
        return ok
    # ---- facts
    def points(self,b):
        """assignments of the induction variables at which b is executed, with schedule"""
        out=[({},())]
        for L in self.loops(b):
            if L.iv is None: raise Und('loop whose range is not known')
            n=[]
            for asg,t in out:
                if not self.executed(L.h,asg): continue
                lo,hi=self.ev(L.lo,asg),self.ev(L.hi,asg)
                if hi-lo>200: raise Und('range %d..%d'%(lo,hi))
                r=range(lo,hi+1) if L.step==1 else range(hi,lo-1,-1)
                for i,v in enumerate(r): n.append(({**asg,L.iv:v},t+(self.rpo[L.h],i)))
            out=n
        return [(asg,t+(self.rpo[b],)) for asg,t in out if self.executed(b,asg)]
    def _facts(self):
        self.xm={}; self.writes=[]; self.events=[]
        for b in sorted(self.fn.reachable(),key=lambda x:self.rpo.get(x,0)):
            for k,I in enumerate(self.fn.blocks[b]):
                if I['op']=='store': self.writes.append((b,k,I))
                elif I['op'] in('call','invoke'):
                    q=self.fn.callee(I) or ''
                    if any(q.startswith(x) for x in LL): continue
                    if q.startswith('llvm.mem'): self.writes.append((b,k,I)); continue
                    if I.get('t') and q.startswith('vb_') or q.startswith('llvm.'): continue
                    self.events.append((b,k,I,q))
        self.cells=None
    def addr(self,o,asg):
        r,p=self.aff.addr(o)
        return self.root(r),self.ev(p,asg)
    def root(self,r): return r
    def build(self):
        """{(root, byte offset): [(time, kind, value operand, asg)]}"""
        if self.cells is not None: return self.cells
        c={}
        for b,k,I in self.writes:
            for asg,t in self.points(b):
                if I['op']=='store':
                    c.setdefault(self.addr(I['o'][1],asg),[]).append((t+(k,),'v',I['o'][0],asg,I))
                else:
                    q=self.fn.callee(I); d=self.addr(I['o'][0],asg); n=self.ev(I['o'][2],asg)
                    for x in range(0,n,8):
                        if 'memset' in q: c.setdefault((d[0],d[1]+x),[]).append((t+(k,),'z',None,asg,I))
                        else:
                            s=self.addr(I['o'][1],asg); c.setdefault((d[0],d[1]+x),[]).append((t+(k,),'c',(s[0],s[1]+x),asg,I))
        for l in c.values(): l.sort(key=lambda x:x[0])
        self.cells=c; return c
    def calls(self,rx):
        """events whose callee matches, at every point: [(time, I, asg, q)]"""
        out=[]
        for b,k,I,q in self.events:
            if re.search(rx,q):
                for asg,t in self.points(b): out.append((t+(k,),I,asg,q))
        return sorted(out,key=lambda x:x[0])
    def clobbers(self,root,t):
        """last event before t that may define the array: None or (time, q, I, asg).
        hook: self.effect(q, I) -> roots it (re)defines"""
        best=None
        for b,k,I,q in self.events:
            if root in self.effect(q,I):
                for asg,u in self.points(b):
                    if u+(k,)<t and (best is None or u+(k,)>best[0]): best=(u+(k,),q,I,asg)
        return best
    effect=staticmethod(lambda q,I:())
    def content(self,root,off,t,d=0):
        """source of the element just before time t"""
        if d>30: raise Und('deep')
        e=self.clobbers(root,t)
        w=None
        for x in self.build().get((root,off),[]):
            if x[0]<t: w=x
        if w is not None and (e is None or w[0]>e[0]):
            if w[1]=='z': return ('k',0.0)
            if w[1]=='c': return self.content(w[2][0],w[2][1],w[0],d+1)
            return self.val(w[2],w[3],w[0],d+1)
        if e is not None: return self.after(e,root,off,d+1)
        return ('in',root,off)
    def after(self,e,root,off,d): return ('out',e[1],root,off)
    def val(self,o,asg,t,d=0):
        if d>40: raise Und('deep')
        if isinstance(o,str) and o[0]=='f':
            try: return ('k',float(o[1:]))
            except ValueError: return ('k',o)
        if isinstance(o,str) and o[0]=='c' and o[1:].lstrip('-').isdigit(): return ('k',int(o[1:]))
        I=self.fn.get(o)
        if I is None: return ('arg',o)
        op=I['op']
        if op=='load' and (I.get('t') not in('i64','i32','i1','i8') or isinstance(self.aff.addr(I['o'][0])[0],tuple)):
            b=self.fn.blk[I['i']]; k=self.fn.blocks[b].index(I)
            r,p=self.addr(I['o'][0],asg)
            return self.content(r,p,self.time(b,k,asg),d+1)
        if op in('bitcast','freeze','sitofp','uitofp'): return self.val(I['o'][0],asg,t,d+1)
        if op in('fadd','fsub','fmul','fdiv'): return (op,)+tuple(self.val(x,asg,t,d+1) for x in I['o'])
        if op=='call':
            q=self.fn.callee(I) or '?'
            return ('call',q)+tuple(self.val(x,asg,t,d+1) for x in I['o'])
        if op=='select': return self.val(I['o'][1] if self.truth(I['o'][0],asg) else I['o'][2],asg,t,d+1)
        if op=='phi':
            b=self.fn.blk[I['i']]; L=self.aff.byhead.get(b)
            if L is None:
                vs=[v for v,pb in I['o'] if self.edge(int(str(pb).lstrip('b')),b,asg)]
                if len(set(map(str,vs)))==1: return self.val(vs[0],asg,t,d+1)
            else:
                # promoted cell: first iteration or the value of the one before
                init=[v for v,x in I['o'] if int(str(x).lstrip('b')) not in L.body]; back=[v for v,x in I['o'] if int(str(x).lstrip('b')) in L.body]
                if L.iv in asg and len(set(map(str,init)))==1:
                    i0=self.ev(L.init,asg)
                    if asg[L.iv]==i0: return self.val(init[0],{k:v for k,v in asg.items() if k!=L.iv},t,d+1)
                    return self.val(self.backval(I,L,asg),{**asg,L.iv:asg[L.iv]-L.step},t,d+1)
            raise Und('choice of a value')
        if I.get('t') in('i64','i32','i1','i8'): return ('k',self.ev(o,asg))
        raise Und('value '+op)
    def time(self,b,k,asg):
        t=()
        for L in self.loops(b):
            if L.iv not in asg: raise Und('iteration not known')
            lo=self.ev(L.init,asg); t+=(self.rpo[L.h],int((asg[L.iv]-lo)/L.step))
        return t+(self.rpo[b],k)
END=(10**9,)
