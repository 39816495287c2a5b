"""Must-inclusion dataflow over vector-of-sets operations of one operator.

A fact (A,B) says: when the operator has been handled, row A is a superset of
what row B was when the handling started.  Rows are (set, index), the index a
polynomial key over operator argument slots, or a quantified index:
('each',lo,hi,poly in loop variable) / ('elem',set,row) for every element."""
import ir
from aff import Aff,Poly
import cfgx
ONE=Poly.const(1)

def strip(q): return q.split('::')[-1]
class SetFlow:
    def __init__(self,fn,aff,loop,setname,gates,assume,endpoly=None,flagroot=None,entry=None):
        """setname(root)->name or None ; gates: function(I)->True/False/None value of a
        leaf condition; assume: {atom: int} values of argument slots."""
        self.fn=fn; self.aff=aff; self.loop=loop; self.setname=setname; self.gates=gates
        self.assume=assume; self.endpoly=endpoly; self.flagroot=flagroot; self.unknown=[]
        self.elem={}
        for L in aff.loops: self._iterloop(L)
    def leafatom(self,I):
        """row index expressions that are loads"""
        r,p=self.aff.addr(I['o'][0])
        return (r,p)
    def poly(self,o):
        p=self.aff.poly(o)
        # loads from memory become structural atoms
        for a in list(p.atoms()):
            if a[0]=='%':
                I=self.fn.ins[a[1]]
                if I['op']=='load':
                    r,q=self.aff.addr(I['o'][0]); 
                    p=p.subst(a,Poly.atom(('ld',self.rootname(r),self.polyp(q).key())))
        return p
    def polyp(self,q):
        for a in list(q.atoms()):
            if a[0]=='%' and a[1] in self.fn.ins:
                I=self.fn.ins[a[1]]
                if I['op']=='load':
                    r,q2=self.aff.addr(I['o'][0]); q=q.subst(a,Poly.atom(('ld',self.rootname(r),self.polyp(q2).key())))
        return q
    def rootname(self,r):
        if isinstance(r,tuple): return r
        if r[0]=='a': return r
        I=self.fn.get(r)
        if I is None: return r
        if I['op']=='call': return ('call',self.fn.callee(I),I['i'] if strip(self.fn.callee(I)) in('get_memory',) else 0)
        if I['op']=='phi':
            # memory of a vector extended under a size test
            return ('mem',I['i'])
        return r
    # element iteration ---------------------------------------------------
    def _iterloop(self,L):
        for I in self.aff.phis(L.h):
            vs=[v for v,b in I['o']]
            cs=[self._deref(v) for v in vs]
            if not cs or any(c is None for c in cs) or len(set(cs))!=1: continue
            self.elem[('%',I['i'])]=(L,cs[0])
    def _deref(self,v):
        D=self.fn.get(v)
        if D is None or D['op']!='call' or not (self.fn.callee(D) or '').endswith('operator*'): return None
        it=D['o'][0]; I=self.fn.get(it)
        if I is not None and I['op']=='call' and (self.fn.callee(I) or '').endswith('operator++'): it=I['o'][0]
        r,p=self.aff.addr(it)
        I=self.fn.get(r)
        if I is None: return None
        # the constructor of this iterator object that reaches: the last one in block order
        C=[x for x in self.fn.users.get(r,[]) if x['op']=='call' and (self.fn.callee(x) or '').endswith('const_iterator::const_iterator') and x['o'][0]==r]
        D_=self.fn.doms()
        C=[x for x in C if self.fn.blk[x['i']] in D_[self.fn.blk[D['i']]] and (self.fn.blk[x['i']]!=self.fn.blk[D['i']] or x['i']<D['i'])]
        if not C: return None
        x=max(C,key=lambda x:(len(D_[self.fn.blk[x['i']]]),x['i']))
        s=self.row(x['o'][1],x['o'][2])
        return s
    def row(self,setop,idx):
        r,p=self.aff.addr(setop)
        return (self.setname(r),self.poly(idx).key())
    # conditions ----------------------------------------------------------
    def ival(self,o,d=0):
        """integer or boolean value under the assumptions, else None"""
        if d>12: return None
        if isinstance(o,str) and o[0]=='c' and o[1:].lstrip('-').isdigit(): return int(o[1:])
        if isinstance(o,str) and o[0]=='a' and o[1:].isdigit():
            return self.assume.get(('a',int(o[1:])))
        I=self.fn.get(o)
        if I is None: return None
        g=self.gates(self,I)
        if g is not None: return int(g)
        c=self.aff.classify(I)
        if c in self.assume: return self.assume[c]
        x=[self.ival(q,d+1) for q in I.get('o',[]) if isinstance(q,str)] if I['op'] not in('phi','load','call') else None
        op=I['op']
        if op in('zext','freeze','trunc','sext'): return x[0]
        if op=='and':
            if 0 in x: return 0
            return None if None in x else x[0]&x[1]
        if op=='or':
            if I.get('t')=='i1' and any(v is not None and v&1 for v in x): return 1
            return None if None in x else x[0]|x[1]
        if op=='xor': return None if None in x else (x[0]^x[1])&(1 if I.get('t')=='i1' else -1)
        if op=='select':
            if x[0] is None: return x[1] if x[1]==x[2] else None
            return x[1] if x[0]&1 else x[2]
        if op=='icmp' and None not in x:
            a,b=x; pr=I['pred']
            if pr in('eq','ne'): return int((a==b)==(pr=='eq'))
            if a>=0 and b>=0: return int({'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[pr[1:]])
        return None
    def succs(self,b):
        t=self.fn.blocks[b][-1]
        if t['op']=='br' and len(t['o'])==3:
            v=self.ival(t['o'][0])
            if v is not None: return [int(t['o'][1 if v&1 else 2][1:])]
        return self.fn.succs(b)
    # transfer ------------------------------------------------------------
    def inc(self,st,row): return st.get(row, frozenset([row]))
    def block(self,b,st):
        st=dict(st)
        for I in self.fn.blocks[b]:
            if I['op']=='store' and self.flagroot is not None:
                r,p=self.aff.addr(I['o'][1])
                if r==self.flagroot:
                    row=('flag',self.polyp(p).key())
                    v=I['o'][0]
                    if v in('c1','c-1'): st[row]=frozenset(['set'])
                    else:
                        # flag = flag | other
                        s=self.flagval(v); st[row]=self.inc(st,row)|s if s is not None and ('flag',row[1]) in s else (s or frozenset())
                continue
            if I['op']!='call': continue
            q=self.fn.callee(I) or ''
            n=strip(q); o=I['o']
            if n not in('assignment','binary_union','clear','add_element','post_element','binary_intersection','process_post','resize','swap'): continue
            if not o: continue
            r,p=self.aff.addr(o[0]); s=self.setname(r)
            if s is None: continue
            if n in('process_post','resize','swap'): continue
            t=self.row(o[0],o[1])
            if n=='clear': st[t]=frozenset()
            elif n=='assignment': st[t]=self.inc(st,self.row(o[3],o[2]))
            elif n=='binary_union': st[t]=self.inc(st,self.row(o[0],o[2]))|self.inc(st,self.row(o[4],o[3]))
            elif n=='binary_intersection': st[t]=self.inc(st,self.row(o[0],o[2]))&self.inc(st,self.row(o[4],o[3]))
            elif n in('add_element','post_element'): st[t]=self.inc(st,t)|frozenset([('element',self.poly(o[2]).key())])
        return st
    def flagval(self,v,d=0):
        """rows a stored flag value is the disjunction of"""
        I=self.fn.get(v)
        if I is None or d>8: return None
        if I['op']=='load':
            r,p=self.aff.addr(I['o'][0])
            if r==self.flagroot: return frozenset([('flag',self.polyp(p).key())])
            return None
        if I['op'] in('zext','trunc','freeze'): return self.flagval(I['o'][0],d+1)
        if I['op']=='icmp' and I['pred']=='ne': return self.flagval(I['o'][0],d+1)
        if I['op']=='or':
            r=frozenset()
            for x in I['o']:
                s=self.flagval(x,d+1)
                if s is not None: r|=s
            return r
        if I['op']=='select' and I['o'][1] in('true','c1','c-1'):
            r=frozenset()
            for x in(I['o'][0],I['o'][2]):
                s=self.flagval(x,d+1)
                if s is not None: r|=s
            return r
        return None
    @staticmethod
    def meet(a,b,default):
        if a is None: return b
        if b is None: return a
        r={}
        for k in set(a)|set(b):
            x=a.get(k,default(k)); y=b.get(k,default(k)); r[k]=x&y
        return r
    def solve(self,may=False):
        """facts at the end of one iteration of the operator loop"""
        fn=self.fn; body=self.loop.body; h=self.loop.h
        inner={L.h:L for L in self.aff.loops if L is not self.loop and L.h in body}
        order=[]; seen=set()
        def dfs(b):
            seen.add(b)
            for s in self.succs(b):
                if s in body and s!=h and s not in seen: dfs(s)
            order.append(b)
        import sys; sys.setrecursionlimit(10000)
        dfs(h); order.reverse()
        preds={}
        for b in order:
            for s in self.succs(b): preds.setdefault(s,[]).append(b)
        def default(k): return frozenset() if k[0]=='q' else frozenset([k])
        def back(b,L,o):
            """facts on a back edge: those that hold for every iteration, and the gains
            of this iteration quantified over the loop variable"""
            iv,cl=self.closer(L); o2={}; gains={}
            for k,v in o.items():
                kk=cl(k) if iv and ment(k,iv) else k
                if kk is None: continue
                vv=frozenset(x for x in (cl(x) if iv and ment(x,iv) else x for x in v) if x is not None)
                if kk!=k: gains[kk]=vv
                else:
                    g=frozenset(x for x in vv if x not in v)
                    if g: gains[kk]=g
                    o2[k]=vv
            return o2,gains
        closed={}
        for outer in range(6):
            out={}
            for rnd in range(12):
                ch=False
                for b in order:
                    if b==h: st={}
                    else:
                        st=None; L=inner.get(b)
                        for p in preds.get(b,[]):
                            if p not in out: continue
                            o=out[p]
                            if L is not None and p in L.body: o,_=back(b,L,o)
                            st=self.meet(st,o,default)
                        if st is None: continue
                        if L is not None:
                            for k,v in closed.get(b,{}).items(): st[k]=st.get(k,default(k))|v
                    o=self.block(b,st)
                    if out.get(b)!=o: out[b]=o; ch=True
                if not ch: break
            else: raise ValueError('set facts do not converge')
            new={}
            for b,L in inner.items():
                g=None
                for p in preds.get(b,[]):
                    if p in L.body and p in out:
                        gp=back(b,L,out[p])[1]
                        g=gp if g is None else {k:g[k]&gp[k] for k in g if k in gp}
                if g: new[b]=g
            if new==closed: break
            closed=new
        res=None; ends=0
        for b in order:
            for s in self.succs(b):
                if s==h:
                    if b in out: res=self.meet(res,out[b],default); ends+=1
        self.ends=ends
        return res
    def closer(self,L):
        """loop variable and the map of a row quantified over it"""
        for a,(L2,row) in self.elem.items():
            if L2 is L:
                # the loop ends only when the element reaches the end of the set
                ok=False
                for b in L.body:
                    for s in self.fn.succs(b):
                        if s in L.body: continue
                        t=self.fn.blocks[b][-1]; c=self.fn.get(t['o'][0])
                        if c is None or c['op']!='icmp': return a,lambda r:None
                        d=self.poly(c['o'][0])-self.poly(c['o'][1])
                        co,rem=d.coef(a)
                        if not co.isconst() or abs(co.cval())!=1: return a,lambda r:None
                        bound=rem.scale(-1/co.cval())
                        stay=int(t['o'][1][1:]) in L.body
                        pr=c['pred']
                        if co.cval()<0: pr={'ult':'ugt','ugt':'ult','ule':'uge','uge':'ule'}.get(pr,pr)
                        good={(True,'ult'),(True,'ne'),(False,'uge'),(False,'eq')}
                        if (stay,pr) not in good or not self.endpoly(self,bound): return a,lambda r:None
                        ok=True
                def cl(r,a=a,row=row):
                    if isinstance(r,tuple) and len(r)==2 and r[1]==Poly.atom(a).key(): return ('q',(r[0],'elem',row))
                    return None
                return a,cl
        if L.iv is not None:
            ex=[(b,s) for b in L.body for s in self.fn.succs(b) if s not in L.body]
            if len(ex)!=1: return L.iv,lambda r:None
            lo,hi=self.polyp(L.lo),self.polyp(L.hi)
            if self.fn.blocks[ex[0][0]][-1]['op']!='br': return L.iv,lambda r:None
            return L.iv,lambda r:('q',(r,'range',L.iv,lo.key(),hi.key()))
        return None,lambda r:r
def ment(x,a):
    if x==a: return True
    if isinstance(x,(tuple,frozenset)): return any(ment(y,a) for y in x)
    return False
