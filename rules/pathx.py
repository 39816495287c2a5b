"""Path-sensitive value flow over loop-free residual functions.

States are partitioned by the branches taken (a disjunctive domain, no solver):
every value is a term over the opaque calls of the harness, memory of local
objects is tracked by offset, calls that are not pure become events."""
import ir
def strip(q): return q.split('::')[-1]
class St:
    __slots__=('env','mem','ev','conds','nloc')
    def __init__(s): s.env={}; s.mem={}; s.ev=[]; s.conds={}; s.nloc=0
    def copy(s):
        t=St(); t.env=dict(s.env); t.mem=dict(s.mem); t.ev=list(s.ev); t.conds=dict(s.conds); return t
def base_of(p):
    while isinstance(p,tuple) and p[0] in('idx','off') : p=p[1]
    return p
def const(o):
    if isinstance(o,str):
        if o[0]=='c' and o[1:].lstrip('-').isdigit(): return ('c',int(o[1:]))
        if o in('true','false'): return ('c',int(o=='true'))
        if o[0]=='f':
            try: return ('f',float(o[1:]))
            except ValueError: return ('u',o)
        if o=='null': return ('c',0)
    return None
def isbool(e):
    if e[0] in('cmp','not'): return True
    if e[0] in('and','or','xor'): return all(isbool(x) or x in(('c',0),('c',1)) for x in e[1:3]) and any(isbool(x) for x in e[1:3])
    if e[0]=='sel': return all(isbool(x) or x in(('c',0),('c',1)) for x in e[2:4])
    return False
class Walk:
    hav=()   # headers of loops whose merges have no known value
    def __init__(self,fn,pure,globals_={},readonly=lambda q:False,limit=4000,visits=2,deref=True):
        self.fn=fn; self.pure=pure; self.gl=globals_; self.readonly=readonly; self.limit=limit; self.visits=visits; self.deref=deref
        self.paths=[]; self.loops=False
    # ---- values
    def val(self,s,o):
        c=const(o)
        if c is not None: return c
        if isinstance(o,str):
            if o[0]=='%': return s.env.get(o,('u',o))
            if o[0]=='a' and o[1:].isdigit(): return ('arg',int(o[1:]))
            if o.startswith('g:'): return ('ptr',o,0)
            if o.startswith('G:'):
                _,k,r=o.split(':',2); return ('ptr',r,int(k))
        return ('u',o)
    def load(self,s,p,t,I):
        if p[0]=='ptr':
            k=(p[1],p[2])
            if k in s.mem: return s.mem[k]
            g=self.gl(p[1],p[2]) if callable(self.gl) else None
            if g is not None: return g
            v=('mem0',p[1],p[2]); return v
        if p[0] in('arg','mem0','off','call','ev'):
            k=('*',p)
            if k in s.mem: return s.mem[k]
            return ('load',p,sum(1 for e in s.ev if e[0]=='clobber'))
        if p[0] in('load','idx','pre','phi','sel'):
            k=('*',p)
            if k in s.mem: return s.mem[k]
            r=base_of(p)
            return ('load',p,sum(1 for e in s.ev if e[0]=='store' and base_of(e[1])==r))
        return ('u','load%d'%I['i'])
    def step(self,s,I):
        op=I['op']; me='%%%d'%I['i']; o=I.get('o',[]); v=lambda k:self.val(s,o[k])
        if op=='alloca': s.env[me]=('ptr',me,0); return
        if op=='getelementptr':
            b=self.val(s,I['base']); off=I['off']; ok=True; idx=[]
            for x,sc in I['idx']:
                y=self.val(s,x)
                while y[0]=='add' and y[2][0]=='c': off+=y[2][1]*int(sc); y=y[1]
                if y[0]=='c': off+=y[1]*int(sc)
                else: idx.append((y,int(sc)))
            if b[0]=='off': off+=b[2]; b=b[1]
            elif b[0]=='idx': off+=b[2]; idx=list(b[3])+idx; b=b[1]
            if idx: s.env[me]=('idx',b,off,tuple(idx))
            elif b[0]=='ptr': s.env[me]=('ptr',b[1],b[2]+off)
            else: s.env[me]=('off',b,off) if off else b
            return
        if op=='load': s.env[me]=self.load(s,v(0),I.get('t'),I); return
        if op=='store':
            p=v(1)
            if p[0]=='ptr': s.mem[(p[1],p[2])]=v(0)
            else: s.mem[('*',p)]=v(0); s.ev.append(('store',p,v(0),I))
            return
        if op in('call','invoke'):
            q=self.fn.callee(I) or ''
            if q.startswith('llvm.lifetime') or q.startswith('llvm.assume') or q.startswith('llvm.dbg'): return
            if q.startswith('llvm.memcpy'):
                d,x,n=v(0),v(1),v(2)
                if d[0]=='ptr' and x[0]=='ptr' and n[0]=='c':
                    for k in [k for k in s.mem if k[0]==d[1] and d[2]<=k[1]<d[2]+n[1]]: del s.mem[k]
                    for k in list(s.mem):
                        if k[0]==x[1] and x[2]<=k[1]<x[2]+n[1]: s.mem[(d[1],d[2]+k[1]-x[2])]=s.mem[k]
                    return
            a=tuple(self.val(s,x) for x in o)
            if self.pure(q): s.env[me]=('call',q)+a; return
            aa=tuple(('&',self.load(s,x,None,I)) if self.deref and x[0]=='ptr' and x[1][0]=='%' else x for x in a)
            r=('ev',len(s.ev)); s.ev.append((q,aa,I,r)); s.env[me]=r
            if not self.readonly(q):
                for x in a:
                    if x[0]=='ptr' and x[1][0]=='%':
                        for k in [k for k in s.mem if k[0]==x[1]]: s.mem[k]=('u','clob%d.%d'%(len(s.ev),k[1]))
            return
        if op=='icmp': s.env[me]=self.cmp(I['pred'],v(0),v(1)); return
        if op=='select':
            c=v(0)
            if c[0]=='c': s.env[me]=v(1) if c[1] else v(2)
            elif v(1)==v(2): s.env[me]=v(1)
            else: s.env[me]=('sel',c,v(1),v(2))
            return
        if op in('zext','sext','trunc','freeze','bitcast','ptrtoint','inttoptr'):
            x=v(0); s.env[me]=x if not(op=='trunc' and x[0]=='c' and I.get('t')=='i1') else ('c',x[1]&1); return
        if op in('and','or','xor','add','sub','mul','shl','lshr'):
            x,y=v(0),v(1)
            if x[0]=='c' and y[0]=='c':
                a,b=x[1],y[1]; r={'and':a&b,'or':a|b,'xor':a^b,'add':a+b,'sub':a-b,'mul':a*b,'shl':a<<b if 0<=b<64 else None,'lshr':a>>b if a>=0 and 0<=b<64 else None}.get(op)
                if r is not None:
                    if I.get('t')=='i1': r&=1
                    s.env[me]=('c',r); return
            if op=='xor' and I.get('t')=='i1' and y[0]=='c': s.env[me]=('not',x) if y[1]&1 else x; return
            if op=='and' and ('c',0) in(x,y): s.env[me]=('c',0); return
            if op=='and' and I.get('t')=='i1' and y in(('c',1),('c',-1)): s.env[me]=x; return
            if op=='and' and y==('c',1) and isbool(x): s.env[me]=x; return
            if op=='and' and x==('c',1) and isbool(y): s.env[me]=y; return
            if op=='or' and I.get('t')=='i1' and y in(('c',1),('c',-1)): s.env[me]=('c',1); return
            if op=='sub' and y[0]=='c': op,y='add',('c',-y[1])
            if op in('add','or') and y==('c',0): s.env[me]=x; return
            if op in('add','mul','and','or','xor') and x[0]=='c': x,y=y,x
            if op=='add' and y[0]=='c' and x[0]=='add' and x[2][0]=='c':
                k=x[2][1]+y[1]; s.env[me]=('add',x[1],('c',k)) if k else x[1]; return
            s.env[me]=(op,x,y); return
        if op in('extractvalue','insertvalue') :
            s.env[me]=(op,)+tuple(self.val(s,x) for x in o if isinstance(x,str))+tuple(I.get('ix',[])); return
        if 't' in I: s.env[me]=(op,)+tuple(self.val(s,x) for x in o if isinstance(x,str))
    def cmp(self,pr,a,b):
        if a[0]=='c' and b[0]=='c':
            x,y=a[1],b[1]
            if pr in('eq','ne'): return ('c',int((x==y)==(pr=='eq')))
            if x>=0 and y>=0: return ('c',int({'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[pr[1:]]))
        if pr in('eq','ne') and (a[0]=='add' and a[2][0]=='c' or b[0]=='add' and b[2][0]=='c') :
            x,k=(a[1],a[2][1]) if a[0]=='add' and a[2][0]=='c' else (a,0)
            y,l=(b[1],b[2][1]) if b[0]=='add' and b[2][0]=='c' else (b,0)
            if x==y and 0<abs(k-l)<1<<16: return ('c',int(pr=='ne'))
        if a==b and a[0]!='u': return ('c',int(pr in('eq','ule','uge','sle','sge')))
        if b==('c',0) and pr=='ne' and (a[0]=='call' or isbool(a)) : return a
        if b==('c',0) and pr=='eq' and a[0]=='not': return a[1]
        if b==('c',0) and pr=='eq' and isbool(a): return ('not',a)
        if a[0]=='c': a,b=b,a; pr={'ult':'ugt','ugt':'ult','ule':'uge','uge':'ule','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle'}.get(pr,pr)
        if pr=='ne': return ('not',('cmp','eq',a,b))
        return ('cmp',pr,a,b)
    def truth(self,s,c):
        """-> list of (bool, literal) ways the condition can go, given the conditions so far"""
        if c[0]=='c': return [(bool(c[1]&1),None)]
        if c[0]=='not': return [(not t,l) for t,l in self.truth(s,c[1])]
        if c in s.conds: return [(s.conds[c],None)]
        if c[0]=='and':
            r=[]
            for t,l in self.truth(s,c[1]):
                if not t: r.append((False,l))
                else:
                    for t2,l2 in self.truth(s,c[2]): r.append((t2,(l or [])+(l2 or [])))
            return r
        if c[0]=='or':
            r=[]
            for t,l in self.truth(s,c[1]):
                if t: r.append((True,l))
                else:
                    for t2,l2 in self.truth(s,c[2]): r.append((t2,(l or [])+(l2 or [])))
            return r
        if c[0]=='xor':
            return [(t!=t2,(l or [])+(l2 or [])) for t,l in self.truth(s,c[1]) for t2,l2 in self.truth(s,c[2])]
        if c[0]=='sel':
            r=[]
            for t,l in self.truth(s,c[1]):
                for t2,l2 in self.truth(s,c[2] if t else c[3]): r.append((t2,(l or [])+(l2 or [])))
            return r
        return [(True,[(c,True)]),(False,[(c,False)])]
    def run_loop(self,L):
        """one iteration of loop L from its header: header phis are ('phi',i); every
        state ends either at the back edge (s.env['next'] = {i: value}) or outside"""
        return self.run(L)
    def run(self,L=None):
        fn=self.fn
        if L is None: st=[(0,None,St(),{})]
        else:
            s0=St()
            for I in fn.blocks[L.h]:
                if I['op']=='phi': s0.env['%%%d'%I['i']]=('phi',I['i'])
            self.outer(L,s0)
            st=[(L.h,None,s0,{})]
        while st:
            b,pred,s,vis=st.pop()
            if L is not None and pred is not None and (b==L.h or b not in L.body):
                s.env['exit']=b
                if b==L.h:
                    s.env['next']={I['i']:self.val(s,x) for I in fn.blocks[b] if I['op']=='phi' for x,pb in I['o'] if int(str(pb).lstrip('b'))==pred}
                self.paths.append(s); continue
            if len(self.paths)+len(st)>self.limit: raise OverflowError('too many paths')
            if vis.get(b,0)>=self.visits: self.loops=True; continue
            vis=dict(vis); vis[b]=vis.get(b,0)+1
            ph={}
            term=fn.blocks[b][-1] if fn.blocks[b] else None
            for I in fn.blocks[b]:
                if I['op']=='phi':
                    if L is not None and b==L.h and pred is None: continue
                    if b in self.hav: ph['%%%d'%I['i']]=('phi',I['i'],vis[b]); continue
                    for x,pb in I['o']:
                        if pred is not None and int(str(pb).lstrip('b'))==pred: ph['%%%d'%I['i']]=self.val(s,x)
                    continue
                if ph: s.env.update(ph); ph={}
                if I is term: break
                self.step(s,I)
            if ph: s.env.update(ph)
            if term is None: continue
            if term['op']=='ret':
                s.env['ret']=self.val(s,term['o'][0]) if term.get('o') else None
                self.paths.append(s); continue
            if term['op']=='unreachable': continue
            if term['op']=='br' and len(term['o'])==3:
                for t,l in self.truth(s,self.val(s,term['o'][0])):
                    n=s.copy(); bad=False
                    for c,w in l or []:
                        if n.conds.get(c,w)!=w: bad=True
                        n.conds[c]=w
                    if not bad: st.append((int(term['o'][1 if t else 2][1:]),b,n,vis))
                continue
            if term['op']=='switch':
                x=self.val(s,term['o'][0]) if term.get('o') else ('u','?')
                if x[0]=='c':
                    d=[int(c[1][1:]) for c in term['cases'] if const(c[0])==x or str(c[0])==str(x[1])]
                    st.append((d[0] if d else int(term['dflt'][1:]),b,s,vis)); continue
                if getattr(self,'swconds',False):
                    for i in range(len(term['cases'])+1):
                        n=s.copy(); bad=False
                        for k,(cv,tb) in enumerate(term['cases']):
                            if i<len(term['cases']) and k!=i: continue
                            l=('cmp','eq',x,const(cv) or ('c',int(str(cv).lstrip('c')))); w=k==i
                            if n.conds.get(l,w)!=w: bad=True
                            n.conds[l]=w
                        if not bad: st.append((int((term['cases'][i][1] if i<len(term['cases']) else term['dflt'])[1:]),b,n,vis))
                    continue
            ss=fn.succs(b)
            for k in ss: st.append((k,b,s.copy() if len(ss)>1 else s,vis))
        return self.paths
    def outer(self,L,s):
        """values defined before the loop, as terms"""
        D=self.fn.doms()[L.h]
        for b in sorted(D-{L.h},key=lambda b:len(self.fn.doms()[b])):
            for I in self.fn.blocks[b]:
                if I['op']=='phi': s.env['%%%d'%I['i']]=('phi',I['i'])
                elif I['op'] in('alloca','getelementptr','icmp','zext','sext','trunc','add','sub','mul','and','or','xor','shl','lshr','freeze','select'): self.step(s,I)
                elif I['op']=='load':
                    p=self.val(s,I['o'][0]); s.env['%%%d'%I['i']]=('load',p,0)
                elif I['op'] in('call','invoke'):
                    q=self.fn.callee(I) or ''
                    if self.pure(q): s.env['%%%d'%I['i']]=('call',q)+tuple(self.val(s,x) for x in I['o'])
                    else: s.env['%%%d'%I['i']]=('pre',I['i'])
def resolve(e,conds):
    """selects decided by the path conditions"""
    if not isinstance(e,tuple): return e
    if e[0]=='sel':
        c=e[1]; neg=False
        while c[0]=='not': c=c[1]; neg=not neg
        if c in conds: return resolve(e[2] if conds[c]!=neg else e[3],conds)
    return tuple(resolve(x,conds) for x in e)
