"""Path sensitive value flow with memory regions, for residual functions whose loops have
been unrolled for sample sizes (or whose remaining loops are entered a bounded number of
times).  No solver: conditions are labels, a path never takes a label both ways.

Every write is kept in order, so the contents of an array just before any event can be
asked for afterwards: content(state, event, region, offset)."""
import ir
SZ={'i1':1,'i8':1,'i16':2,'i32':4,'i64':8,'double':8,'float':4,'ptr':8}
class Ev:
    __slots__=('q','a','I','n','id','slot','conds')
class St:
    __slots__=('env','w','ev','conds','nid')
    def __init__(s): s.env={}; s.w=[]; s.ev=[]; s.conds={}; s.nid=0
    def copy(s):
        t=St(); t.env=dict(s.env); t.w=list(s.w); t.ev=list(s.ev); t.conds=dict(s.conds); t.nid=s.nid; return t
    # ---- memory
    def read(s,p,size,isptr=False,upto=None):
        _,reg,off,sym=p
        w=s.w if upto is None else s.w[:upto]
        return s._read(w,reg,off,sym,size,isptr)
    def _read(s,w,reg,off,sym,size,isptr,d=0):
        ver=0
        if d>20: return ('u','deep')
        for k in range(len(w)-1,-1,-1):
            x=w[k]
            if x[0]!=reg: continue
            kind=x[1]
            if kind=='havoc': ver=x[2]; break
            if kind=='st':
                _,_,o2,s2,n2,v=x
                if s2==sym:
                    if o2==off and n2==size: return v
                    if o2+n2<=off or off+size<=o2: continue
                    return ('u','part')
                if not disjoint(s2,o2,n2,sym,off,size): return ('u','alias')
                continue
            if kind=='set':
                _,_,o2,n2,b=x
                if sym: return ('u','alias')
                if o2<=off and off+size<=o2+n2: return ('c',0) if b==0 else ('u','memset')
                if o2+n2<=off or off+size<=o2: continue
                return ('u','part')
            if kind=='cpy':
                _,_,o2,s2,n2,src=x
                if s2!=sym: return ('u','alias')
                if o2<=off and off+size<=o2+n2: return s._read(w[:k],src[1],src[2]+off-o2,src[3],size,isptr,d+1)
                if o2+n2<=off or off+size<=o2: continue
                return ('u','part')
        if isptr: return ('p',('blk',reg,off,sym,ver),0,())
        return ('in',reg,off,sym,ver)
def disjoint(s1,o1,n1,s2,o2,n2): return False
def const(o):
    if isinstance(o,str):
        if o[0]=='c' and o[1:].lstrip('-').isdigit(): return ('c',int(o[1:]))
        if o in('true','false'): return ('c',int(o=='true'))
        if o[0]=='f':
            try: return ('f',float(o[1:]))
            except ValueError: return ('u',o)
        if o=='null': return ('c',0)
    return None
def add(x,y):
    t={}; c=0
    for e in(x,y):
        if e[0]=='sum':
            for m,k in e[1]: t[m]=t.get(m,0)+k
            c+=e[2]
        elif e[0]=='c': c+=e[1]
        else: t[e]=t.get(e,0)+1
    t={m:k for m,k in t.items() if k}
    if not t: return ('c',c)
    if len(t)==1 and c==0:
        (m,k),=t.items()
        if k==1: return m
    return ('sum',tuple(sorted(t.items(),key=repr)),c)
def scale(x,k):
    if x[0]=='c': return ('c',x[1]*k)
    if k==1: return x
    if k==0: return ('c',0)
    if x[0]=='sum': return ('sum',tuple((m,c*k) for m,c in x[1]),x[2]*k)
    return ('sum',((x,k),),0)
class Flow:
    """call(st, q, args, I) -> None (default: event that defines nothing), or
       ('val', v): pure, or ('ev', v or None, regions): event
       with result v that (re)defines regions, or ('stop',): the path ends here"""
    def __init__(self,fn,call,limit=6000,visits=2):
        self.fn=fn; self.call=call; self.limit=limit; self.visits=visits; self.paths=[]; self.cut=False
    def val(self,s,o):
        c=const(o)
        if c is not None: return c
        if isinstance(o,str):
            if o[0]=='%': return s.env.get(o,('u',o))
            if o[0]=='a' and o[1:].isdigit():
                k=int(o[1:]); return ('p',('arg',k),0,()) if self.fn.args[k]['t']=='ptr' else ('arg',k)
            if o.startswith('g:'): return ('p',('g',o[2:]),0,())
            if o.startswith('G:'):
                _,k,r=o.split(':',2); return ('p',('g',r[2:] if r.startswith('g:') else r),int(k),())
        return ('u',o)
    def gep(self,b,off,idx):
        if b[0]!='p': return ('u','gep')
        t=('c',off)
        for y,sc in idx: t=add(t,scale(y,sc))
        o=b[2]; sym=dict(b[3])
        if t[0]=='c': o+=t[1]
        else:
            if t[0]=='sum': ms,k=t[1],t[2]
            else: ms,k=((t,1),),0
            o+=k
            for m,c in ms: sym[m]=sym.get(m,0)+c
        return ('p',b[1],o,tuple(sorted(((m,c) for m,c in sym.items() if c),key=repr)))
    def step(self,s,I):
        op=I['op']; me='%%%d'%I['i']; o=I.get('o',[]); v=lambda k:self.val(s,o[k])
        if op=='alloca': s.env[me]=('p',('al',me),0,()); return
        if op=='getelementptr':
            s.env[me]=self.gep(self.val(s,I['base']),I['off'],[(self.val(s,x),int(sc)) for x,sc in I['idx']]); return
        if op=='load':
            p=v(0); t=I.get('t')
            if p[0]=='sel': s.env[me]=('u','load'); return
            s.env[me]=s.read(p,SZ.get(t,8),t=='ptr') if p[0]=='p' else ('ld',p); return
        if op=='store':
            p=v(1)
            if p[0]!='p': s.w.append((('?',p),'st',0,(),8,v(0))); return
            x=v(0); s.w.append((p[1],'st',p[2],p[3],self.size(o[0],I),x)); return
        if op in('call','invoke'):
            q=self.fn.callee(I) or ''
            if q.startswith(('llvm.lifetime','llvm.assume','llvm.dbg','llvm.experimental')): return
            if q.startswith('llvm.threadlocal.address'): s.env[me]=v(0); return
            if q.startswith(('llvm.memcpy','llvm.memmove')):
                d,x,n=v(0),v(1),v(2)
                if d[0]=='p' and x[0]=='p' and n[0]=='c': s.w.append((d[1],'cpy',d[2],d[3],n[1],x))
                elif d[0]=='p': s.nid+=1; s.w.append((d[1],'havoc',('h',s.nid)))
                return
            if q.startswith('llvm.memset'):
                d,b,n=v(0),v(1),v(2)
                if d[0]=='p' and n[0]=='c' and not d[3] and b[0]=='c': s.w.append((d[1],'set',d[2],n[1],b[1]))
                elif d[0]=='p': s.nid+=1; s.w.append((d[1],'havoc',('h',s.nid)))
                return
            a=tuple(self.val(s,x) for x in o)
            if q.startswith(('llvm.umax','llvm.umin','llvm.smax','llvm.smin')) and a[0][0]=='c' and a[1][0]=='c':
                s.env[me]=('c',(max if 'max' in q else min)(a[0][1],a[1][1])); return
            e=Ev(); e.q=q; e.a=a; e.I=I; e.n=len(s.w); e.slot=None; e.conds=None
            if q=='INDIRECT':
                f=self.val(s,I['fv']) if 'fv' in I else ('u','?')
                if f[0]=='p' and f[1][0]=='blk' and f[1][1][0]=='blk': e.slot=f[1][2]
            r=self.call(s,q,a,e)
            if r is not None and r[0]=='val': s.env[me]=r[1]; return
            if r is not None and r[0]=='stop': s.nid+=1; e.id=s.nid; s.ev.append(e); s.env['stop']=True; return
            s.nid+=1; e.id=s.nid; s.ev.append(e)
            s.env[me]=('p',('ret',s.nid),0,()) if I.get('t')=='ptr' else ('ev',s.nid)
            if r is not None and r[0]=='ev':
                if r[1] is not None: s.env[me]=r[1]
                for g in r[2]: s.w.append((g,'havoc',('out',s.nid)))
            return
        if op=='icmp': s.env[me]=self.cmp(I['pred'],v(0),v(1)); return
        if op=='select':
            c=v(0)
            if c[0]=='c': s.env[me]=v(1) if c[1]&1 else v(2)
            elif v(1)==v(2): s.env[me]=v(1)
            else: s.env[me]=('sel',c,v(1),v(2))
            return
        if op in('zext','sext','freeze','bitcast','ptrtoint','inttoptr'): s.env[me]=v(0); return
        if op=='trunc':
            x=v(0); s.env[me]=('c',x[1]&1) if x[0]=='c' and I.get('t')=='i1' else x; return
        if op in('add','sub'):
            x,y=v(0),v(1)
            if x[0] in('p','u','f') or y[0] in('p','u','f'): s.env[me]=(op,x,y); return
            r=add(x,y if op=='add' else scale(y,-1))
            w={'i8':8,'i32':32,'i64':64}.get(I.get('t'))
            if r[0]=='c' and w: r=('c',(r[1]+(1<<(w-1)))%(1<<w)-(1<<(w-1)))
            s.env[me]=r; return
        if op in('mul','shl'):
            x,y=v(0),v(1)
            if op=='shl' and y[0]=='c' and 0<=y[1]<64: y=('c',1<<y[1])
            elif op=='shl': s.env[me]=(op,x,y); return
            if y[0]=='c': s.env[me]=scale(x,y[1])
            elif x[0]=='c': s.env[me]=scale(y,x[1])
            else: s.env[me]=('mul',)+tuple(sorted((x,y),key=repr))
            return
        if op in('lshr','udiv','urem','sdiv','srem','ashr'):
            x,y=v(0),v(1)
            if x[0]=='c' and y[0]=='c' and x[1]>=0 and y[1]>=0 and (op in('lshr','ashr') or y[1]):
                s.env[me]=('c',{'lshr':x[1]>>min(y[1],64),'ashr':x[1]>>min(y[1],64)}.get(op,x[1]//max(y[1],1) if 'div' in op else x[1]%max(y[1],1))); return
            s.env[me]=(op,x,y); return
        if op in('and','or','xor'):
            x,y=v(0),v(1)
            if x[0]=='c' and y[0]=='c': 
                r={'and':x[1]&y[1],'or':x[1]|y[1],'xor':x[1]^y[1]}[op]; s.env[me]=('c',r&1 if I.get('t')=='i1' else r); return
            if x[0]=='c': x,y=y,x
            if y[0]=='c':
                k=y[1]&1
                if I.get('t')=='i1' or boolean(x):
                    if op=='xor': s.env[me]=neg(x) if k else x; return
                    if op=='and' and (I.get('t')=='i1' or y[1] in(0,1)): s.env[me]=x if k else ('c',0); return
                    if op=='or' and (I.get('t')=='i1' or y[1] in(0,1)): s.env[me]=('c',1) if k else x; return
                if y[1]==0: s.env[me]=x if op!='and' else y; return
                if op=='and' and y[1] in(1,255): s.env[me]=x; return
            s.env[me]=(op,x,y); return
        if 't' in I: s.env[me]=(op,)+tuple(self.val(s,x) for x in o if isinstance(x,str))
    def size(self,o,I):
        t=I.get('st') or I.get('t')
        if t in SZ: return SZ[t]
        J=self.fn.get(o)
        if J is not None: return SZ.get(J.get('t'),8)
        if o[0]=='a' and o[1:].isdigit(): return SZ.get(self.fn.args[int(o[1:])]['t'],8)
        return 8
    def cmp(self,pr,a,b):
        if a[0]=='c' and b[0]=='c':
            x,y=a[1],b[1]
            if pr in('eq','ne'): return ('c',int((x==y)==(pr=='eq')))
            if pr[0]=='u': x&=(1<<64)-1; y&=(1<<64)-1
            return ('c',int({'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[pr[1:]]))
        if a==b and a[0]!='u': return ('c',int(pr in('eq','ule','uge','sle','sge')))
        if a[0]=='p' and b==('c',0) or b[0]=='p' and a==('c',0):
            p=a if a[0]=='p' else b
            if p[1][0] in('al','g','arg','obj','tape'): return ('c',int(pr=='ne'))
        if a[0]=='p' and b[0]=='p' and a[1]==b[1] and a[3]==b[3] and pr in('eq','ne'): return ('c',int((a[2]==b[2])==(pr=='eq')))
        if a[0]=='c': a,b=b,a; pr={'ult':'ugt','ugt':'ult','ule':'uge','uge':'ule','slt':'sgt','sgt':'slt','sle':'sge','sge':'sle'}.get(pr,pr)
        if b==('c',0) and pr in('eq','ne') and boolean(a): return a if pr=='ne' else neg(a)
        # canonical direction: eq, lt  (a<=k is a<k+1)
        if b[0]=='c' and pr in('ule','sle'): return ('cmp','lt',a,('c',b[1]+1))
        if b[0]=='c' and pr in('ugt','sgt'): return neg(('cmp','lt',a,('c',b[1]+1)))
        if pr in('ult','slt'): return ('cmp','lt',a,b)
        if pr in('uge','sge'): return neg(('cmp','lt',a,b))
        if pr in('ugt','sgt'): return ('cmp','lt',b,a)
        if pr in('ule','sle'): return neg(('cmp','lt',b,a))
        if pr=='ne': return neg(('cmp','eq',a,b))
        return ('cmp','eq',a,b)
    def truth(self,s,c):
        if c[0]=='c': return [(bool(c[1]&1),[])]
        if c[0]=='not': return [(not t,l) for t,l in self.truth(s,c[1])]
        if c in s.conds: return [(s.conds[c],[])]
        if c[0] in('and','or'):
            r=[]
            for t,l in self.truth(s,c[1]):
                if t==(c[0]=='or'): r.append((t,l))
                else: r+=[(t2,l+l2) for t2,l2 in self.truth(s,c[2])]
            return r
        if c[0]=='sel':
            return [(t2,l+l2) for t,l in self.truth(s,c[1]) for t2,l2 in self.truth(s,c[2] if t else c[3])]
        if c[0]=='cmp' and c[1]=='eq' and c[3][0]=='c':
            for k,t in s.conds.items():
                if t and k[0]=='cmp' and k[1]=='eq' and k[2]==c[2] and k[3][0]=='c' and k[3]!=c[3]: return [(False,[])]
        if c[0]=='cmp' and c[3][0]=='c':
            for k,t in s.conds.items():
                if t and k[0]=='cmp' and k[1]=='eq' and k[2]==c[2] and k[3][0]=='c': return [((k[3][1]==c[3][1]) if c[1]=='eq' else k[3][1]<c[3][1],[])]
                if c[1]=='lt' and k[0]=='cmp' and k[1]=='lt' and k[2]==c[2] and k[3][0]=='c':
                    if t and k[3][1]<=c[3][1]: return [(True,[])]
                    if not t and k[3][1]>=c[3][1]: return [(False,[])]
        return [(True,[(c,True)]),(False,[(c,False)])]
    def run(self,init=None):
        fn=self.fn; st=[(0,None,init or St(),{})]; ret=self.paths
        while st:
            b,pred,s,vis=st.pop()
            if len(self.paths)+len(st)>self.limit: raise OverflowError('too many paths')
            if vis.get(b,0)>=400: self.cut=True; continue
            vis=dict(vis); vis[b]=vis.get(b,0)+1
            blk=fn.blocks[b]; term=blk[-1] if blk else None; ph={}
            for I in blk:
                if I['op']=='phi':
                    for x,pb in I['o']:
                        if pred is not None and int(str(pb).lstrip('b'))==pred: ph['%%%d'%I['i']]=self.val(s,x)
                    continue
                if ph: s.env.update(ph); ph={}
                if I is term: break
                self.step(s,I)
                if 'stop' in s.env: break
            if 'stop' in s.env: s.env['ret']=None; ret.append(s); continue
            if ph: s.env.update(ph)
            if term is None or term['op']=='unreachable': continue
            if term['op']=='ret':
                s.env['ret']=self.val(s,term['o'][0]) if term.get('o') else None
                ret.append(s); continue
            if term['op']=='br' and len(term['o'])==3:
                ways=self.truth(s,self.val(s,term['o'][0]))
                if len(ways)>1:
                    if vis.get(('s',b),0)>=self.visits: self.cut=True; continue
                    vis[('s',b)]=vis.get(('s',b),0)+1
                for t,l in ways: self.fork(st,s,l,int(term['o'][1 if t else 2][1:]),b,vis)
                continue
            if term['op']=='switch':
                x=self.val(s,term['o'][0])
                cases=[(('c',int(str(c[0]).lstrip('c'))),int(c[1][1:])) for c in term['cases']]
                if x[0]=='c':
                    d=[t for c,t in cases if c==x]
                    st.append((d[0] if d else int(term['dflt'][1:]),b,s,vis)); continue
                for i in range(len(cases)+1):
                    l=[(('cmp','eq',x,c),k==i) for k,(c,t) in enumerate(cases)]
                    n=s.copy(); bad=False
                    for (c,w) in l:
                        r=self.truth(n,c)
                        if len(r)==1 and r[0][0]!=w: bad=True; break
                        n.conds[c]=w
                    if not bad: st.append((cases[i][1] if i<len(cases) else int(term['dflt'][1:]),b,n,vis))
                continue
            ss=fn.succs(b)
            if term['op']=='invoke':
                self.step(s,term); ss=ss[:1]
                if 'stop' in s.env: s.env['ret']=None; ret.append(s); continue
            for k in ss: st.append((k,b,s.copy() if len(ss)>1 else s,vis))
        return self.paths
    def fork(self,st,s,l,to,b,vis):
        n=s.copy()
        for c,w in l:
            if n.conds.get(c,w)!=w: return
            n.conds[c]=w
        st.append((to,b,n,vis))
def boolean(e):
    if e[0] in('cmp','not'): return True
    if e[0] in('and','or','xor'): return boolean(e[1]) and boolean(e[2])
    if e[0]=='sel': return all(boolean(x) or x in(('c',0),('c',1)) for x in e[2:4])
    return e[0]=='call' and len(e)>1 and e[1].startswith(('vb_id','vb_is'))
def neg(e):
    if e[0]=='not': return e[1]
    if e[0]=='c': return ('c',1-(e[1]&1))
    return ('not',e)
def resolve(e,conds):
    if not isinstance(e,tuple): return e
    if e and e[0]=='sel':
        c=e[1]; n=False
        while c[0]=='not': c=c[1]; n=not n
        if c in conds: return resolve(e[2] if conds[c]!=n else e[3],conds)
    return tuple(resolve(x,conds) for x in e)
