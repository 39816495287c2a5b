"""Control dependence and the boolean product used for early-exit tests."""
import ir
def postdoms(fn,cut=None):
    R=sorted(fn.reachable()); ex=-1
    # the back edges of the operator loop end the handling of one operator
    succ={b:[ex if cut is not None and s==cut[0] and b in cut[1] else s for s in fn.succs(b)] or [ex] for b in R}
    allb=set(R)|{ex}; pd={b:set(allb) for b in R}; pd[ex]={ex}
    order=list(reversed(R)); ch=True
    while ch:
        ch=False
        for b in order:
            n=set.intersection(*[pd[s] for s in succ[b]])|{b}
            if n!=pd[b]: pd[b]=n; ch=True
    return pd
class CD:
    """control dependence: deps(b) -> set of (branch block, successor index) transitively"""
    def __init__(self,fn,cut=None):
        self.fn=fn; pd=postdoms(fn,cut); self.pd=pd; self.direct={}
        for c in fn.reachable():
            ss=fn.succs(c)
            if len(ss)<2: continue
            for s in ss:
                if cut is not None and s==cut[0] and c in cut[1]: continue
                for b in pd[s]:
                    if b==-1: continue
                    if b==c or b not in pd[c]: self.direct.setdefault(b,set()).add((c,s))
        self.memo={}
    def deps(self,b):
        if b in self.memo: return self.memo[b]
        seen=set(); st=[b]; vis={b}
        while st:
            x=st.pop()
            for c,s in self.direct.get(x,()):
                seen.add((c,s))
                if c not in vis: vis.add(c); st.append(c)
        self.memo[b]=seen; return seen

def skip_reach(fn, start, target, leaf, limit=20000):
    """Boolean product: walks the control flow graph from block `start`
    tracking i1 values; calls accepted by leaf(I) may return either value.
    Returns the set of blocks reachable after some leaf call returned false,
    and those reachable with every leaf call true."""
    seen=set(); bad=set(); good=set(); st=[(start,None,frozenset(),False)]
    def val(env,o):
        if o in('c0','false'): return False
        if o in('c1','c-1','true'): return True
        return env.get(o)
    while st:
        if len(seen)>limit: return None
        b,pred,envf,flag=st.pop()
        env=dict(envf); new={}
        forks=[(env,flag)]
        for I in fn.blocks[b]:
            me='%%%d'%I['i']; t=I.get('t')
            if I['op']=='phi':
                if t=='i1' or t=='i8':
                    for v,pb in I['o']:
                        if pred is not None and int(str(pb).lstrip('b'))==pred:
                            for e,fl in forks: new[me]=val(e,v)
                continue
            if new:
                for e,fl in forks: e.update({k:v for k,v in new.items()})
                new={}
            if t not in('i1','i8'): continue
            nf=[]
            for e,fl in forks:
                if I['op']=='call' and leaf(I):
                    a=dict(e); a[me]=True; nf.append((a,fl)); a=dict(e); a[me]=False; nf.append((a,True)); continue
                x=[val(e,o) for o in I.get('o',[]) if isinstance(o,str)]
                r=None
                if I['op']=='and': r=False if False in x else (None if None in x else True)
                elif I['op']=='or': r=True if True in x else (None if None in x else False)
                elif I['op']=='xor': r=None if None in x else x[0]!=x[1]
                elif I['op'] in('zext','trunc','freeze'): r=x[0]
                elif I['op']=='select': r=None if x[0] is None else (x[1] if x[0] else x[2])
                elif I['op']=='icmp' and len(x)==2 and None not in x: r={'eq':x[0]==x[1],'ne':x[0]!=x[1]}.get(I['pred'])
                e[me]=r; nf.append((e,fl))
            forks=nf
        if new:
            for e,fl in forks: e.update(new)
        t=fn.blocks[b][-1]
        for e,fl in forks:
            ss=fn.succs(b)
            if t['op']=='br' and len(t['o'])==3:
                c=val(e,t['o'][0])
                if c is not None: ss=[int(t['o'][1 if c else 2][1:])]
            for s in ss:
                ef=frozenset((k,v) for k,v in e.items() if v is not None)
                k=(s,b,ef,fl)
                if k in seen: continue
                seen.add(k)
                (bad if fl else good).add(s)
                if s in target: continue
                st.append((s,b,ef,fl))
    return bad,good

def prune(fn, aff, assume, gate=lambda I: None):
    """the function with every branch that is decided by the assumed values of
    the atoms (argument slots) made unconditional"""
    def ival(o,d=0):
        if d>12: return None
        if isinstance(o,str) and o[0]=='c' and o[1:].lstrip('-').isdigit(): return int(o[1:])
        if o in('true','false'): return int(o=='true')
        if isinstance(o,str) and o[0]=='a' and o[1:].isdigit(): return assume.get(('a',int(o[1:])))
        I=fn.get(o)
        if I is None: return None
        g=gate(I)
        if g is not None: return g
        c=aff.classify(I)
        if c in assume: return assume[c]
        if I['op'] in('phi','load','call'): return None
        x=[ival(q,d+1) for q in I.get('o',[]) if isinstance(q,str)]; op=I['op']
        if op in('zext','freeze','trunc','sext'): return x[0]
        if op=='and': return 0 if 0 in x else None if None in x else x[0]&x[1]
        if op=='or': return None if None in x else x[0]|x[1]
        if op=='xor': return None if None in x else (x[0]^x[1])&(1 if I.get('t')=='i1' else -1)
        if op in('shl','lshr') and None not in x: return x[0]<<x[1] if op=='shl' else x[0]>>x[1]
        if op=='icmp' and None not in x:
            a,b=x; pr=I['pred']
            if pr in('eq','ne'): return int((a==b)==(pr=='eq'))
            if a>=0 and b>=0: return int({'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[pr[1:]])
        return None
    nb=[]; dead=set()
    for b,blk in enumerate(fn.blocks):
        blk=list(blk); t=blk[-1] if blk else None
        if t is not None and t['op']=='br' and len(t['o'])==3:
            v=ival(t['o'][0])
            if v is not None:
                k,o=(t['o'][1],t['o'][2]) if v&1 else (t['o'][2],t['o'][1])
                n=dict(t); n['o']=[k]; blk[-1]=n
                if o!=k: dead.add((b,int(o[1:])))
        nb.append(blk)
    # selects decided by the assumptions; operands of dead edges
    seen={0}; st=[0]
    while st:
        b=st.pop()
        for x in (ir.succ_of(nb[b][-1]) if nb[b] else []):
            if x not in seen: seen.add(x); st.append(x)
    for b,blk in enumerate(nb):
        for j,I in enumerate(blk):
            if I['op']=='phi':
                o=[x for x in I['o'] if (int(str(x[1]).lstrip('b')),b) not in dead and int(str(x[1]).lstrip('b')) in seen]
                if len(o)!=len(I['o']): I=dict(I); I['o']=o; blk[j]=I
            elif I['op']=='select':
                v=ival(I['o'][0])
                if v is not None: I=dict(I); I['op']='freeze'; I['o']=[I['o'][1 if v&1 else 2]]; blk[j]=I
    for b in range(len(nb)):
        if b not in seen: nb[b]=[]
    d=dict(fn.d); d['blocks']=nb
    return ir.Fn(fn.name,d,fn.mod)
