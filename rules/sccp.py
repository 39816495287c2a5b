"""Sparse conditional constant propagation under an assumed case: which blocks can
execute, and what every value is, when an oracle answers loads and opaque calls."""
import ir
TOP=None
def const(o):
    if isinstance(o,str):
        if o[0]=='c' and o[1:].lstrip('-').isdigit(): return ('c',int(o[1:]))
        if o in('true','false'): return ('c',int(o=='true'))
        if o=='null': return ('c',0)
        if o[0]=='f':
            try: return ('f',float(o[1:]))
            except ValueError: return TOP
    return 'no'
class Run:
    def __init__(self,fn,oracle,start=0,blocks=None,entry_env={}):
        """oracle: .load(I,run) .call(q,vals,I) .arg(k) -> value or None"""
        self.fn=fn; self.o=oracle; self.v=dict(entry_env); self.exec=set(); self.edges=set(); self.blocks=blocks; self.exits=set()
        self.start=start
        ch=True; self.exec={start}
        while ch:
            ch=False
            for b in sorted(self.exec):
                if self.block(b): ch=True
    def val(self,o):
        """'bot' when not yet computed"""
        c=const(o)
        if c!='no': return c
        if isinstance(o,str):
            if o[0]=='a' and o[1:].isdigit(): return self.o.arg(int(o[1:]))
            if o[0]=='%':
                k=int(o[1:])
                if k in self.v: return self.v[k]
                if self.blocks is not None and self.fn.blk.get(k) not in self.blocks:
                    I=self.fn.ins.get(k); r=self.o.outside(I,self) if hasattr(self.o,'outside') else None
                    self.v[k]=r; return r
                return 'bot'
        return TOP
    def put(self,k,x):
        if x=='bot': return False
        old=self.v.get(k,'bot')
        if old=='bot': self.v[k]=x; return True
        if old is TOP or old==x: return False
        self.v[k]=TOP; return True
    def block(self,b):
        ch=False
        if b==self.start and not getattr(self,'keep',False): pass
        for I in self.fn.blocks[b]:
            op=I['op']; k=I['i']
            if op=='phi':
                if b==self.start and self.blocks is not None:
                    if k not in self.v: self.v[k]=self.o.outside(I,self) if hasattr(self.o,'outside') else TOP
                    continue
                x='bot'
                for v,p in I['o']:
                    if (int(str(p).lstrip('b')),b) not in self.edges: continue
                    y=self.val(v)
                    if y=='bot': continue
                    if x=='bot': x=y
                    elif x!=y: x=TOP
                if x!='bot': ch|=self.put(k,x)
                continue
            if op in('br','switch'):
                ch|=self.term(b,I); continue
            if op in('ret','unreachable','store'): continue
            ch|=self.put(k,self.eval(I))
        return ch
    def go(self,b,t):
        if self.blocks is not None and (t not in self.blocks or t==self.start):
            if (b,t) not in self.exits: self.exits.add((b,t)); return True
            return False
        if (b,t) in self.edges: return False
        self.edges.add((b,t)); self.exec.add(t); return True
    def term(self,b,I):
        if I['op']=='br':
            if len(I['o'])==1: return self.go(b,int(I['o'][0][1:]))
            c=self.val(I['o'][0])
            if c=='bot': return False
            if c is not TOP and c[0]=='c': return self.go(b,int(I['o'][1 if c[1]&1 else 2][1:]))
            r=self.go(b,int(I['o'][1][1:])); return self.go(b,int(I['o'][2][1:])) or r
        c=self.val(I['o'][0])
        if c=='bot': return False
        if c is not TOP and c[0]=='c':
            for v,t in I['cases']:
                if int(str(v).lstrip('c'))==c[1]: return self.go(b,int(str(t)[1:]))
            return self.go(b,int(str(I['dflt'])[1:]))
        r=False
        for t in ir.succ_of(I): r=self.go(b,t) or r
        return r
    def eval(self,I):
        op=I['op']; xs=[self.val(o) for o in I.get('o',[]) if isinstance(o,str)]
        if op in('call','invoke'):
            if 'bot' in xs: return 'bot'
            return self.o.call(self.fn.callee(I) or '',xs,I)
        if op=='load': return self.o.load(I,self)
        if 'bot' in xs: return 'bot'
        cs=[x[1] if x is not TOP and x[0]=='c' else None for x in xs]
        i1=I.get('t')=='i1'
        if op in('zext','sext','trunc','freeze','bitcast','ptrtoint','inttoptr'):
            return xs[0] if not(op=='trunc' and i1 and cs[0] is not None) else ('c',cs[0]&1)
        if op=='select':
            if cs[0] is not None: return xs[1] if cs[0]&1 else xs[2]
            return xs[1] if xs[1]==xs[2] else TOP
        if op in('and','or','xor','add','sub','mul','shl','lshr'):
            a,b=cs
            if op=='and' and 0 in cs: return ('c',0)
            if op=='or' and i1 and any(c is not None and c&1 for c in cs): return ('c',1)
            if a is None or b is None:
                if hasattr(self.o,'arith'): return self.o.arith(op,xs,I)
                return TOP
            r={'and':a&b,'or':a|b,'xor':a^b,'add':a+b,'sub':a-b,'mul':a*b,'shl':a<<b if 0<=b<64 else 0,'lshr':a>>b if 0<=b<64 and a>=0 else 0}[op]
            return ('c',r&1 if i1 else r)
        if op=='icmp':
            a,b=cs; pr=I['pred']
            if a is None or b is None:
                if xs[0] is not TOP and xs[0]==xs[1]: return ('c',int(pr in('eq','ule','uge','sle','sge')))
                if hasattr(self.o,'icmp'): return self.o.icmp(pr,xs,I)
                return TOP
            if pr in('eq','ne'): return ('c',int((a==b)==(pr=='eq')))
            if pr[0]=='u' and (a<0 or b<0): a&=(1<<64)-1; b&=(1<<64)-1
            return ('c',int({'lt':a<b,'le':a<=b,'gt':a>b,'ge':a>=b}[pr[1:]]))
        if op=='getelementptr': return self.o.gep(I,self) if hasattr(self.o,'gep') else TOP
        return self.o.other(I,xs) if hasattr(self.o,'other') else TOP
