"""Loads the JSON printed by irx and gives SSA helpers."""
import json
from functools import lru_cache

class Fn:
    def __init__(self, name, d, mod):
        self.name=name; self.d=d; self.mod=mod; self.dem=d['dem']
        self.args=d['args']; self.blocks=d['blocks']
        self.ins={}; self.blk={}
        for bi,b in enumerate(self.blocks):
            for I in b:
                self.ins[I['i']]=I; self.blk[I['i']]=bi
        self.users={}
        for I in self.ins.values():
            for o in operands(I):
                if isinstance(o,str) and o.startswith('%'): self.users.setdefault(o,[]).append(I)
        self._dom=None; self._reach=None; self._callee={}
    def get(self, o):
        return self.ins.get(int(o[1:])) if isinstance(o,str) and o.startswith('%') else None
    def succs(self, b):
        if not self.blocks[b]: return []
        t=self.blocks[b][-1]
        return succ_of(t)
    def reachable(self):
        if self._reach is not None: return self._reach
        self._reach=r=self._reachable(); return r
    def _reachable(self):
        seen=set(); st=[0]
        while st:
            b=st.pop()
            if b in seen: continue
            seen.add(b); st+=self.succs(b)
        return seen
    def preds(self):
        p={}
        for b in range(len(self.blocks)):
            for s in self.succs(b): p.setdefault(s,[]).append(b)
        return p
    def doms(self):
        """block -> set of blocks dominating it"""
        if self._dom is not None: return self._dom
        R=self.reachable(); P=self.preds(); dom={b:set(R) for b in R}; dom[0]={0}
        ch=True
        while ch:
            ch=False
            for b in sorted(R):
                if b==0: continue
                ps=[p for p in P.get(b,[]) if p in R]
                n=set.intersection(*[dom[p] for p in ps]) if ps else set()
                n=n|{b}
                if n!=dom[b]: dom[b]=n; ch=True
        self._dom=dom; return dom
    def callee(self, I):
        if I['op'] not in('call','invoke'): return None
        if 'fn' in I: return self.mod.qn(I['fn'])
        return 'INDIRECT'
    def calls(self):
        R=self.reachable()
        for b in sorted(R):
            for I in self.blocks[b]:
                if I['op'] in('call','invoke'): yield I
    def reach_ins(self):
        R=self.reachable()
        for b in sorted(R):
            for I in self.blocks[b]: yield I

def succ_of(t):
    if t['op']=='br': return [int(x[1:]) for x in t['o'] if isinstance(x,str) and x.startswith('b')]
    if t['op']=='switch':
        return list(dict.fromkeys([int(t['dflt'][1:])]+[int(c[1][1:]) for c in t['cases']]))
    return [int(x[1:]) for x in t.get('o',[]) if isinstance(x,str) and x.startswith('b') and x[1:].isdigit()] if t['op'] in('invoke','indirectbr') else []

def operands(I):
    r=[]
    for o in I.get('o',[]):
        if isinstance(o,list): r.append(o[0])
        else: r.append(o)
    if 'base' in I: r.append(I['base']); r+=[x[0] for x in I['idx']]
    if 'fv' in I: r.append(I['fv'])
    return r

class Mod:
    def __init__(self, d):
        self.d=d; self._names=d.get('names',{}); self.globals=d.get('globals',{})
        self.fns={n:Fn(n,f,self) for n,f in d['functions'].items()}
    def dem(self,n):
        x=self._names.get(n); return x[0] if x else n
    def qn(self,n):
        x=self._names.get(n); return x[2] if x else n
    def decl(self,n):
        x=self._names.get(n); return (not x) or x[1]==0
    def fn(self,sub):
        return self.fns[sub]

def where(I):
    l=I.get('l') or []
    out=[]
    for x in l:
        p=x.split(':'); f=p[0]
        for k in ('/include/cppad/','/cppad_lib/','/cppad_ipopt/'):
            if k in f: f=k.strip('/')+'/'+f.split(k,1)[1]
        out.append('%s:%s (%s)'%(f,p[1],p[2] if len(p)>2 else ''))
    return ' <- '.join(out[:4])

def where1(I):
    w=where(I); return w.split(' <- ')[0]

def show(fn, out=None):
    s=[]
    s.append('%s(%s) -> %s'%(fn.dem, ', '.join('a%d:%s'%(i,a['n'] or a['t']) for i,a in enumerate(fn.args)), fn.d['ret']))
    for bi,b in enumerate(fn.blocks):
        s.append(' b%d:'%bi)
        for I in b:
            x='  %%%d = %s'%(I['i'],I['op'])
            if I['op']=='call': x+=' '+(fn.mod.qn(I['fn']) if 'fn' in I else I['fv'])
            if 'pred' in I: x+=' '+I['pred']
            if 'base' in I: x+=' %s off %d idx %s'%(I['base'],I['off'],I['idx'])
            x+=' '+str(I.get('o',''))
            if 'cases' in I: x+=' dflt %s %s'%(I['dflt'],I['cases'])
            if 'ix' in I: x+=' ix%s'%I['ix']
            if 't' in I: x+=' : '+I['t']
            if I.get('l'): x+='   ;'+where1(I)
            s.append(x)
    return '\n'.join(s)
