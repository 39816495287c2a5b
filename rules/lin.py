"""Linear integer normal form of the terms of pathx, and helpers on terms."""
from fractions import Fraction
def lin(e,conds={}):
    """term -> {atom: coefficient}, the constant under key 1"""
    r={}
    def acc(t,c):
        if t[0]=='c': r[1]=r.get(1,0)+c*t[1]; return
        if t[0]=='add': acc(t[1],c); acc(t[2],c); return
        if t[0]=='sub': acc(t[1],c); acc(t[2],-c); return
        if t[0]=='shl' and t[2][0]=='c': acc(t[1],c*2**t[2][1]); return
        if t[0]=='mul' and t[2][0]=='c': acc(t[1],c*t[2][1]); return
        if t[0]=='mul' and t[1][0]=='c': acc(t[2],c*t[1][1]); return
        b=truthof(t,conds)
        if b is not None: r[1]=r.get(1,0)+c*int(b); return
        if t[0]=='sel':
            b=truthof(t[1],conds)
            if b is not None: acc(t[2] if b else t[3],c); return
        r[t]=r.get(t,0)+c
    acc(e,1)
    return {k:v for k,v in r.items() if v}
def truthof(c,conds):
    if c[0]=='c': return bool(c[1]&1)
    if c in conds: return conds[c]
    if c[0]=='not':
        x=truthof(c[1],conds); return None if x is None else not x
    if c[0] in('and','or') and len(c)==3:
        x,y=truthof(c[1],conds),truthof(c[2],conds)
        if c[0]=='and': return False if False in(x,y) else (True if x and y else None)
        return True if True in(x,y) else (False if x is False and y is False else None)
    return None
def const_of(d): return d.get(1,0) if set(d)<={1} else None
def sub(a,b):
    r=dict(a)
    for k,v in b.items():
        r[k]=r.get(k,0)-v
    return {k:v for k,v in r.items() if v}
def walk(e):
    if isinstance(e,tuple):
        yield e
        for x in e:
            if isinstance(x,tuple): yield from walk(x)
def has(e,a): return any(x==a for x in walk(e))
