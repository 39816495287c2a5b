"""The cumulative sum operator against z = p[arg0] + sum p - sum p + sum x - sum x."""
import ir,sweepx,addx
from aff import Poly
from addx import Facts,Content,terms,Und
ONE=Poly.const(1)
def sl(k): return Poly.atom(('sl',k))
def evalp(p,env):
    v=0
    for m,c in p.t.items():
        x=c
        for a in m:
            if a not in env: return None
            x*=env[a]
        v+=x
    return int(v)
class CS:
    def __init__(self,fn,kind,plo):
        self.fn=fn; self.kind=kind; self.aff=sweepx.make_aff(fn); self.L=sweepx.op_loop(fn,self.aff)
        if self.L is None: raise Und('no operator loop')
        a=lambda k:Poly.atom(('a',k))
        if kind=='rev': self.dst='a5'; self.J=a(4); self.env={('a',4):4}
        elif kind=='dir': self.dst='a7'; self.r=a(6); self.J=(a(2)-ONE)*a(6)+ONE; self.env={('a',5):3,('a',6):2,('a',2):6}
        elif kind=='f0': self.dst='a10'; self.J=a(2); self.env={}
        else: self.dst='a12'; self.J=a(2); self.env={('a',10):plo,('a',11):plo+3}
        self.plo=plo
        self.F=Facts(fn,self.aff,self.L,isel=lambda r:r==self.dst)
        self.once={L.h:v for L in self.aff.loops for v in [self.once_loop(L)] if v}
    def once_loop(self,L):
        t=self.fn.blocks[L.h][-1]
        if t['op']!='br' or len(t['o'])<3: return False
        c=self.fn.get(t['o'][0])
        if c is None or c['op']!='phi' or self.fn.blk[c['i']]!=L.h: return False
        ini=[v for v,b in c['o'] if int(str(b).lstrip('b')) not in L.body]; back=[v for v,b in c['o'] if int(str(b).lstrip('b')) in L.body]
        stay=int(t['o'][1][1:]) in L.body
        tr=lambda v:{'c0':False,'false':False,'c1':True,'c-1':True,'true':True}.get(v)
        return all(tr(v)==stay for v in ini) and all(tr(v)==(not stay) for v in back) and bool(ini) and bool(back)
    def bounds(self,L):
        """(lo,hi) with the final values of earlier loops resolved"""
        lo,hi=self.F.poly(L.lo),self.F.poly(L.hi)
        for _ in range(4):
            for x in list(lo.atoms()):
                M=self.F.byiv.get(x)
                if M is not None and M is not L and L.h not in M.body and M.step==1: lo=lo.subst(x,self.F.poly(M.hi)+ONE)
        return lo,hi
    def cellat(self,off):
        """byte offset -> list of (row, order, direction, loops used in row) decoded"""
        q=addx.key8(off); rows=[]
        for at in q.atoms():
            if at==('var',) or at[0] in('ld','sl'):
                c,r=q.coef(at)
                if c is None: return None
                if c==self.J: rows.append((at,r))
        if len(rows)!=1: return None
        return rows[0]
    def ivs(self,p): return [x for x in p.atoms() if x in self.F.byiv]
    def rowloop(self,at,loops):
        """row atom -> ('z',) or ('arg', lo, hi) bounds keys ; needs the loop of the slot index among loops"""
        if at==('var',): return ('z',),set()
        if at[0]=='sl': return ('arg',at[1]),set()
        if at[0]!='ld' or at[1]!=(('hargc',) if self.kind=='rev' else ('harg',)): raise Und('slot of another array')
        k=dict(at[2]) ; p=Poly({m:c/4 for m,c in k.items()})
        iv=self.ivs(p)
        if len(iv)!=1: raise Und('index of an argument slot')
        L=self.F.byiv[iv[0]]; lo,hi=self.bounds(L)
        c,r=p.coef(iv[0])
        if c!=ONE: raise Und('stride of an argument slot')
        return ('args',(lo+r).key(),(hi+r+ONE).key()),{L.h}
    def orders(self,ix,loops):
        """concrete (order[,ell]) points an index expression runs over, with the assignment of ivs"""
        free=[x for x in ix.atoms() if x in self.F.byiv]
        pts=[{}]
        for x in free:
            L=self.F.byiv[x]; lo,hi=self.bounds(L); a,b=evalp(lo,self.env),evalp(hi,self.env)
            if a is None or b is None: raise Und('order range')
            pts=[{**p,x:v} for p in pts for v in range(a,b+1)]
        out=[]
        for p in pts:
            v=evalp(ix,{**self.env,**p})
            if v is None: raise Und('order index')
            out.append((v,p))
        return out
def forward(fn,kind,plo,obs,inst):
    def ob(rule,st,txt='',I=None): obs.append((rule,inst,st,txt,ir.where1(I) if I else ''))
    rules={'f0':['zero-order'],'any':['zero-order','forward-order'] if plo==0 else ['forward-order'],'dir':['forward-order']}[kind]
    try: C=CS(fn,kind,plo); per,first=collect(C)
    except (Und,RecursionError) as e:
        for r in rules: ob(r,'undecided','cumulative sum: %s'%e)
        return
    S=lambda k:sl(k).key()
    five=Poly.const(5).key()
    xs={(1,('args',five,S(1))),(-1,('args',S(1),S(2)))}
    ps={(1,('pargs',S(2),S(3))),(-1,('pargs',S(3),S(4))),(1,('p',0))}
    if kind=='f0': want={0:xs|ps}
    elif kind=='any': want={k:xs|ps if k==0 else xs for k in range(plo,plo+4)}
    else: want={(3-1)*2+1+l:xs for l in range(2)}
    for k in sorted(set(want)|set(per)):
        rule='zero-order' if kind in('f0','any') and k==0 else 'forward-order'
        got=per.get(k,set())
        w=want.get(k)
        if w is None: ob(rule,'viol','writes the result at a coefficient outside the orders requested (position %d)'%k,first); continue
        if got==w: ob(rule,'ok')
        else: ob(rule,'viol','position %d of the result is the sum of %s, not %s'%(k,show(got),show(w)),first)
def show(s): return ' '.join(('+' if g>0 else '-' if g<0 else '?')+str(r) for g,r in sorted(s,key=str)) or 'nothing'
def collect(C):
    """position -> set of contributions, following the order of the stores"""
    F=C.F; per={}; done={}
    body=C.L.body
    order={b:i for i,b in enumerate(sorted(body))}
    info=[]
    for s in F.stores:
        loops=[L for L in F.loops(s['b']) if L.h not in C.once]
        d=C.cellat(s['off'])
        if d is None or d[0]!=('var',): raise Und('address of the result')
        for L in loops:
            if L.iv is None: raise Und('loop without induction variable')
        ct=Content(F,s['root'],s['off'].key(),body)
        acc,ts=terms(F,s,ct)
        used=set(C.ivs(d[1]))
        extra=[L for L in loops if L.iv not in used and not (set(C.ivs(d[1]))&{L.iv})]
        for v,asg in C.orders(d[1],loops):
            con=set()
            for sg,a,l in ts:
                if a[0]=='k' and sg and float(a[1][1:])!=0: raise Und('constant')
                if a[0]=='k': continue
                if a[0]!='L': raise Und('term '+str(a))
                lp=[C.aff.byhead[h] for h in l]+extra
                off=Poly(dict(a[2]))
                if a[1]==('parptr',):
                    q=addx.key8(off); at=list(q.atoms())
                    if len(at)!=1 or q!=Poly.atom(at[0]): raise Und('parameter index')
                    r,u=C.rowloop(at[0],lp)
                    r=('p',r[1]) if r[0]=='arg' else ('pargs',)+r[1:]
                elif a[1]==C.dst:
                    e=C.cellat(off)
                    if e is None: raise Und('source address')
                    r,u=C.rowloop(e[0],lp)
                    if r[0]=='z': raise Und('another coefficient of the result')
                    w=evalp(e[1],{**C.env,**asg})
                    if w is None: raise Und('source order')
                    if w!=v: r=r+('at position %d'%w,)
                else: raise Und('source '+str(a[1]))
                # the slot loop must be the loop the term is summed over, exactly once
                if {L.h for L in lp}!=u: 
                    r=r+('summed over other loops',)
                if (sg,r) in con: r=r+('twice',)
                con.add((sg,r))
            if acc not in(0,1): raise Und('coefficient of the previous value')
            info.append((v,s,acc==1,con))
    for v in {x[0] for x in info}:
        mine=[x for x in info if x[0]==v]
        asg=[x for x in mine if not x[2]]; accs=[x for x in mine if x[2]]
        res=set()
        before=lambda x,y:y['b'] in F.reach(x['b']) or (x['b']==y['b'] and x['I']['i']<y['I']['i'])
        # the assignment every other one precedes
        last=[x for x in asg if not any(before(x[1],y[1]) for y in asg if y is not x)]
        if not asg: res.add((0,('previous value kept',)))
        elif len(last)!=1: raise Und('several assignments')
        else:
            res|=last[0][3]
            if any(before(y[1],last[0][1]) for y in accs): res.add((0,('assigned after an addition',)))
        for x in accs:
            for t in x[3]:
                res.add(t if t not in res else (t[0],t[1]+('twice',)))
        # same loops nested around several orders are separate passes
        per[v]=res
    return per,(F.stores[0]['I'] if F.stores else None)
def reverse(fn,obs,inst):
    def ob(rule,st,txt='',I=None): obs.append((rule,inst,st,txt,ir.where1(I) if I else ''))
    try:
        C=CS(fn,'rev',0); F=C.F; got=set(); I0=None
        for s in F.stores:
            I0=I0 or s['I']
            loops=[L for L in F.loops(s['b']) if L.h not in C.once]
            d=C.cellat(s['off'])
            if d is None: raise Und('address of a partial')
            row,u=C.rowloop(d[0] if d[0][0]!='slc' else ('sl',d[0][1]),loops)
            acc,ts=terms(F,s,Content(F,s['root'],s['off'].key(),C.L.body))
            if acc!=1: row=row+('overwritten',)
            pts=C.orders(d[1],loops)
            used=set(C.ivs(d[1]))
            rest={L.h for L in loops if L.iv not in used}
            if rest!=u: row=row+('in other loops',)
            for v,asg in pts:
                for sg,a,l in ts:
                    if a[0]!='L' or a[1]!=C.dst or l: raise Und('term')
                    e=C.cellat(Poly(dict(a[2])))
                    if e is None: raise Und('source address')
                    w=evalp(e[1],{**C.env,**asg})
                    if w is None: raise Und('source order')
                    t=(v,sg,row+(() if e[0]==('var',) and w==v else ('from %s order %s'%(e[0],w),)))
                    if t in got: t=(v,sg,row+('twice',))
                    got.add(t)
    except (Und,RecursionError) as e:
        ob('adjoint','undecided','cumulative sum: %s'%e); return
    five=Poly.const(5).key()
    for v in range(4):
        sc=lambda k:Poly.atom(('slc',k)).key()
        w={(1,('args',five,sc(1))),(-1,('args',sc(1),sc(2)))}; g={t[1:] for t in got if t[0]==v}
        ob('adjoint','ok' if g==w else 'viol','' if g==w else 'order %d of the partials: %s, not %s'%(v,show(g),show(w)),I0)
    if any(t[0]>=4 for t in got): ob('adjoint','viol','updates partials of orders above the ones requested',I0)
