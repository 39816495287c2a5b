"""P16: the vector classes own their storage.

Typestate of the blocks obtained from the allocator along every path of the operations
that change a vector (loops are summarised as the range of elements they copy, construct or
destroy): which block the vector refers to, its capacity, who returns the old block and when,
and which elements have been carried over."""
import core,ir,c_state
from aff import Poly
class Und(Exception): pass
def K(n): return Poly.const(n)
def At(a): return Poly.atom(a)
MAXP=200
class Path:
    def __init__(s): s.env={}; s.mem={}; s.ev=[]; s.facts=[]; s.nget=0
    def copy(s):
        t=Path(); t.env=dict(s.env); t.mem=dict(s.mem); t.ev=list(s.ev); t.facts=list(s.facts); t.nget=s.nget; return t
class Ex:
    """all acyclic paths, loops summarised"""
    def __init__(s,fn,fields,dead=frozenset()):
        s.fn=fn; s.fields=fields; s.out=[]; s.loops={}
        D=fn.doms(); P=fn.preds(); R=fn.reachable(); s.R=R
        for b in R:
            for t in fn.succs(b):
                if t in D[b]:
                    body={t}; st=[b]
                    while st:
                        x=st.pop()
                        if x in body: continue
                        body.add(x); st+=[p for p in P.get(x,[]) if p in R]
                    s.loops.setdefault(t,set()).update(body)
        p=Path(); s.run(p,0,None)
    # ------------------------------------------------------------ values
    def val(s,p,o):
        if isinstance(o,str):
            if o[0]=='c' and o[1:].lstrip('-').isdigit(): return K(int(o[1:]))
            if o in('true','false'): return K(int(o=='true'))
            if o in('null',): return K(0)
            if o in('undef','poison'): return At(('undef',))
            if o[0]=='a' and o[1:].isdigit(): return At(('P',o)) if s.fn.args[int(o[1:])]['t']=='ptr' else At(o)
            if o[0]=='%': return p.env.get(o,At(('?',o)))
        return At(('o',str(o)))
    def ptr(s,v):
        """pointer value -> (root atom, offset)"""
        r=[a for m in v.t for a in m if isinstance(a,tuple) and a[0] in('P','blk','cell')]
        if len(r)!=1: return None
        c,rest=v.coef(r[0])
        if c is None or c!=K(1): return None
        return r[0],rest
    def load(s,p,v,t):
        x=s.ptr(v)
        if x is None: return At(('ld',v.key()))
        r,off=x
        if r[0]=='P' and off.isconst():
            k=(r[1],int(off.cval()))
            if k in p.mem: return p.mem[k]
            if r[1]=='a0' and k[1] in s.fields:
                f=s.fields[k[1]]; return At(('blk',0)) if f=='data' else At(f+'0')
            return At(('m0',)+k)
        p.ev.append(('read',r,off)); return At(('el',r,off.key()))
    def icmp(s,p,I):
        return ('cmp',I['pred'],s.val(p,I['o'][0]),s.val(p,I['o'][1]))
    def inst(s,p,I,loop=None):
        op=I['op']; me='%%%d'%I['i']; o=I.get('o',[]); V=lambda k:s.val(p,o[k])
        if op=='alloca': p.env[me]=At(('P',me)); return
        if op=='getelementptr':
            v=s.val(p,I['base'])+K(I['off'])
            for x,sc in I['idx']: v=v+s.val(p,x).scale(sc)
            p.env[me]=v; return
        if op=='load': p.env[me]=s.load(p,V(0),I.get('t')); return
        if op=='store':
            a=s.ptr(V(1)); v=V(0)
            if a is None: p.ev.append(('store?',V(1))); return
            r,off=a
            if r[0]=='P':
                if not off.isconst(): raise Und('variable store into an object')
                if loop is not None and (r[1],int(off.cval())) in loop: raise Und('loop changes a field')
                p.mem[(r[1],int(off.cval()))]=v
            else: p.ev.append(('write',r,off,v))
            return
        if op in('zext','sext','trunc','freeze','bitcast','ptrtoint','inttoptr'):
            p.env[me]=p.env.get(o[0],V(0)) if isinstance(o[0],str) and o[0][0]=='%' else V(0); return
        if op in('add','sub','mul'):
            a,b=V(0),V(1); p.env[me]=a+b if op=='add' else a-b if op=='sub' else a*b; return
        if op=='shl':
            b=V(1)
            p.env[me]=V(0).scale(2**int(b.cval())) if b.isconst() else At(('shl',V(0).key(),b.key())); return
        if op in('lshr','udiv','sdiv'):
            b=V(1)
            if b.isconst() and isinstance(V(0),Poly):
                k=2**int(b.cval()) if op=='lshr' else int(b.cval()); p.env[me]=At(('div',V(0).key(),k)); return
        if op=='icmp': p.env[me]=s.icmp(p,I); return
        if op in('and','or','xor') and I.get('t')=='i1': p.env[me]=(op,s.cond(p,o[0]),s.cond(p,o[1])); return
        if op=='select':
            c=s.cond(p,o[0]); d=s.decide(p,c)
            p.env[me]=V(1) if d is True else V(2) if d is False else V(1) if V(1)==V(2) else At(('sel',me)); return
        if op in('call','invoke'): s.call(p,I,me); return
        if op in('br','switch','ret','phi','unreachable','resume'): return
        if op in('and','or','xor','urem'):
            a,b=V(0),V(1); 
            p.env[me]=At((op,a.key() if isinstance(a,Poly) else str(a),b.key() if isinstance(b,Poly) else str(b))); return
        p.env[me]=At(('?',me))
    def call(s,p,I,me):
        q=s.fn.callee(I) or ''; o=I.get('o',[]); V=lambda k:s.val(p,o[k])
        if q.startswith('llvm.memcpy') or q.startswith('llvm.memmove'):
            p.ev.append(('memcpy',V(0),V(1),V(2),I)); return
        if q.startswith('llvm.'): return
        cb,m=c_state.qsplit(q)
        if m=='get_memory':
            p.nget+=1; b=('blk',p.nget); a=s.ptr(V(1))
            p.env[me]=At(b); p.ev.append(('get',b,V(0),None,I))
            if a and a[0][0]=='P': p.mem[(a[0][1],int(a[1].cval()))]=At(('capb',p.nget))
            return
        if m=='create_array':
            p.nget+=1; b=('blk',p.nget); a=s.ptr(V(1))
            p.env[me]=At(b); p.ev.append(('get',b,None,V(0),I))
            if a and a[0][0]=='P': p.mem[(a[0][1],int(a[1].cval()))]=At(('cap',p.nget))
            return
        if m in('return_memory','delete_array'): p.ev.append(('ret',V(0),m,I)); return
        if m=='unit_min': 
            a=s.ptr(V(0)); l=None
            if a and a[0][0]=='P':
                off=[k for k,f in s.fields.items() if f=='len'][0]
                l=s.load(p,V(0)+K(off),'i64')
            p.env[me]=At(('um',l.key() if l is not None else None)); return
        if m==cb and len(o)==1: p.ev.append(('ctor',V(0),I)); return
        if m=='~'+cb: p.ev.append(('dtor',V(0),I)); return
        if m==cb and len(o)==2 or m=='operator=': p.ev.append(('assign',V(0),V(1),I)); p.env[me]=V(0); return
        if m.startswith('operator[]'): p.env[me]=At(('cell',str(V(0)),V(1).key())); return
        if m=='size': p.env[me]=At('size_'+str(o[0])); return
        if 'CheckSimpleVector' in q: return
        raise Und('call of '+q)
    # ------------------------------------------------------------ conditions
    def cond(s,p,o):
        v=p.env.get(o) if isinstance(o,str) and o[0]=='%' else None
        if v is None:
            v=s.val(p,o)
        if isinstance(v,Poly): return ('b',v)
        return v
    def decide(s,p,c):
        if c[0]=='b': return bool(c[1].cval()) if c[1].isconst() else None
        if c[0] in('and','or'):
            x,y=s.decide(p,c[1]),s.decide(p,c[2])
            if c[0]=='and': return False if x is False or y is False else True if x and y else None
            return True if x or y else False if x is False and y is False else None
        if c[0]!='cmp': return None
        _,pr,a,b=c
        if not isinstance(a,Poly) or not isinstance(b,Poly): return None
        d=a-b
        if d.isconst():
            k=d.cval(); return {'eq':k==0,'ne':k!=0,'lt':k<0,'le':k<=0,'gt':k>0,'ge':k>=0}[pr.lstrip('us') if pr[0] in'us' else pr]
        # pointers to different objects
        x,y=s.ptr(a),s.ptr(b)
        if x and y and x[0]!=y[0] and x[0][0]=='P' and y[0][0]=='P': return {'eq':False,'ne':True}.get(pr)
        # non negative quantities
        if pr in('eq','ne') and (pos(d) or pos(-d)): return pr=='ne'
        if pr[0]=='u':
            if pos(d): return pr in('ugt','uge')
            if pos(-d): return pr in('ult','ule')
            if nonneg(d) and pr in('uge','ult'): return pr=='uge'
            if nonneg(-d) and pr in('ule','ugt'): return pr=='ule'
        for (pr2,a2,b2,t) in p.facts:
            if isinstance(a2,Poly) and a2==a and b2==b and pr2==pr: return t
        # the opposite of what is known
        for f in known(p.facts):
            k,q=f
            if pr in('ult','uge') :
                if k=='le' and implies(f,(a-b)+K(1)): return pr=='ult'
                if k=='le' and implies(f,b-a): return pr=='uge'
            if pr in('ugt','ule'):
                if k=='le' and implies(f,(b-a)+K(1)): return pr=='ugt'
                if k=='le' and implies(f,a-b): return pr=='ule'
            if pr in('eq','ne') and k=='eq' and (q==d or q==-d): return pr=='eq'
            if pr in('eq','ne') and k=='ne' and (q==d or q==-d): return pr=='ne'
        return None
    def assume(s,p,c,t):
        if c[0]=='cmp': p.facts.append((c[1],c[2],c[3],t))
        elif c[0]=='and' and t or c[0]=='or' and not t: s.assume(p,c[1],t); s.assume(p,c[2],t)
        elif c[0]=='xor': pass
    # ------------------------------------------------------------ control
    def phis(s,p,b,prev):
        new={}
        for I in s.fn.blocks[b]:
            if I['op']!='phi': continue
            for v,q in I['o']:
                if int(str(q).lstrip('b'))==prev:
                    e=p.env.get(v) if isinstance(v,str) and v[0]=='%' else None
                    new['%%%d'%I['i']]=e if e is not None else s.val(p,v)
        p.env.update(new)
    def run(s,p,b,prev):
        while True:
            if b in s.loops and prev is not None and prev not in s.loops[b]:
                b,prev=s.loop(p,b,prev)
                # the exit block of the loop
                if b is None: return
                continue
            s.phis(p,b,prev)
            for I in s.fn.blocks[b]: s.inst(p,I)
            t=s.fn.blocks[b][-1]
            if t['op']=='ret':
                p.retv=s.val(p,t['o'][0]) if t.get('o') else None
                s.out.append(p)
                if len(s.out)>MAXP: raise Und('too many paths')
                return
            if t['op']=='br' and len(t['o'])==3:
                c=s.cond(p,t['o'][0]); d=s.decide(p,c); tb=[int(x[1:]) for x in t['o'][1:]]
                if d is None:
                    q=p.copy(); s.assume(q,c,False); s.run(q,tb[1],b)
                    s.assume(p,c,True); prev,b=b,tb[0]; continue
                prev,b=b,tb[0 if d else 1]; continue
            ss=s.fn.succs(b)
            if len(ss)!=1: return
            prev,b=b,ss[0]
    def loop(s,p,h,prev):
        """summarise the loop at h entered from prev; returns (exit block, predecessor)"""
        body=s.loops[h]; fn=s.fn
        for x in body:
            if x!=h and x in s.loops: raise Und('nested loop')
        iv=None
        for I in fn.blocks[h]:
            if I['op']!='phi': continue
            init=[v for v,q in I['o'] if int(str(q).lstrip('b')) not in body]; back=[v for v,q in I['o'] if int(str(q).lstrip('b')) in body]
            B=fn.get(back[0]) if back else None
            me='%%%d'%I['i']
            if B is not None and B['op']=='add' and B['o'][0]==me and B['o'][1]=='c1': iv=(me,s.val(p,init[0]),1)
            elif B is not None and B['op']=='add' and B['o'][0]==me and B['o'][1]=='c-1': iv=(me,s.val(p,init[0]),-1)
            elif B is not None and B['op']=='getelementptr' and B['base']==me and not B['idx']: iv=(me,s.val(p,init[0]),B['off'])
            p.env[me]=At(('iv',h)) if iv and iv[0]==me else At(('?',me))
        if iv is None: raise Und('loop without a counter')
        me,init,step=iv
        isptr=abs(step)!=1
        # the blocks of the body in an order that respects its branches
        order=[]; done=set()
        def visit(x):
            if x in done: return
            done.add(x)
            for t in fn.succs(x):
                if t in body and t!=h: visit(t)
            order.append(x)
        visit(h); order.reverse(); seen=set(order)
        D=fn.doms(); latch=[x for x in body if h in fn.succs(x)]
        def once(adv):
            q=p.copy(); q.ev=[]; q.facts=[]; q.nget=p.nget
            q.env[me]=init+At(('iv',h)).scale(step) if isptr else At(('iv',h))
            for k,(st0,inc) in adv.items(): q.mem[k]=st0+At(('iv',h)).scale(inc)-lo0.scale(inc)
            exitc=None
            for b in order:
                must=all(b in D[l] for l in latch); mem0=dict(q.mem)
                if b!=h:
                    for I in fn.blocks[b]:
                        if I['op']!='phi': continue
                        vs=[s.val(q,v) for v,_ in I['o']]
                        q.env['%%%d'%I['i']]=vs[0] if all(isinstance(v,Poly) and v==vs[0] for v in vs) else At(('?','%%%d'%I['i']))
                for I in fn.blocks[b]: s.inst(q,I)
                if not must and q.mem!=mem0: raise Und('conditional change of a field in a loop')
                t=fn.blocks[b][-1]
                if t['op']!='br': raise Und('loop body ends')
                if len(t['o'])==3:
                    tb=[int(x[1:]) for x in t['o'][1:]]
                    ins=[x for x in tb if x in body]
                    if len(ins)==1:
                        if exitc is not None or not must: raise Und('two exits')
                        exitc=(s.cond(q,t['o'][0]),tb[0] in body,[x for x in tb if x not in body][0],b)
            if q.nget!=p.nget: raise Und('allocation in a loop')
            return q,exitc
        lo0=K(0) if isptr else init; before=dict(p.mem)
        q,exitc=once({})
        chg=[k for k,v in q.mem.items() if before.get(k)!=v]
        adv={}
        if chg:
            # fields that advance together with the counter
            if not isptr and step!=1: raise Und('loop changes a field')
            for k in chg:
                if k[0]=='a0' and k[1] in s.fields or k in before:
                    st0=before.get(k,At(s.fields[k[1]]+'0') if k[0]=='a0' and k[1] in s.fields else None)
                    if st0 is None: raise Und('loop changes a field')
                    d=q.mem[k]-st0
                    if not d.isconst(): raise Und('loop changes a field')
                    adv[k]=(st0,int(d.cval()))
                else: raise Und('loop changes a field')
            q,exitc=once(adv)
            for k,(st0,inc) in adv.items():
                if q.mem[k]!=st0+(At(('iv',h))-lo0+K(1)).scale(inc): raise Und('loop changes a field')
            if any(before.get(k)!=v and k not in adv for k,v in q.mem.items()): raise Und('loop changes a field')
        if exitc is None: raise Und('endless')
        c,stay,ex,eb=exitc
        if c[0]!='cmp': raise Und('loop condition')
        _,pr,a,bb=c; i=('iv',h); d=a-bb; co,rest=d.coef(i)
        if co is None or not co.isconst() or co.cval()==0: raise Und('loop bound')
        bound=rest.scale(-1/co.cval()); pr=pr.lstrip('us') if pr[0] in'us' else pr
        if not stay: pr={'eq':'ne','ne':'eq','lt':'ge','ge':'lt','gt':'le','le':'gt'}[pr]
        if any(i in m2 for m2 in rest.t): raise Und('loop bound')
        if co.cval()<0: pr={'lt':'gt','gt':'lt','le':'ge','ge':'le'}.get(pr,pr)
        top=eb==h
        if isptr: lo,k=K(0),1
        else: lo,k=init,step
        if k==1:
            if pr in('lt','ne'): hi=bound
            elif pr=='le': hi=bound+K(1)
            else: raise Und('loop direction')
            if not top: hi=hi+K(1)  # bottom test on the old value
            rng=(lo,hi)
        else:
            # counts down: i from init, body uses i (tested first)
            if pr=='ne': lo2=bound+K(1)
            elif pr=='gt': lo2=bound+K(1)
            elif pr=='ge': lo2=bound
            else: raise Und('loop direction')
            rng=(lo2,init+K(1))
        body_ev=q.ev
        for k,(st0,inc) in adv.items(): p.mem[k]=st0+(rng[1]-lo0).scale(inc)
        p.ev.append(('loop',i,rng[0],rng[1],body_ev)); p.env.update({k_:v for k_,v in q.env.items() if k_ not in p.env and isinstance(v,Poly) and i not in v.atoms() and False})
        # values used after the loop (loads in the header) stay valid when they do not depend on the counter
        for b2 in seen:
            for I in fn.blocks[b2]:
                n='%%%d'%I['i']; v=q.env.get(n)
                if isinstance(v,Poly) and i not in v.atoms() and not any(isinstance(z,tuple) and z[0] in('el',) for z in v.atoms()): p.env[n]=v
        p.env[me]=rng[1] if k==1 and not isptr else At(('?',me))
        # the rest of the path starts at the exit
        s.phis(p,ex,eb)
        if ex in s.loops: return s.loop(p,ex,eb)
        return s.tail(p,ex,eb)
    def tail(s,p,ex,eb):
        return ex,eb
def nonneg(d): return all(c>=0 for c in d.t.values()) and all(not(isinstance(a,tuple) and a[0]=='?') for a in d.atoms())
def pos(d): return nonneg(d) and d.cval()>0
def known(facts):
    """facts as (kind, poly): poly <= 0, poly == 0, poly != 0"""
    r=[]
    for pr,a,b,t in facts:
        if not isinstance(a,Poly) or not isinstance(b,Poly): continue
        p=pr.lstrip('us') if pr[0] in'us' else pr
        if not t: p={'eq':'ne','ne':'eq','lt':'ge','ge':'lt','gt':'le','le':'gt'}[p]
        d=a-b
        if p=='lt': r.append(('le',d+K(1)))
        elif p=='le': r.append(('le',d))
        elif p=='gt': r.append(('le',-d+K(1)))
        elif p=='ge': r.append(('le',-d))
        else: r.append((p,d))
    return r
def implies(f,goal):
    """fact f implies goal <= 0"""
    k,q=f
    if k in('le','eq'):
        d=q-goal       # goal = q - d, needs d >= 0
        if nonneg(d): return True
        if k=='eq':
            d=-q-goal
            if nonneg(d): return True
    return False
def holds(facts,goal):
    if nonneg(-goal): return True
    ks=known(facts)
    for f in ks:
        if implies(f,goal): return True
        # unsigned quantities: x != 0 means x >= 1
        if f[0]=='ne':
            for q in(f[1],-f[1]):
                if nonneg(q) and nonneg((K(1)-q)-goal): return True
    # sum of two facts
    les=[f for f in ks if f[0] in('le','eq')]
    for i,f in enumerate(les):
        for g in les[i+1:]:
            if implies(('le',f[1]+g[1]),goal): return True
    return False
# -------------------------------------------------------------------- rules
CLS={'pod':'pod_vector','podm':'pod_vector_maybe','vec':'CppAD::vector','vb':'vectorBool'}
LAY={'pod':'pod','podm':'podm','vec':'vector','vb':'vbool'}
E0=At('len0')
EN=[]
for c in CLS:
    EN+=[(c,'resize',At('a1'),c=='vec'),(c,'clear',K(0),False),(c,'dtor',None,False),(c,'ctor',At('a1'),False),(c,'push',E0+K(1),True)]
EN+=[('pod','extend',E0+At('a1'),True),('podm','extend',E0+At('a1'),True),('vec','pushv',None,True),('vb','pushv',None,True)]
def analyse(bc,c,op,want,keep,ob):
    ent='%s_%s'%(c,op); what='%s::%s'%(CLS[c],{'push':'push_back','pushv':'push_vector','dtor':'destructor','ctor':'constructor'}.get(op,op))
    d=core.irx([bc],['--entry','^%s$'%ent,'--opaque','^(Vec<|NP::|CppAD::thread_alloc::(get_memory|return_memory|create_array|delete_array)|CppAD::vectorBool::unit_min|CppAD::CheckSimpleVector)']); fn=ir.Mod(d['module']).fns.get(ent)
    if fn is None: ob.und('storage',what,'no entry'); return
    L=LAYOUT; M={n:o for n,t,o,e in c_state.members(L,c_state.CLS[LAY[c]])}
    ln=M.get('size_',M.get('length_')); cp=M.get('capacity_',M.get('n_unit_')); da=M.get('data_')
    if None in(ln,cp,da): ob.und('storage',what,'members'); return
    fields={ln:'len',cp:'cap',da:'data'}
    try: ex=Ex(fn,fields)
    except Und as e: ob.und('storage',what,str(e)); return
    def F(rule,txt,cond,msg,I=None): ob(rule,'%s: %s'%(what,txt),cond,msg,I)
    first=next((I for I in fn.reach_ins() if '/cppad/' in ir.where1(I)),None)
    es=8
    for p in ex.out:
        flat=[]
        for e in p.ev:
            flat.append(e)
        if op=='ctor': base=K(0)
        cap0=At('cap0') if op!='ctor' else K(0)
        data=p.mem.get(('a0',da),At(('blk',0))); cap=p.mem.get(('a0',cp),At('cap0')); length=p.mem.get(('a0',ln),E0)
        if op=='ctor' and ('a0',da) not in p.mem: data=K(0)
        where=next((e[-1] for e in flat if e[0] in('get','ret')),first)
        gets={e[1]:e for e in flat if e[0]=='get'}
        rets=[(i,e) for i,e in enumerate(flat) if e[0]=='ret']
        has0=op!='ctor'
        cap0pos=has0 and (holds(p.facts,K(1)-At('cap0')) or any(k=='ne' and q in(At(('blk',0)),-At(('blk',0))) for k,q in known(p.facts)))
        cap0zero=not has0 or holds(p.facts,At('cap0')) or any(k=='eq' and q in(At(('blk',0)),-At(('blk',0)),At('cap0')) for k,q in known(p.facts))
        # elements before the operation need storage
        if has0 and not cap0pos and any(k=='le' and nonneg(E0-K(1)+q) and q!=E0 for k,q in ()): pass
        own=ptrof(ex,data)
        # 1. every block is owned or returned exactly once
        for b in ([('blk',0)] if has0 else [])+list(gets):
            n=sum(1 for i,e in rets if ex.ptr(e[1]) and ex.ptr(e[1])[0]==b)
            kept=own==b and op!='dtor' and not(b==('blk',0) and cap.isconst() and cap.cval()==0 and length.isconst() and length.cval()==0)
            exists=True if b!=('blk',0) else (None if not cap0pos and not cap0zero else cap0pos)
            if b==('blk',0):
                if kept: F('storage-once','a block that is kept is not returned',n==0,'%s returns the block it still refers to'%fn.dem,where)
                elif exists is True: F('storage-once','the old block is returned once',n==1,'%s: the old block is returned %d times'%(fn.dem,n),where)
                elif exists is False: F('storage-once','nothing is returned without a block',n==0,'%s returns a block it does not have'%fn.dem,where)
                elif n: F('storage-once','nothing is returned without a block',False,'%s returns the old block without knowing that there is one'%fn.dem,where)
                else:
                    # no information: the new block replaces the old one
                    F('storage-once','the old block is returned once',False,'%s: the old block is not returned when there is one'%fn.dem,where)
            else:
                if kept: F('storage-once','a block that is kept is not returned',n==0,'%s returns the block it still refers to'%fn.dem,gets[b][-1])
                else: F('storage-once','a block that is not kept is returned',n==1,'%s: a new block is returned %d times and not kept'%(fn.dem,n),gets[b][-1])
        for i,e in rets:
            if ex.ptr(e[1]) is None or ex.ptr(e[1])[1]!=K(0): 
                if has0: F('storage-once','what is returned is the start of a block',False,'%s returns %s'%(fn.dem,e[1]),e[-1])
        if op=='dtor':
            destroyed(ex,p,flat,c,fn,F,('blk',0),At('cap0'),cap0pos); continue
        # 2. the capacity belongs to the block
        if own is not None:
            if own==('blk',0): F('storage-capacity','capacity of the block that is kept',cap==At('cap0') or cap.isconst() and op=='clear','%s: the capacity becomes %s while the block stays the same'%(fn.dem,cap),where)
            else:
                k=own[1]; ok=cap in(At(('cap',k)),At(('div',At(('capb',k)).key(),es)))
                F('storage-capacity','capacity of the new block',ok,'%s: capacity %s does not belong to the new block'%(fn.dem,cap),gets[own][-1])
        elif op=='clear' or data.isconst(): F('storage-capacity','no block, no capacity',cap==K(0) ,'%s: capacity %s without a block'%(fn.dem,cap),where)
        if op=='clear': F('storage-capacity','empty after clear',length==K(0) and cap==K(0),'%s: size %s, capacity %s after clear'%(fn.dem,length,cap),first)
        # 3. size
        if want is not None: F('storage-size','size',length==want,'%s: the size becomes %s instead of %s'%(fn.dem,length,want),first)
        elif op=='pushv': 
            sz=[a for a in length.atoms() if isinstance(a,str) and a.startswith('size_')]
            F('storage-size','size',len(sz)==1 and length==E0+At(sz[0]),'%s: the size becomes %s'%(fn.dem,length),first)
        if op=='extend': F('storage-size','the first new index is returned',p.retv==E0,'%s returns %s'%(fn.dem,p.retv),first)
        # 4. enough room
        if own==('blk',0) or own is None and op!='clear':
            room=holds(p.facts,length-cap) if c!='vb' else holds(p.facts,length-cap.scale(64)) or holds(p.facts,At(('um',length.key()))-cap)
            if not room and op=='ctor' and holds(p.facts,length): room=True
            if not room and c=='vb' and op=='ctor': ob.und('storage-room',what); room=None
            if op!='clear' and room is not None: F('storage-room','no more elements than capacity',room,'%s can leave %s elements in a block of capacity %s'%(fn.dem,length,cap),first)
        elif own is not None:
            g=gets[own]; req=g[2] if g[2] is not None else g[3].scale(es)
            need=length.scale(es) if c!='vb' else At(('um',length.key())).scale(es)
            F('storage-room','enough memory is requested',nonneg(req-need),'%s requests %s bytes for %s'%(fn.dem,req,need),g[-1])
        # 5. order: nothing is read from a returned block
        for i,e in rets:
            x=ex.ptr(e[1])
            if x is None: continue
            later=[z for z in accesses(ex,flat[i+1:]) if z==x[0]]
            F('storage-order','no access after the block is returned',not later,'%s uses a block after returning it'%fn.dem,e[-1])
        # 6. elements are carried over
        if keep and own is not None and own!=('blk',0):
            if cap0zero and c!='vb' and not has0: pass
            n=E0 if c!='vb' else At(('um',E0.key()))
            ok,msg=carried(ex,flat,own,('blk',0),n,es,p.facts)
            if ok is None: ob.und('storage-keep',what+': elements',msg)
            elif cap0zero: pass
            else: F('storage-keep','the elements that were there are kept',ok,'%s: %s'%(fn.dem,msg),gets[own][-1])
        # 7. the pushed element
        if op=='push' and c!='vb' and own is not None:
            tgt=At(own)+E0.scale(es)
            ws=[e for e in flat if e[0]=='write' and At(e[1])+e[2]==tgt or e[0]=='assign' and e[1]==tgt]
            F('storage-keep','the new element is stored at the end',bool(ws),'%s does not store the new element at index size'%fn.dem,first)
            if c=='vec' and ws:
                # the argument may be an element of the vector itself
                i=flat.index(ws[-1]); gone=[e for j,e in rets if j<i and ex.ptr(e[1]) and ex.ptr(e[1])[0]==('blk',0)]
                F('storage-order','the argument is used before the old block is returned',not gone,'%s uses its argument, which may be an element of the vector, after returning the old block'%fn.dem,gone[0][-1] if gone else first)
        if op=='pushv' and c!='vb' and own is not None:
            m=[z for z in length.atoms() if isinstance(z,str) and z.startswith('size_')]
            hit=None
            for e in flat:
                if e[0]!='loop': continue
                for x in e[4]:
                    at=At(x[1])+x[2] if x[0]=='write' else x[1] if x[0]=='assign' else None
                    if not isinstance(at,Poly): continue
                    z=ex.ptr(at)
                    if z is None or z[0]!=own: continue
                    co,rest=z[1].coef(e[1])
                    if co is None or co!=K(es): continue
                    lo,hi=rest+e[2].scale(es),rest+e[3].scale(es)
                    if lo==E0.scale(es) and hi==length.scale(es): hit=True
            empty=len(m)==1 and holds(p.facts,At(m[0]))
            F('storage-keep','the new elements are stored behind the old ones',bool(hit) or empty or length==E0,'%s does not store the new elements at indices size ... size+m-1'%fn.dem,first)
        # 8. constructors and destructors
        if c=='podm' and own is not None and own!=('blk',0):
            lp=[e for e in flat if e[0]=='loop' and any(x[0]=='ctor' and x[1]==At(own)+At(e[1]).scale(es) for x in e[4])]
            F('storage-construct','every element of a new block is constructed',any(e[2]==K(0) and e[3]==cap for e in lp),'%s does not construct all the elements of the new block'%fn.dem,gets[own][-1])
            if lp:
                i=flat.index(lp[0]); bad=[z for z in flat[:i] if z[0] in('write','assign') or z[0]=='loop' and any(y[0] in('write','assign') and ex.ptr(y[1] if y[0]=='assign' else At(y[1])) and ex.ptr(y[1] if y[0]=='assign' else At(y[1]))[0]==own for y in z[4])]
                F('storage-construct','construction comes first',not bad,'%s uses elements before they are constructed'%fn.dem,gets[own][-1])
        if c=='podm' and (own!=('blk',0) or op=='clear') and op!='ctor': destroyed(ex,p,flat,c,fn,F,('blk',0),At('cap0'),cap0pos)
def ptrof(ex,v):
    x=ex.ptr(v); return x[0] if x and x[0][0]=='blk' else None
def destroyed(ex,p,flat,c,fn,F,b,n,pos0):
    if c!='podm' or not pos0: return
    lp=[(i,e) for i,e in enumerate(flat) if e[0]=='loop' and any(x[0]=='dtor' and ex.ptr(x[1]) and ex.ptr(x[1])[0]==b for x in e[4])]
    rt=[i for i,e in enumerate(flat) if e[0]=='ret' and ex.ptr(e[1]) and ex.ptr(e[1])[0]==b]
    if not rt: return
    ok=any(e[2]==K(0) and e[3]==n and i<rt[0] for i,e in lp)
    F('storage-construct','every element of a returned block is destroyed',ok,'%s does not destroy all the elements of the block before it is returned'%fn.dem,flat[rt[0]][-1])
def accesses(ex,evs):
    for e in evs:
        if e[0] in('read','write'): yield e[1]
        elif e[0]=='memcpy':
            for v in e[1:3]:
                x=ex.ptr(v)
                if x: yield x[0]
        elif e[0]=='assign':
            for v in e[1:3]:
                x=ex.ptr(v)
                if x: yield x[0]
        elif e[0] in('ctor','dtor'):
            x=ex.ptr(e[1])
            if x: yield x[0]
        elif e[0]=='loop':
            yield from accesses(ex,e[4])
def carried(ex,flat,new,old,n,es,facts):
    rt=next((i for i,e in enumerate(flat) if e[0]=='ret' and ex.ptr(e[1]) and ex.ptr(e[1])[0]==old),len(flat))
    why='the elements are not copied to the new block'
    for i,e in enumerate(flat):
        if e[0]=='memcpy':
            d,s_=ex.ptr(e[1]),ex.ptr(e[2])
            if d and s_ and d[0]==new and s_[0]==old:
                if d[1]==K(0) and s_[1]==K(0) and nonneg(e[3]-n.scale(es)) and i<rt: return True,''
                why='%s bytes are copied from %s to %s%s'%(e[3],s_[1],d[1],'' if i<rt else ' after the old block was returned')
        if e[0]=='loop':
            iv=At(e[1])
            for x in e[4]:
                if x[0]=='assign': d,s_=ex.ptr(x[1]),ex.ptr(x[2])
                elif x[0]=='write':
                    d=(x[1],x[2]); a=[z for z in x[3].atoms() if isinstance(z,tuple) and z[0]=='el']
                    s_=(a[0][1],Poly(dict((tuple(m),c_) for m,c_ in a[0][2]))) if len(a)==1 and x[3]==At(a[0]) else None
                else: continue
                if not d or not s_ or d[0]!=new or s_[0]!=old: continue
                if d[1]==iv.scale(es) and s_[1]==iv.scale(es) and e[2]==K(0) and nonneg(e[3]-n): 
                    if i<rt: return True,''
                    why='the elements are copied after the old block was returned'; continue
                if d[1]!=s_[1]: why='element at byte %s is copied to byte %s'%(s_[1],d[1])
                else: why='elements %s ... %s-1 are copied instead of 0 ... %s-1'%(e[2],e[3],n)
    # no copy is needed when there is nothing to copy
    if holds(facts,n): return True,''
    if n==E0 and holds(facts,At('cap0')): return True,''
    return False,why
def arrays(bc,ob):
    """thread_alloc::create_array and delete_array: every element is constructed, and destroyed, once"""
    op='^(NP::|CppAD::thread_alloc::(get_memory|return_memory))'
    res={}
    for ent in('ar_create','ar_delete'):
        d=core.irx([bc],['--entry','^%s$'%ent,'--opaque',op]); fn=ir.Mod(d['module']).fns.get(ent)
        what='thread_alloc::%s'%{'ar_create':'create_array','ar_delete':'delete_array'}[ent]
        if fn is None: ob.und('storage-array',what,'no entry'); continue
        try: ex=Ex(fn,{})
        except Und as e: ob.und('storage-array',what,str(e)); continue
        first=next((I for I in fn.reach_ins() if '/cppad/' in ir.where1(I)),None)
        def F(txt,cond,msg): ob('storage-array','%s: %s'%(what,txt),cond,msg,first)
        for p in ex.out:
            if ent=='ar_create':
                g=[e for e in p.ev if e[0]=='get']
                if len(g)!=1: ob.und('storage-array',what,'get'); continue
                b=g[0][1]; cap=At(('div',At(('capb',1)).key(),8))
                F('memory requested',nonneg(g[0][2]-At('a0').scale(8)),'%s requests %s bytes for n elements of 8 bytes'%(fn.dem,g[0][2]))
                F('number of elements reported',p.mem.get(('a1',0))==cap,'%s reports %s elements'%(fn.dem,p.mem.get(('a1',0))))
                w=[e for e in p.ev if e[0]=='write' and e[1]==b]
                res['cnt']=[(e[2],e[3]==cap) for e in w]
                lp=[e for e in p.ev if e[0]=='loop' and any(x[0]=='ctor' and x[1]==At(b)+At(e[1]).scale(8) for x in e[4])]
                F('every element is constructed',any(e[2]==K(0) and e[3]==cap for e in lp),'%s does not construct all the elements'%fn.dem)
                F('the start of the block is returned',p.retv==At(b),'%s returns %s'%(fn.dem,p.retv))
            else:
                rt=[(i,e) for i,e in enumerate(p.ev) if e[0]=='ret']
                F('the block is returned once',len(rt)==1 and rt[0][1][1]==At(('P','a0')),'%s returns %d blocks'%(fn.dem,len(rt)))
                lp=[(i,e) for i,e in enumerate(p.ev) if e[0]=='loop' and any(x[0]=='dtor' and x[1]==At(('P','a0'))+At(e[1]).scale(8) for x in e[4])]
                if not lp: F('every element is destroyed',False,'%s does not destroy the elements'%fn.dem); continue
                i,e=lp[0]
                m=[a for a in e[3].atoms() if isinstance(a,tuple) and a[0]=='m0' and a[1]=='a0']
                F('every element is destroyed',e[2]==K(0) and len(m)==1 and e[3]==At(m[0]),'%s destroys elements %s ... %s'%(fn.dem,e[2],e[3]))
                F('elements are destroyed before the block is returned',bool(rt) and i<rt[0][0],'%s returns the block first'%fn.dem)
                if m: res['del']=m[0][2]
    if 'cnt' in res and 'del' in res:
        off=[int(o.cval()) for o,ok in res['cnt'] if o.isconst() and ok]
        ob('storage-array','the number of elements destroyed is the number constructed',res['del'] in off,'delete_array reads the number of elements at byte %d, create_array stores it at %s'%(res['del'],off))
OPQ='^(Vec<|NP::|CppAD::thread_alloc::(get_memory|return_memory|create_array|delete_array)|CppAD::vectorBool::unit_min|CppAD::CheckSimpleVector)'
def bits(bc,ent,ob):
    """element i of a vectorBool is bit i mod 64 of unit i div 64 wherever it is accessed"""
    what='vectorBool::%s'%{'vb_get':'operator[] const','vb_rd':'conversion of an element','vb_set':'assignment to an element','vb_push':'push_back','vb_pushv':'push_vector'}[ent]
    d=core.irx([bc],['--entry','^%s$'%ent,'--opaque',OPQ]); fn=ir.Mod(d['module']).fns.get(ent)
    if fn is None: ob.und('storage-bit',what,'no entry'); return
    M={n:o for n,t,o,e in c_state.members(LAYOUT,c_state.CLS['vbool'])}; lo=M.get('length_')
    R=fn.reachable(); entry=[k for k in R if not fn.preds().get(k)]
    stores=[I for b in R for I in fn.blocks[b] if I['op']=='store']
    memo={}
    def ex(o):
        if isinstance(o,str) and o[0]=='c' and o[1:].lstrip('-').isdigit(): return K(int(o[1:]))
        if not(isinstance(o,str) and o[0]=='%'): return At(o)
        if o in memo: return memo[o]
        I=fn.get(o); op=I['op']; a=I.get('o',[]); memo[o]=At(o)
        if op in('add','sub','mul'): x,y=ex(a[0]),ex(a[1]); r=x+y if op=='add' else x-y if op=='sub' else x*y
        elif op in('zext','sext','trunc','freeze'): r=ex(a[0])
        elif op=='shl' and ex(a[1]).isconst(): r=ex(a[0]).scale(2**int(ex(a[1]).cval()))
        elif op in('lshr','udiv') and ex(a[1]).isconst():
            k=int(ex(a[1]).cval()); k=2**k if op=='lshr' else k; r=At(('div',ex(a[0]).key(),k))
        elif op=='and' and a[1]=='c63': x=ex(a[0]); r=x-At(('div',x.key(),64)).scale(64)
        elif op=='urem' and a[1]=='c64': x=ex(a[0]); r=x-At(('div',x.key(),64)).scale(64)
        elif op=='and' and a[1]=='c-64': x=ex(a[0]); r=At(('div',x.key(),64)).scale(64)
        elif op=='load':
            G=fn.get(a[0]) if a[0][0]=='%' else None
            off=(G['off'] if G is not None and G['op']=='getelementptr' and G['base']=='a0' and not G['idx'] else 0 if a[0]=='a0' else None)
            r=At('len0') if off==lo and I['b' if 'b' in I else 'i'] is not None and blk(o) in entry else At(o)
        else: r=At(o)
        memo[o]=r; return r
    bl={'%%%d'%I['i']:b for b in R for I in fn.blocks[b]}
    def blk(o): return bl.get(o)
    uses={}
    for b in R:
        for I in fn.blocks[b]:
            for o in I.get('o',[]):
                if isinstance(o,list): o=o[0]
                if isinstance(o,str): uses.setdefault(o,[]).append(I)
    masks=['%%%d'%I['i'] for b in R for I in fn.blocks[b] if I['op']=='shl' and I['o'][0]=='c1']
    if not masks: ob.und('storage-bit',what,'no mask'); return
    def unit(o):
        L=fn.get(o) if isinstance(o,str) and o[0]=='%' else None
        if L is None or L['op']!='load': return None,None
        G=fn.get(L['o'][0]) if L['o'][0][0]=='%' else None
        if G is None or G['op']!='getelementptr' or len(G['idx'])!=1: return None,None
        x,sc=G['idx'][0]
        return ex(x) if sc==8 and G['off']==0 else None,L['o'][0]
    def sides(I,m):
        """(kind, other operand, instruction) of the uses of the mask"""
        for U in uses.get(m,[]):
            if U['op']=='xor' and 'c-1' in U['o']:
                for W in uses.get('%%%d'%U['i'],[]):
                    if W['op']=='and': yield 'clear',[o for o in W['o'] if o!='%%%d'%U['i']][0],W
            elif U['op'] in('or','and'):
                yield ('set' if U['op']=='or' else 'test'),[o for o in U['o'] if o!=m][0],U
    want={'vb_get':At('a1'),'vb_rd':At('a1'),'vb_set':At('a1'),'vb_push':At('len0')}.get(ent)
    n=0
    for m in masks:
        sh=ex(fn.get(m)['o'][1])
        for kind,other,U in sides(fn,m):
            u,adr=unit(other)
            if u is None: continue
            n+=1
            dv=[a for a in u.atoms() if isinstance(a,tuple) and a[0]=='div']
            E=Poly(dict((tuple(mm),c) for mm,c in dv[0][1])) if len(dv)==1 and u==At(dv[0]) and dv[0][2]==64 else None
            ob('storage-bit',what+': unit and bit belong to one element',E is not None and sh==E-u.scale(64),'%s: bit %s of unit %s'%(fn.dem,sh,u),U)
            if E is None: continue
            if want is not None: ob('storage-bit',what+': the element asked for',E==want,'%s accesses element %s'%(fn.dem,E),U)
            elif ent=='vb_pushv':
                ph=[a for a in E.atoms() if a!='len0']; ob('storage-bit',what+': the element asked for',len(ph)==1 and E==At('len0')+At(ph[0]),'%s accesses element %s'%(fn.dem,E),U)
            if kind=='test': continue
            # the polarity: set on the side where the element is true
            r='%%%d'%U['i']; st=[x for x in stores if x['o'][0]==r]; pol=None
            bb=blk(r)
            for c_ in R:
                t=fn.blocks[c_][-1]
                if t['op']!='br' or len(t['o'])!=3: continue
                cv=t['o'][0]; neg=False
                while isinstance(cv,str) and cv[0]=='%':
                    C=fn.get(cv)
                    if C['op']=='icmp' and 'c0' in C['o'] and C['pred'] in('eq','ne'): neg^=C['pred']=='eq'; cv=C['o'][0]
                    elif C['op'] in('trunc','zext'): cv=C['o'][0]
                    elif C['op']=='xor' and C['o'][1] in('true','c1','c-1'): neg^=True; cv=C['o'][0]
                    else: break
                C=fn.get(cv) if isinstance(cv,str) and cv[0]=='%' else None
                iselem=cv=={'vb_push':'a1','vb_set':'a2'}.get(ent) or ent=='vb_pushv' and C is not None and C['op']=='load' and fn.get(C['o'][0]) is not None and fn.get(C['o'][0])['op']=='call'
                if not iselem: continue
                for k,tb in enumerate(t['o'][1:]):
                    if int(tb[1:])==bb: pol=(k==0)^neg
            if pol is not None: ob('storage-bit',what+': a true element sets its bit, a false one clears it',pol==(kind=='set'),'%s %ss the bit of an element that is %s'%(fn.dem,kind,str(pol).lower()),U)
    if not n: ob.und('storage-bit',what,'no access with the mask')
LAYOUT=None
def one(x):
    global LAYOUT
    import c_pattern
    bc,L,e=x; LAYOUT=L; ob=c_pattern.Obs()
    try:
        if e=='arrays': arrays(bc,ob)
        elif isinstance(e,str): bits(bc,e,ob)
        else: analyse(bc,*e,ob)
    except core.Broken as z: ob.und('storage',str(e),str(z)[:200])
    except (KeyError,IndexError,TypeError,AttributeError,ValueError,RecursionError) as z: ob.und('storage',str(e),repr(z)[:200])
    # one obligation per instance
    out={}
    for o in ob.o:
        k=o[:2]
        if k not in out or o[2]=='viol' and out[k][2]!='viol': out[k]=o
    return list(out.values())
def run(rep):
    L=c_state.layouts('h_state.cpp'); bc=core.compile_bc('h_store.cpp'); core.ensure_irx()
    for r in core.pmap(one,[(bc,L,e) for e in EN+['arrays','vb_get','vb_rd','vb_set','vb_push','vb_pushv']]): rep.merge(r)
def p16(prop,tier,t0):
    rep=core.Report(prop); run(rep)
    return core.finish(rep,tier,t0,'Typestate of the memory blocks along every path of the size changing operations of pod_vector, pod_vector_maybe, CppAD::vector and vectorBool, and of create_array and delete_array; loops are summarised by the range of elements they touch.',
        {'storage-once':15,'storage-capacity':8},['get_memory returns a new block of at least the requested size'])
