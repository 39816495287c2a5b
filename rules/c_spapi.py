"""Interface of the sparsity routines: which rows are seeded, which set of
variables is handed to which sweep, and which row and column every element of
the result comes from (P04,P05)."""
import core,ir,cfgx
from aff import Aff,Poly
K=Poly.const; A=Poly.atom
OPQ=['^CppAD::local::sweep::','^CppAD::local::player<','^CppAD::thread_alloc::','^std::(?!min|max|swap)','^CppAD::local::pod_vector<','^CppAD::vector<','^CppAD::vectorBool',
 '^void CppAD::CheckSimpleVector','^CppAD::CheckSimpleVector','^Vec<','^CppAD::sparse_rc<','^CppAD::local::sparse::(pack_setvec|size_setvec|list_setvec|svec)','one_element_std_set','two_element_std_set']
INTP=['set_internal_pattern','get_internal_pattern']
class Und(Exception): pass

def unmem(fn):
    """loads of a local that is stored at one place become that value"""
    st={}; bad=set()
    for I in fn.reach_ins():
        if I['op']=='store':
            if I['o'][1].startswith('%') and (fn.get(I['o'][1]) or {}).get('op')=='alloca': st.setdefault(I['o'][1],[]).append(I)
    D=fn.doms(); nb=[]
    for b,blk in enumerate(fn.blocks):
        nblk=[]
        for j,I in enumerate(blk):
            if I['op']=='load' and len(st.get(I['o'][0],()))==1 and b in fn.reachable():
                s=st[I['o'][0]][0]; sb=fn.blk[s['i']]
                if (sb in D[b] and sb!=b) or (sb==b and s['i']<I['i']):
                    I=dict(I); I['op']='freeze'; I['o']=[s['o'][0]]
            nblk.append(I)
        nb.append(nblk)
    d=dict(fn.d); d['blocks']=nb
    return ir.Fn(fn.name,d,fn.mod)

class Api:
    def __init__(s,fn,mem):
        s.fn=fn=unmem(fn); s.mem=mem
        s.D=fn.doms(); s.R=fn.reachable(); s.P=fn.preds(); s._reach={}
        s.pre()
        s.aff=Aff.__new__(Aff); s.aff.__init__(fn,s.classify)
        s.collect()
    # --------------------------------------------------------- reachability
    def reach(s,b):
        if b not in s._reach:
            seen=set(); st=list(s.fn.succs(b))
            while st:
                x=st.pop()
                if x in seen: continue
                seen.add(x); st+=s.fn.succs(x)
            s._reach[b]=seen
        return s._reach[b]
    def before(s,x,y):
        """x can happen before y"""
        bx,by=s.fn.blk[x['i']],s.fn.blk[y['i']]
        return by in s.reach(bx) or (bx==by and s.pos[x['i']]<s.pos[y['i']])
    # ------------------------------------------------------------ iterators
    def pre(s):
        fn=s.fn; s.pos={}; s.seti={}; s.copy={}; s.ctor={}; s.vb={}
        for b in fn.reachable():
            for j,I in enumerate(fn.blocks[b]): s.pos[I['i']]=j
        for I in fn.reach_ins():
            if I['op']=='store':
                v=fn.get(I['o'][0])
                if v is not None and v['op']=='call':
                    c=fn.callee(v)
                    if c.startswith('std::set') and c.endswith(('::begin','::end')):
                        s.seti.setdefault(I['o'][1],[]).append((c.rsplit('::',1)[1],v,I))
                    elif c.endswith('_iterator<unsigned long>::operator++') and c.startswith('std::'):
                        s.copy.setdefault(I['o'][1],set()).add(v['o'][0])
            elif I['op']=='call':
                c=fn.callee(I)
                if c.endswith('_iterator') or c.endswith('const_iterator::pack_setvec_const_iterator') or 'setvec_const_iterator' in c.rsplit('::',1)[-1]:
                    if 'setvec' in c and len(I['o'])==3: s.ctor.setdefault(I['o'][0],[]).append(I)
                elif c=='CppAD::vectorBool::operator[]' and len(I['o'])==3: s.vb[I['o'][0]]=I
    def itobj(s,o,d=0):
        """the iterator object a pointer stands for"""
        I=s.fn.get(o)
        if I is None or d>6: return o
        if I['op']=='call' and (s.fn.callee(I) or '').endswith('operator++'): return s.itobj(I['o'][0],d+1)
        if I['op'] in('freeze','bitcast'): return s.itobj(I['o'][0],d+1)
        if o in s.copy and len(s.copy[o])==1: return s.itobj(next(iter(s.copy[o])),d+1)
        return o
    def latest(s,cand,use):
        """the candidate instruction that last executed before use"""
        ub=s.fn.blk[use['i']]; D=s.D[ub]
        dom=[c for c in cand if (s.fn.blk[c['i']] in D and s.fn.blk[c['i']]!=ub) or (s.fn.blk[c['i']]==ub and s.pos[c['i']]<s.pos[use['i']])]
        if not dom: return cand[0] if len(cand)==1 else None
        def later(a,b): 
            x,y=s.fn.blk[a['i']],s.fn.blk[b['i']]
            return (y in s.D[x] and x!=y) or (x==y and s.pos[a['i']]>s.pos[b['i']])
        last=[a for a in dom if all(a is b or later(a,b) for b in dom)]
        if len(last)!=1: return None
        for c in cand:
            if c is not last[0] and c not in dom and s.before(last[0],c) and s.before(c,use): return None
        return last[0]
    def setsrc(s,it,use,k='begin'):
        es=[(v,st) for kk,v,st in s.seti.get(it,()) if kk==k]
        l=s.latest([st for v,st in es],use) if es else None
        if l is None: return None
        v=[v for v,st in es if st is l][0]
        r,p=s.aff.addr(v['o'][0])
        return (r,v['i']) if p==Poly() and isinstance(r,tuple) and r[0]=='p' else None
    # ------------------------------------------------------------- objects
    def obj(s,o):
        r,p=s.aff.addr(o)
        if r=='a0' and s.mem:
            if not p.isconst(): return None
            return s.mem.get(int(p.cval()),('m',int(p.cval())))
        if p!=Poly(): return None
        return r
    def classify(s,I):
        fn=s.fn; op=I['op']
        if op in('call','invoke'):
            c=fn.callee(I) or ''; m=c.rsplit('::',1)[-1].split('<')[0]
            if c.endswith(('operator[]','operator[]<unsigned long>')) and len(I['o'])==2:
                o=s.obj(I['o'][0])
                if o is None: return None
                k=s.aff.poly(I['o'][1]).key()
                return ('el',o,k) if I.get('t')=='i1' else ('p',o,k)
            if m in('size','n_set','end','nnz','nr','nc') and len(I['o'])==1 and not c.startswith('std::set'): 
                o=s.obj(I['o'][0]); return (m,o) if o is not None else None
            if m in('row','col','data') and len(I['o'])==1:
                o=s.obj(I['o'][0]); return (m,o) if o is not None else None
            if m=='operator*' and 'setvec' in c:
                it=s.itobj(I['o'][0]); return s.selem(it,I)
            return None
        if op=='load':
            a=I['o'][0]; J=fn.get(a)
            if J is not None and J['op']=='call' and (fn.callee(J) or '').startswith('std::_Rb_tree_const_iterator') and (fn.callee(J) or '').endswith('operator*'):
                it=s.itobj(J['o'][0]); src=s.setsrc(it,I)
                if src: return ('elem',src[0][1],src[0][2],src[1])
                return None
            r,p=s.aff.addr(a)
            if p==Poly() and isinstance(r,tuple) and r[0]=='p': return ('el',)+r[1:]
            if r=='a0' and s.mem and p.isconst() and s.mem.get(int(p.cval()))=='nvar': return ('nvar',)
            return None
        if op=='phi':
            if I.get('t')!='i64': return None
            its=set()
            for v,_ in I['o']:
                J=fn.get(v)
                if J is None or J['op']!='call' or not (fn.callee(J) or '').endswith('operator*') or 'setvec' not in fn.callee(J): return None
                its.add(s.itobj(J['o'][0]))
            if len(its)==1: return s.selem(next(iter(its)),I)
        return None
    def selem(s,it,use):
        c=s.ctor.get(it,())
        c=s.latest(c,use) if c else None
        if c is None: return None
        o=s.obj(c['o'][1])
        return ('selem',o,s.aff.poly(c['o'][2]).key(),c['i']) if o is not None else None
    # -------------------------------------------------------------- events
    def collect(s):
        fn=s.fn; s.ev=[]
        for I in fn.reach_ins():
            if I['op'] in('call','invoke'):
                c=fn.callee(I) or ''; m=c.rsplit('::',1)[-1].split('<')[0]; o=I['o']
                if '::sweep::' in c: s.ev.append(('sweep',c.split('::sweep::')[1].split('<')[0],I))
                elif 'internal_pattern' in c: s.ev.append(('pat','set' if 'set_internal' in c else 'get',I))
                elif m in('post_element','add_element','process_post','resize','clear','set') and o and not c.startswith('std::set'):
                    s.ev.append((m,s.obj(o[0]),[s.aff.poly(x) for x in o[1:]],I))
                elif c.startswith('std::set') and c.endswith('::insert'):
                    r,p=s.aff.addr(o[0])
                    if isinstance(r,tuple) and r[0]=='p':
                        v=[J for J in fn.reach_ins() if J['op']=='store' and J['o'][1]==o[1]]
                        w=s.latest(v,I) if v else None
                        val=s.aff.poly(w['o'][0]) if w is not None else s.aff.poly('%'+str(I['i']))
                        s.ev.append(('insert',r[1],[Poly(dict(r[2])),val],I))
                elif c.startswith('std::set') and c.endswith('::clear'):
                    r,p=s.aff.addr(o[0])
                    if isinstance(r,tuple) and r[0]=='p': s.ev.append(('sclear',r[1],[Poly(dict(r[2]))],I))
                elif m=='pod_vector' and len(o)==2: s.ev.append(('resize',s.obj(o[0]),[s.aff.poly(o[1])],I))
            elif I['op']=='store':
                r,p=s.aff.addr(I['o'][1])
                if isinstance(r,tuple) and r[0]=='p' and p==Poly(): s.ev.append(('store',r[1],[Poly(dict(r[2]))],I,I['o'][0]))
                else:
                    J=fn.get(I['o'][1])
                    if J is not None and J['op']=='load' and J['o'][0] in s.vb:
                        q=s.vb[J['o'][0]]; v=fn.get(I['o'][0])
                        k={'or':'c1','and':'c0'}.get(v['op'] if v else '',None)
                        s.ev.append(('store',s.obj(q['o'][1]),[s.aff.poly(q['o'][2])],I,k))
        # sizes fixed by the only resize of an object
        n={}
        for e in s.ev:
            if e[0]=='resize' and e[1] is not None: n.setdefault(e[1],[]).append(e)
        s.sub={}
        for o,es in n.items():
            if len(es)==1:
                a=es[0][2]; 
                s.sub[('n_set',o)]=a[0]; s.sub[('size',o)]=a[0]
                if len(a)>1: s.sub[('end',o)]=a[1]
    def norm(s,p):
        for _ in range(4):
            t=[a for a in p.atoms() if a in s.sub]
            if not t: return p
            for a in t: p=p.subst(a,s.sub[a])
        return p
    def of(s,kind,o=None): return [e for e in s.ev if e[0]==kind and (o is None or e[1]==o)]
    # -------------------------------------------------------------- ranges
    def cover(s,p,lo,hi):
        """does p take every value of lo..hi ? True, False or None"""
        p=s.norm(p); iv=[a for a in p.atoms() if a in s.aff.ivs]
        if len(iv)!=1: 
            return None if iv or any(a[0]=='%' for a in p.atoms()) else False
        L=s.aff.ivs[iv[0]]; co,rem=p.coef(iv[0])
        if co not in(K(1),K(-1)): return False
        x=s.norm(co*L.lo+rem); y=s.norm(co*L.hi+rem)
        if co==K(-1): x,y=y,x
        return (x,y)==(s.norm(lo),s.norm(hi))
    # -------------------------------------------------------------- guards
    def guards(s,b):
        """branch edges every path to b takes, loop tests excluded; also early exits of the loops around b"""
        out=[]; fn=s.fn
        for c in s.D[b]:
            if c==b: continue
            t=fn.blocks[c][-1]
            if t['op']!='br' or len(t['o'])<3: continue
            x,y=[int(q[1:]) for q in t['o'][1:]]
            for sx,pol in((x,True),(y,False)):
                if x!=y and sx in s.D[b] and s.edge(c,sx): out.append((t['o'][0],pol,c))
        for L in s.aff.loops_at(b):
            for c in L.body:
                t=fn.blocks[c][-1]
                if t['op']!='br' or len(t['o'])<3: continue
                for j,q in enumerate(t['o'][1:]):
                    if int(q[1:]) not in L.body and not any(g[2]==c for g in out) and s.looptest(t['o'][0],c) is None: out.append((t['o'][0],j==1,c))
        return [g for g in out if s.looptest(g[0],g[2]) is None]
    def edge(s,c,x):
        """x is entered from c only (other than by its own back edges)"""
        return all(p==c or x in s.D[p] for p in s.P.get(x,[]) if p in s.R)
    def lastof(s,p):
        return p
    def looptest(s,cond,c):
        """(kind,..) when the branch of block c is the test of a loop"""
        fn=s.fn; I=fn.get(cond)
        Ls=[L for L in s.aff.loops if c in L.body and any(x not in L.body for x in fn.succs(c))]
        if not Ls or I is None: return None
        if I['op']=='xor': I=fn.get(I['o'][0]) or I
        if I['op']=='icmp':
            p,q=s.aff.poly(I['o'][0]),s.aff.poly(I['o'][1])
            for L in Ls:
                if L.iv is not None and (L.iv in p.atoms() or L.iv in q.atoms()) and c==L.h: return ('iv',L)
                if L.iv is not None and (L.iv in p.atoms() or L.iv in q.atoms()) and c in L.latches: return ('iv',L)
            for x,y in((p,q),(q,p)):
                a=[t for t in x.atoms() if t[0]=='selem']
                if len(a)==1 and not any(t[0]=='selem' for t in y.atoms()):
                    co,rem=x.coef(a[0])
                    if co==K(1): return ('selem',a[0],y-rem)
        if I['op']=='call' and ('operator!=' in (fn.callee(I) or '') or 'operator==' in (fn.callee(I) or '')):
            for z,w in((0,1),(1,0)):
                a=s.setsrc(s.itobj(I['o'][z]),I); e=s.setsrc(s.itobj(I['o'][w]),I,'end')
                if a and e: return ('elem',a[1],a[0],e[0])
        return None
    def bounds(s,at):
        """bounds of the tests of the loop over the set iterator"""
        r=[]
        for c in s.R:
            t=s.fn.blocks[c][-1]
            if t['op']=='br' and len(t['o'])>2:
                l=s.looptest(t['o'][0],c)
                if l and l[0]=='selem' and l[1]==at: r.append(s.norm(l[2]))
        return r
    def lit(s,cond,pol):
        """('el',root,poly,truth) | ('zero',poly,truth) | ('arg',n,truth) | None ; conjunctions -> list"""
        fn=s.fn; I=fn.get(cond)
        if I is None:
            if isinstance(cond,str) and cond[0]=='a': return [('arg',cond,pol)]
            return [None]
        c=s.classify(I)
        if c is not None and c[0]=='el': return [('el',c[1],Poly(dict(c[2])),pol)]
        if I['op'] in('trunc','freeze','zext'): return s.lit(I['o'][0],pol)
        if I['op']=='xor' and I.get('t')=='i1' and I['o'][1] in('c1','c-1','true'): return s.lit(I['o'][0],not pol)
        if I['op']=='select' and I['o'][2] in('c0','false') and pol: return s.lit(I['o'][0],True)+s.lit(I['o'][1],True)
        if I['op']=='and' and pol: return s.lit(I['o'][0],True)+s.lit(I['o'][1],True)
        if I['op']=='or' and not pol: return s.lit(I['o'][0],False)+s.lit(I['o'][1],False)
        if I['op']=='select' and I['o'][1] in('c1','c-1','true') and not pol: return s.lit(I['o'][0],False)+s.lit(I['o'][2],False)
        if I['op']=='or' and pol: return [('or',s.lit(I['o'][0],True)+s.lit(I['o'][1],True))]
        if I['op']=='select' and I['o'][1] in('c1','c-1','true') and pol: return [('or',s.lit(I['o'][0],True)+s.lit(I['o'][2],True))]
        if I['op']=='and' and not pol: return [('or',s.lit(I['o'][0],False)+s.lit(I['o'][1],False))]
        if I['op']=='select' and I['o'][2] in('c0','false') and not pol:
            return [('or',s.lit(I['o'][0],False)+s.lit(I['o'][1],False))]
        if I['op']=='icmp':
            x,y=s.aff.poly(I['o'][0]),s.aff.poly(I['o'][1])
            for z in I['o'][:1]:
                J=fn.get(z)
                if J is not None and s.classify(J) is None and J['op']=='and' and J['o'][1]=='c1' and y==Poly():
                    return s.lit(J['o'][0],pol if I['pred']=='ne' else not pol)
            if y==Poly() and I['pred'] in('eq','ne'):
                t=(I['pred']=='ne')==pol
                J=fn.get(I['o'][0])
                if J is not None and J['op']=='or' and I.get('t')=='i1' and J.get('t')!='i1' and J['o'][1][0]=='%':
                    r=[('zero',s.aff.poly(z),not t) for z in J['o']]
                    return r if not t else [('or',r)]
                a=list(x.atoms())
                if len(a)==1 and x==A(a[0]) and a[0][0]=='el' and I.get('t')=='i1':
                    ty=(fn.get(I['o'][0]) or {}).get('t')
                    if ty in('i8','i1'): return [('el',a[0][1],Poly(dict(a[0][2])),t)]
                return [('zero',x,not t)]
            return [('cmp',I['pred'],x,y,pol)]
        return [None]
    def guardlits(s,b):
        r=[]
        for c,p,blk in s.guards(b):
            for l in s.lit(c,p): r.append((l,blk))
        return r

# ======================================================================= rules
def has(p,kinds):
    def w(x):
        if isinstance(x,tuple):
            return (len(x)>1 and x[0] in kinds) or any(w(y) for y in x)
        return False
    return any(w(a) for a in p.atoms())
def resolved(api,p):
    """every atom is understood"""
    def w(a):
        if isinstance(a,tuple) and len(a)==2 and a[0]=='%': return a in api.aff.ivs
        return all(w(y) for y in a if isinstance(y,tuple)) if isinstance(a,tuple) else True
    return all(w(a) for a in p.atoms())
def one(p,kind):
    a=[x for x in p.atoms() if x[0]==kind]
    return a[0] if len(a)==1 else None
def tad(p,T):
    """p is taddr[X]: X"""
    a=one(p,'el')
    return Poly(dict(a[2])) if a and a[1]==T and p==A(a) else None
class Chk:
    def __init__(s,api,name,obs): s.a=api; s.n=name; s.obs=obs
    def where(s,e): 
        I=e[3] if e is not None and isinstance(e[2],list) else e[2] if e is not None else None
        return ir.where(I) if I is not None else ''
    def put(s,r,ok,txt,e=None):
        s.obs.append((s.rule,s.n+': '+r,'ok' if ok else 'undecided' if ok is None else 'viol','' if ok else txt,s.where(e)))
    def ins(s,e): return e[3] if isinstance(e[2],list) else e[2]
    def blk(s,e): return s.a.fn.blk[s.ins(e)['i']]
    def before(s,x,y): return s.a.before(s.ins(x),s.ins(y))
    # ---------------------------------------------------------- complete?
    def allset(s,at):
        """the loop over the elements of a set sees all of them"""
        a=s.a; got=None
        for c in a.R:
            t=a.fn.blocks[c][-1]
            if t['op']!='br' or len(t['o'])<3: continue
            l=a.looptest(t['o'][0],c)
            if at[0]=='elem' and l and l[0]=='elem' and l[1]==at[3]:
                got=(l[2][1],l[2][2])==(l[3][1],l[3][2])
        if at[0]=='elem': return got
        b=a.bounds(at); ok=[a.norm(A(('end',at[1])))]+s.ends.get(at[1],[])
        if not b: return None
        r=[x in [a.norm(o) for o in ok] for x in b]
        return True if all(r) else (False if all(resolved(a,x) for x in b) else None)
    def rng(s,p,n):
        return s.a.cover(p,K(0),n-K(1))
    def extra(s,e,allowed):
        """other conditions of an event : None undecided, list of texts"""
        bad=[]
        for l,blk in s.a.guardlits(s.blk(e)):
            if l is None: return None
            if allowed(l): continue
            if l[0]=='zero' and not any(x in s.a.aff.ivs for x in l[1].atoms()) and not has(l[1],('el','elem','selem')): continue
            if l[0]=='zero' and not resolved(s.a,l[1]): return None
            if l[0]=='cmp':
                d=l[2]-l[3]
                if not resolved(s.a,d) or not any(x in s.a.aff.ivs for x in d.atoms()) and not has(d,('el','elem','selem')): return None
            bad.append(l)
        # conditions that only some of the paths to the event take
        b=s.blk(e); dom={g[2] for g in s.a.guards(b)}
        if not hasattr(s,'cd'): s.cd=cfgx.CD(s.a.fn)
        for c in {c for c,_ in s.cd.deps(b)}-dom:
            t=s.a.fn.blocks[c][-1]
            if t['op']!='br' or s.a.looptest(t['o'][0],c) is not None: continue
            l=s.a.lit(t['o'][0],True)[0]
            d=l[1] if l and l[0]=='zero' else l[2]-l[3] if l and l[0]=='cmp' else None
            if d is None or not resolved(s.a,d): 
                if not bad: return None
                continue
            if any(x in s.a.aff.ivs for x in d.atoms()) or has(d,('selem',)): bad.append(('one of several conditions',)+tuple(l))
            elif not bad and has(d,('el','elem')): return None
        return bad
    # ------------------------------------------------------------ seeding
    def seed(s,P,T,N,Q,R,kind,mirror,zero=False,evs=('post_element','add_element'),col0=False):
        """every (taddr[X],C) of the relation R goes into P.  mirror: the relation is indexed (C,X)"""
        a=s.a; s.rule=s.rl+'-seed'; got=[]; why='no element is ever put in the set of a variable'; last=None; und=False
        for e in [e for e in a.ev if e[0] in evs and e[1]==P]:
            X=tad(e[2][0],T); C=e[2][1] if len(e[2])>1 else None; last=e
            if X is None:
                if not resolved(a,e[2][0]): und=True
                why='the row %r is not an element of the variable indices'%e[2][0]; continue
            X=a.norm(X); C=a.norm(C); gd=None; r=None
            if col0:
                if C!=K(0): why='column %r instead of zero'%C; continue
                if kind=='bool': tgt=[X]
                else: tgt=None
            if kind=='bool':
                gl=[l for l,_ in a.guardlits(s.blk(e)) if l is not None and l[0]=='el' and l[1]==R and l[3]]
                want=X if col0 else X*Q+C if not mirror else C*N+X
                want=a.norm(want)
                gs=[l for l in gl if a.norm(l[2])==want]
                if not gs:
                    if any(l is None for l,_ in a.guardlits(s.blk(e))) or any(not resolved(a,l[2]) for l in gl): und=True
                    why='an element is put in for another element of the pattern (%s instead of %r)'%(', '.join(repr(l[2]) for l in gl) or 'no condition',want); continue
                r=s.rng(X,N); r2=True if col0 else s.rng(C,Q)
                ok=lambda l: l in gs
            elif kind=='rc':
                ra,ca=one(X if not mirror else C,'el'),one(C if not mirror else X,'el')
                if not(ra and ca and ra[1]==('row',R) and ca[1]==('col',R) and ra[2]==ca[2]):
                    if not resolved(a,X) or not resolved(a,C): und=True
                    why='row %r and column %r are not those of one element of the pattern'%(X,C); continue
                k=Poly(dict(ra[2])); r=None
                for n in (('size',('row',R)),('size',('col',R)),('nnz',R)):
                    q=s.rng(k,A(n)); r=True if q or r else q if q is not None else r
                r2=True; ok=lambda l: False
            else:
                tag='elem' if kind=='set' else 'selem'
                at=one(C if not mirror else X,tag) if not col0 else one(X,tag)
                oth=X if not mirror else C
                if col0: oth=K(0)
                p=C if not mirror and not col0 else X
                if at is None or p!=A(at) or at[1]!=R or a.norm(Poly(dict(at[2])))!=oth:
                    if not resolved(a,X) or not resolved(a,C): und=True
                    why='row %r, column %r do not come from the same set of the pattern'%(X,C); continue
                r=True if col0 else s.rng(oth,N if not mirror else Q); r2=s.allset(at)
                ok=lambda l: False
            def okz(l):
                if zero and l[0]=='or':
                    return any(x and x[0]=='arg' and x[1]=='a0' and not x[2] for x in l[1]) and any(x and x[0]=='zero' and a.norm(x[1])==a.norm(e[2][0]) and not x[2] for x in l[1])
                return ok(l)
            ex=s.extra(e,okz)
            if ex: why='the element is put in only when also %r'%(ex[0],); continue
            if r is False or r2 is False: why='not every row or column of the pattern is used'; continue
            if ex is None or r is None or r2 is None: und=True; continue
            got.append(e)
        s.put('seeding',True if got else None if und else False,why,last)
        s.seeds=got; return got
    def process(s,P,T,N):
        a=s.a; s.rule=s.rl+'-seed'
        posts=[e for e in s.seeds if e[0]=='post_element']
        if not posts: return
        ok=False; und=False; last=posts[0]; why='elements that were posted are never processed'
        for e in a.of('process_post',P):
            X=tad(e[2][0],T) if T else e[2][0]
            if X is None: und=und or not resolved(a,e[2][0]); continue
            c=s.rng(a.norm(X),N); ex=s.extra(e,lambda l:False)
            if c is None or ex is None: und=True; continue
            if not c or ex: why='not every row is processed'; last=e; continue
            if all(s.before(p,e) for p in posts): ok=True; s.proc=e
            else: why='rows are processed before their elements are posted'; last=e
        s.put('processing',True if ok else None if und else False,why,last)
    def resized(s,P,rows,cols,users):
        a=s.a; s.rule=s.rl+'-size'; es=a.of('resize',P); ok=False; why='the pattern is not given the size variables x columns'; last=es[-1] if es else None
        for e in es:
            if [a.norm(x) for x in e[2]]==[a.norm(rows)]+([a.norm(cols)] if cols is not None else []):
                ex=s.extra(e,lambda l:False)
                if ex: continue
                if not all(s.before(e,u) and not s.before(u,e) for u in users): why='the pattern is resized after it is used'; last=e; continue
                if any(f is not e and s.before(e,f) for f in es): why='the pattern is resized again'; continue
                ok=True
        und=not all(resolved(a,x) for e in es for x in e[2])
        s.put('size of %s'%s.pn(P),True if ok else None if und else False,why,last)
    def pn(s,P): return {'pack':'the forward pattern','set':'the forward pattern'}.get(P,'a local pattern' if str(P).startswith('%') else str(P))
    # -------------------------------------------------------------- sweep
    def sweep(s,name,args):
        """args: list of ('obj',o) | ('poly',p) | ('val',operand) | None"""
        a=s.a; s.rule=s.rl+'-sweep'; es=[e for e in a.ev if e[0]=='sweep' and e[1]==name]
        if len(es)!=1: s.put(name,None if es else False,'%s is not called'%name); return None
        e=es[0]; o=e[2]['o']; bad=[]
        for k,w in enumerate(args):
            if w is None: continue
            if w[0]=='obj': ok=a.obj(o[k])==w[1]
            elif w[0]=='poly': ok=a.norm(a.aff.poly(o[k]))==a.norm(w[1])
            else: ok=o[k] in w[1:]
            if not ok: bad.append('argument %d of %s is not %s'%(k,name,w[1:]))
        ex=s.extra(e,lambda l:False)
        if ex: bad.append('the sweep is only done when %r'%(ex[0],))
        s.put(name+' arguments',not bad,'; '.join(bad),e)
        return e
    def order(s,what,xs,ys):
        s.rule=s.rl+'-sweep'
        bad=[(x,y) for x in xs for y in ys if not s.before(x,y) or s.before(y,x)]
        s.put(what,not bad,'out of order',bad[0][0] if bad else None)
    # ---------------------------------------------------------- extraction
    def extract(s,out,P,T,N,W,kind,mirror,off=0,sweep=None,swap=False):
        """the set of variable taddr[X] becomes row X (mirror: column X) of the result"""
        a=s.a; s.rule=s.rl+'-result'; got=[]; why='no element of the result is set'; last=None; und=False
        name={'bool':'store','set':'insert','list':'post_element','rc':'set'}[kind]
        es=[e for e in a.ev if e[0]==name and e[1]==out and (kind!='bool' or e[4] in('c1','c-1'))]
        for e in es:
            last=e; ix=[a.norm(x) for x in e[2]]
            if kind=='rc': cnt=ix[0]; ix=ix[1:]
            at=[x for p in ix for x in p.atoms() if x[0]=='selem' and x[1]==P]
            if len(set(at))!=1:
                if not all(resolved(a,p) for p in ix): und=True
                why='the element set is not one of the sets of the pattern'; continue
            at=at[0]; row=a.norm(Poly(dict(at[2])))
            X=tad(row,T)
            if X is None and T=='ind': X=row-K(1)
            if X is None or has(X,('el','selem','elem')): 
                why='the result comes from the set of %r'%row; und=und or not resolved(a,row); continue
            X=a.norm(X); C=A(at)-K(off)
            if kind=='bool': want=[X*W+C] if not mirror else [C*N+X]
            else: want=[X,C] if not mirror else [C,X]
            want=[a.norm(w) for w in want]
            if ix!=want:
                if not all(resolved(a,p) for p in ix): und=True
                why='position %r instead of %r'%(ix,want); continue
            r=s.rng(X,N); r2=s.allset(at); ex=s.extra(e,lambda l:False)
            if r is False or r2 is False: why='not every element of the sets is part of the result'; continue
            if ex: why='an element is only set when %r'%(ex[0],); continue
            if r is None or r2 is None or ex is None: und=True; continue
            if kind=='rc' and not s.counter(cnt,e): und=True; continue
            got.append(e)
        s.put('elements',True if got else None if und else False,why,last)
        if kind=='bool' and got:
            ok=None; why='an element of the result may be left undefined or be cleared after it was set'
            for e in a.of('store',out):
                if e[4] not in('c0','false'): continue
                c=s.cover2(a.norm(e[2][0]),[(N,W),(W,N)])
                ex=s.extra(e,lambda l:False)
                if c and not ex and ex is not None:
                    bad=[g for g in got if not s.clearfirst(e,g)]
                    ok=not bad if ok is not True else True
                elif c and ex and ok is None: ok=False; why='an element is only cleared when %r'%(ex[0],)
                elif c is False and ok is None: ok=False
            s.put('clearing',ok,why,got[0])
        if kind=='list' and got:
            s.seeds=got; s.process(out,None,N if not mirror else W); s.rule=s.rl+'-result'
        if sweep is not None and got: s.order('result after the sweep',[sweep],got)
        return got
    def clearfirst(s,c,g):
        a=s.a; Lc=[L for L in a.aff.loops_at(s.blk(c))]; common=[L for L in Lc if s.blk(g) in L.body]
        if not common: return s.before(c,g) and not s.before(g,c)
        # order within one iteration of the innermost common loop
        L=common[-1]; h=L.h
        def reach(x,y):
            bx,by=s.blk(x),s.blk(y)
            if bx==by: return a.pos[s.ins(x)['i']]<a.pos[s.ins(y)['i']]
            seen=set(); st=[q for q in a.fn.succs(bx)]
            while st:
                q=st.pop()
                if q in seen or q==h or q not in L.body: continue
                seen.add(q); st+=a.fn.succs(q)
            return by in seen
        return reach(c,g) and not reach(g,c)
    def cover2(s,p,dims):
        """p covers 0..n*m-1"""
        a=s.a; iv=[x for x in p.atoms() if x in a.aff.ivs]
        for n,m in dims:
            if len(iv)==1 and a.cover(p,K(0),a.norm(n*m)-K(1)): return True
            if len(iv)==2:
                for i,j in((iv[0],iv[1]),(iv[1],iv[0])):
                    ci,r=p.coef(i)
                    if ci is None: continue
                    cj,r2=r.coef(j)
                    if cj==K(1) and r2==Poly() and a.norm(ci)==a.norm(m) and s.rng(A(i),n) and s.rng(A(j),m): return True
        return None if len(iv) not in(1,2) or not resolved(a,p) else False
    def web(s,o):
        """values of a counter: phis and +1"""
        fn=s.a.fn; seen=set(); inc=[]; st=[o]
        while st:
            x=st.pop()
            if x in seen or x=='c0': continue
            I=fn.get(x)
            if I is None: return None,None
            seen.add(x)
            if I['op']=='phi': st+=[v for v,_ in I['o']]
            elif I['op']=='add' and I['o'][1][0]=='c': inc.append(I); st.append(I['o'][0])
            elif I['op']=='freeze': st.append(I['o'][0])
            else: return None,None
        return seen,inc
    def counter(s,cnt,e):
        """the index of an element counts the elements set"""
        o=e[3]['o'][1]; seen,inc=s.web(o)
        if seen is None: return False
        return len(inc)==1 and inc[0]['o'][1]=='c1' and s.a.fn.blk[inc[0]['i']]==s.blk(e)
    def count(s,out,P,T,N,got):
        """the number of elements a sparse pattern is resized to"""
        a=s.a; s.rule=s.rl+'-result'
        es=a.of('resize',out)
        if len(es)!=1 or not got: s.put('number of elements',None,'resize not identified'); return
        seen,inc=s.web(es[0][3]['o'][3])
        if seen is not None and len(inc)==1 and inc[0]['o'][1]!='c1': s.put('number of elements',False,'the number of elements is not counted by one',es[0]); return
        if seen is None or len(inc)!=1: s.put('number of elements',None if seen is None else False,'the number of elements is not counted',es[0]); return
        # the increment is in a loop over the elements of the same sets
        b=a.fn.blk[inc[0]['i']]; ok=None
        for c in a.R:
            t=a.fn.blocks[c][-1]
            if t['op']=='br' and len(t['o'])>2 and c in a.D[b]:
                l=a.looptest(t['o'][0],c)
                if l and l[0]=='selem' and b in [L for L in a.aff.loops if c in L.body][-1].body:
                    X=tad(a.norm(Poly(dict(l[1][2]))),T)
                    ok=(l[1][1]==P and X is not None and s.rng(X,N) and s.allset(l[1])) if ok is None else ok
        gs=a.guardlits(b)
        s.put('number of elements',ok if not gs else None,'elements of other sets are counted',es[0])
    # ---------------------------------------------------------- flags
    def flags(s,obj,n,R,kind,T,m,users,what):
        """vector of flags: false, then true exactly where selected"""
        a=s.a; s.rule=s.rl+'-flags'; es=a.of('store',obj); setp=[]; clr=[]; und=False; why='no flag is set'; last=None
        direct=T is None
        for e in es:
            ix=a.norm(e[2][0]); X=ix if direct else tad(ix,T); v=e[4]
            if v in('c0','false'):
                c=s.rng(ix,n); ex=s.extra(e,lambda l:False)
                if c and ex==[]: clr.append(e)
                elif c is None or ex is None: und=True
                continue
            last=e
            if X is None: why='flag %r is set'%ix; und=und or not resolved(a,ix); continue
            X=a.norm(X); val=None
            if v in('c1','c-1','true'): val='true'
            else:
                J=a.fn.get(v); c=None; q=a.aff.poly(v); at=one(q,'el')
                if at and q==A(at) and at[1]==R and a.norm(Poly(dict(at[2])))==X: val='copy'
                elif J is not None and J['op'] in('or','select'):
                    val='or' if all(s.orleaf(x,R,X,obj,ix) for x in J['o']) else None
            if val is None: und=und or not(one(a.aff.poly(v),'el') and resolved(a,a.aff.poly(v))); why='the flag is set to something else'; continue
            if kind=='bool':
                r=s.rng(X,m)
                gl=[l for l,_ in a.guardlits(s.blk(e)) if l is not None and l[0]=='el' and l[1]==R and l[3]]
                if val=='true' and not any(a.norm(l[2])==X for l in gl): why='the flag is not set for the selected elements'; und=und or any(l is None for l,_ in a.guardlits(s.blk(e))); continue
                ex=s.extra(e,lambda l: l in gl and a.norm(l[2])==X)
            else:
                at=one(X,'elem')
                if at is None or X!=A(at) or at[1]!=R: why='the flags set are not those of the elements of the set'; und=und or not resolved(a,X); continue
                r=s.allset(at); ex=s.extra(e,lambda l:False)
            if r is False or ex: why='not every selected flag is set'; continue
            if r is None or ex is None: und=True; continue
            if val=='copy' and not direct:
                s.put(what,False,'two dependent variables may be the same variable: the flag of a selected one is overwritten by that of one that is not selected',e); return
            setp.append((e,val))
        ok=bool(setp)
        if ok and not(direct and any(v=='copy' for _,v in setp)):
            if not clr: ok=None if und else False; why='the flags are not initialised'
            elif not any(all(s.before(c,e) and not s.before(e,c) for e,_ in setp) for c in clr): ok=False; why='the flags are cleared after they were set'
        s.put(what,True if ok else None if und or ok is None else False,why,last)
        if ok: s.order(what+' before the sweep',[e for e,_ in setp],users)
    def orleaf(s,o,R,X,obj,ix):
        if o in('c1','c-1','true','c0'): return True
        q=s.a.aff.poly(o); at=one(q,'el')
        if at and q==A(at):
            if at[1]==R: return s.a.norm(Poly(dict(at[2])))==X
            return at[1]==obj and s.a.norm(Poly(dict(at[2])))==ix
        I=s.a.fn.get(o)
        return bool(I) and I['op'] in('icmp','trunc','zext') and s.orleaf(I['o'][0],R,X,obj,ix)
    # ---------------------------------------------------------- patterns
    def pat(s,kind,args):
        a=s.a; s.rule=s.rl+('-seed' if kind=='set' else '-result')
        es=[e for e in a.ev if e[0]=='pat' and e[1]==kind]
        if not es: s.put('%s_internal_pattern'%kind,False,'the pattern is never %s'%('handed over' if kind=='set' else 'returned')); return None
        good=None; bad=[]
        for e in es:
            b=[]
            for k,w in args.items():
                x=e[2]['o'][k]
                if isinstance(w,bool): 
                    if x not in(('c1','c-1','true') if w else('c0','false')): b.append('argument %d (transpose) is wrong'%k)
                elif a.obj(x)!=w: b.append('argument %d is not %s'%(k,w))
            ex=s.extra(e,lambda l:False)
            if ex: b.append('only done when %r'%(ex[0],))
            if not b: good=e
            else: bad=b
        s.put('%s_internal_pattern'%kind,good is not None,'; '.join(bad),es[0])
        return good
n_=A(('size','ind')); m_=A(('size','dep')); nv=A(('nvar',)); O1=K(1)
def locals_(a,e,k): return a.obj(e[2]['o'][k])
def run(mods,name):
    obs=[]; m,mem=mods
    if name not in m.fns: return [('spapi',name,'undecided','entry missing','')]
    try:
        a=Api(m.fns[name],{} if name.startswith(('s_si','s_gi')) else mem)
        rule(name,Chk(a,name,obs),a)
    except (KeyError,IndexError,AttributeError,TypeError,ValueError) as e:
        import traceback
        obs.append(('spapi',name,'undecided','%r %s'%(e,traceback.format_exc()[-300:]),''))
    return obs
def the(a,k,name):
    es=[e for e in a.ev if e[0]=='sweep' and e[1]==name]
    return es[0] if len(es)==1 else None
def rule(name,c,a):
    c.ends={}; base,_,v=name.rpartition('_') if '_' in name[2:] else (name,'','')
    TR=v.startswith('t')
    if name.startswith('s_si'):
        c.rl='pattern-in'; kind={'r':'rc','b':'bool','v':'bool','s':'set'}[name[4]]
        c.seed('a3','a2',A(('size','a2')),A(('end','a3')),'a4',kind,TR,zero=True)
        c.process('a3','a2',A(('size','a2'))); return
    if name.startswith('s_gi'):
        c.rl='pattern-out'; kind={'r':'rc','b':'bool','v':'bool','s':'set'}[name[4]]
        N,W=A(('size','a0')),A(('end','a1'))
        g=c.extract('a2','a1','a0',N,W,kind,TR)
        es=a.of('resize','a2'); c.rule='pattern-out-size'; d=[N,W] if not TR else [W,N]
        want={'rc':d,'bool':[N*W],'set':d[:1]}[kind]
        c.put('size',bool(es) and [a.norm(x) for x in es[-1][2]][:len(want)]==want,'the result does not have the size of the pattern',es[-1] if es else None)
        if kind=='rc': c.count('a2','a1','a0',N,g)
        if kind=='set' and g:
            cl=[e for e in a.of('sclear','a2') if c.rng(a.norm(e[2][0]),want[0])]
            c.put('sets cleared',bool(cl) and c.clearfirst(cl[0],g[0]),'the sets of the result are not cleared first',g[0])
        return
    if base in('s_fj','s_rj'):
        fwd=base=='s_fj'; c.rl='for-jac-api' if fwd else 'rev-jac-api'
        # sizes the user guarantees
        a.sub[('nr' if TR!=fwd else 'nc','a1')]=n_ if fwd else m_
        sw=the(a,0,'for_jac' if fwd else 'rev_jac'); P=locals_(a,sw,4) if sw else None
        if fwd: P='pack' if v[1]=='b' else 'set'
        s_=c.sweep('for_jac' if fwd else 'rev_jac',[('obj','play'),('val','a2'),('poly',n_),('poly',nv),('obj',P)])
        tr=TR if fwd else not TR
        i=c.pat('set',{2:tr,3:'ind' if fwd else 'dep',4:P,5:'a1'}); o=c.pat('get',{0:tr,1:'dep' if fwd else 'ind',2:P,3:'a3'})
        if s_ and i and o:
            c.resized(P,nv,A(('nc' if tr==(not fwd) else 'nr','a1')) if fwd else A(('nr' if not TR else 'nc','a1')),[i,s_,o])
            c.order('seeding, sweep, result',[i],[s_]); c.order('result after the sweep',[s_],[o])
        return
    if base=='s_rh':
        c.rl='rev-hes-api'; sw=the(a,0,'rev_hes'); H=locals_(a,sw,4) if sw else None; P='pack' if v[1]=='b' else 'set'
        fo=flagobj(a,sw)
        s_=c.sweep('rev_hes',[('obj','play'),('poly',nv),('obj',P),None,('obj',H)])
        o=c.pat('get',{0:TR,1:'ind',2:H,3:'a2'})
        if s_: 
            c.flags(fo,nv,'a1','bool','dep',m_,[s_],'selected dependent variables')
            if o: c.resized(H,nv,A(('end',P)),[s_,o]); c.order('result after the sweep',[s_],[o])
        return
    if base=='s_fh':
        c.rl='for-hes-api'; sw=the(a,0,'for_hes'); s1=the(a,0,'rev_jac')
        if not sw or not s1: c.rule='for-hes-api-sweep'; c.put('sweeps',None,'not found'); return
        J,H,D=locals_(a,s1,4),locals_(a,sw,5),locals_(a,sw,3)
        x=c.sweep('rev_jac',[('obj','play'),('val','c0'),('poly',n_),('poly',nv),('obj',J)])
        y=c.sweep('for_hes',[('obj','play'),('poly',n_),('poly',nv),('obj',D),('obj',J),('obj',H)])
        c.order('rev_jac before for_hes',[x],[y])
        g=c.seed(J,'dep',m_,K(1),'a2','bool',False,col0=True); c.process(J,'dep',m_)
        if g: c.order('selected range before the sweep',g,[x])
        c.flags(D,n_,'a1','bool',None,n_,[y],'selected independent variables')
        o=c.pat('get',{0:False,1:'ind',2:H})
        c.resized(J,nv,K(1),[x]+g); c.resized(H,n_+nv+O1,n_+O1,[y]+([o] if o else []))
        if o:
            c.order('result after the sweep',[y],[o]); t=locals_(a,o,3); c.rule='for-hes-api-result'; ok=False; last=None; und=False
            for e in a.of('set','a3'):
                last=e; k,r,cc=[a.norm(z) for z in e[2]]
                ra,ca=one(r,'el'),one(cc,'el')
                if not(ra and ca and r==A(ra) and ra[1]==('row',t) and ca[1]==('col',t)): und=und or not(resolved(a,r) and resolved(a,cc)); continue
                if Poly(dict(ra[2]))==k==Poly(dict(ca[2])) and cc==A(ca)-O1 and c.rng(k,A(('nnz',t))) and c.extra(e,lambda l:False)==[]: ok=True
            c.put('columns minus one',True if ok else None if und else False,'the pattern is not the internal one with column zero removed',last)
            es=a.of('resize','a3'); c.put('size',bool(es) and [a.norm(z) for z in es[-1][2]]==[n_,n_,A(('nnz',t))],'the size is not n x n',es[-1] if es else None)
        return
    k=name[5] if len(name)>5 else ''
    q={'s_fsj':'a1','s_rsj':'a1','s_rsh':'a1'}.get(name[:5]); Q=A(('a',1)); kind={'b':'bool','s':'set','c':'list'}.get(k)
    if name[:5] in('s_fsj','s_rsj') and kind:
        fwd=name[:5]=='s_fsj'; c.rl='for-jac-case' if fwd else 'rev-jac-case'
        R,dep,out=('a2','a3','a4'); sn='for_jac' if fwd else 'rev_jac'; mir=TR if fwd else not TR
        sw=the(a,0,sn); P=('pack' if k=='b' else 'set') if fwd else (locals_(a,sw,4) if sw else None)
        T,N,T2,N2=('ind',n_,'dep',m_) if fwd else ('dep',m_,'ind',n_)
        s_=c.sweep(sn,[('obj','play'),('val',dep),('poly',n_),('poly',nv),('obj',P)])
        if k=='c': c.ends[R]=[A(('end',R)),Q,T and (n_ if fwd else m_)]
        c.ends[P]=[Q]
        if name[:6]=='s_rsjc': a.sub[('a',1)]=m_     # only used with q equal to the number of dependent variables
        g=c.seed(P,T,N,Q,R,kind,mir); c.process(P,T,N)
        o=c.extract(out,P,T2,N2,Q,kind,mir,sweep=s_)
        if s_:
            c.resized(P,nv,Q,g+[s_]+o)
            if g: c.order('seeding before the sweep',g+([c.proc] if hasattr(c,'proc') and c.proc[1]==P else []),[s_])
        if name[:6]=='s_rsjc': a.sub[('a',1)]=m_     # only used with q equal to the number of dependent variables
        dims={'bool':[N2*Q],'set':[Q if mir else N2],'list':[Q,N2] if mir else [N2,Q]}[kind]
        if o: c.resized(out,dims[0],dims[1] if len(dims)>1 else None,o)
        return
    if name[:5]=='s_rsh' and kind:
        c.rl='rev-hes-case'; sw=the(a,0,'rev_hes'); H=locals_(a,sw,4) if sw else None; P='pack' if k=='b' else 'set'
        s_=c.sweep('rev_hes',[('obj','play'),('poly',nv),('obj',P),None,('obj',H)])
        c.ends[H]=[Q]
        c.flags(flagobj(a,sw),nv,'a2','set' if k=='s' else 'bool','dep',m_,[s_],'selected dependent variables')
        o=c.extract('a3',H,'ind',n_,Q,kind,not TR,sweep=s_)
        c.resized(H,nv,Q,[s_]+o)
        mir=not TR; dims={'bool':[n_*Q],'set':[Q if mir else n_],'list':[Q,n_] if mir else [n_,Q]}[kind]
        if o: c.resized('a3',dims[0],dims[1] if len(dims)>1 else None,o)
        return
    if name[:5]=='s_fsh' and kind:
        c.rl='for-hes-case'; sw=the(a,0,'for_hes'); s1=the(a,0,'rev_jac')
        J,H,D=locals_(a,s1,4),locals_(a,sw,5),locals_(a,sw,3)
        x=c.sweep('rev_jac',[('obj','play'),('val','c0'),('poly',n_),('poly',nv),('obj',J)])
        y=c.sweep('for_hes',[('obj','play'),('poly',n_),('poly',nv),('obj',D),('obj',J),('obj',H)])
        c.order('rev_jac before for_hes',[x],[y])
        g=c.seed(J,'dep',m_,K(1),'a2',kind,False,col0=True); c.process(J,'dep',m_)
        if g: c.order('selected range before the sweep',g,[x])
        c.flags(D,n_,'a1','set' if k=='s' else 'bool',None,n_,[y],'selected independent variables')
        o=c.extract('a3',H,'ind',n_,n_,kind,False,off=1,sweep=y)
        c.resized(J,nv,K(1),[x]+g); c.resized(H,n_+nv+O1,n_+O1,[y]+o)
        dims={'bool':n_*n_,'set':n_}[kind]
        if o: c.resized('a3',dims,None,o)
def flagobj(a,sw):
    if sw is None: return None
    r,p=a.aff.addr(sw[2]['o'][3])
    return r[1] if isinstance(r,tuple) and r[0]=='data' and p==Poly() else r
MEM=['ind','dep','nvar','play','pack','set']
V4=['nb','tb','ns','ts']
ENT=['s_%s_%s'%(x,y) for x in('fj','rj','rh') for y in V4]+['s_fh_b','s_fh_s']+['s_%s%s_%s'%(x,k,t) for x in('fsj','rsj','rsh') for k in 'bsc' for t in 'nt']+['s_fshb','s_fshs']
PAT=['s_%s%s_%s'%(x,k,t) for x in('si','gi') for k in 'rbvs' for t in 'nt']
HES=('s_rh','s_fh','s_rsh','s_fsh')
def _load(x):
    bc,es,opq=x
    return ir.Mod(core.irx(bc,sum((['--opaque',q] for q in opq),[])+['--entry','^(%s)$'%'|'.join(es)])['module'])
def members(m):
    mem={}
    for n in MEM:
        f=m.fns['o_'+n]; I=[I for I in f.reach_ins() if I['op']=='ret'][0]
        r,p=Aff(f,lambda I:None).addr(I['o'][0]); mem[int(p.cval())]=n
    return mem
def job(x):
    bc,es,opq,mem=x; obs=[]
    m=_load((bc,es,opq))
    for e in es: obs+=run((m,mem),e)
    return obs
def analyse(which):
    """which: P04 (Jacobian and patterns) or P05 (Hessian)"""
    bc=core.compile_bc('h_sp.cpp'); mem=members(_load((bc,['o_'+x for x in MEM],OPQ)))
    es=[e for e in ENT if e.startswith(HES)==(which=='P05')]
    jobs=[(bc,es[k::4],OPQ+INTP,mem) for k in range(4)]+([(bc,PAT[k::2],OPQ,{}) for k in range(2)] if which=='P04' else [(bc,PAT[k::2],OPQ,{}) for k in range(2)])
    return [o for r in core.pmap(job,jobs) for o in r]
if __name__=='__main__':
    import sys
    for w in('P04','P05'):
        r=analyse(w); import collections
        print(w,collections.Counter(o[2] for o in r),len(r))
        for o in r:
            if o[2]!='ok': print(o)
