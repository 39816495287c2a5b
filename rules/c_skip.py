"""Conditional skipping and comparison counting in the zero order sweeps."""
import sys
import core,ir,sweepx,sccp,c_taylor,c_csum
from aff import Poly
from addx import Facts,Und
ONE=Poly.const(1)
COPS=['CompareLt','CompareLe','CompareEq','CompareGe','CompareGt','CompareNe']
RELS=['less','equal','greater','both the same infinity']
def holds(cop,rel):
    k={'less':-1,'equal':0,'greater':1,RELS[3]:0}[rel]
    return {'CompareLt':k<0,'CompareLe':k<=0,'CompareEq':k==0,'CompareGe':k>=0,'CompareGt':k>0,'CompareNe':k!=0}[cop]
class Orc:
    """left and right are tokens l and r, related by rel"""
    def __init__(self,aff,slots,tokens,rel,con=(True,True),args={}):
        self.aff=aff; self.slots=slots; self.tokens=tokens; self.rel=rel; self.con=con; self.args=args; self.read=set(); self.facts=None
    def arg(self,k): return self.args.get(k)
    def outside(self,I,run):
        if I is None: return None
        return self.eval0(I,run)
    def eval0(self,I,run):
        if I['op']=='load': return self.load(I,run)
        if I['op']=='getelementptr': return self.gep(I,run)
        return None
    def gep(self,I,run):
        r,p=self.aff.addr('%%%d'%I['i'])
        if isinstance(r,str) and r[0]=='%' and r!='%%%d'%I['i']:
            b=run.val(r)
            if b=='bot': return 'bot'
            if b is not None and b[0]=='p': return ('p',b[1],(Poly(dict(b[2]))+p).key())
        return ('p',r,p.key())
    def load(self,I,run):
        c=self.aff.classify(I)
        if c is not None and c[0]=='sl':
            return self.slots.get(c[1],('t',c))
        o=I['o'][0]; r,p=self.aff.addr(o); x=('p',r,p.key())
        if isinstance(r,str) and r[0]=='%' :
            b=run.val(r)
            if b=='bot': return 'bot'
            if b is not None and b[0]=='p': x=('p',b[1],(Poly(dict(b[2]))+p).key())
        t=self.tokens.get((x[1],x[2]))
        if t is not None: self.read.add(t); return ('t',t)
        if I.get('t') in('double',): return ('t',('other',str(x)))
        return None
    def cmp0(self,x):
        """-1, 0, 1, 'nan' or None : the sign of a token"""
        if x is None or x[0]!='t': return None
        t=x[1]
        if isinstance(t,tuple) and t[0]=='sub':
            a,b=t[1:]
            if {a,b}!={'l','r'}: return None
            if self.rel==RELS[3]: return 'nan'
            k={'less':-1,'equal':0,'greater':1}[self.rel]
            return k if a=='l' else -k
        return None
    def call(self,q,xs,I):
        t=lambda k:xs[k][1] if xs[k] is not None and xs[k][0]=='t' else None
        if q=='vb_sub' and t(0) in('l','r') and t(1) in('l','r'): return ('t',('sub',t(0),t(1)))
        if q=='vb_idcon':
            if t(0) in('l','r'): return ('c',int(self.con[t(0)=='r']))
            return None
        if q in('vb_gt0','vb_ge0','vb_lt0','vb_le0','vb_idzero'):
            k=self.cmp0(xs[0])
            if k is None: return None
            if k=='nan': return ('c',0)
            return ('c',int({'vb_gt0':k>0,'vb_ge0':k>=0,'vb_lt0':k<0,'vb_le0':k<=0,'vb_idzero':k==0}[q]))
        if q in('vb_ideq','vb_eq','vb_ne','vb_lt','vb_le','vb_gt','vb_ge') and {t(0),t(1)}=={'l','r'}:
            k={'less':-1,'equal':0,'greater':1}.get(self.rel,0)
            if t(0)=='r': k=-k
            if q=='vb_ideq' and not all(self.con): return ('c',0)
            return ('c',int({'vb_ideq':k==0,'vb_eq':k==0,'vb_ne':k!=0,'vb_lt':k<0,'vb_le':k<=0,'vb_gt':k>0,'vb_ge':k>=0}[q]))
        if q=='vb_nan': return ('t',('nan',))
        return None
    def arith(self,op,xs,I): return None
def skip(fn,n,obs):
    """marks of the skip flags made by CSkipOp in sweep n (zero order included)"""
    inst0='CSkipOp in '+n[2:]
    aff=sweepx.make_aff(fn); L=sweepx.op_loop(fn,aff)
    J=Poly.atom(('a',2)); tay='a10' if n=='e_forward_0' else 'a12'
    C=c_csum.CS(fn,'any',0); C.dst='a3'
    F=Facts(fn,aff,L,isel=lambda r:r=='a3'); C.F=F; C.aff=aff
    first=F.stores[0]['I'] if F.stores else None
    want_t=('args',Poly.const(6).key(),(Poly.const(6)+c_csum.sl(4)).key())
    want_f=('args',(Poly.const(6)+c_csum.sl(4)).key(),(Poly.const(6)+c_csum.sl(4)+c_csum.sl(5)).key())
    empty=lambda k: Poly
    def marks(run):
        out=set()
        for s in F.stores:
            if s['b'] not in run.exec: continue
            v=run.val(s['v'])
            if v!=('c',1): raise Und('value of a skip flag')
            at=list(s['off'].atoms())
            if len(at)!=1 or s['off']!=Poly.atom(at[0]): raise Und('address of a skip flag')
            loops=[l for l in F.loops(s['b']) if l.iv is not None]
            r,u=C.rowloop(at[0],loops)
            if {l.h for l in F.loops(s['b'])}!=u: raise Und('loops around a skip flag')
            out.add(r)
        return out
    # the operands of the comparison
    def tokens(bits):
        a=lambda k,v:((tay,(c_csum.sl(k)*J).scale(8).key()) if v else (('parptr',),c_csum.sl(k).scale(8).key()))
        return {a(2,bits&1):'l',a(3,bits&2):'r'}
    for cop in COPS:
        for rel in RELS:
            for bits in(1,2,3):
                for con in((True,True),(False,True),(True,False)):
                    if con!=(True,True) and rel!='less': continue
                    inst='%s %s, left %s, operand kinds %d%s'%(inst0,cop,rel if rel!=RELS[3] else 'and right '+rel,bits,'' if all(con) else ', an operand not constant')
                    o=Orc(aff,{0:('c',optable_num(cop)),1:('c',bits)},tokens(bits),rel,con)
                    try:
                        run=sccp.Run(fn,o,L.h,L.body); m=marks(run)
                    except (Und,RecursionError) as e:
                        obs.append(('skip-choice',inst,'undecided',str(e),ir.where1(first) if first else '')); continue
                    w=set() if not all(con) else {want_t if holds(cop,rel) else want_f}
                    def names(s): return 'nothing' if not s else ' and '.join(sorted({want_t:'the operations to skip when true',want_f:'the operations to skip when false'}.get(x,'arguments from %s to %s'%(pk(x[1]),pk(x[2])) if x[0]=='args' else str(x)) for x in s))
                    if m==w: obs.append(('skip-choice',inst,'ok','',''))
                    elif all(con) and o.read!={'l','r'} and len(m)!=1: obs.append(('skip-operand',inst,'viol','the operands compared are not the left and right of the operator (read %s)'%sorted(map(str,o.read)),ir.where1(first) if first else ''))
                    else: obs.append(('skip-choice',inst,'viol','marks %s, should mark %s'%(names(m),names(w)),ir.where1(first) if first else ''))
def pk(k): return str(Poly(dict(k)))
NUM={}
def optable_num(c): return NUM[c]
def noskip(fn,n,obs):
    """sweeps that start above order zero leave the flags alone"""
    aff=sweepx.make_aff(fn)
    F=Facts(fn,aff,None,isel=lambda r:r==('a6' if n=='e_reverse' else 'a3'))
    bad=[s for s in F.stores]
    obs.append(('skip-kept','CSkipOp in '+n[2:],'viol' if bad else 'ok','writes a skip flag although order zero is not computed' if bad else '',ir.where1(bad[0]['I']) if bad else ''))
def init(fn,n,obs):
    """all flags are cleared before the first operator when order zero is computed"""
    aff=sweepx.make_aff(fn); L=sweepx.op_loop(fn,aff)
    F=Facts(fn,aff,None,isel=lambda r:r=='a3')
    ok=False; why='no loop clears the flags'
    D=fn.doms()
    for s in F.stores:
        if s['b'] in L.body: continue
        ls=[l for l in F.loops(s['b'])]
        if len(ls)!=1 or ls[0].iv is None: continue
        l=ls[0]
        if s['off']!=Poly.atom(l.iv) or s['v']!='c0': continue
        hi=F.poly(l.hi); at=list(hi.atoms())
        nm=[fn.callee(fn.get('%%%d'%x[1])) for x in at if x[0]=='%' and fn.get('%%%d'%x[1]) is not None and fn.get('%%%d'%x[1])['op']=='call']
        if F.poly(l.lo)==Poly() and len(at)==1 and hi+ONE==Poly.atom(at[0]) and nm and nm[0].endswith('::num_var_op') and l.h in D[L.h]: ok=True
        else: why='the loop that clears the flags does not cover all operators'
    st=[s for s in F.stores if s['b'] not in L.body]
    obs.append(('skip-reset',n[2:],'ok' if ok else 'viol','' if ok else why,ir.where1(st[0]['I']) if st else ''))
# ------------------------------------------------------------------ comparisons
CMP={'Eq':'CompareEq','Le':'CompareLe','Lt':'CompareLt','Ne':'CompareNe'}
def compare_ops(oc): return sorted(o for o in oc if o[:2] in CMP and o[2:] in('ppOp','pvOp','vpOp','vvOp'))
def compare(fn,n,op,obs):
    """the number of comparisons that changed, counted by operator op in sweep n"""
    aff=sweepx.make_aff(fn); L=sweepx.op_loop(fn,aff)
    J=Poly.atom(('a',2)); tay='a10' if n=='e_forward_0' else 'a12'; kinds=op[2:4]
    a=lambda k,v:((tay,(c_csum.sl(k)*J).scale(8).key()) if v=='v' else (('parptr',),c_csum.sl(k).scale(8).key()))
    if n not in('e_forward_0','e_any_0q'):
        st=[I for b in sorted(fn.reachable()) for I in fn.blocks[b] if I['op']=='store' and aff.addr(I['o'][1])[0] in('a6','a7')]
        obs.append(('compare-kept','%s in %s'%(op,n[2:]),'viol' if st else 'ok','counts or clears comparison changes although order zero is not computed' if st else '',ir.where1(st[0]) if st else '')); return
    D=fn.doms(); pre=[I for b in sorted(D[L.h]-{L.h}) for I in fn.blocks[b] if I['op']=='store']
    for r,nm in(('a6','change_number'),('a7','change_op_index')):
        st=[I for I in pre if aff.addr(I['o'][1])==(r,Poly())]
        ok=bool(st) and st[-1]['o'][0]=='c0'
        obs.append(('compare-reset','%s in %s'%(nm,n[2:]),'ok' if ok else 'viol','' if ok else 'not set to zero before the first operator',ir.where1(st[-1]) if st else ''))
    class O(Orc):
        cnt=None
        def arg(self,k): return ('t','count') if k==5 else None
        def load(self,I,run):
            r,p=self.aff.addr(I['o'][0])
            if r=='a6' and p==Poly(): return ('t','number')
            return Orc.load(self,I,run)
        def arith(self,o,xs,I):
            if o=='add' and ('t','number') in xs and ('c',1) in xs: return ('t','number+1')
            return None
        def icmp(self,pr,xs,I):
            t=[x[1] if x else None for x in xs]
            if t[0]=='count' and xs[1] and xs[1][0]=='c':
                k={'zero':0,'reached':7,'another':9}[self.cnt]; c=t[1]
            elif 'count' in t and 'number+1' in t:
                if pr not in('eq','ne'): return None
                return ('c',int((self.cnt=='reached')==(pr=='eq')))
            else: return None
            if c not in(0,1): return None
            return ('c',int({'eq':k==c,'ne':k!=c,'ult':k<c,'ule':k<=c,'ugt':k>c,'uge':k>=c}.get(pr,0))) if pr in('eq','ne','ult','ule','ugt','uge') else None
    for rel in RELS:
        for cnt in('zero','reached','another'):
            inst='%s in %s, left %s, compare_change_count %s'%(op,n[2:],rel if rel!=RELS[3] else 'and right '+rel,cnt)
            o=O(aff,{},{a(0,kinds[0]):'l',a(1,kinds[1]):'r'},rel); o.cnt=cnt
            run=sccp.Run(fn,o,L.h,L.body)
            g={'a6':[],'a7':[]}; maybe=False; I0=None
            for b in sorted(run.exec):
                for I in fn.blocks[b]:
                    if I['op']=='store':
                        r,p=aff.addr(I['o'][1])
                        if r in g: g[r].append((I,run.val(I['o'][0]))); I0=I
                t=fn.blocks[b][-1]
                if t['op']=='br' and len(t['o'])==3 and run.val(t['o'][0]) is None:
                    c=fn.get(t['o'][0])
                    if (c is not None and c['op']=='call') or any(x[1] in('l','r') or (isinstance(x[1],tuple) and x[1][:1] in(('sub',),('other',))) for x in reads(fn,run,t['o'][0])): maybe=True
            ch=not holds(CMP[op[:2]],rel); w=ch and cnt!='zero'
            g6=[v for I,v in g['a6']]; ok7=[fn.get(I['o'][0]) for I,v in g['a7']]
            idx=all(x is not None and x['op']=='call' and (fn.callee(x) or '').endswith('op_index') for x in ok7)
            if maybe:
                other=[x for x in o.read]
                st='viol' if set(o.read)!={'l','r'} else 'undecided'
                obs.append(('compare-change',inst,st,'the operands compared are not the two arguments of the operator' if st=='viol' else 'decision not understood',ir.where1(I0) if I0 else '')); continue
            good=g6==([('t','number+1')] if w else []) and len(ok7)==(1 if w and cnt=='reached' else 0)
            if good and not idx: obs.append(('compare-change',inst,'viol','change_op_index is not the index of this operator',ir.where1(I0) if I0 else '')); continue
            obs.append(('compare-change',inst,'ok' if good else 'viol','' if good else 'change_number %s, change_op_index %s'%('changed' if g6 else 'unchanged','set' if ok7 else 'unchanged'),ir.where1(I0) if I0 else ''))
def reads(fn,run,o,d=0):
    if d>6: return
    v=run.val(o)
    if v is not None and v!='bot': yield v
    I=fn.get(o)
    if I is not None and I['op'] in('call','icmp','select','and','or','xor','zext'):
        for x in I.get('o',[]): yield from reads(fn,run,x,d+1)
