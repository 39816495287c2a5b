"""Copy, assignment, swap and conversion carry over every member of a class.

The members (name, offset, size) come from the compiler's record layouts, the member
operations from the IR of the routine; a must dataflow over its paths decides which
members of the target have received the same member of the source."""
import core,ir,os,re,subprocess
from aff import Aff,Poly
VB='struct VB'; AD='class CppAD::AD<struct VB>'
P='CppAD::local::'
CLS={'fun':'class CppAD::ADFun<struct VB>','player':'class %splayer<struct VB>'%P,'dyn_player':'class %sdyn_player<struct VB>'%P,'random':'struct %srandom_itr_info_t'%P,
 'pack':'class %ssparse::pack_setvec'%P,'size':'class %ssparse::size_setvec<unsigned long>'%P,'svec':'class %ssparse::svec_setvec'%P,
 'subgraph':'class %ssubgraph::subgraph_info'%P,'rc':'class CppAD::sparse_rc<struct Vec<unsigned long> >','rcv':'class CppAD::sparse_rcv<struct Vec<unsigned long>, struct Vec<struct VB> >',
 'pod':'class %spod_vector<unsigned long>'%P,'podm':'class %spod_vector_maybe<struct VB>'%P,'vector':'class CppAD::vector<struct VB>','vbool':'class CppAD::vectorBool','graph':'class CppAD::cpp_graph','tape':'class %sval_graph::tape_t<struct VB>'%P}
def layouts(src):
    out=os.path.join(core.tmp(),'lay.txt')
    with open(out,'w') as f:
        r=subprocess.run([core.CLANG,'-std=c++17','-O0','-DNDEBUG','-Wno-everything','-emit-llvm','-c',os.path.join(core.VERIF,'harness',src),'-o','/dev/null','-I'+os.path.join(core.VERIF,'harness')]+core.INC+['-Xclang','-fdump-record-layouts'],stdout=f,stderr=subprocess.PIPE,text=True)
    if r.returncode: raise core.Broken('record layouts: '+r.stderr[:1000])
    L={}; cur=None
    for l in open(out):
        m=re.match(r'^\s*(\d+)(?::\S*)? \| ( *)(.*)$',l)
        if m:
            off,ind,txt=int(m[1]),len(m[2])//2,m[3].strip()
            if ind==0: cur=txt.replace(' (empty)',''); L[cur]=dict(f=[],size=None)
            elif cur is not None: L[cur]['f'].append((ind,off,txt))
            continue
        m=re.search(r'\[sizeof=(\d+)',l)
        if m and cur is not None: L[cur]['size']=int(m[1])
    return L
def members(L,cls):
    """[(name,type,offset,end)] of the direct members, base classes excluded"""
    d=L.get(cls)
    if d is None: return None
    r=[]
    for ind,off,txt in d['f']:
        if ind!=1 or '(base)' in txt or '(empty)' in txt: continue
        t,_,n=txt.rpartition(' '); r.append([n,t,off])
    base=[off for ind,off,txt in d['f'] if ind==1 and '(base)' in txt]
    for i,x in enumerate(r): 
        nx=[y[2] for y in r if y[2]>x[2]]+[d['size']]
        x.append(min(nx))
    # the last byte a scalar needs
    sz={'_Bool':1,'size_t':8,'pack_t':8,'addr_t':4,'unsigned int':4,'int':4}
    return [(n,t,o,min(e,o+sz.get(t,10**9))) for n,t,o,e in r]
LEAF='^(CppAD::local::(pod_vector|pod_vector_maybe|player|dyn_player|recorder|dyn_recorder)<|CppAD::local::(sparse::(pack_setvec|size_setvec|svec_setvec|list_setvec)|subgraph::subgraph_info)|CppAD::vector<|CppAD::vectorBool|Vec<|std::(?!swap|move|forward|exchange|min|max|addressof)|CppAD::sparse_rc<|CppAD::thread_alloc::|CppAD::local::(create_array|get_max_num_threads)|CppAD::ADFun)'

def tbase(t):
    """type text -> unqualified template name"""
    t=re.sub(r'^(class|struct|const) ','',t.strip()); d=0; o=''
    for c in t:
        if c=='<': d+=1
        elif c=='>': d-=1
        elif d==0: o+=c
    return o.split('::')[-1].strip()
def qsplit(q):
    """qualified name -> (class base name, method name)"""
    d=0; parts=['']; i=0
    if q.endswith('::operator='): q,m=q[:-len('::operator=')],'operator='
    else: m=None
    while i<len(q):
        c=q[i]
        if c=='<': d+=1
        elif c=='>': d-=1
        if d==0 and q.startswith('::',i): parts.append(''); i+=2; continue
        if d==0 and c not in'<>': parts[-1]+=c
        i+=1
    if m is None: m=parts.pop() if len(parts)>1 else ''
    m=re.sub(r'\[abi:\w+\]','',m); 
    return re.sub(r'\[abi:\w+\]','',parts[-1]),m
W={'i1':1,'i8':1,'i16':2,'i32':4,'i64':8,'ptr':8,'double':8,'float':4}
STD={'basic_string':32,'vector':24,'map':48,'set':48,'list':24}
class Flow:
    """byte-wise must dataflow: which original byte of which object every byte of the objects holds"""
    def __init__(s,fn,dst,src,L,cd,cs,alias=False):
        s.fn=fn; s.dst=dst; s.src=src; s.L=L; s.alias=alias; s.cls={dst:cd,src:cs}; s.und=[]
        s.aff=Aff(fn,lambda I:None); s.R=fn.reachable()
        s.touch=[]; s.reads=set()
    def loc(s,o):
        if not isinstance(o,str): return None
        try: r,p=s.aff.addr(o)
        except Exception: return None
        if s.alias and r==s.src: r=s.dst
        return (r,int(p.cval())) if p.isconst() else None
    def size(s,root,off,cb):
        """size of the object of class cb at offset off of object root"""
        c=s.cls.get(root)
        if c:
            for ind,o,txt in s.L[c]['f']:
                if o!=off: continue
                t=txt.rpartition(' ')[0] if '(base)' not in txt else txt.split(' (base)')[0]
                if tbase(t)==cb:
                    for k in (t,'class '+t,'struct '+t):
                        if k in s.L: return s.L[k]['size']
            ds=[o for ind,o,txt in s.L[c]['f'] if o>off]
            if cb in STD: return STD[cb]
            for ind,o,txt in s.L[c]['f']:
                if o==off and ind==1: return min(ds+[s.L[c]['size']])-off
        for k,v in s.L.items():
            if tbase(k)==cb: return v['size']
        return STD.get(cb)
    def get(s,m,r,o):
        k=(r,o)
        if k in m: return m[k]
        return ('o',r,o) if r in s.cls else None
    def run(s):
        fn=s.fn; ins={0:{}}; wl=[0]; out=None; n=0; exits={}; rel=s.aff
        while wl:
            b=wl.pop(0); n+=1
            if n>3000: s.und.append('no fixed point'); return None
            st,vals=ins[b] if isinstance(ins[b],tuple) else (dict(ins[b]),{})
            st=dict(st); vals=dict(vals)
            for I in fn.blocks[b]: s.step(st,vals,I)
            t=fn.blocks[b][-1]
            if t['op'] in('ret','unreachable','resume'):
                if t['op']=='ret': exits[b]=st
                continue
            for c in s.edges(b,t):
                if c not in ins: ins[c]=(dict(st),dict(vals)); wl.append(c); continue
                o,ov=ins[c] if isinstance(ins[c],tuple) else (ins[c],{})
                new={}
                for k in set(o)|set(st):
                    x,y=s.get(o,*k),s.get(st,*k); new[k]=x if x==y else None
                nv={k:v for k,v in ov.items() if k not in vals or vals[k]==v}
                for k,v in vals.items():
                    if k not in ov: nv[k]=v
                for k in ov:
                    if k in vals and vals[k]!=ov[k]: nv[k]=None
                if not isinstance(ins[c],tuple) or new!=o or nv!=ov:
                    ins[c]=(new,nv)
                    if c not in wl: wl.append(c)
        return exits
    def edges(s,b,t):
        ss=s.fn.succs(b)
        if t['op']=='br' and len(t['o'])==3:
            c=s.fn.get(t['o'][0])
            if c is not None and c['op']=='icmp' and c['pred'] in('eq','ne'):
                x,y=s.loc(c['o'][0]),s.loc(c['o'][1])
                if s.alias and x and y and x==y: return [int(t['o'][1 if c['pred']=='eq' else 2][1:])]
                if x and y and {x[0],y[0]}=={s.dst,s.src} and x[1]==y[1]:
                    # the two objects are different
                    take=2 if c['pred']=='eq' else 1
                    return [int(t['o'][take][1:])]
        return ss
    def step(s,st,vals,I):
        op=I['op']; o=I.get('o',[])
        me='%%%d'%I['i']
        if op not in('getelementptr','store','icmp') or op=='store' and s.loc(o[0]):
            if not(op in('call','invoke') and qsplit(s.fn.callee(I) or '')[1] in('size','capacity','empty','length','memory')):
                for x in (o if op!='store' else o[:1]):
                    p=s.loc(x)
                    if p: s.reads.add(p)
        if op=='load':
            p=s.loc(o[0]); w=W.get(I.get('t'))
            vals[me]=tuple(s.get(st,p[0],p[1]+k) for k in range(w)) if p and w else None
        elif op in('trunc','zext') :
            v=vals.get(o[0]) if isinstance(o[0],str) else None
            # booleans are loaded as i8
            vals[me]=v[:1] if v and I.get('t') in('i1','i8') else None
        elif op in('freeze',): vals[me]=vals.get(o[0]) if isinstance(o[0],str) else None
        elif op in('icmp',) and I.get('pred')=='ne' and o[1] in('c0','false'): 
            v=vals.get(o[0]); vals[me]=v[:1] if v and len(v)==1 else None
        elif op=='and' and o[1]=='c1': vals[me]=vals.get(o[0])
        elif op=='store':
            p=s.loc(o[1]); v=vals.get(o[0]) if isinstance(o[0],str) else None
            if p is None: return
            w=len(v) if v else W.get(I.get('vt')) or 8
            for k in range(w): st[(p[0],p[1]+k)]=v[k] if v else None
        elif op in('call','invoke'):
            q=s.fn.callee(I) or ''
            args=o
            if q.startswith('llvm.memcpy') or q.startswith('llvm.memmove') or q in('memcpy','memmove'):
                d,r=s.loc(args[0]),s.loc(args[1]); n=args[2]
                if d and isinstance(n,str) and n[0]=='c':
                    n=int(n[1:]); v=[s.get(st,r[0],r[1]+k) if r else None for k in range(n)]
                    for k in range(n): st[(d[0],d[1]+k)]=v[k]
                return
            if q.startswith('llvm.memset'):
                d=s.loc(args[0])
                if d and isinstance(args[2],str) and args[2][0]=='c':
                    for k in range(int(args[2][1:])): st[(d[0],d[1]+k)]=None
                return
            if q.startswith('llvm.'): return
            cb,m=qsplit(q)
            A=s.loc(args[0]) if args else None
            B=s.loc(args[1]) if len(args)>1 else None
            if A is None: return
            n=s.size(A[0],A[1],cb)
            if not n: return
            ctor=m==cb or (cb=='basic_string' and m=='basic_string')
            if m in('base2ad','get_recording') and B is not None: n=min(n,s.size(B[0],B[1],cb) or n) if m=='base2ad' else n
            if m in('base2ad','get_recording') and B is not None or m=='operator=' and B is not None or ctor and B is not None:
                v=[s.get(st,B[0],B[1]+k) for k in range(n)]
                for k in range(n): st[(A[0],A[1]+k)]=v[k]
            elif m=='swap' and B is not None:
                v=[s.get(st,B[0],B[1]+k) for k in range(n)]; u=[s.get(st,A[0],A[1]+k) for k in range(n)]
                for k in range(n): st[(A[0],A[1]+k)]=v[k]; st[(B[0],B[1]+k)]=u[k]
            elif ctor and len(args)==1 or m=='clear' or m=='resize' and len(args)>1 and args[1]=='c0':
                for k in range(n): st[(A[0],A[1]+k)]=('clr',)
            elif m=='resize' and len(args)>1 and s.get(st,A[0],A[1])==('clr',) and (vals.get(args[1])==('szof',A) or vals.get(args[1]) and set(vals[args[1]])=={('clr',)}): pass
            elif m=='size': vals[me]=('szof',A)
            elif m in('data','begin','end') or m.startswith('operator[]'): s.touch.append(A)
            elif m in CONST or m.startswith('operator[]') or 'fn' in I and s.fn.mod.dem(I['fn']).endswith(' const'): pass
            elif m.startswith('~'): pass
            else:
                s.touch.append(A)
                for k in range(n): st[(A[0],A[1]+k)]=None
CONST={'size','data','begin','end','empty','length','capacity','memory'}
# own methods analysed inside the routine; everything of the other classes is a leaf
OWN={'fun':'CppAD::ADFun','player':'CppAD::local::player<','dyn_player':'CppAD::local::dyn_player<','random':'@','pack':'CppAD::local::sparse::pack_setvec',
 'size':'CppAD::local::sparse::(size_setvec|list_setvec)','svec':'CppAD::local::sparse::svec_setvec','subgraph':'CppAD::local::subgraph::subgraph_info','rc':'CppAD::sparse_rc','rcv':'CppAD::sparse_rcv',
 'pod':'CppAD::local::pod_vector<','podm':'CppAD::local::pod_vector_maybe<','vector':'CppAD::vector<','vbool':'CppAD::vectorBool','graph':'@','tape':'@'}
WHAT={'ca':'copy assignment','ma':'move assignment','sw':'swap','cc':'copy constructor','mc':'move constructor','b2':'base2ad','gr':'get_recording'}
# state that a routine is not meant to carry over: scratch memory of a single subgraph_reverse
# call, and in base2ad the Taylor coefficients (documented) and the name and collision
# record, which describe the original object
EXEMPT={('ca','size'):{'temporary_'},('ca','svec'):{'temporary_'},('sw','size'):{'temporary_'},('sw','svec'):{'temporary_'},('sw','fun'):{'subgraph_partial_'},('ma','fun'):{'subgraph_partial_'},('mc','fun'):{'subgraph_partial_'},
 ('b2','fun'):{'taylor_','num_order_taylor_','cap_order_taylor_','num_direction_taylor_','subgraph_partial_','function_name_','exceed_collision_limit_'},
 # caches that are rebuilt from the other members
 ('b2','dyn_player'):{'par_all_'}, ('gr','player'):{'num_var_vecad_','random_itr_info_'}, ('gr','dyn_player'):{'dyn2par_index_'}}
def ok_range(fl,st,root,want_root,rng_,off=0):
    bad=[k for k in range(*rng_) if fl.get(st,root,k)!=('o',want_root,k+off)]
    return bad
def entry(bc,L,kind,name):
    own=OWN[name]; ent='%s_%s'%(kind,name)
    if name in('fun',): own='CppAD::ADFun'
    if kind=='b2': ent='b2_'+{'fun':'fun','player':'player','dyn_player':'dyn'}[name]
    if kind=='gr': ent='gr_'+{'player':'player','dyn_player':'dyn'}[name]
    opq='^(?!%s)'%own+LEAF[1:]
    d=core.irx([bc],['--entry','^%s$'%ent,'--opaque',opq]); m=ir.Mod(d['module'])
    return m.fns.get(ent)
def other(L,kind,name):
    c=CLS[name]
    if kind=='b2':
        # the target is the class over AD<Base>
        return c.replace('struct VB','class CppAD::AD<struct VB> ',1) if name!='fun' else 'class CppAD::ADFun<class CppAD::AD<struct VB>, struct VB>'
    if kind=='gr': return 'class %s%s<struct VB>'%(P,{'player':'recorder','dyn_player':'dyn_recorder'}[name])
    return c
def analyse(bc,L,kind,name,obs):
    rule='state-'+kind; what='%s of %s'%(WHAT[kind],re.sub(r'^(class|struct) ','',CLS[name]).replace('struct ',''))
    fn=entry(bc,L,kind,name)
    def ob(stt,inst,txt='',wh=''): obs.append((rule,inst,stt,txt,wh))
    if fn is None: ob('undecided',what,'entry not found'); return
    cd,cs=CLS[name],CLS[name]
    if kind=='b2':
        cd=[k for k in L if tbase(k)==tbase(CLS[name]) and 'AD<' in k and not k.endswith('const')]
        cd=next((k for k in cd if L[k]['size']),None)
    if kind=='gr': cs=next((k for k in L if k==other(L,kind,name)),None)
    if cd is None or cs is None: ob('undecided',what,'layout not found'); return
    fl=Flow(fn,'a0','a1',L,cd,cs)
    ex=fl.run()
    if ex is None or not ex: ob('undecided',what,'; '.join(fl.und)); return
    md=members(L,cd); ms={n:(t,o,e) for n,t,o,e in members(L,cs)}
    skip=EXEMPT.get((kind,name),set())
    for n,t,o,e in md:
        if n in skip or t.startswith('const '): continue
        if kind=='gr' and n=='dyn_play_': ms[n]=ms.get('dyn_record_')
        if ms.get(n) is None:
            ob('undecided','%s: %s'%(what,n),'no member of this name'); continue
        so=ms[n][1]
        bad=[]; und=False
        for b,st in ex.items():
            for k in range(o,e):
                v=fl.get(st,'a0',k)
                if v!=('o','a1',so+k-o): bad.append(('target',k,v)); break
            if kind=='sw':
                for k in range(o,e):
                    v=fl.get(st,'a1',so+k-o)
                    if v!=('o','a0',k): bad.append(('source',k,v)); break
            elif kind in('ca','cc','b2'):
                for k in range(o,e):
                    v=fl.get(st,'a1',so+k-o)
                    if v!=('o','a1',so+k-o): bad.append(('source changed',k,v)); break
        loc=next((ir.where1(I) for I in fn.reach_ins() if I.get('l') and '/include/cppad/' in '/'+ir.where1(I)),'')
        if bad and kind in('ca','cc') and not any(r=='a1' and so<=k<so+e-o or r not in('a0','a1') and str(r)[:1]=='a' for r,k in fl.reads): ob('viol','%s: %s'%(what,n),'%s: no value of member %s of the source is used'%(fn.dem,n),loc)
        elif bad and any(v is None for _,_,v in bad) and any(r=='a0' and o<=k<e for r,k in fl.touch): ob('undecided','%s: %s'%(what,n),'changed by other operations')
        elif bad:
            side,k,v=bad[0]
            fr='something else than the member itself' if v is None else 'the old value' if v[:2]==('o','a0') and side=='target' or v[:2]==('o','a1') and side=='source' else 'a cleared value' if v==('clr',) else 'the bytes of another member'
            ob('viol','%s: %s'%(what,n),'%s: after the %s member %s of the %s holds %s'%(fn.dem,WHAT[kind],n,side if side!='source changed' else 'source',fr),loc)
        else: ob('ok','%s: %s'%(what,n))
    if kind=='gr' and name=='player':
        d=next((x for x in md if x[0]=='random_itr_info_'),None)
        if d:
            bad=[b for b,st in ex.items() if any(fl.get(st,'a0',k)!=('clr',) for k in range(d[2],d[3]))]
            ob('viol' if bad else 'ok','%s: random access information emptied'%what,'%s keeps random access information of the previous operation sequence'%fn.dem if bad else '',ir.where1(next(fn.calls())))
KINDS=[('ca',n) for n in('fun','player','dyn_player','random','pack','size','svec','subgraph','rc','rcv','graph')]+[('ma',n) for n in('fun','player','dyn_player','rc','rcv','vector','vbool')]\
 +[('sw',n) for n in('fun','player','dyn_player','random','pack','size','svec','subgraph','rc','rcv','pod','podm','vector','vbool','tape')]+[('cc',n) for n in('rc','rcv','graph')]+[('mc',n) for n in('fun','rc','rcv')]\
 +[('b2',n) for n in('fun','player','dyn_player')]+[('gr',n) for n in('player','dyn_player')]


def selfassign(bc,L,name,obs):
    """assignment of an object to itself does not lose its contents"""
    rule='self-assign'; what='assignment of a %s to itself'%re.sub(r'^(class|struct) ','',CLS[name]).replace('struct ','')
    own=OWN[name]; opq='^(?!%s)'%own+LEAF[1:]
    ent={'vector':'ct_vector','vbool':'ct_vbool','pod':'ct_pod','podm':'ct_podm'}.get(name,'ca_'+name)
    d=core.irx([bc],['--entry','^%s$'%ent,'--opaque',opq,'--opaque','^CppAD::(thread_alloc::|local::(create_array|destroy_array|get_max_num_threads)|.*::(resize|clear)$)']); fn=ir.Mod(d['module']).fns.get(ent)
    if fn is None: obs.append((rule,what,'undecided','no entry','')); return
    fl=Flow(fn,'a0','a1',L,CLS[name],CLS[name],True); ex=fl.run()
    if not ex: obs.append((rule,what,'undecided','','')); return
    wh=next((ir.where1(I) for I in fn.reach_ins() if '/cppad/' in ir.where1(I)),'')
    for n,t,o,e in members(L,CLS[name]):
        if n=='temporary_': continue
        v={fl.get(st,'a0',k) for st in ex.values() for k in range(o,e)}
        lost=[x for x in v if x==('clr',) or x and x[0]=='o' and not(x[1]=='a0' and o<=x[2]<e)]
        if lost: obs.append((rule,'%s: %s'%(what,n),'viol','%s: member %s is emptied before it is copied from itself'%(fn.dem,n),wh))
        else: obs.append((rule,'%s: %s'%(what,n),'ok','',''))
SELF=['vector','vbool','pod','podm','rc','rcv','fun','player','dyn_player','pack','size','svec','subgraph']
# ---------------------------------------------------------------- contents of vectors
CT={'pod':('CppAD::local::pod_vector<VB> assignment','pod',8),'podm':('pod_vector_maybe<Base> assignment','podm',8),'vector':('CppAD::vector assignment','vector',8),'vectorc':('CppAD::vector copy constructor','vector',8),
 'vbool':('vectorBool assignment','vbool',8),'vboolc':('vectorBool copy constructor','vbool',8)}
def contents(bc,L,name,obs):
    what,cl,es=CT[name]; what=what.replace('<VB>','').replace('CppAD::local::','')
    ent='ct_'+name; rule='content-copy'
    d=core.irx([bc],['--entry','^%s$'%ent,'--opaque','^CppAD::(thread_alloc::|local::(create_array|destroy_array|get_max_num_threads)|.*::resize$|.*::unit_min$)']); fn=ir.Mod(d['module']).fns.get(ent)
    if fn is None: obs.append((rule,what,'undecided','no entry','')); return
    M={n:o for n,t,o,e in members(L,CLS[cl])}
    LEN=M.get('size_',M.get('length_')); DATA=M.get('data_')
    if LEN is None or DATA is None: obs.append((rule,what,'undecided','members not found','')); return
    res=[I for I in fn.calls() if (fn.callee(I) or '').endswith('::resize') and I['o'][0]=='a0']
    N=('n',); box={}
    def classify(I):
        if I['op'] in('call','invoke') and (fn.callee(I) or '').endswith('unit_min'): return N
        if I['op']!='load': return None
        r,p=box['a'].addr(I['o'][0])
        if not p.isconst(): return None
        o=int(p.cval())
        if r=='a1': return N if o==LEN and cl!='vbool' else ('src',) if o==DATA else None
        if r=='a0': return N if o==LEN and res and cl!='vbool' else ('dst',) if o==DATA else None
        return None
    a=Aff.__new__(Aff); box['a']=a; Aff.__init__(a,fn,classify); a.memo={}
    wh=next((ir.where1(I) for I in fn.reach_ins() if 'include/cppad' in ir.where1(I)),'')
    if res and cl!='vbool':
        def sz(I): return a.poly(I['o'][1])
        if not any(sz(I)==Poly.atom(N) for I in res[-1:]):
            obs.append((rule,what+': size','viol','%s: the target is resized to %s, which is not the size of the source'%(fn.dem,sz(res[-1])),ir.where1(res[-1])))
        else: obs.append((rule,what+': size','ok','',''))
    found=[]; odd=None; n=Poly.atom(N)
    for I in fn.reach_ins():
        if I['op']=='store':
            r,p=a.addr(I['o'][1])
            if r!=('dst',): continue
            v=fn.get(I['o'][0]); b=fn.blk[I['i']]; Ls=a.loops_at(b)
            if v is None or v['op']!='load' or a.addr(v['o'][0])[0]!=('src',) or len(Ls)!=1 or Ls[0].iv is None: odd='stores %s'%I['o'][0]; continue
            q=a.addr(v['o'][0])[1]; Lp=Ls[0]
            if p!=q: found.append(('viol','element at byte %s receives the element at byte %s'%(p,q),I)); continue
            c,r_=p.coef(Lp.iv)
            if c is None or not c.isconst() or c.cval()!=es: odd='stride'; continue
            lo=Lp.lo.scale(es)+r_; hi=Lp.hi.scale(es)+r_
            if lo==Poly() and hi==(n-Poly.const(1)).scale(es): found.append(('ok','',I))
            else: found.append(('viol','elements %s/%d ... %s/%d are copied, not 0 ... n-1'%(lo,es,hi,es),I))
        elif I['op'] in('call','invoke') and (fn.callee(I) or '').startswith(('llvm.memcpy','llvm.memmove')):
            (r,p),(r2,p2)=a.addr(I['o'][0]),a.addr(I['o'][1]); k=a.poly(I['o'][2])
            if r!=('dst',) : continue
            if r2!=('src',): odd='copies from elsewhere'; continue
            if p==Poly() and p2==Poly() and k==n.scale(es): found.append(('ok','',I))
            else: found.append(('viol','%s bytes are copied from byte %s to byte %s (n elements of %d bytes expected)'%(k,p2,p,es),I))
    if any(f[0]=='ok' for f in found): obs.append((rule,what+': elements','ok','',''))
    elif found: obs.append((rule,what+': elements','viol','%s: %s'%(fn.dem,found[0][1]),ir.where1(found[0][2])))
    elif odd or any(not (fn.callee(I) or '').startswith('llvm.') and not (fn.callee(I) or '').endswith(('resize','unit_min')) for I in fn.calls()): obs.append((rule,what+': elements','undecided',odd or 'calls',''))
    else: obs.append((rule,what+': elements','viol','%s: the elements are not copied'%fn.dem,wh))
def one(x):
    bc,L,k,n=x; obs=[]
    try: selfassign(bc,L,n,obs) if k=='sa' else (contents(bc,L,n,obs) if k=='ct' else analyse(bc,L,k,n,obs))
    except core.Broken as e: obs.append(('state-'+k,n,'undecided',str(e)[:300],''))
    return obs
def run(rep,tier):
    L=layouts('h_state.cpp'); bc=core.compile_bc('h_state.cpp'); core.ensure_irx()
    for r in core.pmap(one,[(bc,L,k,n) for k,n in KINDS+[('ct',n) for n in CT]+[('sa',n) for n in SELF]]): rep.merge(r)
def p14(prop,tier,t0):
    rep=core.Report(prop)
    run(rep,tier)
    return core.finish(rep,tier,t0,'Byte-wise must dataflow (which original member of which object every member holds) over copy assignment, move, swap, copy and move construction, base2ad and get_recording of the classes that hold state; members from the record layouts of the compiler; element loops and block copies of the vector classes by affine ranges; assignment to itself.',
        {'state-ca':50,'state-sw':50,'state-ma':20},['members of a template parameter type are copied by their own assignment'])
