"""The text of an AD graph: the C source and the JSON that are written for every operator say what
the operator means, and the parser reads every operator the way it is written."""
import re,os,sys
import core,ir,c_fun,c_graph,c_opt
from aff import Aff
from c_opt import ld,vec,strip,plus,lits,lit0
from c_rerec import gl,ev_
from c_graph import GOP,kind,L_init
from c_graphf import FW,PU,RO,sn,argn,HEAD,STR
GET='atomic_name_vec_get','discrete_name_vec_get','print_text_vec_get','constant_vec_get','dependent_vec_get','operator_vec_get'
SZ='atomic_name_vec_size','discrete_name_vec_size','constant_vec_size','dependent_vec_size','operator_vec_size','n_dynamic_ind_get','n_variable_ind_get','function_name_get','print_text_vec_size'
def nm(q): return 'operator<<' if 'operator<<' in q else 'operator[]' if '::operator[]' in q else sn(q).split('[')[0]
def tpure(q): return PU(q) or nm(q) in GET or nm(q) in SZ or strip(q) in('operator==','operator!=','c_str','data') and 'std::' in q
CS={}
def glit(x):
    if not x: return None
    return x.get('str','' if str(x.get('t'))=='[1 x i8]' and x.get('const') else None)
def conststr(fn):
    """strings that have one literal value"""
    if id(fn) in CS: return CS[id(fn)]
    d={}; no=set()
    for I in fn.calls():
        q=fn.callee(I) or ''; o=I.get('o',[])
        if not o or not isinstance(o[0],str): continue
        n=nm(q)
        if n=='basic_string' and len(o)>1 and str(o[1])[:2]=='g:' and glit(fn.mod.globals.get(o[1][2:])) is not None:
            k=('ptr',o[0],0)
            if k in d: no.add(k)
            d[k]=(glit(fn.mod.globals[o[1][2:]]).split('\0')[0],)
        elif n in('operator=','operator+=','append','assign','push_back','basic_string','clear','insert','swap') or I.get('sret') is not None: no.add(('ptr',o[0],0))
    CS[id(fn)]={k:v for k,v in d.items() if k not in no}
    return CS[id(fn)]
class TW(FW):
    table=None
    def __init__(w,fn,pure=tpure,**k):
        FW.__init__(w,fn,pure,gl(fn),readonly=lambda q: True,**k); w.cst=conststr(fn)
    def lit(w,g):
        x=w.fn.mod.globals.get(g[2:]) if isinstance(g,str) and g[:2]=='g:' else None
        return glit(x)
    def pieces(w,s,v,I):
        """the text of a string or of a C string"""
        if v is None: return (('?',),)
        k=('S',v)
        if k in s.env: return s.env[k]
        if v[0]=='ptr' and v[2]==0:
            t=w.lit(v[1])
            if t is not None: return (t.split('\0')[0],)
        if v[0]=='call' and nm(v[1]) in('c_str','data') and len(v)==3: return w.pieces(s,v[2],I)
        if v[0]=='mem0' and 'op_enum2name' in str(v[1]): return (('name',v[2]//8),)
        if v[0]=='load' and v[1][0]=='idx' and 'op_enum2name' in str(v[1][1]): return (('namei',v[1][3][0][0]),)
        if v in w.cst: return w.cst[v]
        if v==('arg',2) or v==('arg',0) or v[0]=='call' and (nm(v[1]) in GET or nm(v[1])=='function_name_get'): return (('str',v),)
        return (('?',),)
    def add(w,s,k,p): s.env[('S',k)]=s.env.get(('S',k),())+tuple(p)
    def lod(w,s,x,I): return w.load(s,x,None,I)
    def step(w,s,I):
        if I['op'] not in('call','invoke'): return FW.step(w,s,I)
        q=w.fn.callee(I) or ''; me='%%%d'%I['i']; o=[w.val(s,x) for x in I.get('o',[])]; n=nm(q); raw=str(I.get('fn',''))
        if q.startswith('std::') and 'allocator' in n or n.startswith('~') or n in('stringstream',): s.env[me]=('u',me); return
        if 'basic_string' in q and n=='basic_string':
            a=o[1:]
            if a and 'alloc' not in str(a[0]) : s.env[('S',o[0])]=w.pieces(s,a[0],I)
            else: s.env[('S',o[0])]=()
            return
        if 'basic_string' in q and n=='operator=' or n=='assign' and 'basic_string' in q:
            s.env[('S',o[0])]=w.pieces(s,o[1],I) if not raw.endswith('aSEc') else ((chr(o[1][1]) if o[1][0]=='c' else ('?',)),); s.env[me]=o[0]; return
        if n in('operator+=','append') and 'basic_string' in q or n=='push_back' and 'basic_string' in q:
            w.add(s,o[0],((chr(o[1][1]&255),) if o[1][0]=='c' and (raw.endswith('Ec')) else w.pieces(s,o[1],I))); s.env[me]=o[0]
            if ('S',o[0]) in s.env and len(o)!=2: w.add(s,o[0],(('?',),))
            return
        if n=='operator+' and q.startswith('std::operator+'):
            if I.get('sret') is None: s.env[me]=('u',me); return
            d=o[0]; z=()
            for x in o[1:3]: z+=((chr(x[1]&255),) if x[0]=='c' else w.pieces(s,x,I))
            s.env[('S',d)]=z; return
        if n=='to_string':
            x=o[-1]
            v=x if q.startswith('std::') else w.lod(s,x,I)
            k='double' if 'double' in q.split('to_string')[-1] else 'int'
            if k=='int' and 'float' in q.split('to_string')[-1] or q.startswith('std::'): k='low' if k!='int' or 'float' in q.split('to_string')[-1] else 'int'
            while v[0]=='u' and str(v[1])[:1]=='%' and w.fn.ins.get(int(str(v[1])[1:]),{}).get('op') in('fptrunc','fpext'):
                J=w.fn.ins[int(str(v[1])[1:])]; k='low' if J['op']=='fptrunc' else k; v=w.val(s,J['o'][0])
            while v[0] in('fptrunc','fpext'):
                if v[0]=='fptrunc': k='low'
                v=v[1]
            s.env[('S',o[0])]=(('num',v,k),); return
        if n=='operator<<':
            if 'basic_ostream' in q.split('operator<<')[0] :      # member: a number
                if len(o)==2: w.add(s,o[0],(('\n',) if 'endl' in str(o[1]) else (('num',o[1],'low' if raw.endswith('Ed') or raw.endswith('Ef') else 'int'),)))
            else:
                x=o[1]
                w.add(s,o[0],((chr(x[1]&255),) if x[0]=='c' else w.pieces(s,x,I)))
            s.env[me]=o[0]; return
        if n in('size','length') and 'basic_string' in q:
            p=w.pieces(s,o[0],I)
            if all(isinstance(x,str) or x[0]=='num' for x in p): s.env[me]=('c',sum(len(x) if isinstance(x,str) else 1 for x in p)); return
            s.env[me]=('call','strsize',o[0]); return
        if n in('operator[]','at') and 'basic_string' in q: s.env[me]=('call','operator[]',o[0],o[1]); return
        if 'operator[]' in q and 'op_code2enum' in q: pass
        FW.step(w,s,I)
    def load(w,s,p,t,I):
        if w.table and p[0]=='ptr' and 'op_enum2fixed_n_arg' in str(p[1]) and p not in s.mem: return ('c',w.table[p[2]//8][2])
        v=vec(p)
        if v is not None and w.gop is not None and ('*',p) not in s.mem and w.enumvec(s,p,I): return ('c',w.gop)
        return FW.load(w,s,p,t,I)
    def enumvec(w,s,p,I): return False
def outs(fn): return fn
# ---------------------------------------------------------------- C
class Text:
    """text with a private character for every piece that is not literal"""
    def __init__(t,p):
        t.map={}; o=''
        for x in p:
            if isinstance(x,str): o+=x
            else:
                c=chr(0xe000+len(t.map)); t.map[c]=x; o+=c
        t.s=o
    def has(t,fn=None,L=None): return any(x==('?',) or x[0]=='num' and fn is not None and unknown(x[1],fn,L) for x in t.map.values())
def unknown(e,fn,L):
    """the rules do not know where the number comes from"""
    if e[0]=='c' or argn(e) is not None or e==('call','h_callid'): return False
    if e[0]=='phi': return not(L is not None and any(I['op']=='phi' and I['i']==e[1] for I in fn.blocks[L.h]))
    if e[0] in('add','sub','mul','load') : return any(unknown(x,fn,L) for x in e[1:] if isinstance(x,tuple))
    if e[0]=='call': return False
    return True
CTOK=re.compile(r'\s+|//[^\n]*(?:\n|$)|/\*.*?\*/|([A-Za-z_\ue000-\uf8ff][\w\ue000-\uf8ff]*|\d[\w.\ue000-\uf8ff]*|\+\+|--|==|!=|<=|>=|&&|\|\||[-+*/<>=?:;,(){}\[\]!&#.])',re.S)
class Bad(Exception): pass
def ctok(s):
    s=re.sub(r'^\s*#[^\n]*',' ',s,flags=re.M)
    i=0; out=[]
    while i<len(s):
        m=CTOK.match(s,i)
        if not m: raise Bad('the C source has an unexpected character %r'%s[i])
        if m.group(1): out.append(m.group(1))
        i=m.end()
    return out
class CP:
    """the statements and expressions that are written"""
    TY={'float_point_t','int','size_t','double','float','long','const','static','extern','typedef'}
    def __init__(p,t): p.t=t; p.i=0
    def peek(p,k=0): return p.t[p.i+k] if p.i+k<len(p.t) else None
    def eat(p,x=None):
        y=p.peek()
        if y is None or x is not None and y!=x: raise Bad('the C source has %r where %r is expected'%(y,x))
        p.i+=1; return y
    def expr(p):
        c=p.bin(0)
        if p.peek()=='?':
            p.eat(); a=p.expr(); p.eat(':'); b=p.expr(); return('cond',c,a,b)
        if p.peek()=='=': p.eat(); return('set',c,p.expr())
        return c
    LV=[('||',),('&&',),('==','!='),('<','<=','>','>='),('+','-'),('*','/')]
    def bin(p,k):
        if k==len(p.LV): return p.un()
        a=p.bin(k+1)
        while p.peek() in p.LV[k]: o=p.eat(); a=('bin',o,a,p.bin(k+1))
        return a
    def un(p):
        if p.peek() in('-','!','*','&','+'): o=p.eat(); return('un',o,p.un())
        if p.peek() in('++','--'): o=p.eat(); return('pre',o,p.un())
        if p.peek()=='(' and p.peek(1) in p.TY and p.peek(2)==')': p.eat(); ty=p.eat(); p.eat(); return p.un()
        a=p.prim()
        while True:
            if p.peek()=='[': p.eat(); i=p.expr(); p.eat(']'); a=('idx',a,i)
            elif p.peek()=='(':
                p.eat(); z=[]
                while p.peek()!=')':
                    z.append(p.expr())
                    if p.peek()!=')': p.eat(',')
                p.eat(); a=('callf',a,tuple(z))
            elif p.peek() in('++','--'): a=('pre',p.eat(),a)
            else: return a
    def prim(p):
        x=p.eat()
        if x=='(': a=p.expr(); p.eat(')'); return a
        if re.match(r'^[\w\ue000-\uf8ff.]+$',x): return('num',float(x)) if re.match(r'^\d+(\.\d*)?$',x) else ('id',x)
        raise Bad('the C source has %r in an expression'%x)
    def stmt(p):
        x=p.peek()
        if x=='{':
            p.eat(); z=[]
            while p.peek()!='}': z.append(p.stmt())
            p.eat(); return('blk',z)
        if x==';': p.eat(); return('blk',[])
        if x=='if':
            p.eat(); p.eat('('); c=p.expr(); p.eat(')'); a=p.stmt(); b=None
            if p.peek()=='else': p.eat(); b=p.stmt()
            return('if',c,a,b)
        if x=='return': p.eat(); e=p.expr(); p.eat(';'); return('ret',e)
        if x=='for':
            p.eat(); p.eat('(')
            if p.peek() in p.TY: p.eat()
            a=p.expr(); p.eat(';'); c=p.expr(); p.eat(';'); n=p.expr(); p.eat(')'); return('for',a,c,n,p.stmt())
        if x in p.TY:
            ty=[]
            while p.peek() in p.TY or p.peek()=='*': ty.append(p.eat())
            n=p.eat(); d=None; ini=None
            if p.peek()=='[': p.eat(); d=p.expr(); p.eat(']')
            if p.peek()=='=': p.eat(); ini=p.expr()
            p.eat(';'); return('decl',' '.join(ty),n,d,ini)
        e=p.expr(); p.eat(';'); return('ex',e)
    def all(p):
        z=[]
        while p.peek() is not None: z.append(p.stmt())
        return z
def flat(z):
    o=[]
    for x in z: o+=flat(x[1]) if x[0]=='blk' else [x]
    return o
class Env:
    """what the pieces of the text of an operator stand for"""
    def __init__(e,t,Rphi,n): e.m=t.map; e.R=Rphi; e.n=n
    def term(e,x):
        """an index expression of the text -> (argument j) | 'R' | number"""
        if x[0]=='num': return int(x[1])
        if x[0]=='id' and x[1] in e.m:
            y=e.m[x[1]]
            if y[0]!='num': return None
            if y[1]==e.R: return 'R'
            if y[1][0]=='c': return y[1][1]
            j=argn(y[1])
            if j is not None: return ('arg',j)
            t,c=plus(y[1])
            if t==(e.R,) and c: return ('R+',c)
        return None
    def node(e,x):
        if x[0]=='idx' and x[1]==('id','v'): return e.term(x[2])
        return None
    def name(e,x):
        """the name that an identifier spells: literal | (literal, term)"""
        if x[0]!='id': return None
        o=[]
        for c in x[1]:
            if c in e.m:
                y=e.m[c]; o.append(CTAB[y[1]] if y[0]=='name' and y[1] in CTAB else y)
            elif o and isinstance(o[-1],str): o[-1]+=c
            else: o.append(c)
        z=[]
        for y in o:
            if z and isinstance(y,str) and isinstance(z[-1],str): z[-1]+=y
            else: z.append(y)
        return z[0] if len(z)==1 else tuple(z)
CTAB={}
FN1={'abs':'fabs'}
SWAP={'<':'>','>':'<','<=':'>=','>=':'<=','==':'==','!=':'!='}
def rel(c):
    """a comparison as a set of outcomes of (left, right)"""
    neg=False
    while c[0]=='un' and c[1]=='!': c=c[2]; neg=not neg
    if c[0]!='bin' or c[1] not in SWAP: return None
    r={'<':{'lt'},'>':{'gt'},'<=':{'lt','eq'},'>=':{'gt','eq'},'==':{'eq'},'!=':{'lt','gt','un'}}[c[1]]
    return ({'lt','gt','eq','un'}-r if neg else r),c[2],c[3]
def sw(r): return {{'lt':'gt','gt':'lt'}.get(x,x) for x in r}
W3={'lt':{'lt'},'le':{'lt','eq'},'eq':{'eq'},'ne':{'lt','gt','un'}}
def fname(E,x,pre):
    """the index into a table of names that follows a prefix"""
    y=E.name(x)
    if not(isinstance(y,tuple) and len(y)==2 and y[0]==pre and y[1][0]=='str'): return None
    return y[1][1]
def strindex(t,fn_):
    """t is name table entry fn_ number j of the texts of the operator -> j"""
    if t[0]=='call' and nm(t[1])==fn_:
        v=ld(t[-1])
        if v is not None and v[0]==('call','h_str') and v[1][0]=='c': return v[1][1]
    return None
def csum(e):
    if e[0]=='bin' and e[1]=='+': return csum(e[2])+csum(e[3])
    return [e]
def cexpr(g,kd,E,S,n,bad,und):
    """the statements S of operator g"""
    nd=E.node
    def asg():
        if len(S)!=1 or S[0][0]!='ex' or S[0][1][0]!='set': bad.append('the C source of %s is not one assignment'%g); return None
        l,e=S[0][1][1:]
        if nd(l)!='R': bad.append('the C source of %s does not set the node of its result'%g)
        return e
    A=lambda j: ('arg',j)
    if kd=='comp':
        cnt=('ex',('pre','++',('un','*',('id','compare_change'))))
        if len(S)!=1 or S[0][0]!='if' or flat([S[0][2]])!=[cnt] or S[0][3] is not None: bad.append('the C source of %s does not count a change of the comparison'%g); return
        r=rel(S[0][1])
        if r is None: und.append('comparison'); return
        a,b=nd(r[1]),nd(r[2]); r=r[0]
        if (a,b)==(A(1),A(0)): a,b=b,a; r=sw(r)
        if (a,b)!=(A(0),A(1)): bad.append('the C source of %s does not compare its arguments'%g); return
        w={'lt','gt','eq','un'}-W3[g[5:]]
        if r-{'un'}!=w-{'un'}: bad.append('the C source of %s does not count when the comparison fails'%g)
        return
    if kd=='atom4': return catom(g,E,S,n,bad,und)
    if kd in('atom','print'): return
    e=asg()
    if e is None: return
    if kd=='unary' and g!='neg':
        if e[0]!='callf' or len(e[2])!=1: bad.append('the C source of %s is not a call with one argument'%g); return
        f=E.name(e[1])
        if f!=FN1.get(g,g): bad.append('the C source of %s calls %s'%(g,f)); return
        if nd(e[2][0])!=A(0): bad.append('the C source of %s does not use its argument'%g)
        return
    if g=='neg':
        if not(e[0]=='un' and e[1]=='-' and nd(e[2])==A(0) or e[0]=='bin' and e[1]=='-' and e[2]==('num',0.0) and nd(e[3])==A(0)): bad.append('the C source of neg is not the negative of its argument')
        return
    if kd=='binary':
        o={'add':'+','sub':'-','mul':'*','div':'/'}.get(g)
        if o: 
            k=[nd(e[2]),nd(e[3])] if e[0]=='bin' and e[1]==o else None
            if k!=[A(0),A(1)] and not(o in'+*' and k==[A(1),A(0)]): bad.append('the C source of %s is not argument 0 %s argument 1'%(g,o))
            return
        if e[0]!='callf' or E.name(e[1])!=g or [nd(x) for x in e[2]]!=[A(0),A(1)]: bad.append('the C source of %s is not a call of %s with its arguments'%(g,g))
        return
    if kd=='cexp':
        if e[0]!='cond': bad.append('the C source of %s is not a conditional expression'%g); return
        r=rel(e[1])
        if r is None: und.append('condition'); return
        a,b=nd(r[1]),nd(r[2]); r=r[0]; t,f=nd(e[2]),nd(e[3])
        if (a,b)==(A(1),A(0)): a,b=b,a; r=sw(r)
        if (t,f)==(A(3),A(2)): t,f=f,t; r={'lt','gt','eq','un'}-r
        if (a,b,t,f)!=tuple(A(k) for k in range(4)): bad.append('the C source of %s does not use its arguments'%g); return
        if r!=W3[g[5:]]: bad.append('the C source of %s tests another relation'%g)
        return
    if kd=='sum':
        z=[y for y in csum(e) if y!=('num',0.0)]
        if sorted(nd(y) or ('?',0) if not isinstance(nd(y),str) else ('?',1) for y in z)!=[A(j) for j in range(n)]: bad.append('the C source of sum does not add all its arguments')
        return
    if kd=='discrete':
        if e[0]!='callf' or [nd(x) for x in e[2]]!=[A(0)]: bad.append('the C source of discrete is not a call with its argument'); return
        t=fname(E,e[1],'cppad_discrete_')
        if t is None or strindex(t,'discrete_name_vec_get')!=0: bad.append('the C source of discrete calls another function')
        return
    und.append(kd)
def cval(c,env):
    """condition of the text for one class of the value of a variable"""
    if c[0]=='num': return c[1]
    if c[0]=='id': return env.get(c[1])
    if c[0]=='un':
        x=cval(c[2],env); return None if x is None else (not x) if c[1]=='!' else -x if c[1]=='-' else None
    if c[0]=='bin':
        a,b=cval(c[2],env),cval(c[3],env)
        if c[1]=='||': return True if a or b else None if a is None or b is None else False
        if c[1]=='&&': return False if a is False or b is False else None if a is None or b is None else bool(a and b)
        if a is None or b is None or c[1] not in SWAP: return None
        return {'<':a<b,'>':a>b,'<=':a<=b,'>=':a>=b,'==':a==b,'!=':a!=b}[c[1]]
    return None
def decide(S,env):
    """the value that a list of tests returns | 'next'"""
    for x in S:
        if x[0]=='ret': return x[1]
        if x[0]=='if':
            v=cval(x[1],env)
            if v is None: return None
            z=decide(flat([x[2] if v else x[3]]) if (v or x[3]) else [],env)
            if z!='next': return z
        elif x[0]!='decl': return None
    return 'next'
def catom(g,E,S,n,bad,und):
    d={x[2]:x for x in S if x[0]=='decl'}
    if 'u' not in d or 'w' not in d or 'flag' not in d: und.append('block of an atomic function'); return
    if d['u'][3] is None or not isinstance(E.term(d['u'][3]),int) or E.term(d['u'][3])<n: bad.append('the arguments of an atomic function do not fit in the array of the C source')
    w=d['w'][4]
    if not(w is not None and w[0]=='bin' and w[1]=='+' and (w[2]==('id','v') and E.term(w[3])=='R' or w[3]==('id','v') and E.term(w[2])=='R') or w is not None and w[0]=='un' and w[1]=='&' and E.node(w[2])=='R'): bad.append('the results of an atomic function are not stored at the node of the operator')
    set_={}; call=None; post=[]
    for x in S:
        if x[0]=='decl': continue
        if x[0]=='ex' and x[1][0]=='set':
            l,e=x[1][1:]
            if l[0]=='idx' and l[1]==('id','u'):
                if call is not None: bad.append('an argument of an atomic function is set after the call'); continue
                set_[E.term(l[2])]=E.node(e)
            elif l==('id','flag') and e[0]=='callf': call=e
            else: und.append('statement'); return
        else: post.append(x)
    if set_!={j:('arg',j) for j in range(n)}: bad.append('the arguments of an atomic function are not the nodes of the operator')
    if call is None: bad.append('an atomic function is not called'); return
    t=fname(E,call[1],'cppad_atomic_')
    if t is None or strindex(t,'atomic_name_vec_get')!=0: bad.append('the C source calls another atomic function')
    a=call[2]
    if len(a)!=6: bad.append('an atomic function is called with another number of arguments'); return
    p=E.m.get(a[0][1]) if a[0][0]=='id' else None
    if p is None or p[0]!='num' or p[1]!=('call','h_callid'): bad.append('an atomic function is called with another call_id')
    if E.term(a[1])!=n or a[2]!=('id','u'): bad.append('an atomic function is called with another argument vector')
    if E.term(a[3])!=NRES or a[4]!=('id','w'): bad.append('an atomic function is called with another result vector')
    if a[5]!=('id','compare_change'): bad.append('an atomic function does not get compare_change')
    for f in(0,1,2,3,7,-1):
        z=decide(post,{'flag':float(f)})
        if z is None: und.append('flag'); return
        if f==0 and z!='next': bad.append('a call of an atomic function that succeeds returns')
        if f and (z=='next' or z==('num',0.0)): bad.append('a failure of an atomic function (flag %d) is not returned'%f)
NRES=2
def oploop(fn):
    Ls=[l for l in Aff(fn,lambda I:None).loops if any(fn.callee(I)=='h_gop' and fn.blk[I['i']] in l.body for I in fn.calls())]
    if not Ls: raise core.Broken('the loop over the operators of a graph is not found')
    return max(Ls,key=lambda l:sum(len(fn.blocks[b]) for b in l.body))
def narg(g): return {'unary':1,'binary':2,'cexp':4,'comp':2,'print':2,'discrete':1}.get(kind(g))
def opwalk(fn,g,n,cls=TW,**k):
    w=cls(fn,limit=3000,visits=40); w.gop=GOP[g]; w.nres=NRES if kind(g)=='atom4' or kind(g)=='atom' else 0 if kind(g) in('comp','print') else 1; w.narg=n; w.table=FN['table']
    for a,b in k.items(): setattr(w,a,b)
    return w,w.run_loop(oploop(fn))
def resphi(fn,L,S,nres):
    """the counter of the nodes: the value at the top that grows by the number of results"""
    out=None
    for s in S:
        c={('phi',i) for i,x in s.env['next'].items() if x is not None and plus(x)==((('phi',i),),nres) and i in LIVE(fn,L)}
        out=c if out is None else out&c
    return out or set()
def LIVE(fn,L): return {I['i'] for I in fn.blocks[L.h] if I['op']=='phi' and 'i64' in str(I.get('t'))}
def fr(fn,s0,w,x):
    """1 + number of dynamic + number of variables + number of constants"""
    t,c=plus(x); return c==1 and sorted(nm(y[1]) if y[0]=='call' else str(y) for y in t)==['constant_vec_size','n_dynamic_ind_get','n_variable_ind_get']
def where(fn,s=None): return ir.where1(fn.blocks[0][0])
def cop(g,n,obs):
    fn=FN['csrc']; kd=kind(g); bad=[]; und=[]; L=oploop(fn); w,ps=opwalk(fn,g,n); full=[s for s in ps if s.env['exit']==L.h]
    name='%s, %d arguments'%(g,n)
    if kd in('atom','print'): return
    if not full: obs.append(('csrc_writer',name,'undecided','no path','')); return
    R=RESPHI['csrc']
    for s in full:
        t=Text(s.env.get(('S',('arg',0)),()))
        if t.has(): und.append('text'); continue
        unk=t.has(fn,L)
        if R is not None:
            x=s.env['next'].get(R[1])
            if x is None or plus(x)!=((R,),w.nres): bad.append('the node of the next result is not moved by the number of results')
        try: S=flat(CP(ctok(t.s)).all())
        except Bad as e: bad.append(str(e)); continue
        E=Env(t,R,n); b=[]
        cexpr(g,kd,E,S,n,b,und)
        if b and unk: und.append('a number of the text')
        else: bad+=b
    fin('csrc_writer',name,bad,und,fn,obs)
def fin(rule,name,bad,und,fn,obs):
    if bad: obs.append((rule,name,'viol','; '.join(sorted(set(bad))),where(fn)))
    elif und: obs.append((rule,name,'undecided','; '.join(sorted(set(und))),''))
    else: obs.append((rule,name,'ok','',''))
RESPHI={}
def findR(fn):
    L=oploop(fn); c=None
    for g,n in(('sin',1),('atom4',2)):
        w,ps=opwalk(fn,g,n); full=[s for s in ps if s.env['exit']==L.h]; k=resphi(fn,L,full,w.nres); c=k if c is None else c&k
    if c is None or len(c)!=1: return None
    return c.pop()
FN={}
# ---------------------------------------------------------------- frame of the C source
def tloop(fn,l,pure=tpure,cls=TW,limit=6000,nres=1):
    """one loop of a writer outside of the pass over the operators"""
    import c_rerec as C
    old=C.PW
    def f(fn,p,g,limit=0,visits=0):
        w=cls(fn,limit=limit,visits=visits); w.gop=GOP['sin']; w.narg=1; w.nres=nres; w.table=FN['table']; return w
    C.PW=f
    try: x=C.Lp(fn,l,limit=limit)
    finally: C.PW=old
    return x
def isz(e,n):
    """e is the size n of the graph"""
    if e[0]=='load': e=e[1]
    return (e[0]=='call' and nm(e[1])==n)
def pre(fn,e):
    """a size that is read before a loop"""
    if e[0]=='mem0' and str(e[1])[:1]=='%' and e[2]==0:
        st=[I['o'][0] for I in fn.ins.values() if I['op']=='store' and I['o'][1]==e[1]]
        if len(st)==1 and str(st[0])[:1]=='%': e=('pre',int(st[0][1:])) if fn.ins[int(st[0][1:])]['op'] in('call','invoke') else e
    if e[0]=='load': e=e[1]
    if e[0]=='pre': return nm(fn.callee(fn.ins[e[1]]) or '')
    if e[0]=='call': return nm(e[1])
    return None
def span(fn,x,n,what,bad,und):
    """the loop is over 0,...,n-1"""
    if x.iv is None or x.up is None: und.append('range of %s'%what); return
    if not x.ok or x.lo!=('c',0) or x.up[1]!=0: bad.append('not all of %s are written'%what); return
    k=pre(fn,x.up[0])
    if k is None: und.append('range of %s'%what)
    elif k!=n: bad.append('not all of %s are written'%what)
def whole(fn):
    L=oploop(fn); w=TW(fn,limit=40000,visits=2); w.gop=GOP['sin']; w.narg=1; w.nres=3; w.table=FN['table']
    w.hav={l.h for l in Aff(fn,lambda I:None).loops if l.h==L.h or not(l.body<L.body)}
    return w,w.run()
def split(t):
    """top level of a C source"""
    out=[]; i=0
    while i<len(t):
        j=i; d=0
        while j<len(t):
            if t[j] in '({': d+=1
            if t[j] in ')}':
                d-=1
                if t[j]=='}' and d==0: break
            if t[j]==';' and d==0: break
            j+=1
        out.append(t[i:j+1]); i=j+1
    return out
JIT=['size_t','const float_point_t *','size_t','float_point_t *','size_t *']
def params(t):
    """types and names of the parameters in ( ... )"""
    o=[];c=[]
    for x in t+[',']:
        if x==',':
            if c: o.append((' '.join(c[:-1]),c[-1]))
            c=[]
        else: c.append(x)
    return o
def afn(fn,e):
    t,c=plus(e); return c,sorted(pre(fn,y) or '?' for y in t)
FR=(1,['constant_vec_size','n_dynamic_ind_get','n_variable_ind_get'])
def cframe(obs):
    fn=FN['csrc']; bad=[]; und=[]; L=oploop(fn); w,ps=whole(fn)
    if not ps: und.append('no path')
    n=0; full=max([len(s.env.get(('S',('arg',0)),())) for s in ps] or [0])
    for s in ps:
        p=s.env.get(('S',('arg',0)),())
        t=Text(p)
        if t.has(): und.append('text'); continue
        try: top=split(ctok(t.s))
        except Bad as e: bad.append(str(e)); continue
        E=Env(t,None,0); E.fn=fn; jit=None; seen={}
        for x in top:
            if x[0]=='typedef':
                ty=[t.map.get(y,y) for y in x[1:-2]]
                ld_=next((v for c,v in s.conds.items() if c[0]=='call' and nm(c[1])=='operator==' and c[2]==('arg',2)),None)
                if x[-2]!='float_point_t' or ty not in([('str',('arg',2))],['long','double']) or ld_ is not None and (ty==['long','double'])!=ld_: bad.append('the type of the C source is not the one that is asked for')
                seen['type']=1; continue
            if '(' not in x: und.append('declaration'); continue
            k=x.index('('); d=0
            for j in range(k,len(x)):
                d+={'(':1,')':-1}.get(x[j],0)
                if not d: break
            name=E.name(('id',x[k-1])); ty=' '.join(x[:k-1]); ar=params(x[k+1:j])
            if x[0]=='extern':
                y=name if isinstance(name,tuple) else (name,None)
                if y[0]=='cppad_atomic_': ok=ty=='extern int' and [a for a,b in ar]==['size_t']+JIT and y[1][0]=='str' and isz(y[1][1],'atomic_name_vec_get')
                elif y[0]=='cppad_discrete_': ok=ty=='extern float_point_t' and [a for a,b in ar]==['float_point_t'] and y[1][0]=='str' and isz(y[1][1],'discrete_name_vec_get')
                else: und.append('external'); continue
                if not ok: bad.append('the external function %s is declared wrongly'%y[0])
                continue
            body=x[j+1:]
            if name in('azmul','sign'):
                seen[name]=1; B=flat(CP(body).all())
                if ty!='static float_point_t' or [a for a,b in ar]!=['float_point_t']*(2 if name=='azmul' else 1): bad.append('%s of the C source is declared wrongly'%name); continue
                a=[b for _,b in ar]
                for v,v2 in((v,u) for v in(-2.0,0.0,3.0,-0.0) for u in((5.0,0.0) if name=='azmul' else (0.0,))):
                    r=decide(B,{a[0]:v,a[-1]:v2} if name=='azmul' else {a[0]:v})
                    if r is None or r=='next': und.append(name); continue
                    if name=='azmul': ok=r==('num',0.0) if v==0 else r in(('bin','*',('id',a[0]),('id',a[1])),('bin','*',('id',a[1]),('id',a[0])))
                    else: ok=r==('num',float((v>0)-(v<0))) or v<0 and r==('un','-',('num',1.0))
                    if not ok: bad.append('%s of the C source has another value'%name)
                continue
            jit=(ty,name,ar,body)
        for k in('type','azmul','sign'):
            if k not in seen: bad.append('the C source does not have %s'%k)
        if jit is None: bad.append('the C source does not have the function'); continue
        ty,name,ar,body=jit
        if ty!='int' or not(isinstance(name,tuple) and name[0]=='cppad_jit_' and name[1][0]=='str' and isz(name[1][1],'function_name_get')): bad.append('the function of the C source is declared wrongly')
        if ar!=list(zip(JIT,['nu','u','ny','y','compare_change'])): bad.append('the parameters of the C source are not those of a JIT function'); continue
        try: B=flat(CP(body).all())
        except Bad as e: bad.append(str(e)); continue
        cbody(fn,s,E,B,bad,und); n+=1
    # the loops
    for l in Aff(fn,lambda I:None).loops:
        if l.body<L.body: continue
        try: x=tloop(fn,l)
        except OverflowError: und.append('loop'); continue
        tx=[s.env.get(('S',('arg',0)),()) for s in x.full]
        if l.h==L.h:
            span(fn,x,'operator_vec_size','the operators',bad,und); R=RESPHI['csrc']
            i=x.init.get(R[1]) if R else None
            if i is None: und.append('first result')
            elif afn(fn,i)!=FR: bad.append('the first result is not the node after the constants')
            itr(fn,l,x,bad,und); continue
        if any(fn.callee(I)=='h_gop' and fn.blk[I['i']] in l.body for I in fn.calls()):
            span(fn,x,'operator_vec_size','the operators',bad,und); itr(fn,l,x,bad,und); continue
        ks={nm(y[1][1]) if y[1][0]=='call' else nm(y[1][1][1]) for z in tx for y in z if isinstance(y,tuple) and len(y)>1 and y[0] in('str','num') and (y[1][0]=='call' or y[1][0]=='load' and y[1][1][0]=='call')}&set(GET)
        if len(ks)!=1: und.append('loop'); continue
        k=ks.pop(); span(fn,x,k.replace('_get','_size'),{'a':'the atomic functions','d':'the discrete functions','c':'the constants'}.get(k[0]) if k!='dependent_vec_get' else 'the dependent variables',bad,und)
        for z in tx:
            for y in z:
                c=y[1] if isinstance(y,tuple) and len(y)>1 else None
                if c is not None and c[0]=='load': c=c[1]
                if c is not None and c[0]=='call' and nm(c[1])==k and c[-1]!=x.iv: bad.append('an element of %s is written for another'%k[:-4])
    if not n: und.append('function')
    fin('csrc_writer','function, sizes, independent variables, constants and dependent variables',bad,und,fn,obs)
def itr(fn,l,x,bad,und):
    """the iterator is at the operator of the iteration"""
    for s in x.full:
        nmz=[nm(e[0]) for e in s.ev if isinstance(e[0],str) and e[0]!='store']; can={0,1,2}
        if x.iv is None: return
        for c,tt in lits(s):
            while c[0]=='not': c=c[1]; tt=not tt
            if c[0]=='cmp' and len(c)==4 and x.iv in c[2:4] and (c[2][0]=='c' or c[3][0]=='c'):
                for k in(0,1,2):
                    a,b=(k if y==x.iv else y[1] for y in c[2:4])
                    if {'eq':a==b,'ne':a!=b,'ult':a<b,'ule':a<=b,'ugt':a>b,'uge':a>=b}.get(c[1],tt)!=tt: can.discard(k)
        inc='operator++' in nmz
        if inc and 0 in can or not inc and can-{0}: bad.append('the iterator over the operators is not moved to the next operator')
def cbody(fn,s,E,B,bad,und):
    st=0; v=None
    def P(x,want):
        y=E.m.get(x[1]) if x[0]=='id' else None
        if y is None or y[0]!='num': return False
        return want(y[1])
    sizes={}
    def up(k,txt):
        nonlocal st
        if k<st: bad.append('%s of the C source come after statements that use them'%txt)
        st=max(st,k)
    got=set()
    for x in B:
        if x[0]=='decl':
            if x[2]=='v':
                v=x
                if not(x[3] and P(x[3],lambda e: vsize(fn,e))): bad.append('the array of nodes does not have one element for every node')
            continue
        if x[0]=='if':
            z=flat([x[2]]); r=rel(x[1])
            if len(z)!=1 or z[0][0]!='ret' or r is None: und.append('test'); continue
            a,b=r[1],r[2]
            if a[1] not in('nu','ny'): a,b=b,a
            ok=r[0]&{'lt','eq','gt'}=={'lt','gt'} and z[0][1]!=('num',0.0) and (P(b,lambda e: afn(fn,e)==(0,['n_dynamic_ind_get','n_variable_ind_get'])) if a==('id','nu') else a==('id','ny') and P(b,lambda e: afn(fn,e)==(0,['dependent_vec_size'])))
            if not ok: bad.append('the sizes of the arguments are not checked'); continue
            got.add(a[1]); up(0,'the tests'); continue
        if x[0]=='for':
            up(1,'the independent variables')
            i=('id','i')
            z=flat([x[4]]); want=[('ex',('set',('idx',('id','v'),('bin','+',('num',1.0),i)),('idx',('id','u'),i))),('ex',('set',('idx',('id','v'),('bin','+',i,('num',1.0))),('idx',('id','u'),i)))]
            if x[1]!=('set',i,('num',0.0)) or x[2]!=('bin','<',i,('id','nu')) or x[3]!=('pre','++',i) or len(z)!=1 or z[0] not in want: bad.append('the independent variables are not the nodes after the first one')
            got.add('ind'); continue
        if x[0]=='ret':
            if x[1]!=('num',0.0) or x is not B[-1]: bad.append('the C source does not return 0 at its end')
            got.add('ret'); continue
        if x[0]=='ex' and x[1][0]=='set':
            l,e=x[1][1:]
            if l==('idx',('id','v'),('num',0.0)):
                if e!=('id','NAN'): bad.append('node zero is not nan')
                up(1,'node zero'); got.add('nan'); continue
            if l[0]=='idx' and l[1]==('id','y'):
                up(3,'the dependent variables'); a=E.m.get(l[2][1]) if l[2][0]=='id' else None; b=E.m.get(e[2][1]) if e[0]=='idx' and e[1]==('id','v') and e[2][0]=='id' else None
                if not(a and b and a[0]==b[0]=='num' and dep(b[1],a[1])): bad.append('a dependent variable is not its node')
                continue
            if e[0]=='id' and e[1] in E.m and E.m[e[1]][0]=='num':
                up(1,'the constants'); y=E.m[e[1]]; c=y[1][1] if y[1][0]=='load' else y[1]
                if y[2]!='double': bad.append('a constant is not written with all its digits')
                k=csum(l[2]) if l[0]=='idx' and l[1]==('id','v') else []
                q=[z for z in k if z not in(('num',1.0),('id','nu'))]
                if len(k)!=3 or len(q)!=1 or ('num',1.0) not in k or ('id','nu') not in k or not(c[0]=='call' and nm(c[1])=='constant_vec_get' and P(q[0],lambda e: e==c[-1])): bad.append('a constant is not stored at its node')
                continue
            up(2,'the operators'); continue
        up(2,'the operators')
    for k in('nu','ny','ind','nan','ret'):
        if k not in got: bad.append('the C source does not have its %s part'%{'nu':'test of nu','ny':'test of ny','ind':'independent variables','nan':'node zero','ret':'return'}[k])
    if v is None: bad.append('the C source does not declare its nodes')
def dep(b,i):
    c=b[1] if b[0]=='load' else b
    return c[0]=='call' and nm(c[1])=='dependent_vec_get' and c[-1]==i
def vsize(fn,e):
    """the number of nodes: the count that starts after the constants and grows by the number of results"""
    t,c=plus(e)
    if afn(fn,e)==FR or afn(fn,e)==(FR[0]+3,FR[1]): return True
    if len(t)==1 and t[0][0]=='phi':
        for l in Aff(fn,lambda I:None).loops:
            if any(I['op']=='phi' and I['i']==t[0][1] for I in fn.blocks[l.h]):
                k=t[0][1]; xs=[(n,tloop(fn,l,nres=n)) for n in(1,3)]
                return all(afn(fn,x.init[k])==FR and all(plus(s.env['next'][k])==((('phi',k),),n) for s in x.full) for n,x in xs)
    return False
# ---------------------------------------------------------------- JSON
JTOK=re.compile(r"\s+|('[^']*'|[{}\[\]:,]|[\w\ue000-\uf8ff.+-]+)")
def jtok(t):
    i=0; out=[]
    while i<len(t.s):
        m=JTOK.match(t.s,i)
        if not m: raise Bad('the JSON text has an unexpected character %r'%t.s[i])
        x=m.group(1); i=m.end()
        if x is None: continue
        if x[0]=="'":
            z=[t.map.get(c,c) for c in x[1:-1]]; o=[]
            for y in z:
                if isinstance(y,str) and o and isinstance(o[-1],str): o[-1]+=y
                else: o.append(y)
            out.append(('str',o[0] if len(o)==1 else tuple(o)))
        elif x in '{}[]:,': out.append(x)
        elif len(x)==1 and x in t.map: out.append(t.map[x])
        elif x.isdigit(): out.append(('num',('c',int(x)),'int'))
        else: raise Bad('the JSON text has a wrong number')
    return out
def jspec(g,n):
    """the items of operator g: code, ... in the order that is documented"""
    kd=kind(g); nres=NRES if kd in('atom','atom4') else 0 if kd in('comp','print') else 1
    A=[('arg',j) for j in range(n)]
    if kd in('unary','binary','cexp'): return ['[','code']+sum([[',',a] for a in A],[])+[']']
    h=[]
    if kd in('atom','atom4','discrete'): h=[('name',0)]
    if kd=='print': h=[('name',0),('name',1)]
    if kd=='atom4': h.append('callid')
    h+=[('n',nres),('n',n)]
    o=['[','code']
    for x in h: o+=[',',x]
    o+=[',','[']
    for j,a in enumerate(A): o+=([','] if j else [])+[a]
    return o+[']',']']
TABLE_OF={'atom':'atomic_name_vec','atom4':'atomic_name_vec','discrete':'discrete_name_vec','print':'print_text_vec'}
def jop(g,n,obs):
    fn=FN['jsonw']; kd=kind(g); bad=[]; und=[]; L=oploop(fn); w,ps=opwalk(fn,g,n); full=[s for s in ps if s.env['exit']==L.h]; want=jspec(g,n); x=TLP['jsonw']
    if not full: obs.append(('json_writer','%s, %d arguments'%(g,n),'undecided','no path','')); return
    for s in full:
        t=Text(s.env.get(('S',('arg',0)),()))
        if t.has(): und.append('text'); continue
        try: k=jtok(t)
        except Bad as e: bad.append(str(e)); continue
        comma=False
        if k and k[-1]==',' : comma=True; k=k[:-1]
        if comma!=last(s,x): bad.append('the operators of the JSON text are not separated by commas')
        if len(k)!=len(want): bad.append('%s is written with another number of parts'%g); continue
        for y,z in zip(k,want):
            if isinstance(z,str) and z in '[],': ok=y==z
            elif not isinstance(y,tuple): ok=False
            elif z=='code':
                v=ld(y[1]) if y[0]=='num' else None; ok=v is not None and v[1]==('c',GOP[g])
            elif z=='callid': ok=y[0]=='num' and y[1]==('call','h_callid')
            elif z[0]=='n': ok=y[0]=='num' and (y[1]==('c',z[1]))
            elif z[0]=='name': ok=y[0]=='str' and isinstance(y[1],tuple) and y[1][0]=='str' and strindex(y[1][1],TABLE_OF[kd]+'_get')==z[1]
            else: ok=y[0]=='num' and jarg(y[1])==z[1]
            if not ok:
                (und if isinstance(y,tuple) and y[0]=='num' and unknown(y[1],fn,L) and jarg(y[1]) is None else bad).append('%s is written with a wrong %s'%(g,z if isinstance(z,str) else {'n':'number of results or of arguments','name':'name','arg':'argument'}[z[0]]))
    fin('json_writer','%s, %d arguments'%(g,n),bad,und,fn,obs)
def jarg(e):
    """argument j of the operator, or of its copy"""
    j=argn(e)
    if j is not None: return j
    v=ld(e)
    if v is not None and v[0][0]=='ptr' and v[0] in ARGCOPY and v[1][0]=='c': return v[1][1]
    return None
ARGCOPY=set()
def argcopies(fn,L):
    """vectors that are set to the arguments of the operator, and not changed, in an iteration"""
    w,ps=opwalk(fn,'pow',2); out=None
    for s in ps:
        if s.env['exit']!=L.h: continue
        c=set()
        for e in s.ev:
            if isinstance(e[0],str) and e[0]!='store' and nm(e[0])=='operator=' and 'vector' in e[0]:
                a=[x[1] if x[0]=='&' else x for x in e[1]]
                raw=('ptr',e[2]['o'][0],0) if isinstance(e[2]['o'][0],str) else None
                if a[-1]==('call','h_argn') or w.val(s,e[2]['o'][1])==('call','h_argn'): c.add(raw)
        out=c if out is None else out&c
    return out or set()
def last(s,x):
    """the conditions of a path say that the iteration is not the last one"""
    for c,t in lits(s):
        while c[0]=='not': c=c[1]; t=not t
        if c[0]=='cmp' and len(c)==4:
            pr,a,b=c[1:]
            if plus(b)==((x.iv,),1): a,b=b,a; pr={'ult':'ugt','ugt':'ult'}.get(pr,pr)
            if plus(a)==((x.iv,),1) and b==x.up[0]:
                if pr=='ult' : return t
                if pr=='eq': return not t
                if pr=='uge': return not t
    return None
def seqs(k):
    """JSON text as nested lists"""
    return k
def jframe(obs):
    fn=FN['jsonw']; bad=[]; und=[]; L=oploop(fn); w,ps=whole(fn); J=('arg',0)
    Q=lambda k: ('str',k)
    def num(f): return ('f',f)
    def cal_(n): return lambda e: isz(e,n)
    head=['{',Q('function_name'),':',('F',),',',Q('op_define_vec'),':','[',('D',),',','[','DEF',']',']',',',Q('n_dynamic_ind'),':',num(cal_('n_dynamic_ind_get')),',',Q('n_variable_ind'),':',num(cal_('n_variable_ind_get')),',',Q('constant_vec'),':','[',num(cal_('constant_vec_size')),',','[','CON',']',']',',',Q('op_usage_vec'),':','[',num(cal_('operator_vec_size')),',','[','OPS',']',']',',',Q('dependent_vec'),':','[',num(cal_('dependent_vec_size')),',','[','DEP',']',']','}']
    n=0
    for s in ps:
        t=Text(s.env.get(('S',J),()))
        if t.has(): und.append('text'); continue
        try: k=jtok(t)
        except Bad as e: bad.append(str(e)); continue
        i=0; n+=1
        for z in head:
            if z in('DEF','CON','OPS','DEP'):
                d=0
                while i<len(k) and not(k[i]==']' and d==0):
                    d+={'[':1,']':-1,'{':1,'}':-1}.get(k[i] if isinstance(k[i],str) else '',0); i+=1
                continue
            y=k[i] if i<len(k) else None; i+=1
            if isinstance(z,str): ok=y==z
            elif z[0]=='str': ok=y==z
            elif z[0]=='F': ok=isinstance(y,tuple) and y[0]=='str' and isinstance(y[1],tuple) and y[1][0]=='str' and isz(y[1][1],'function_name_get')
            elif z[0]=='D': ok=isinstance(y,tuple) and y[0]=='num'
            else: ok=isinstance(y,tuple) and y[0]=='num' and z[1](y[1])
            if not ok: bad.append('the JSON text has %s where %s is expected'%('a wrong number' if isinstance(z,tuple) and z[0]=='f' else 'something else',z if isinstance(z,str) else z[1] if z[0]=='str' else 'a value')); break
        else:
            if i!=len(k): bad.append('the JSON text goes on after its end')
    if not n: und.append('no path')
    if bad: fin('json_writer','parts',bad,und,fn,obs); return
    seen=set(); code=used=None
    for l in Aff(fn,lambda I:None).loops:
        if l.body<L.body: continue
        try: x=tloop(fn,l)
        except OverflowError: und.append('loop'); continue
        if l.h==L.h: span(fn,x,'operator_vec_size','the operators',bad,und); itr(fn,l,x,bad,und); seen.add('ops'); continue
        tx=[(s,Text(s.env.get(('S',J),()))) for s in x.full]
        if any(t.s.strip() for s,t in tx):
            try: tk=[(s,jtok(t)) for s,t in tx]
            except Bad as e: bad.append(str(e)); continue
            ks={pre_get(y) for s,k in tk for y in k if isinstance(y,tuple)}-{None}
            if ks&{'constant_vec_get','dependent_vec_get'}:
                k=ks.pop(); seen.add(k); span(fn,x,k.replace('_get','_size'),'the constants' if k[0]=='c' else 'the dependent variables',bad,und)
                for s,z in tk:
                    y=z[0]; c=y[1][1] if isinstance(y,tuple) and y[0]=='num' and y[1][0]=='load' else y[1] if isinstance(y,tuple) else None
                    if not(c is not None and c[0]=='call' and nm(c[1])==k and c[-1]==x.iv): bad.append('an element of %s is written wrongly'%k[:-4]); continue
                    if k[0]=='c' and y[2]!='double': bad.append('a constant is not written with all its digits')
                    if z[1:] not in([],[',']) or (z[1:]==[','])!=last(s,x): bad.append('the elements of %s are not separated by commas'%k[:-4])
            else:
                seen.add('def'); jdef(fn,x,tk,bad,und)
            continue
        st=[(s,e) for s in x.full for e in s.ev if e[0]=='store' and vec(e[1])]
        if any(e[2]==('c',34) for s,e in st) or any(vec(e[1])[0]==J for s,e in st):
            seen.add('quote'); jquote(fn,x,J,bad,und); continue
        for s,e in st:
            v=vec(e[1])
            if e[2]==('c',1) and pre_get(('num',v[1]))=='operator_vec_get':
                seen.add('used'); span(fn,x,'operator_vec_size','the operators that are used',bad,und)
                if not(v[1][0]=='call' and v[1][-1]==x.iv or v[1][0]=='load' and v[1][1][-1]==x.iv): bad.append('the operators that are used are not marked')
    for k in('constant_vec_get','dependent_vec_get','def','quote','used','ops'):
        if k not in seen: und.append('loop of %s'%k)
    fin('json_writer','parts',bad,und,fn,obs)
def pre_get(y):
    e=y[1] if y[0] in('num','str') else None
    if not isinstance(e,tuple): return None
    if e[0]=='str': e=e[1]
    if e[0]=='load': e=e[1]
    return nm(e[1]) if e[0]=='call' and nm(e[1]) in GET else None
def jdef(fn,x,tk,bad,und):
    """the definitions of the operators that are used"""
    for s,k in tk:
        u=[(c,t) for c,t in [(c[2],not t) if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',0) else (c,t) for c,t in lits(s)] if c[0]=='load' and vec(c[1]) and vec(c[1])[1]==x.iv]
        if not u: und.append('definitions'); continue
        if bool(k)!=u[0][1]: bad.append('an operator that is used is not defined'); continue
        if not k: continue
        if k[-1]==',': k=k[:-1]
        want=['{',('str','op_code'),':','CODE',',',('str','name'),':','NAME']
        hasn=any(y==('str','n_arg') for y in k)
        if hasn: want+=[',',('str','n_arg'),':','NARG']
        want+=['}']
        if len(k)!=len(want): bad.append('the definition of an operator is written wrongly'); continue
        for y,z in zip(k,want):
            if z=='CODE': v=ld(y[1]) if isinstance(y,tuple) and y[0]=='num' else None; ok=v is not None and v[1]==x.iv
            elif z=='NAME': ok=isinstance(y,tuple) and y[0]=='str' and y[1]==('namei',x.iv)
            elif z=='NARG': ok=isinstance(y,tuple) and y[0]=='num' and isn(y[1],x.iv)
            else: ok=y==z
            if not ok: bad.append('the definition of an operator has a wrong %s'%(z if isinstance(z,str) else z[1]))
        for c,t in lits(s):
            e=c
            while e[0]=='not': e=e[1]; t=not t
            if e[0]=='cmp' and e[1] in('eq','ugt') and isn(e[2],x.iv) and e[3]==('c',0):
                if hasn!=(not t if e[1]=='eq' else t): bad.append('the number of arguments is not written when it is fixed')
def isn(e,i): return e[0]=='load' and e[1][0]=='idx' and 'op_enum2fixed_n_arg' in str(e[1][1]) and e[1][3][0][0]==i
def jquote(fn,x,J,bad,und):
    if x.iv is None or x.lo!=('c',0) or not x.ok: und.append('quotes'); return
    for s in x.full:
        st=[e for e in s.ev if e[0]=='store' and vec(e[1]) and vec(e[1])[0]==J]
        q=[(c,t) for c,t in lits(s) if c[0]=='cmp' and c[1]=='eq' and ('c',39) in c[2:4] and any(ld(y) and ld(y)[1]==x.iv for y in c[2:4])]
        if not q: und.append('quotes'); continue
        if q[0][1]!=bool(st) or st and (vec(st[-1][1])[1]!=x.iv or st[-1][2]!=('c',34)): bad.append('the quotes of the JSON text are not changed to double quotes')
# ---------------------------------------------------------------- JSON parser
class JW(TW):
    """reads are numbered; a token is the last thing that was read"""
    def pieces(w,s,v,I): return (('tok',len(s.env.get('reads',()))),) if v==('tokref',) else TW.pieces(w,s,v,I)
    def step(w,s,I):
        if I['op'] in('call','invoke'):
            q=w.fn.callee(I) or ''; n=nm(q); me='%%%d'%I['i']
            if 'json_lexer::' in q:
                o=[w.val(s,x) for x in I.get('o',[])]; r=s.env.get('reads',())
                if n=='check_next_char': s.env['reads']=r+(('c',chr(o[1][1]&255) if o[1][0]=='c' else '?'),); return
                if n=='check_next_string':
                    p=w.pieces(s,o[1],I); s.env['reads']=r+(('any',) if p in((),('',)) else ('s',p[0]) if len(p)==1 and isinstance(p[0],str) else ('?',),); return
                if n in('next_non_neg_int','next_float'): s.env['reads']=r+(('int',) if 'int' in n else ('float',),); return
                if n=='token':
                    if I.get('sret') is None: s.env[me]=('tokref',)
                    else: s.env[('S',o[0])]=(('tok',len(r)),)
                    return
                if n in('token2size_t','token2double'): s.env[me]=('tok',len(r),n[5:]); return
                s.env[me]=('u',me); return
            if n in('atomic_name_vec_find','discrete_name_vec_find','print_text_vec_find') or n.endswith('name_vec_push_back') or n in('print_text_vec_push_back','function_name_set') :
                o=[w.val(s,x) for x in I['o']]; p=w.pieces(s,o[1],I)
                k=p[0] if len(p)==1 else ('?',)
                if n.endswith('find'): s.env[me]=('find',n[:-5],k)
                else: s.ev.append((n,(o[0],k),I,me))
                return
            if n=='operator[]' and 'map<' in q and 'graph_op_enum' in q:
                p=w.pieces(s,w.val(s,I['o'][1]),I); s.env[me]=('enumof',p[0] if len(p)==1 else ('?',)); return
        TW.step(w,s,I)
    def load(w,s,p,t,I): return p if p[0]=='enumof' else TW.load(w,s,p,t,I)
    def enumvec(w,s,p,I):
        v=vec(p); k=v[0]==w.evec
        if k: w.codes.add(v[1])
        return k
    evec=None; codes=None
def evec(fn):
    for I in fn.calls():
        q=fn.callee(I) or ''
        if 'graph_op_enum' in q and 'vector' in q and nm(q)=='push_back': return ('ptr',I['o'][0],0)
    return None
def ploop(fn):
    Ls=[l for l in Aff(fn,lambda I:None).loops if any(nm(fn.callee(I) or '')=='operator_vec_push_back' and fn.blk[I['i']] in l.body for I in fn.calls())]
    if not Ls: raise core.Broken('the loop of the parser over the operators is not found')
    return max(Ls,key=lambda l:sum(len(fn.blocks[b]) for b in l.body))
def pspec(g,n):
    o=[]
    for x in jspec(g,n): o.append(('c',x) if isinstance(x,str) and x in '[],' else ('any',) if isinstance(x,tuple) and x[0]=='name' else ('int',))
    return o
def pop(g,n,obs):
    fn=FN['jsonp']; kd=kind(g); bad=[]; und=[]; L=ploop(fn); name='%s, %d arguments'%(g,n)
    w=JW(fn,limit=6000,visits=max(9,n+3)); w.gop=GOP[g]; w.narg=n; w.nres=1; w.table=FN['table']; w.evec=evec(fn); w.codes=set()
    ps=[s for s in w.run_loop(L) if s.env['exit']==L.h]; spec=pspec(g,n); js=jspec(g,n); x=TLP['jsonp']; seen=0
    if w.evec is None: und.append('codes')
    pos={}
    for i,z in enumerate(js):
        if not isinstance(z,str) or z in('code','callid'): pos[z if isinstance(z,str) else z[:1] if z[0]=='n' and z[0:1] not in pos and False else z]=i+1
    ni=[i+1 for i,z in enumerate(js) if isinstance(z,tuple) and z[0]=='n']
    tok=lambda k,t='2size_t': ('tok',k,t)
    for c in w.codes:
        if c[0]!='tok': und.append('code')
        elif c[1]!=pos['code']: bad.append('the operator is not the one of the code that is read')
    for s in ps:
        r=list(s.env.get('reads',()))
        if ('?',) in r: und.append('read'); continue
        # arguments on this path
        if kd not in('unary','binary','cexp'):
            if r[:ni[1]]!=spec[:ni[1]]: bad.append('%s is read with other parts than it is written'%g); seen+=1; continue
            m=argsof(s,tok(ni[1]))
            if m is None: und.append('number of arguments'); continue
            if m!=n: continue
        seen+=1
        comma=False
        if len(r)==len(spec)+1 and r[-1]==('c',','): comma=True; r=r[:-1]
        if last(s,x)!=comma and last(s,x) is not None: bad.append('the operators of the JSON text are not separated by commas')
        if r!=spec: bad.append('%s is read with other parts than it is written'%g); continue
        # what is stored
        want=[]
        def idx(j): return ('find',TABLE_OF[kd],('tok',pos[('name',j)]))
        if kd in('atom','atom4'): want=[idx(0)]+([tok(pos['callid'])] if kd=='atom4' else [])+[tok(ni[0]),tok(ni[1])]
        elif kd=='discrete': want=[idx(0)]
        elif kd=='print': want=[idx(0),idx(1)]
        elif kd=='sum': want=[tok(ni[1])]
        want+=[tok(pos[('arg',j)]) for j in range(n)]
        got=[deamp(e[1][1],s) for e in s.ev if isinstance(e[0],str) and nm(e[0])=='operator_arg_push_back']
        if os.environ.get('VF_G') and got!=want: print(got,want)
        if got!=want:
            def stale(v):
                x=ld(v)
                if x is None or x[0][0]!='ptr' or x[1][0]!='c': return False
                m=[nm(e[0]) for e in s.ev if isinstance(e[0],str) and e[0]!='store' and len(e)>2 and isinstance(e[2],dict) and e[2].get('o') and ('ptr',e[2]['o'][0],0)==x[0]]
                return 'push_back' in m and not set(m)&{'resize','clear','operator=','swap'}
            if any(stale(v) for v in got): bad.append('%s is stored with the name of an earlier operator'%g)
            elif any(v[0] not in('tok','find','c') for v in got): und.append('argument')
            else: bad.append('%s is stored with other arguments than are read'%g)
        ov=[deamp(e[1][1],s) for e in s.ev if isinstance(e[0],str) and nm(e[0])=='operator_vec_push_back']
        if ov!=[('c',GOP[g])]: bad.append('%s is not stored as an operator'%g)
        pb=[e for e in s.ev if e[0] in('atomic_name_vec_push_back','discrete_name_vec_push_back','print_text_vec_push_back')]
        for j in range(2 if kd=='print' else 1 if kd in TABLE_OF else 0):
            f=idx(j); new=None
            for c,t in lits(s):
                while c[0]=='not': c=c[1]; t=not t
                if c[0]=='cmp' and c[1]=='eq' and f in c[2:4] and any(y[0]=='call' and nm(y[1])==TABLE_OF[kd]+'_size' for y in c[2:4]): new=t
            if new is None: und.append('new name'); continue
            p=[e for e in pb if e[0]==TABLE_OF[kd]+'_push_back' and e[1][1]==('tok',pos[('name',j)])]
            if bool(p)!=new: bad.append('a name that is not in the graph yet is not added' if new else 'a name of the graph is added again')
        if any(e[1][1] not in [('tok',pos[('name',j)]) for j in range(2) if ('name',j) in pos] for e in pb): bad.append('another name is added to the graph')
    if not seen: und.append('no path')
    fin('json_parser',name,bad,und,fn,obs)
def deamp(v,s): return v[1] if v[0]=='&' else v
def argsof(s,N):
    """how many iterations j < N the path has"""
    k=-1; end=None
    for c,t in lits(s):
        while c[0]=='not': c=c[1]; t=not t
        if c[0]=='cmp' and len(c)==4 and N in c[2:4]:
            pr,a,b=c[1:]
            if a==N: a,b=b,a; pr={'ult':'ugt','ugt':'ult','uge':'ule','ule':'uge'}.get(pr,pr)
            if a[0]!='c': continue
            if pr in('ult',) : 
                if not t: end=a[1] if end is None else min(end,a[1])
    return end
PSEQ=[('s','function_name'),':','any',',',('s','op_define_vec'),':','[','int',',','[','DEF',']',']',',',('s','n_dynamic_ind'),':','int',',',('s','n_variable_ind'),':','int',',',('s','constant_vec'),':','[','int',',','[','CON',']',']',',',('s','op_usage_vec'),':','[','int',',','[','OPS',']',']',',',('s','dependent_vec'),':','[','int',',','[','DEP',']',']','}']
def pframe(obs):
    fn=FN['jsonp']; bad=[]; und=[]; L=ploop(fn); loops=[l for l in Aff(fn,lambda I:None).loops if l.h==L.h or not(l.body<L.body)]
    w=JW(fn,limit=20000,visits=2); w.gop=GOP['sin']; w.narg=1; w.nres=1; w.table=FN['table']; w.evec=evec(fn); w.codes=set(); w.hav={l.h for l in loops}
    cut=None
    # paths without an iteration of the loops
    class Z(JW):
        def truth(w,s,c): return JW.truth(w,s,c)
    ps=[s for s in w.run()]; n=0
    want=[('c',x) if isinstance(x,str) and len(x)==1 else (x,) if isinstance(x,str) and x in('any','int') else x for x in PSEQ if x not in('DEF','CON','OPS','DEP')]
    short=min([len(s.env.get('reads',())) for s in ps] or [0])
    P={}
    for s in ps:
        r=list(s.env.get('reads',()))
        if len(r)!=short: continue
        n+=1
        if ('?',) in r: und.append('read'); continue
        if r!=want: bad.append('the parts of the JSON text are not read in their order'); continue
        at={k:i+1 for i,k in enumerate(want)}
        def after(k): return want.index(('s',k))+1
        for f,k in(('n_dynamic_ind_set','n_dynamic_ind'),('n_variable_ind_set','n_variable_ind')):
            e=[e for e in s.ev if nm(str(e[0]))==f]
            if len(e)!=1 or deamp(e[0][1][1],s)!=('tok',after(k)+2,'2size_t'): bad.append('%s of the graph is not the one that is read'%k)
        e=[e for e in s.ev if e[0]=='function_name_set']
        if len(e)!=1 or e[0][1][1]!=('tok',after('function_name')+2): bad.append('the name of the function is not the one that is read')
        z=[nm(str(e[0])) for e in s.ev]
        if 'initialize' not in z or any(y.endswith('_set') for y in z[:z.index('initialize')]): bad.append('the graph is not empty at the start')
    if not n: und.append('no path')
    for l in loops:
        ploop1(fn,l,L,bad,und)
    fin('json_parser','parts',bad,und,fn,obs)
def ploop1(fn,l,L,bad,und):
    try: x=tloop(fn,l,cls=JWG)
    except OverflowError: und.append('loop'); return
    what='the operators' if l.h==L.h else None; R=None
    for s in x.full:
        r=list(s.env.get('reads',()))
        ev=[nm(str(e[0])) for e in s.ev]
        if l.h==L.h: continue
        comma=False
        if r and r[-1]==('c',','): comma=True; r=r[:-1]
        la=last(s,x) if x.iv is not None and x.up else None
        if la is None: und.append('comma')
        elif la!=comma: bad.append('the elements of the JSON text are not separated by commas')
        if 'constant_vec_push_back' in ev:
            what='the constants'; e=s.ev[ev.index('constant_vec_push_back')]
            if r!=[('float',)] or deamp(e[1][1],s)!=('tok',1,'2double'): bad.append('a constant of the graph is not the one that is read')
        elif 'dependent_vec_push_back' in ev:
            what='the dependent variables'; e=s.ev[ev.index('dependent_vec_push_back')]
            if r not in([('float',)],[('int',)]) or deamp(e[1][1],s)!=('tok',1,'2size_t'): bad.append('a dependent variable of the graph is not the one that is read')
        else:
            what='the definitions'
            h=[('c','{'),('s','op_code'),('c',':'),('int',),('c',','),('s','name'),('c',':'),('any',)]
            z=[('c',','),('s','n_arg'),('c',':'),('int',)]
            has=None
            for c,t in lits(s):
                while c[0]=='not': c=c[1]; t=not t
                if c[0]=='cmp' and c[1] in('ugt','eq') and c[3]==('c',0) and c[2][0]=='load' and 'op_enum2fixed_n_arg' in str(c[2]): has=t if c[1]=='ugt' else not t
            if has is None: und.append('number of arguments'); continue
            if r!=h+(z if has else [])+[('c','}')]: bad.append('the definition of an operator is not read as it is written')
            e=[e for e in s.ev if nm(str(e[0]))=='push_back']
            v=deamp(e[0][1][1],s) if len(e)==1 else None
            if v is None or not(v[0]=='load' and v[1]==('enumof',('tok',8)) or v==('enumof',('tok',8))): bad.append('the code of an operator is not the one of the name that is read')
    if x.iv is None or x.up is None: und.append('range'); return
    if not x.ok or x.lo!=('c',0) or x.up[1]!=0: bad.append('not all of %s are read'%what)
class JWG(JW):
    def __init__(w,fn,**k): JW.__init__(w,fn,**k); w.evec=None; w.codes=set()
# ---------------------------------------------------------------- table of the operators
def table(): 
    g=[v for k,v in FN['info'].mod.globals.items() if 'op_info_vec' in k and 'elts' in v]
    if len(g)!=1: raise core.Broken('the table of the graph operators is not found')
    G=FN['info'].mod.globals
    return [(int(a[1:]),(G[b[2:]].get('str') or '').split('\0')[0],int(c[1:])) for a,b,c in g[0]['elts']]
def tableop(obs):
    fn=FN['info']; T=FN['table']; bad=[]; und=[]; names={}
    for i,(c,n,a) in enumerate(T):
        if c in names: bad.append('operator %s is in the table twice'%n)
        names[c]=n
        w=next((g for g,k in GOP.items() if k==c),None)
        if w is None: und.append('code'); continue
        if n!=w: bad.append('operator %s has the name %s'%(w,n))
        k={'unary':1,'binary':2,'cexp':4}.get(kind(w),0)
        if a!=k: bad.append('operator %s has %d fixed arguments'%(w,a))
    if set(names)!=set(GOP.values()): bad.append('an operator is not in the table')
    ls=Aff(fn,lambda I:None).loops
    if len(ls)!=1: und.append('loop')
    else:
        x=tloop(fn,ls[0],cls=PlainW)
        if x.iv is None: und.append('range')
        elif not x.ok or x.lo!=('c',0) or x.up!=(('c',len(T)),0): bad.append('not all of the table is used')
        for s in x.full:
            e={('name' if 'op_enum2name' in str(e[1]) else 'n' if 'fixed_n_arg' in str(e[1]) else '?'):e for e in s.ev if e[0]=='store'}
            def fld(v,o): return v[0]=='load' and v[1][0]=='idx' and 'op_info_vec' in str(v[1][1]) and v[1][2]==o and v[1][3][0][0]==x.iv
            for k,o in(('name',8),('n',16)):
                if k not in e: bad.append('the table of the operators is not used'); continue
                a=e[k][1]
                if a[0]!='idx' or not fld(e[k][2],o) or not fld(a[3][0][0],0): bad.append('the table of the operators is stored wrongly')
            if not any(nm(str(e[0]))=='insert' for e in s.ev): bad.append('a name is not in the map from names to operators')
    fin('cpp_graph_op','table of the operators',bad,und,fn,obs)
class PlainW(TW):
    def load(w,s,p,t,I):
        if p[0]=='idx': return ('load',p,0)
        return TW.load(w,s,p,t,I)
def wrapop(k,obs):
    """to_csrc, to_json and from_json: one graph goes through both steps"""
    fn=FN[k]; bad=[]; und=[]; steps={'tocsrc':('to_graph','csrc_writer'),'tojson':('to_graph','json_writer'),'fromjson':('json_parser','from_graph')}[k]
    w=FW(fn,PU,gl(fn),readonly=lambda q: True,limit=500); w.deref=False
    ps=w.run()
    if not ps: und.append('no path')
    for s in ps:
        ev=[(nm(e[0]),e) for e in s.ev if isinstance(e[0],str) and nm(e[0]) in steps]
        if [n for n,e in ev]!=list(steps): bad.append('%s is not %s and then %s'%(k,*steps)); continue
        a,b=ev[0][1][1],ev[1][1][1]
        if k=='fromjson': ok=a[0]==('arg',1) and b[0]==('arg',0) and a[1]==b[1]
        else: ok=a[0]==('arg',0) and b[1]==a[1] and (k=='tojson' or b[0]==('arg',1) and b[2]==('arg',2))
        if not ok: bad.append('%s does not use the graph of the function'%k)
        if k=='tojson':
            c=[e for e in s.ev if isinstance(e[0],str) and nm(e[0])=='operator=' and e[1][0]==('arg',1)]
            if c and c[-1][1][1]!=b[0]: und.append('result')
    fin('ADFun',k,bad,und,fn,obs)
TLP={}
OPT=c_fun.A+['--opaque',c_graph.OPQ+'|cpp_graph_itr::(?!operator\\*)|^std::|CppAD::to_string|json_lexer::','--redirect','cpp_graph_itr::operator\\*=>h_gval','--globals']
def load():
    if FN: return FN
    c_graph.load()
    bc=core.compile_bc('h_csrc.cpp')
    for k in('csrc','jsonw','jsonp','info'): FN[k]=ir.Mod(core.irx(bc,OPT+['--entry','^g_%s$'%k])['module']).fns['g_'+k]
    for k in('tocsrc','tojson','fromjson'): FN[k]=ir.Mod(core.irx(bc,c_fun.A+['--opaque','to_graph|from_graph|csrc_writer|json_writer|json_parser|^std::|cpp_graph::','--globals','--entry','^g_%s$'%k])['module']).fns['g_'+k]
    FN['table']=table()
    d=[('','',0)]*(1+max(c for c,_,_ in FN['table']))
    for t in FN['table']: d[t[0]]=t
    FN['table']=d
    CTAB.update({c:n for c,n,_ in FN['table']})
    RESPHI['csrc']=findR(FN['csrc'])
    TLP['jsonw']=tloop(FN['jsonw'],oploop(FN['jsonw'])); TLP['jsonp']=tloop(FN['jsonp'],ploop(FN['jsonp']),cls=JWG)
    ARGCOPY.update(argcopies(FN['jsonw'],oploop(FN['jsonw'])))
    return FN
def jobs():
    load(); J=[('wrap','tocsrc'),('wrap','tojson'),('wrap','fromjson'),('table',),('cframe',),('jframe',),('pframe',)]
    for g in sorted(GOP):
        for n in ([narg(g)] if narg(g) else [1,2,3,7]):
            J+=[('cop',g,n),('jop',g,n),('pop',g,n)]
    return J
def job(a):
    load(); obs=[]
    try: {'wrap':wrapop,'table':tableop,'cframe':cframe,'jframe':jframe,'pframe':pframe,'cop':cop,'jop':jop,'pop':pop}[a[0]](*a[1:],obs)
    except(KeyError,IndexError,TypeError,ValueError,AttributeError,RecursionError,OverflowError,Bad) as e:
        if os.environ.get('VF_DEBUG'): raise
        obs.append((a[0],str(a[1:]),'undecided','%s %s'%(type(e).__name__,e),''))
    return obs
def p20(prop,tier,t0):
    rep=core.Report(prop); load()
    for o in core.pmap(job,jobs()): rep.merge(o)
    return core.finish(rep,tier,t0,'the text written, and the parts read, on every path for one operator, parsed and compared with the meaning of the operator',{'csrc_writer':20,'json_writer':20,'json_parser':20})
