"""Iterator protocol of every sweep, per operator (typestate over the paths of one
iteration of the operator loop), and the skip flags."""
import core,ir,sweepx,c_taylor,c_csum,c_skip,pathx
from aff import Poly
ENTRY='^e_(forward_0|any_0q|any_1q|any_3q|forward_dir|reverse|for_jac|rev_jac|for_hes|rev_hes)$'
VARLEN=('CSumOp','CSkipOp')
FLAG={'e_forward_0':3,'e_any_0q':3,'e_any_1q':3,'e_any_3q':3,'e_forward_dir':3,'e_reverse':6}
def back(n): return n.startswith('e_rev')
MOVE={'operator++','operator--'}; CORR={'correct_before_increment','h_arg_corrected'}
def isit(e): return len(e)==4 and ('const_sequential_iterator::' in e[0] or e[0].startswith('HItr::') or e[0] in('h_arg','h_var','h_arg_corrected'))
def iters(op,n,fn,obs):
    inst='%s in %s'%(op,n[2:]); rv=back(n)
    def ob(rule,st,txt='',I=None): obs.append((rule,inst,st,txt,ir.where1(I) if I else ''))
    aff=sweepx.make_aff(fn); L=sweepx.op_loop(fn,aff)
    last=op==('BeginOp' if rv else 'EndOp')
    if L is None:
        # no iteration at all: the sweep stops at the first operator it sees
        if last: ob('iterate','ok')
        else: ob('iterate','viol','the sweep stops at this operator')
        return
    W=pathx.Walk(fn,lambda q:q.startswith('vb_') or q.endswith('::is_element') or q.endswith('::par_ptr') or q.endswith('::end'),limit=20000)
    try: ps=W.run_loop(L)
    except OverflowError as e: ob('iterate','undecided',str(e)); return
    bad=None; skipbad=None; nskip=0
    mv='operator--' if rv else 'operator++'
    for p in ps:
        ev=[(pathx.strip(e[0]),e[2],e) for e in p.ev if isit(e)]
        out=p.env.get('exit')!=L.h
        if out and not last: bad=bad or ('the sweep can stop at this operator',None)
        moves=[i for i,e in enumerate(ev) if e[0] in MOVE]
        if any(ev[i][0]!=mv for i in moves): bad=bad or ('moves the iterator the wrong way',ev[moves[0]][1])
        if last:
            continue
        if not moves: bad=bad or ('an iteration that does not move the iterator',None); continue
        # cyclic: between two moves exactly one correction for operators of variable length
        if op!='AFunOp':
            seg=[]
            for a,i in enumerate(moves):
                j=moves[a+1] if a+1<len(moves) else len(ev)
                part=ev[i+1:j]+(ev[:moves[0]] if a+1==len(moves) else [])
                c=[e for e in part if e[0] in CORR]
                want=1 if op in VARLEN else 0
                if len(c)!=want: bad=bad or ('%d corrections of the iterator between two steps, not %d'%(len(c),want),part[0][1] if part else ev[i][1])
        # arguments and result index read after the last move
        tail=[e[0] for e in ev[moves[-1]+1:]]+[e[0] for e in ev[:moves[0]]]
        if 'h_arg' not in tail or 'h_var' not in tail: bad=bad or ('operator information is not read after the step to the operator',ev[moves[-1]][1])
        if n in FLAG:
            r=skippath(p,ev,moves,FLAG[n],op,rv)
            if r=='skip': nskip+=1
            elif r: skipbad=skipbad or (r,ev[moves[-1]][1])
            if len(moves)>1: nskip+=1
    ob('iterate','viol' if bad else 'ok',bad[0] if bad else '',bad[1] if bad else None)
    if n in FLAG and not last:
        if op=='AFunOp' and not skipbad: skipbad=afun(fn,aff,L,rv)
        if not skipbad and not nskip: skipbad=('flagged operators are not skipped',None)
        ob('skip-flag','viol' if skipbad else 'ok',skipbad[0] if skipbad else '',skipbad[1] if skipbad else None)
def skippath(p,ev,moves,a,op,rv):
    """the operator that is dispatched has its flag tested after the last step"""
    # op_index() names the operator reached by the last step before the call
    seg={}; k=0
    for e in ev:
        if e[0] in MOVE: k+=1
        elif e[0]=='op_index': seg[e[2][3]]=k
    d={}
    for c,v in p.conds.items():
        if c[0]=='cmp' and c[1]=='eq' and c[3]==('c',0) and c[2][0]=='load' and c[2][1][0]=='idx' and c[2][1][1]==('arg',a):
            x=c[2][1][3]
            if c[2][1][2] or len(x)!=1 or x[0][1]!=1 or x[0][0] not in seg: return 'a skip flag that is not the one of the present operator is tested'
            d[seg[x[0][0]]]=v
    n=len(moves)
    if n not in d: return 'the operator is executed without looking at its skip flag'
    if d[n] is not True: return 'the operator is executed although its skip flag may be set'
    for i in range(1,n):
        if d.get(i) is True: return 'an operator that is not flagged is skipped'
    return None
def afun(fn,aff,L,rv):
    """skipping an atomic call steps over all of it: n + m + 1 further steps (back to its other end)"""
    inner=[l for l in aff.loops if l is not L and l.body<L.body and any(fn.callee(I) and pathx.strip(fn.callee(I)) in MOVE for b in l.body for I in fn.blocks[b] if I['op'] in('call','invoke'))]
    if not inner: return ('skipping an atomic call does not step over its arguments and results',None)
    # innermost loop that moves the iterator
    inner.sort(key=lambda l:len(l.body)); l=inner[0]
    if l.iv is None: return None
    n=l.hi-l.lo+Poly.const(1)
    mv=[I for b in l.body for I in fn.blocks[b] if I['op'] in('call','invoke') and pathx.strip(fn.callee(I) or '') in MOVE]
    want=c_csum.sl(2)+c_csum.sl(3)+Poly.const(1)
    got=Poly()
    import addx
    F=addx.Facts(fn,aff,None,isel=lambda r:False)
    got=F.poly(n)
    if len(mv)!=1: return ('steps %d times per element of a skipped atomic call'%len(mv),mv[0])
    if set(got.atoms())-{('sl',2),('sl',3)}: return None if any(a[0] in('%','ld') for a in got.atoms()) else ('steps over %s operators of a skipped atomic call'%got,mv[0])
    if got!=want: return ('steps over %s operators of a skipped atomic call, not %s'%(got,want),mv[0])
    return None
def ends(n,fn,obs):
    """forward sweeps start at the first operator, reverse ones at the last"""
    if n=='e_reverse': return
    cs=[pathx.strip(fn.callee(I) or '') for I in fn.calls() if (fn.callee(I) or '').startswith('CppAD::local::player<')]
    want,other=('end','begin') if back(n) else ('begin','end')
    ok=want in cs and other not in cs
    obs.append(('start',n[2:],'ok' if ok else 'viol','' if ok else 'the sweep does not start at the %s of the operation sequence'%('end' if back(n) else 'beginning'),''))
def job(a):
    bc,ops,oc=a; nm={oc[o]:o for o in ops}; out=[]
    d=core.irx(bc,c_taylor.IRX_ARGS+['--entry',ENTRY,'--spec','h_op='+','.join(str(oc[o]) for o in ops)])
    for k,m in d['spec'].items():
        op=nm[int(k)]
        for n,f in ir.Mod(m).fns.items():
            if n.startswith('e_'):
                iters(op,n,f,out)
                if op=='LogOp': ends(n,f,out)
    return out
def p07(prop,tier,t0):
    bc=core.compile_bc('h_sweep.cpp'); oc=c_taylor.opcodes(bc); ops=sorted(o for o in oc if o!='NumberOp')
    rep=core.Report(prop)
    for o in core.pmap(job,[(bc,c,oc) for c in c_taylor.chunks(ops,core.NCPU*2)]): rep.merge(o)
    rep.extra=dict(operators=ops,sweeps=['forward_0','forward_any from 0, 1 and 3','forward_dir','reverse','for_jac','rev_jac','for_hes','rev_hes'])
    return core.finish(rep,tier,t0,'typestate of the operation sequence iterator along every path of one iteration of the operator loop of every sweep, specialised to each operator: one step, one correction exactly for operators of variable length, operator information read after the step, the end test, and the skip flag of the present operator tested before it is executed.',{'iterate':500,'skip-flag':250,'start':7})
def p06(prop,tier,t0):
    bc=core.compile_bc('h_sweep.cpp'); oc=c_taylor.opcodes(bc); rep=core.Report(prop); obs=[]
    nums(bc)
    d=core.irx(bc,c_taylor.IRX_ARGS+['--entry','^e_(forward_0|any_0q|any_1q|any_3q|forward_dir|reverse)$','--spec','h_op=%d'%oc['CSkipOp']])
    for k,m in d['spec'].items():
        for n,f in ir.Mod(m).fns.items():
            if n in('e_forward_0','e_any_0q'): c_skip.skip(f,n,obs); c_skip.init(f,n,obs)
            elif n in('e_any_1q','e_any_3q','e_forward_dir','e_reverse'): c_skip.noskip(f,n,obs)
    for o in core.pmap(job,[(bc,c,oc) for c in c_taylor.chunks(sorted(o for o in oc if o!='NumberOp'),core.NCPU*2)]): obs+=[x for x in o if x[0]=='skip-flag']
    rep.merge(obs)
    return core.finish(rep,tier,t0,'conditional constant propagation of the zero order sweeps for every comparison, relation of the operands, kind of operand: the skip flags set must be those of the list for the side not taken, and only when both operands are constants; flags are cleared before a zero order sweep and left alone by the others; every sweep tests the flag of the operator it is about to execute.',{'skip-choice':200,'skip-reset':2,'skip-kept':3,'skip-flag':250})
def nums(bc):
    d=core.irx(bc,['--layout','CompareOp','--opaque','.','--entry','^h_op_info$'])
    for k,v in d['layouts'].items():
        if k.endswith('CompareOp'): c_skip.NUM.update(dict(v['members']))
    if not c_skip.NUM: raise core.Broken('CompareOp enumeration not found')
def compare_job(a):
    bc,ops,oc=a; nm={oc[o]:o for o in ops}; obs=[]
    d=core.irx(bc,c_taylor.IRX_ARGS+['--entry','^e_(forward_0|any_0q|any_1q|any_3q)$','--spec','h_op='+','.join(str(oc[o]) for o in ops)])
    for k,m in d['spec'].items():
        for n,f in ir.Mod(m).fns.items():
            if n.startswith('e_'): c_skip.compare(f,n,nm[int(k)],obs)
    return obs
def compare_obs():
    bc=core.compile_bc('h_sweep.cpp'); oc=c_taylor.opcodes(bc); nums(bc); obs=[]
    for o in core.pmap(compare_job,[(bc,c,oc) for c in c_taylor.chunks(c_skip.compare_ops(oc),core.NCPU)]): obs+=o
    return obs
