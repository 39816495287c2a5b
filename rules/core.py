"""Common driver: compiles a harness against /repo's current headers, runs irx,
collects obligations, writes evidence and the verdict."""
import json,os,subprocess,sys,tempfile,time,shutil,atexit,hashlib
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VERIF_REPO','/repo')
CLANG='/usr/bin/clang++-18'
IRX=os.path.join(VERIF,'build','irx')
NCPU=max(1,min(8,os.cpu_count() or 1))
INC=['-I'+REPO+'/include','-isystem','/opt/vp/include','-isystem','/usr/include/eigen3','-isystem','/usr/include/coin','-DHAVE_CSTDDEF']
class Broken(Exception):
    """the analysis itself cannot decide anything (never a verdict)"""

_tmp=None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp=tempfile.mkdtemp(prefix='vf.'); atexit.register(lambda d=_tmp,p=os.getpid(): os.getpid()==p and shutil.rmtree(d,ignore_errors=True))
    return _tmp
def ensure_irx():
    if not os.path.exists(IRX) or os.path.getmtime(IRX)<os.path.getmtime(os.path.join(VERIF,'tools','irx.cpp')):
        r=subprocess.run([os.path.join(VERIF,'tools','build.sh')],capture_output=True,text=True)
        if r.returncode: raise Broken('irx does not build: '+r.stderr[-2000:])
def compile_bc(src, flags=(), std='c++17', ndebug=True, opt='-O1', name=None):
    """source file (relative to harness/ or absolute) -> bitcode"""
    ensure_irx()
    p=src if os.path.isabs(src) else os.path.join(VERIF,'harness',src)
    out=os.path.join(tmp(),(name or os.path.basename(src)+hashlib.md5(repr((src,flags,std,ndebug,opt)).encode()).hexdigest()[:6])+'.bc')
    if os.path.exists(out): return out
    cmd=[CLANG,'-std='+std,'-g',opt,'-Xclang','-disable-llvm-passes','-Wno-everything','-emit-llvm','-c',p,'-o',out,'-I'+os.path.join(VERIF,'harness')]+INC+(['-DNDEBUG'] if ndebug else [])+list(flags)
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise Broken('harness %s does not compile against the current tree:\n%s'%(src,r.stderr[:3000]))
    return out
def irx(bcs, args, out=None):
    o=os.path.join(tmp(),'o%d_%s.json'%(os.getpid(),hashlib.md5(repr((bcs,args,time.time())).encode()).hexdigest()[:10]))
    r=subprocess.run([IRX]+(bcs if isinstance(bcs,list) else [bcs])+['-inline-threshold=100000']+args+['--out',o],capture_output=True,text=True)
    if r.returncode: raise Broken('irx failed: '+r.stderr[-1500:])
    with open(o) as f: d=json.load(f)
    os.unlink(o)
    return d
def pmap(f, xs, n=None):
    """parallel map over processes"""
    xs=list(xs)
    if len(xs)<=1: return [f(x) for x in xs]
    with ProcessPoolExecutor(min(n or NCPU,len(xs))) as ex: return list(ex.map(f,xs,chunksize=1))

class Report:
    """obligations: list of (rule, instance, status, text) with status ok|viol|undecided"""
    def __init__(self,prop): self.prop=prop; self.ob=[]; self.notes=[]; self.extra={}
    def add(self,rule,inst,status,text='',where=''):
        self.ob.append((rule,inst,status,text,where))
    def ok(self,rule,inst,text=''): self.add(rule,inst,'ok',text)
    def viol(self,rule,inst,text,where=''): self.add(rule,inst,'viol',text,where)
    def und(self,rule,inst,text=''): self.add(rule,inst,'undecided',text)
    def check(self,cond,rule,inst,text='',where=''): self.add(rule,inst,'ok' if cond else 'viol',text,where); return cond
    def merge(self,obs): self.ob+=[tuple(x) for x in obs]
    def count(self,rule=None,status=None): return sum(1 for o in self.ob if (rule is None or o[0]==rule) and (status is None or o[2]==status))

def known(prop):
    """known-findings file: lines  property=<id> key=<rule|instance> text"""
    r={}
    p=os.path.join(VERIF,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith('finding: property=%s '%prop):
                k=l.split('key=',1)[1]; k,_,t=k.partition(' :: ')
                r[k.strip()]=t
    return r
def finish(rep, tier, t0, explanation, minimum, assumptions=(), level='other'):
    """minimum: {rule: least number of decided instances}"""
    prop=rep.prop
    for rule,n in minimum.items():
        got=sum(1 for o in rep.ob if o[0]==rule and o[2]!='undecided')
        if got<n: 
            if not any(o[2]=='viol' for o in rep.ob):
                und=[o for o in rep.ob if o[0]==rule and o[2]=='undecided'][:5]
                raise Broken('rule %s decided only %d instances (expected at least %d) %s'%(rule,got,n,und))
    kn=known(prop); new=[]; seen=[]
    for o in rep.ob:
        if o[2]!='viol': continue
        k=o[0]+'|'+o[1]
        if k in kn: seen.append((k,kn[k]))
        else: new.append(o)
    for k,t in sorted(set(seen)): print('KNOWN-FINDING: property=%s %s (%s)'%(prop,t,k))
    rules={}
    for o in rep.ob: 
        d=rules.setdefault(o[0],dict(ok=0,viol=0,undecided=0)); d[o[2]]+=1
    cov=dict(explanation=explanation, rules=rules,
        obligations=len(rep.ob), discharged=sum(1 for o in rep.ob if o[2]=='ok'),
        undecided=[list(o[:2])+[o[3][:200]] for o in rep.ob if o[2]=='undecided'][:60],
        instances=sorted({o[0]+': '+o[1] for o in rep.ob})[:400])
    cov.update(rep.extra)
    ev=dict(property=prop,tier=tier,seed=int(os.environ.get('VERIF_SEED','1') or 1),level=level,coverage=cov,
        assumptions=list(assumptions),wall_s=round(time.time()-t0,2),violations=len(new))
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    with open(os.path.join(VERIF,'evidence',prop+'.json'),'w') as f: json.dump(ev,f,indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations, %.1f s'%(prop,len(rep.ob),cov['discharged'],sum(r['undecided'] for r in rules.values()),len(new),time.time()-t0))
    for r in sorted(rules): print('  %-28s %s'%(r,rules[r]))
    if os.environ.get('VF_SHOW'):
        for o in rep.ob:
            if o[2]=='undecided': print('  UNDECIDED',o[0],o[1],o[3])
    if new:
        rp=os.path.join(VERIF,'evidence','replay_%s.txt'%prop)
        with open(rp,'w') as f:
            for o in new: f.write('rule %s\ninstance %s\nlocation %s\n%s\n\n'%(o[0],o[1],o[4],o[3]))
        for o in new[:20]: print('  VIOLATED %s [%s] %s %s'%(o[0],o[1],o[4],o[3][:600]))
        print('VIOLATION property=%s replay=%s'%(prop,rp))
        return 1
    return 0
