#!/usr/bin/env python3-vt
"""Decides one property: compiles the specification TUs against /repo's current headers, verifies every function under contract
for the property, runs the concrete (bounded) companion, writes evidence/<id>.json."""
import sys, os, json, time, subprocess, tempfile, shutil, multiprocessing as mp, traceback, re, hashlib
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VP_REPO','/repo')
sys.path.insert(0,VERIF+'/verifier'); sys.path.insert(0,VERIF+'/tools')
from props import PROPS
import importlib
CLANG='/usr/bin/clang++-18'
INC=['-I',REPO+'/include','-I',VERIF+'/shim']
def compile_tu(tu,d):
    ll='%s/%s.ll'%(d,tu); lay='%s/%s.lay'%(d,tu)
    with open(lay,'w') as f:
        p=subprocess.run([CLANG,'-std=c++17','-O0','-S','-emit-llvm','-fno-discard-value-names','-fno-access-control','-w']+INC+
            ['-Xclang','-fdump-record-layouts','%s/spec/%s.cpp'%(VERIF,tu),'-o',ll],stdout=f,stderr=subprocess.PIPE,text=True)
    if p.returncode: return None,p.stderr
    return (ll,lay),''
_units=None
def run_unit(k):
    u,opts=_units[k]
    t0=time.time()
    try:
        import engine
        eng,r=u.run(dict(opts))
        r['obs']=eng.oblist; r['nq']=eng.nq; r['tsolve']=eng.tsolve
        r['icpt']=sorted(eng.used_icpt); r['contracts']=sorted(eng.used_contracts); r['inlined']=sorted(eng.inlined); r['assumed']=dict(getattr(eng.spec,'assumed',{}))
    except Exception as e:
        r=dict(fn=u.name,status='error',why='%s: %s'%(type(e).__name__,str(e)[:300])+' '+traceback.format_exc()[-600:],obs=[],nq=0,tsolve=0,icpt=[],contracts=[],inlined=[],assumed={},obligations=0,proved=0,returns=0,throws=0)
    r['unit']=u.name; r['time']=round(time.time()-t0,2)
    return r
def child(k,q):
    q.put((k,run_unit(k)))
def run_units(units,opts,budget,jobs=8):
    """each unit in a forked process of its own, with a time limit"""
    global _units
    _units=[(u,opts) for u in units]
    order=sorted(range(len(units)),key=lambda k:-units[k].cost)
    res={}; running={}; q=mp.SimpleQueue(); t0=time.time()
    ctx=mp.get_context('fork')
    pend=list(order)
    def dead(k,why):
        res[k]=dict(fn=units[k].name,unit=units[k].name,status='unsupported',why=why,obs=[],nq=0,tsolve=0,icpt=[],contracts=[],inlined=[],assumed={},obligations=0,proved=0,returns=0,throws=0,time=0)
    while pend or running:
        while pend and len(running)<jobs:
            k=pend.pop(0); r,w=mp.Pipe(False)
            p=ctx.Process(target=lambda k=k,w=w: w.send(run_unit(k))); p.start(); w.close(); running[k]=(p,r,time.time())
        for k,(p,r,ts) in list(running.items()):
            if r.poll(0):
                try: res[k]=r.recv()
                except EOFError: dead(k,'verifier process died')
                p.join(); del running[k]
            elif not p.is_alive(): dead(k,'verifier process died'); p.join(); del running[k]
            elif time.time()-t0>budget: p.kill(); p.join(); dead(k,'time budget exhausted'); del running[k]
        if time.time()-t0>budget:
            for k in pend: dead(k,'time budget exhausted')
            pend=[]
        time.sleep(0.02)
    return [res[k] for k in range(len(units))]
def run_harness(h,d,tier,seed):
    """returns dict(ok, build, out, cmd)"""
    exe='%s/%s'%(d,h['name'])
    cc=h.get('cc','g++')
    cmd=[cc,'-std=c++17','-O1','-g','-w']+h.get('flags',[])+['-I',VERIF+'/harness']+INC+['%s/harness/%s'%(VERIF,h['src']),'-o',exe]+h.get('libs',[])
    r=dict(name=h['name'],build=True)
    p=subprocess.run(cmd,capture_output=True,text=True)
    if p.returncode: r.update(build=False,ok=None,out=p.stderr[-3000:]); return r
    runs=h['thorough'] if tier=='thorough' and 'thorough' in h else h['quick']
    runs=[[str(x) for x in a] for a in (runs if runs and isinstance(runs[0],list) else [runs])]
    env=dict(os.environ,ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=99',UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98',TSAN_OPTIONS='exitcode=97:halt_on_error=1',MALLOC_PERTURB_='85')
    to=h.get('timeout',200 if tier!='thorough' else 700)
    ps=[]
    for a in runs:
        o=tempfile.TemporaryFile(dir=d)
        ps.append((a,o,subprocess.Popen([exe,str(seed)]+a,stdout=o,stderr=subprocess.STDOUT,env=env,start_new_session=True)))
    t0=time.time(); r['ok']=True; r['out']=''; r['cmd']=[]; r['summary']=[]
    for a,o,p in ps:
        try: rc=p.wait(max(1,to-(time.time()-t0)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid,9); p.wait(); rc=-9
        o.seek(0); out=o.read().decode(errors='replace')
        c='%s %s %s'%(h['name'],seed,' '.join(a))
        if rc==-9 and 'FAIL' not in out:
            # a hang: report as failing only if the harness says so itself (it has its own watchdog); here undecided
            r['summary'].append(c+': time limit'); r['timeout']=True; continue
        if rc!=0:
            r['ok']=False; r['out']+='$ %s\nexit %s\n%s\n'%(c,rc,out[-6000:]); r['cmd'].append(c)
        else: r['summary'].append(c+': '+(out.strip().splitlines() or [''])[-1][:300])
    return r
def main():
    prop=sys.argv[1]; tier=(sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time(); P=PROPS[prop]
    os.makedirs(VERIF+'/evidence',exist_ok=True); os.makedirs(VERIF+'/build/replay',exist_ok=True)
    d=tempfile.mkdtemp(prefix='vchk_')
    try: rc=decide(prop,P,tier,seed,d,t0)
    finally: shutil.rmtree(d,ignore_errors=True)
    sys.exit(rc)
def decide(prop,P,tier,seed,d,t0):
    from concurrent.futures import ThreadPoolExecutor
    notes=[]; results=[]; undecided=[]
    ex=ThreadPoolExecutor(8)
    # 'module@tu': the contracts of the module on another translation unit (the implementation without variadic templates)
    mods=[(importlib.import_module(m.split('@')[0]),m.split('@')[1] if '@' in m else None) for m in P['specs']+(P.get('thorough_specs',[]) if tier=='thorough' else [])]
    mods=[(m,tu or m.TU) for m,tu in mods]
    tus=sorted({tu for m,tu in mods})
    tuf={tu:ex.submit(compile_tu,tu,d) for tu in tus}
    # harnesses are compiled and run while the proofs run
    units=[]
    from spec_base import Ctx
    cxs={}
    for tu in tus:
        r,err=tuf[tu].result()
        if r is None: undecided.append('specification TU %s does not compile against the current tree: %s'%(tu,err.strip().splitlines()[0][:300] if err.strip() else '')); continue
        try: cxs[tu]=Ctx(tu,*r)
        except Exception as e: undecided.append('TU %s cannot be read: %s'%(tu,e))
    for m,tu in mods:
        if tu not in cxs: continue
        try:
            us=[u for u in m.units(cxs[tu]) if prop in u.props]
            if tu!=m.TU:
                for u in us: u.name+=' (C++03)'
            units+=us
        except Exception as e: undecided.append('%s: %s: %s'%(m.__name__,type(e).__name__,e))
    budget=P.get('budget',240) if tier!='thorough' else 780
    # fork the provers first (before threads of the harness exist the pool is idle), then harnesses
    hf=[ex.submit(run_harness,h,d,tier,seed) for h in P.get('harness',[])]
    opts=dict(tags={prop,'safe'},**({'ob_ms':60000} if tier=='thorough' else {}))
    results=run_units(units,opts,budget)
    hres=[f.result() for f in hf]
    failed=[]; nob=npr=0
    for r in results:
        obs=[o for o in r['obs'] if not o['tag'] or prop in o['tag'] or 'safe' in o['tag'] or 'loop' in o['tag']]
        r['nob']=len(obs); r['npr']=sum(1 for o in obs if o['ok'])
        nob+=r['nob']; npr+=r['npr']
        bad=[o for o in obs if not o['ok']]
        if bad: failed.append((r,bad))
        elif r['status'] in('unsupported','error','vacuous'): undecided.append('%s: %s %s'%(r['unit'],r['status'],r['why'][:400]))
    hbad=[h for h in hres if h.get('ok') is False]
    # a function with a contract is gone (merged into its callers, say): the contracts do not describe the structure of this tree any more
    gone=sorted({r['unit'] for r in results if r['status']=='error' and 'no function' in r.get('why','')})
    if gone and failed and not hbad:
        for r,bad in failed: undecided.append('%s: %d obligations not discharged while the contract of %s has no function: %s'%(r['unit'],len(bad),', '.join(gone)[:120],'; '.join(sorted({o['name'] for o in bad}))[:250]))
        failed=[]
    for h in hres:
        if not h['build']: undecided.append('companion %s does not compile: %s'%(h['name'],' | '.join([l for l in h['out'].splitlines() if 'error' in l][:2])[:400]))
        if h.get('timeout'): undecided.append('companion %s hit its time limit'%h['name'])
    viol=0; rc=0
    if failed or hbad:
        path='%s/build/replay/%s.txt'%(VERIF,prop)
        with open(path,'w') as f:
            f.write('property %s\n'%prop)
            for h in hbad:
                f.write('\n== failing input on the real code (seed %d)\n%s\n'%(seed,h['out']))
                f.write('reproduce: compile harness/%s against the tree and run the command above\n'%h['name'])
            for r,bad in failed:
                f.write('\n== function %s: %d of %d obligations not discharged\n'%(r['fn'],len(bad),r['nob']))
                for o in bad: f.write('FAILED OBLIGATION: %s\n   in %s at %s\n   solver: %s\n   path: %s\n   formula: %s\n'%(o['name'],o['fn'],o['where'],o['why'],o['trace'],o['form']))
        viol=len(failed)+len(hbad); rc=1
        for r,bad in failed: print('FAILED %s: %s'%(r['unit'],'; '.join(sorted({o['name'] for o in bad}))[:500]))
        for h in hbad: print('\n'.join([l for l in h['out'].splitlines() if 'FAIL' in l or 'ERROR' in l or 'runtime error' in l or 'STOP' in l][:3]))
        print('VIOLATION property=%s replay=%s%s'%(prop,path,'' if hbad else ' no-failing-input-found'))
    ev=dict(property=prop,tier='thorough' if tier=='thorough' else 'quick',seed=seed,level=P['level'],wall_s=round(time.time()-t0,2),violations=viol)
    dem_under=[dict(function=r['fn'],unit=r['unit'],status=r['status'],obligations=r['nob'],discharged=r['npr'],paths_returning=r.get('returns'),paths_throwing=r.get('throws'),solver_queries=r['nq'],solver_s=round(r['tsolve'],2),why=r.get('why','')[:300]) for r in results]
    inl=sorted({x for r in results for x in r['inlined']}); icpt=sorted({x for r in results for x in r['icpt']}); con=sorted({x for r in results for x in r['contracts']})
    ass={}
    for r in results: ass.update(r['assumed'])
    cov=dict(obligations=nob,discharged=npr,checker_cmd='./check %s %s'%(prop,tier),
        trusted_base=['clang 18 front end (C++ to LLVM IR)','verifier/engine.py (obligation generator)','z3 '+z3ver()]+P.get('trusted',[]),
        functions_under_contract=dem_under,functions_inlined_into_these=len(inl),inlined=inl,contracts_used_at_calls=con,external_functions_with_assumed_contracts=icpt,
        solver='z3 (python API) '+z3ver(),solver_s=round(sum(r['tsolve'] for r in results),2),solver_queries=sum(r['nq'] for r in results),
        undecided=undecided,bounded_companion=[dict(name=h['name'],label='bounded, not counted as proved',built=h['build'],passed=h.get('ok'),runs=h.get('summary',[])) for h in hres],
        explanation=P.get('explain',''))
    if P['level']!='proof':
        cov['explanation']=P.get('explain','') or P['note']
    ev['coverage']=cov
    ev['assumptions']=P.get('assumptions',[])+['%s: %s'%kv for kv in sorted(ass.items())]
    with open('%s/evidence/%s.json'%(VERIF,prop),'w') as f: json.dump(ev,f,indent=1)
    kf=VERIF+'/known_findings.txt'
    if os.path.exists(kf):
        for l in open(kf):
            if l.startswith('KNOWN-FINDING: property=%s '%prop): print(l.strip())
    for u in undecided: print('UNDECIDED',u[:300])
    print('%s: %d functions, %d/%d obligations discharged, companion %s, %.1f s'%(prop,len(results),npr,nob,[(h['name'],h.get('ok')) for h in hres],time.time()-t0))
    return rc
def z3ver():
    import z3; return z3.get_version_string()
if __name__=='__main__': main()
