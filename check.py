#!/usr/bin/env python3-vt
"""Check one property: deductive verification of the contracts in contracts/<id>.py over the LLVM IR that clang
produces from /repo's current sources, plus the executable form of the same contracts (native/<id>.cc), which replays
and searches counterexamples on the real code and stands in, labelled bounded, where a function is out of reach."""
import sys, os, json, time, subprocess, argparse, importlib, tempfile, shutil, signal, pickle, traceback
VERIF = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, VERIF); os.chdir(VERIF)
T0 = time.time()
def resources():
    import resource
    lim = int(os.environ.get('VERIF_TASK_MEM', 6 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
class Native:
    """Build and run the executable contracts."""
    def __init__(s, src, scratch, seed, flags=()):
        s.flags = list(flags); s.src, s.scratch, s.seed = src, scratch, seed; s.exe = os.path.join(scratch, os.path.basename(src)[:-3]); s.err = None; s.out = ''
    def build(s):
        from vc.build import REPO, INC
        cmd = ['g++','-std=c++20','-O1','-fsanitize=address','-DHAVE_CONFIG_H','-w','-I'+VERIF+'/native','-I'+VERIF+'/cfg','-I'+REPO,'-I/opt/dune/prefix/include',
               s.src, '/opt/dune/prefix/lib/libdunecommon.a'] + s.flags + ['-o',s.exe]
        try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=420)
        except subprocess.TimeoutExpired: s.err = 'native build timeout'; return False
        if r.returncode: s.err = r.stderr[-3000:]; return False
        return True
    def run(s, args, timeout):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096')
        prog = os.path.join(s.scratch, 'progress')
        try: r = subprocess.run([s.exe,'--seed',str(s.seed),'--progress',prog]+args, capture_output=True, text=True, errors='replace', timeout=timeout, env=env, cwd=s.scratch)
        except subprocess.TimeoutExpired: return None
        return r
    def search(s, budget, timeout):
        """-> ('pass', info) | ('fail', dict) | ('none', why)"""
        r = s.run(['--budget', str(budget)], timeout)
        return s.classify(r)
    def classify(s, r):
        if r is None: return ('none', 'native run exceeded its time')
        kv = {}
        for l in r.stdout.split('\n'):
            for k in ('FAILCASE','FAILMSG','FAILDESC'):
                if l.startswith(k+' '): kv[k] = l[len(k)+1:]
        if r.returncode == 0:
            info = dict(total=0, distinct=0, sections={}, samples=[])
            for l in r.stdout.split('\n'):
                w = l.split()
                if l.startswith('TOTAL '): info['total'] = int(w[1]); info['distinct'] = int(w[3])
                elif l.startswith('SECTION ') and len(w) >= 3 and w[-1].isdigit(): info['sections'][' '.join(w[1:-1])] = int(w[-1])
                elif l.startswith('SAMPLE '): info['samples'].append(l[7:])
            return ('pass', info)
        if 'FAILCASE' in kv: return ('fail', dict(case=kv['FAILCASE'], msg=kv.get('FAILMSG',''), desc=kv.get('FAILDESC','')))
        if r.returncode == -9: return ('none', 'native run killed')
        case = ''
        try: case = open(os.path.join(s.scratch,'progress')).read().split('\n')[0].strip()
        except OSError: pass
        if not case or case == 'done': return ('none', 'native run ended with %d' % r.returncode)
        why = 'does not return (CPU limit)' if 'HANG' in r.stdout else 'crash / memory error, exit %d: %s' % (r.returncode, ' | '.join(x for x in r.stderr.split('\n') if 'ERROR' in x or 'SUMMARY' in x or 'Assertion' in x)[:600])
        return ('fail', dict(case=case, msg=why, desc=''))
def task_main(w, drv, defs, ci, modname, tier, scratch, patience=1):
    """One contract, in its own process."""
    res = dict(status='error', why='', obls=[], stat={})
    try:
        resources()
        from vc import llvm, engine, solve
        solve.PATIENCE = patience
        mod = importlib.import_module('contracts.'+modname)
        con = mod.contracts(tier)[w][2][ci]
        m = llvm.Module(irpath(scratch, drv, defs))
        eng = engine.Engine(m, con)
        if tier == 'thorough':
            eng.o['timeout'] = max(eng.o['timeout'], 20000); solve.CROSS = True
        t = time.time()
        try:
            obls = eng.run()
            res['obls'] = [(o.name, o.kind, o.result, o.backend, o.path) for o in obls]
            bad = [o for o in obls if o.result != 'proved']
            vac = eng.vacuity()
            res['status'] = 'failed' if bad else 'vacuous' if vac else 'proved'
            res['why'] = vac or ''
            if bad: res['bad'] = [dict(name=o.name, kind=o.kind, result=o.result, detail=str(o.backend)[:3000], path=o.path) for o in bad[:20]]
            res['failed_cands'] = [str(x)[:300] for x in eng.failed_cands[:10]]
        except engine.Unsupported as e: res['status'] = 'undecided'; res['why'] = 'outside the verified subset: %s' % e
        except (AttributeError, KeyError, TypeError, ValueError, IndexError, AssertionError, RecursionError, ZeroDivisionError) as e:
            res['status'] = 'undecided'; res['why'] = 'outside the verified subset: %s' % (traceback.format_exc().strip().split('\n')[-3:],)
        res['notes'] = sorted(eng.notes); res['funcs'] = sorted(eng.funcs_seen); res['backedges'] = eng.backedges
        res['loops'] = len([i for i in eng.infos.values() if not i.unroll]); res['exits'] = len(eng.exits); res['stat'] = dict(solve.STAT); res['t'] = time.time()-t
    except MemoryError: res['status'] = 'undecided'; res['why'] = 'memory limit'
    except Exception as e:
        res['status'] = 'undecided'; res['why'] = 'checker error: ' + traceback.format_exc()[-1500:]
    return res
def irpath(scratch, drv, defs):
    import hashlib
    return os.path.join(scratch, os.path.basename(drv).split('.')[0] + '_' + hashlib.md5(' '.join(defs).encode()).hexdigest()[:8] + '.ll')
class Pool:
    """fork-per-task with individual deadlines"""
    def __init__(s, n): s.n = n
    def run(s, jobs, deadline, tlimit, key, stop=None):
        out = {}; live = {}; jobs = list(jobs)
        while jobs or live:
            if stop and stop(): deadline = min(deadline, time.time()+20); stop = None      # a concrete counterexample is there already
            while jobs and len(live) < s.n and time.time() < deadline:
                j, fn, args = jobs.pop(0); path = os.path.join(key, 'res%s' % abs(hash(j)))
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0,0)
                        r = fn(*args)
                        with open(path+'.t','wb') as f: pickle.dump(r, f)
                        os.rename(path+'.t', path)
                    except BaseException as e:
                        sys.stderr.write(traceback.format_exc())
                    finally: os._exit(0)
                live[pid] = (j, time.time(), path)
            if jobs and time.time() >= deadline:
                for j,_,_ in jobs: out[j] = dict(status='undecided', why='time budget of the check', obls=[], stat={})
                jobs = []
            for pid in list(live):
                p, st = os.waitpid(pid, os.WNOHANG)
                if p == 0: continue
                j, t, path = live.pop(pid)
                try: out[j] = pickle.load(open(path,'rb')); os.unlink(path)
                except Exception: out[j] = dict(status='undecided', why='worker died (memory)', obls=[], stat={})
            time.sleep(0.02)
            now = time.time()
            for pid,(j,t,path) in list(live.items()):
                if now-t > tlimit or now > deadline:
                    try: os.killpg(pid, signal.SIGKILL)
                    except OSError: 
                        try: os.kill(pid, signal.SIGKILL)
                        except OSError: pass
                    try: os.waitpid(pid,0)
                    except ChildProcessError: pass
                    del live[pid]; out[j] = dict(status='undecided', why='time limit', obls=[], stat={})
        return out
def compile_task(drv, defs, scratch):
    from vc import build
    try: build.compile_ir(os.path.join(VERIF,drv), defs, scratch); return ('ok','')
    except build.BuildError as e: return ('fail', str(e))
def findings(pid):
    out = []
    p = os.path.join(VERIF,'KNOWN_FINDINGS.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('kind') == 'finding': out.append(d)
    return out
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER','quick'))
    ap.add_argument('--replay'); ap.add_argument('--filter', default=''); ap.add_argument('--no-native', action='store_true'); ap.add_argument('--no-proof', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args(); pid = a.property; tier = a.tier if a.tier in ('quick','thorough') else 'quick'; seed = int(os.environ.get('VERIF_SEED','1') or 1)
    os.makedirs(os.path.join(VERIF,'scratch'), exist_ok=True); os.makedirs(os.path.join(VERIF,'evidence'), exist_ok=True); os.makedirs(os.path.join(VERIF,'replays'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid+'-', dir=os.path.join(VERIF,'scratch'))
    try: return run(a, pid, tier, seed, scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)
def run(a, pid, tier, seed, scratch):
    mod = importlib.import_module('contracts.'+pid.lower())
    natsrc = os.path.join(VERIF, 'native', pid.lower()+'.cc'); nat = None
    if os.path.exists(natsrc) and not a.no_native: nat = Native(natsrc, os.path.join(scratch,'nat'), seed, getattr(mod,'NATIVE_FLAGS',())); os.makedirs(nat.scratch)
    if a.replay:
        d = json.load(open(a.replay)); nat.seed = d.get('seed', seed)
        if not d.get('case'): print('replay file carries no input; obligations:', json.dumps(d.get('obligations'), indent=1)); return 0
        if not nat.build(): print(nat.err); return 2
        r = nat.run(['--case', d['case']], 300); print(r.stdout if r else 'timeout', (r.stderr[-3000:] if r else '')); return 1 if (r is None or r.returncode) else 0
    quick = tier == 'quick'; TOT = 640 if quick else 3300
    nb = getattr(mod,'NATIVE_BUDGET',(25,600))[0 if quick else 1]
    npid = 0; npath = os.path.join(scratch,'native.res')
    if nat:
        npid = os.fork()
        if npid == 0:
            try:
                r = nat.search(nb, nb*4+240) if nat.build() else ('none', 'native harness does not compile: ' + (nat.err or '')[-1500:])
                with open(npath+'.t','wb') as f: pickle.dump(r, f)
                os.rename(npath+'.t', npath)
            except BaseException: sys.stderr.write(traceback.format_exc())
            finally: os._exit(0)
    def native_failed():
        if not npid or not os.path.exists(npath): return False
        try: return pickle.load(open(npath,'rb'))[0] == 'fail'
        except Exception: return False
    # ---- deductive part
    units = [] if a.no_proof else mod.contracts(tier); pool = Pool(7 if nat else 8); results = {}; comp = {}
    deadline = T0 + TOT - 120
    if units:
        seen = {}
        for w,(drv,defs,cs) in enumerate(units): seen.setdefault((drv,tuple(defs)), None)
        comp = pool.run([(k, compile_task, (k[0], list(k[1]), scratch)) for k in seen], deadline, 400, scratch)
        jobs = []; cost = getattr(mod,'COST',{})
        for w,(drv,defs,cs) in enumerate(units):
            for ci,c in enumerate(cs):
                if a.filter and a.filter not in c.name: continue
                k = (drv,tuple(defs)); cr = comp.get(k)
                if not isinstance(cr, tuple) or cr[0] != 'ok':
                    results[(w,ci)] = dict(status='undecided', why='driver does not compile: ' + (cr[1] if isinstance(cr,tuple) else str(cr))[-800:], obls=[], stat={}); continue
                jobs.append(((w,ci), task_main, (w, drv, defs, ci, pid.lower(), tier, scratch)))
        jobs.sort(key=lambda j: -getattr(units[j[0][0]][2][j[0][1]], 'cost', 1))
        results.update(pool.run(jobs, deadline, getattr(mod,'TASK_LIMIT',420 if quick else 2400), scratch, native_failed))
        # an obligation the solver gave up on is given more time once: the verdict must not depend on the load of the machine
        left = deadline - time.time(); again = []
        if not native_failed():
            for j,f,ar in jobs:
                if results.get(j,{}).get('status') == 'failed' and 3*results[j].get('t',1e9) < left or results.get(j,{}).get('why') == 'time limit' and left > 300: again.append((j, f, ar+(4,)))
        if again:
            second = pool.run(again, deadline, deadline-time.time(), scratch, native_failed)
            for j,r in second.items():
                if r['status'] in ('proved','failed'): results[j] = r
    nr = ('none','no native harness')
    if npid:
        os.waitpid(npid, 0)
        nr = pickle.load(open(npath,'rb')) if os.path.exists(npath) else ('none','native worker died')
    names = {}
    for w,(drv,defs,cs) in enumerate(units):
        for ci,c in enumerate(cs): names[(w,ci)] = '%s [%s %s]' % (c.name, os.path.basename(drv), ' '.join(defs))
    failed = {k:r for k,r in results.items() if r['status'] == 'failed' and any(b['result'] == 'failed' for b in r.get('bad',[]))}
    undec = {k:r for k,r in results.items() if k not in failed and r['status'] != 'proved'}
    proved = {k:r for k,r in results.items() if r['status'] == 'proved'}
    for k in sorted(results):
        r = results[k]
        if a.v or r['status'] != 'proved': print('%-9s %s (%d obligations, %.1fs) %s' % (r['status'], names[k], len(r['obls']), r.get('t',0), str(r['why'])[:300]))
        for b in r.get('bad', [])[:6]: print('   obligation %s: %s  %s' % (b['name'], b['result'], b['path'][-200:]))
    if a.v or nr[0] != 'pass': print('native:', nr[0], str(nr[1])[:800])
    # ---- a failed obligation: look longer for an input that shows it on the real code
    if failed and nr[0] == 'pass' and nat:
        left = T0 + TOT - time.time()
        for extra in range(3):
            b = min(40 if quick else 300, left/3)
            if b < 5: break
            nat.seed = seed + 1000*(extra+1); r2 = nat.search(b, b*4+60)
            if r2[0] == 'fail': nr = r2; break
            nat.seed = seed
            left = T0 + TOT - time.time()
    vio = 0; known = findings(pid)
    for f in known: print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    code = 0
    obllist = [dict(contract=names[k], obligations=r.get('bad', [])) for k,r in sorted(failed.items())]
    if nr[0] == 'fail':
        rp = os.path.join(VERIF,'replays','%s.json' % pid)
        json.dump(dict(property=pid, harness='native/%s.cc' % pid.lower(), case=nr[1]['case'], seed=nat.seed, msg=nr[1]['msg'], desc=nr[1]['desc'], obligations=obllist,
                       how='python3-vt check.py %s --replay %s' % (pid, rp)), open(rp,'w'), indent=1)
        print('failing input %s: %s\n  %s' % (nr[1]['case'], nr[1]['msg'], nr[1]['desc']))
        print('VIOLATION property=%s replay=%s' % (pid, rp)); vio = 1; code = 1
    elif failed:
        rp = os.path.join(VERIF,'replays','%s.json' % pid)
        json.dump(dict(property=pid, case=None, obligations=obllist, note='the verifier rejects these obligations; the bounded search found no concrete input'), open(rp,'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); vio = len(failed); code = 1
    # ---- evidence
    nob = sum(len(r['obls']) for r in results.values()); ndis = sum(1 for r in results.values() for o in r['obls'] if o[2] == 'proved')
    bk = {}; st = 0.0; funcs = set(); notes = set()
    for r in results.values():
        for o in r['obls']:
            if o[2] == 'proved': bk[o[3]] = bk.get(o[3],0)+1
        st += r['stat'].get('time',0); funcs |= set(r.get('funcs',())); notes |= set(r.get('notes',()))
    cross = {k: sum(r['stat'].get(k,0) for r in results.values()) for k in ('cross_ok','cross_unknown')}
    repo_funcs = sorted(f for f in funcs if '4Dune' in f or f.startswith('_ZN4Dune') or f.startswith('_ZNK4Dune'))
    level = mod.LEVEL
    if level == 'proof' and (undec or not proved): level = 'other'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time()-T0,1), violations=vio,
      assumptions=list(ASSUME) + list(getattr(mod,'ASSUMPTIONS',[])) + sorted(notes),
      coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt check.py %s --tier %s' % (pid,tier), trusted_base=TRUST,
        contracts_total=len(results), contracts_proved=len(proved), contracts_failed=[names[k] for k in sorted(failed)],
        contracts_undecided=[dict(contract=names[k], status=r['status'], why=str(r['why'])[:400]) for k,r in sorted(undec.items())],
        functions_under_contract=sorted(names[k] for k in proved), functions_executed_symbolically=len(funcs),
        backends=bk, solver_time_s=round(st,1), solver_crosscheck_cvc5=cross, loops_cut=sum(r.get('loops',0) for r in results.values()), back_edges_checked=sum(r.get('backedges',0) for r in results.values()),
        exits_checked=sum(r.get('exits',0) for r in results.values()),
        evaluations=(nr[1]['total'] if nr[0]=='pass' else 0), distinct_nontrivial=(nr[1]['distinct'] if nr[0]=='pass' else 0),
        rule='bounded part: executable contracts on the real classes (g++, AddressSanitizer), pseudo-random cases from VERIF_SEED; counted distinct by the printed case description',
        samples=(nr[1]['samples'][:6] if nr[0]=='pass' else [str(nr[1])[:500]] or ['none']),
        bounded=dict(what=getattr(mod,'BOUNDED',''), status=nr[0], detail=(nr[1].get('sections') if nr[0]=='pass' else str(nr[1])[:1500])),
        explanation=getattr(mod,'EXPLANATION','')))
    json.dump(ev, open(os.path.join(VERIF,'evidence',pid+'.json'),'w'), indent=1)
    print('%s %s: %d/%d contracts proved, %d/%d obligations discharged, %d undecided, native %s (%s cases), %.0fs' % (pid, tier, len(proved), len(results), ndis, nob, len(undec), nr[0], nr[1]['total'] if nr[0]=='pass' else '-', time.time()-T0))
    return code
TRUST = ['clang 18 front end and opt passes (sroa, early-cse, simplifycfg, instcombine, inline, loop-unroll-full) producing the verified LLVM IR from the sources in /repo',
 'the VC generator vc/engine.py and its contracts for intrinsics and library calls in vc/handlers.py', 'z3 5.3 (and cvc5 1.1.2 where it is the back end)']
ASSUME = ['floating point numbers are treated as real numbers (no rounding, overflow, NaN or infinity)', 'size_t/int are treated as mathematical integers (no wrap-around)',
 'the regions a contract names are disjoint memory (arguments do not alias unless the contract says so)', 'allocation succeeds; operator new/delete, memcpy, memset, sqrt, exception runtime follow their assumed contracts',
 'NDEBUG, no DUNE_ISTL_WITH_CHECKING, sequential build without MPI']
if __name__ == '__main__': sys.exit(main())
