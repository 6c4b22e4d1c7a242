#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: verifies one property against /repo's current tree.

Compiles the contract harnesses of the property together with /repo's headers and sources to LLVM bitcode, generates the
verification conditions of every entry with build/vc, discharges them with the solvers and writes evidence/<id>.json."""
import sys, os, json, subprocess, time, re, tempfile, shutil, fcntl, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VC_REPO', '/repo'); B = V + '/build'
from contracts.registry import REG
CLANG = 'clang++-18'
INC = [f'-I{REPO}/include', '-I/opt/vp/lib/shadow', f'-I{V}/contracts']
DEF = '-pthread -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED -DBOOST_THREAD_NO_LIB=1 -DBOOST_THREAD_POSIX -DBOOST_THREAD_BUILD_LIB=1 -DBOOST_ALL_NO_LIB'.split()
CF = '-std=gnu++17 -O1 -Xclang -disable-llvm-passes -fno-access-control -fno-strict-aliasing -g -D_GLIBCXX_EXTERN_TEMPLATE=0 -emit-llvm -fno-builtin -w'.split()
SRC = {'thread': 'src/pthread/thread.cpp', 'once': 'src/pthread/once.cpp', 'future': 'src/future.cpp'}
T0 = time.time()
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
def die(msg): print('ERROR', msg); sys.exit(2)

def build_engine():
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh(['bash', V + '/build_engine.sh'])
        if r.returncode: die('engine build failed\n' + r.stderr[-3000:])

def compile_harness(h, W, pool):
    """h: dict(src=..., flags=[...], defs=[...]). Returns (bitcode path | None, error)"""
    out = f"{W}/{h['name']}.bc"; objs = [f"{W}/{h['name']}.h.bc"]
    jobs = [pool.submit(sh, [CLANG] + CF + DEF + INC + h.get('flags', []) + ['-c', f"{V}/contracts/{h['src']}", '-o', objs[0]])]
    for s in h.get('link', ['thread', 'once', 'future']):
        o = f"{W}/{h['name']}.{s}.bc"; objs.append(o)
        jobs.append(pool.submit(sh, [CLANG] + CF + DEF + INC + h.get('srcflags', []) + ['-c', f'{REPO}/{SRC[s]}', '-o', o]))
    for j in jobs:
        r = j.result()
        if r.returncode: return None, r.stderr[-4000:]
    r = sh(['llvm-link-18'] + objs + [B + '/rt_cxx.bc', B + '/rt_pthread.bc', '-o', out + '.l'])
    if r.returncode: return None, r.stderr[-3000:]
    r = sh(['opt-18', '-passes=function(sroa,simplifycfg,instsimplify)', out + '.l', '-o', out])
    if r.returncode: return None, r.stderr[-3000:]
    os.unlink(out + '.l'); return out, None

PT = 'pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_destroy pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_condattr_init pthread_condattr_destroy pthread_condattr_setclock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast clock_gettime nanosleep sched_yield usleep sysconf pthread_self pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific pthread_once pthread_attr_init pthread_attr_destroy pthread_attr_setstacksize pthread_attr_getstacksize pthread_attr_setdetachstate pthread_attr_getdetachstate pthread_create pthread_join pthread_detach'.split()
NCF = '-std=gnu++17 -O1 -g -fno-access-control -fno-strict-aliasing -fsanitize=address -fno-builtin -w'.split()
native_cache = {}
def native(h, entry, W, pool):
    key = h['name']
    if key not in native_cache:
        objs = []; jobs = []
        def comp(src, o, fl): objs.append(o); jobs.append(pool.submit(sh, [CLANG] + NCF + DEF + INC + fl + ['-c', src, '-o', o]))
        comp(f"{V}/contracts/{h['src']}", f'{W}/{key}.n.o', h.get('flags', []))
        comp(f'{V}/contracts/rt_pthread.cpp', f'{W}/{key}.rt.n.o', [])
        for s in h.get('link', ['thread', 'once', 'future']): comp(f'{REPO}/{SRC[s]}', f'{W}/{key}.{s}.n.o', h.get('srcflags', []))
        ok = all(j.result().returncode == 0 for j in jobs)
        if ok:
            with open(f'{W}/syms', 'w') as f: f.write(''.join(f'{p} vcn_{p}\n' for p in PT))
            for o in objs: ok = ok and sh(['objcopy', '--redefine-syms', f'{W}/syms', o]).returncode == 0
        native_cache[key] = objs if ok else None
    objs = native_cache[key]
    if not objs: return None
    exe = f'{W}/{key}.{entry}'
    r = sh([CLANG] + NCF + [f'-DVC_ENTRY={entry}', V + '/engine/native.cpp'] + objs + ['-o', exe, '-pthread'])
    if r.returncode: sys.stderr.write(r.stderr[-1500:]); return None
    return exe
NATIVE_CRASH = ('mem.', 'terminate', 'uncaught', 'assert', 'unreachable', 'purevirtual', 'trap', 'div.')
def replay(h, v, W, pool):
    """returns (confirmed, text)"""
    if not v.get('exact', True) or v['id'].endswith('guarded_state'): return False, 'no concrete replay for this kind of obligation'
    exe = native(h, v['entry'], W, pool)
    if not exe: return False, 'native build failed'
    lf = f'{W}/log.{os.path.basename(exe)}'
    with open(lf, 'w') as f: f.write(''.join(f'{n} {int(x) & (2**64 - 1)}\n' for n, x in v['log']))
    try: r = sh(['timeout', '30', exe, lf])
    except Exception as e: return False, str(e)
    txt = (r.stdout + r.stderr)[-2500:] + f'\nexit status {r.returncode}'
    crash = r.returncode in (20, 23, 139, 134, -6, -11)
    return (r.returncode == 10 and f"REPLAY violated {v['id']}" in r.stdout) or (crash and v['id'].startswith(NATIVE_CRASH)), txt

def findings():
    known = []
    try:
        for l in open(V + '/known_findings.txt'):
            m = re.match(r'known: property=(\S+) entry=(\S+) obligation=(\S+) :: (.*)', l.strip())
            if m: known.append(m.groups())
    except FileNotFoundError: pass
    return known

def run_entry(bc, h, e, tmo, extra=()):
    p = sh(['timeout', '-k', '5', str(int(tmo + 60)), B + '/vc', bc, '-e', e, '--timeout', str(int(tmo))] + h.get('vcflags', []) + list(extra))
    try: j = json.loads(p.stdout); j['stderr'] = p.stderr[-500:]; return j
    except Exception: return {'entry': e, 'error': (p.stdout[-300:] + p.stderr[-1500:]) or f'engine ended with status {p.returncode}'}

def main():
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--only' in a: only = a[a.index('--only') + 1]
    verbose = '-v' in a
    budget = 800 if tier == 'quick' else 3000
    if prop not in REG: die('no check for ' + prop)
    build_engine(); R = REG[prop]; W = tempfile.mkdtemp(prefix=prop + '-', dir=B)
    try: rc = work(prop, tier, R, W, budget, only, verbose)
    finally: shutil.rmtree(W, ignore_errors=True)
    sys.exit(rc)

def work(prop, tier, R, W, budget, only, verbose):
    cpool = cf.ThreadPoolExecutor(8); hs = [dict(h) for h in R['harness']]
    for h in hs: h.setdefault('name', h['src'].replace('.cpp', ''))
    bcs = list(cf.ThreadPoolExecutor(4).map(lambda h: compile_harness(h, W, cpool), hs))
    tasks = []
    for h, (bc, err) in zip(hs, bcs):
        if bc is None: die(f"{prop}: harness {h['name']} does not compile against the current tree\n{err}")
        es = sh([B + '/vc', bc]).stdout.split(); pat = h.get('entries')
        es = [e for e in es if (pat is None or re.search(pat, e[6:])) and (tier == 'thorough' or not e.startswith('entry_t_')) and (only is None or only in e)]
        if not es: die('no entries in ' + h['name'])
        tasks += [(bc, h, e) for e in es]
    pri = R.get('slow_first', []); tasks.sort(key=lambda t: -sum(s in t[2] for s in pri))
    per = R.get('entry_timeout', 240 if tier == 'quick' else 1500)
    def one(t): 
        left = budget - (time.time() - T0); j = run_entry(t[0], t[1], t[2], max(10, min(per, left - 30))); j['h'] = t[1]; j['bc'] = t[0]; return j
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, tasks))
    known = findings(); viol = []; kf = []; und = []; errs = []; fns = set(); ob = dis = bob = bdis = 0; be = {}; ids = {}; solver = 0.0; samples = []; nb = []; nproof = []; paths = 0
    # an entry whose proof does not finish is re-run as a bounded check (never counted as proved)
    for i, j in enumerate(res):
        if j.get('error'): continue
        j['bounded'] = j['entry'].startswith(('entry_b_', 'entry_t_b_')) or j['h'].get('bounded', False) or j['bounded_cut'] > 0 or 'schedules' in j['covers']
        if j['undecided'] and not j['violations']:
            left = budget - (time.time() - T0)
            if left > 40:
                k = run_entry(j['bc'], j['h'], j['entry'], min(120, left - 20), ['--bound', '3', '--bounded'])
                if not k.get('error') and not k['undecided']: k['h'] = j['h']; k['bc'] = j['bc']; k['bounded'] = True; k['fellback'] = list(j['undecided'])[:3]; res[i] = k
    for j in res:
        if j.get('error'): errs.append((j['entry'], j['error'])); continue
        fns.update(j['functions']); solver += j['solver_s']; paths += j['paths']
        o = d = 0
        for k, x in j['obligations'].items():
            n = x['simplifier'] + x['z3'] + x['fallback']; t = n + x['failed'] + x['undecided']; o += t; d += n
            for q in ('simplifier', 'z3', 'fallback'): be[q] = be.get(q, 0) + (0 if j['bounded'] else x[q])
            c = ids.setdefault(k, [0, 0]); c[0] += t; c[1] += n
        if j['bounded']: bob += o; bdis += d; nb.append(j['entry'])
        else: ob += o; dis += d; nproof.append(j['entry'])
        for u, c in j['undecided'].items(): und.append((j['entry'], u, c))
        if not j['violations'] and not j['undecided'] and not j['covers'].get('end'): errs.append((j['entry'], 'vacuous: no path reaches the end of the entry'))
        for v in j['violations']:
            v['entry'] = j['entry']; m = [k for k in known if k[0] == prop and k[1] == j['entry'][6:] and k[2] == v['id']]
            if m: kf.append((m[0], v))
            else: viol.append((j['h'], v))
        if len(samples) < 6: samples.append({'entry': j['entry'], 'paths': j['paths'], 'obligations': o, 'covers': j['covers']})
    # known findings must still be listed once each
    for k in {k for k, _ in kf}: print(f'KNOWN-FINDING: property={prop} entry={k[1]} obligation={k[2]} {k[3]}')
    seen = set(); lines = []; nconf = 0
    os.makedirs(V + '/evidence', exist_ok=True)
    viol.sort(key=lambda x: (x[1]['entry'], x[1]['id']))
    for h, v in viol:
        key = (v['entry'], v['id'], v['where'])
        if key in seen: continue
        seen.add(key)
        if len(seen) > 8: continue
        conf, txt = (False, 'replay skipped (time)') if time.time() - T0 > budget - 60 or nconf >= 1 and len(seen) > 4 else replay(h, v, W, cpool)
        nconf += conf
        rp = f"{V}/evidence/replay-{prop}-{v['entry'][6:]}-{re.sub('[^A-Za-z0-9_.]', '_', v['id'])}.json"
        with open(rp, 'w') as f: json.dump({'property': prop, 'entry': v['entry'], 'harness': h['name'], 'failed_obligation': v['id'], 'message': v['msg'], 'where': v['where'], 'stack': v['stack'], 'counterexample': v['log'], 'replayed_on_real_code': conf, 'replay_output': txt}, f, indent=1)
        lines.append((not conf, f"VIOLATION property={prop} replay={rp}" + ('' if conf else ' no-failing-input-found'), v))
    lines.sort(key=lambda x: x[0])
    for _, l, v in lines: print(l); print('   ', v['entry'][6:], v['id'], v['msg'], 'at', v['where'].replace(REPO + '/', ''))
    for e, u, c in und: print(f'UNDECIDED {e}: {u} ({c})')
    for e, u in errs: print(f'ERROR {e}: {u}')
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': R.get('level', 'proof'), 'wall_s': round(time.time() - T0, 2), 'violations': len(lines),
          'coverage': {'obligations': ob, 'discharged': dis, 'checker_cmd': f'python3 check.py {prop} --tier {tier}', 'trusted_base': R.get('trusted', []) + TRUST,
                       'back_ends': be, 'solver_s': round(solver, 2), 'entries_proved_unbounded': [e[6:] for e in nproof], 'paths': paths, 'functions_under_contract': sorted(fns), 'obligations_by_name': {k: {'generated': x[0], 'discharged': x[1]} for k, x in sorted(ids.items())},
                       'bounded_entries': [e[6:] for e in nb], 'bounded_obligations': bob, 'bounded_discharged': bdis, 'undecided': [f'{e}: {u}' for e, u, _ in und], 'known_findings': [f'{k[1]}:{k[2]}' for k, _ in kf], 'samples': samples},
          'assumptions': R.get('assumptions', []) + ASSUME}
    if R.get('level') == 'model_checking': ev['coverage'].update(states=paths, transitions=sum(j.get('instructions', 0) for j in res), traces_validated_against_impl=nconf)
    if R.get('level') == 'other': ev['coverage']['explanation'] = R['explanation']
    if only is None:
        with open(f'{V}/evidence/{prop}.json', 'w') as f: json.dump(ev, f, indent=1)
    print(f"{prop}: {len(tasks)} entries ({len(nproof)} unbounded, {len(nb)} bounded), {dis}/{ob} obligations discharged, bounded {bdis}/{bob}, {len(lines)} violations, {len(und)} undecided, {time.time() - T0:.1f} s")
    if verbose:
        for j in sorted((j for j in res if not j.get('error')), key=lambda j: -j['wall_s']): print(f"  {j['entry'][6:]:50s} {j['wall_s']:8.1f}s paths {j['paths']} bounded {j['bounded']} covers {j['covers']}")
    if lines: return 1
    if errs or und: return 2
    return 0
TRUST = ['engine/vc.cpp (verification-condition generator over LLVM IR), clang-18 front end, LLVM sroa/simplifycfg/instsimplify', 'z3, cvc5', 'contracts/rt_pthread.cpp (assumed contracts of POSIX threads, clocks)', 'contracts/rt_cxx.cpp (C++ runtime: exceptions, allocation)', 'contracts/vc_boost.h (clocks of Boost.Chrono and Boost.DateTime)']
ASSUME = ['memory is sequentially consistent: the orderings given to atomic operations are not examined', 'the POSIX primitives satisfy the contracts in contracts/rt_pthread.cpp', 'boost headers other than boost/thread are verified as called, or trusted where listed']
main()
