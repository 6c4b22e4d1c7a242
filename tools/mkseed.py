#!/usr/bin/env python3
"""mkseed.py SPEC.py ...: builds seeded/<id>/ from a spec (dict S: id, property, needs, breaks, edits=[(file, old, new)], demo, flags) and
checks in a scratch copy that the demonstration passes without and fails with the change. Not used by any check."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository root; exit 0: the property holds here
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O0 -g -w -pthread -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED -DBOOST_THREAD_BUILD_LIB=1 -DBOOST_ALL_NO_LIB %s -I"$PWD/include" src/pthread/thread.cpp src/pthread/once.cpp src/future.cpp "$D/demo.cpp" -o "$W/demo" %s || { echo "demo does not compile"; exit 2; }
timeout 120 "$W/demo"; rc=$?; echo "demo exit $rc"; exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for sp in sys.argv[1:]:
    g = {}; exec(open(sp).read(), g); S = g['S']
    W = tempfile.mkdtemp(prefix='seed-', dir='/tmp'); T = W + '/repo'; sh(f'mkdir {T} && git -C /repo archive HEAD | tar x -C {T} && cd {T} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x')
    d = f"{V}/seeded/{S['id']}"; os.makedirs(d, exist_ok=True)
    open(d + '/demo.cpp', 'w').write(S['demo']); open(d + '/demo.sh', 'w').write(DEMO % (S.get('flags', ''), S.get('libs', '-lboost_chrono'))); os.chmod(d + '/demo.sh', 0o755)
    a = sh(f'bash {d}/demo.sh', cwd=T)
    for f, o, n in S['edits']:
        t = open(f'{T}/{f}').read(); assert t.count(o) == 1, (S['id'], f, t.count(o)); open(f'{T}/{f}', 'w').write(t.replace(o, n))
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=T).stdout)
    b = sh(f'bash {d}/demo.sh', cwd=T)
    json.dump({'property': S['property'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    ok = a.returncode == 0 and b.returncode not in (0, 2); print(S['id'], 'OK' if ok else 'BAD', a.returncode, b.returncode)
    if not ok: print(a.stdout[-600:], a.stderr[-1500:], '---', b.stdout[-600:], b.stderr[-1500:])
    shutil.rmtree(W)
