#!/usr/bin/env python3
# developer helper: run all entries of build/NAME.bc and summarise
import sys,subprocess,json,concurrent.futures as cf
n=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else ''; extra=[a for a in sys.argv[3:] if a!="-s"]
es=[e for e in subprocess.run(['build/vc',f'build/{n}.bc'],capture_output=True,text=True).stdout.split() if pat in e]
def run(e):
    p=subprocess.run(['timeout','900','build/vc',f'build/{n}.bc','-e',e,'--timeout','300']+extra,capture_output=True,text=True)
    try: return e,json.loads(p.stdout),p.stderr
    except Exception as x: return e,None,p.stdout[-500:]+p.stderr[-1500:]
tot=0
with cf.ThreadPoolExecutor(8) as ex:
    for e,j,err in ex.map(run,es):
        if j is None: print(e,'ERROR',err); continue
        o=sum(sum(v[k] for k in ('simplifier','z3','fallback')) for v in j['obligations'].values()); tot+=o
        print(f"{e[6:]:45s} paths {j['paths']:6d} q {j['queries']:5d} {j['wall_s']:7.1f}s ob {o:6d} viol {len(j['violations'])} undec {sum(j['undecided'].values())} covers {j['covers']}")
        for u,c in list(j['undecided'].items())[:4]: print('    UNDECIDED',c,u[:300])
        for v in j['violations'][:6]:
            print('    VIOLATION',v['id'],v['msg'],v['where'].split('/')[-1]); 
            if '-s' in sys.argv or True:
                for s in v['stack'][:6]: print('        ',s[:150])
print('obligations',tot)
