#!/usr/bin/env python3
"""try_seeded.py [--tests] [--check-only] [--jobs N] [ids]: for each seeded change, in scratch copies under
/tmp/try: demo on the clean tree, demo and quick check of its property with the change.
--tests: also, one after another in /repo itself (restored afterwards), build and the stable tests."""
import concurrent.futures, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
args = sys.argv[1:]
jobs = 3
if '--jobs' in args: i = args.index('--jobs'); jobs = int(args[i + 1]); del args[i:i + 2]
tests, conly = '--tests' in args, '--check-only' in args
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(S))
def one(i):
    m = json.load(open('%s/%s/meta.json' % (S, i)))
    W = '/tmp/try/' + i
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh('git clone -q /repo %s/repo && mkdir %s/verif && cp -r %s/engine %s/harness %s/*.py %s/*.txt %s/verif/' % (W, W, V, V, V, V, W))
    d = {}
    if not conly:
        r = sh('bash %s/%s/demo.sh' % (S, i), cwd=W + '/repo'); d['demo_clean'] = r.returncode
        if r.returncode: d['demo_out'] = r.stdout[-600:]
    r = sh('git apply %s/%s/patch.diff' % (S, i), cwd=W + '/repo')
    if r.returncode: return i, m, {'apply': r.stdout}
    if not conly: d['demo_patched'] = sh('bash %s/%s/demo.sh' % (S, i), cwd=W + '/repo').returncode
    t = time.time()
    r = sh('python3 run_check.py %s' % m['property'], cwd=W + '/verif', env=dict(os.environ, VERIF_REPO=W + '/repo'))
    d['check'] = r.returncode
    d['s'] = round(time.time() - t)
    d['msg'] = [l for l in r.stdout.splitlines() if 'VIOLATION' not in l and l.strip()][-2:] if r.returncode == 1 else r.stdout[-300:]
    shutil.rmtree(W, ignore_errors=True)
    return i, m, d
RF = os.path.join(V, 'tools/seeded_results.json')
RES = json.load(open(RF)) if os.path.exists(RF) else {}
with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for i, m, d in ex.map(one, ids):
        ok = d.get('demo_clean', 0) == 0 and d.get('demo_patched', 1) != 0 and 'apply' not in d
        RES[i] = {'property': m['property'], 'caught': d.get('check') == 1, 'by': (d.get('msg') or [''])[0].split(':')[0] if d.get('check') == 1 else '', 'needs': m['needs'], 'breaks': m['what_it_breaks']}
        print(i, m['property'], 'VALID' if ok else 'INVALID', 'CAUGHT' if d.get('check') == 1 else 'MISSED', json.dumps(d)[:900], flush=True)
RES = {k: v for k, v in RES.items() if os.path.isdir(os.path.join(S, k))}
json.dump(RES, open(RF, 'w'), indent=1, sort_keys=True)
if tests:
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for i in ids:
        sh('git -C /repo apply %s/%s/patch.diff' % (S, i))
        try:
            r = sh('bash /opt/vp/build.sh')
            if r.returncode: print(i, 'BUILD FAILS', r.stdout[-1000:], flush=True); continue
            sh('bash /opt/vp/test.sh /tmp/seed_t.json')
            p = json.load(open('/tmp/seed_t.json'))['passed']
            print(i, 'tests missing:', [t for t in stable if t not in p], flush=True)
        finally:
            sh('git -C /repo checkout -q -- .')
    sh('bash /opt/vp/build.sh')
