#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, runs it, and
writes evidence/<id>.json.

  run_check.py C01                      quick (or VERIF_TIER)
  run_check.py C01 --tier thorough
  run_check.py C01 --replay FILE        run one saved case

Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed.
Exit 2: the check itself could not run.
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
sys.path.insert(0, V)
from props import PROPS, CONFIGS

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h

def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'emp-tool')):
        for f in fs:
            if f.endswith(('.h', '.hpp', '.cpp', '.txt', '.inc', '.ipp', '.cc')):
                out.append(os.path.join(d, f))
    return out

def lib_sources():
    """The translation units of the library: what its build file globs."""
    out = [os.path.join(REPO, 'emp-tool/emp-tool.cpp')]
    d = os.path.join(REPO, 'emp-tool/circuits')
    out += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))
    for sub in ('utils', 'io', 'execution', 'gc'):
        d = os.path.join(REPO, 'emp-tool', sub)
        out += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))
    return out

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def atomic_compile(cmd, out):
    """Compile to a private name, then rename, so concurrent checks cannot see half a file."""
    tmp = out + '.tmp%d' % os.getpid()
    r = run(cmd + ['-o', tmp])
    if r.returncode == 0:
        os.replace(tmp, out)
    elif os.path.exists(tmp):
        os.unlink(tmp)
    return r

def literals():
    """Integer constants in the sources: sizes and values worth trying."""
    vals = set()
    for p in repo_sources():
        b = os.path.basename(p)
        if b.startswith('float32_') or b == 'sse2neon.h' or b.endswith('.txt'):
            continue
        s = open(p, errors='replace').read()
        for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)(?:\s*(\*|<<)\s*(0[xX][0-9a-fA-F]+|\d+)[uUlL]*)?(?:\s*(\*|<<)\s*(0[xX][0-9a-fA-F]+|\d+)[uUlL]*)?', s):
            try:
                g = m.groups()
                v = int(g[0], 0) if not (g[0].startswith('0') and g[0].isdigit()) else int(g[0])
                if v < 2**64: vals.add(v)
                for i in (1, 3):
                    if g[i]:
                        w = int(g[i + 1], 0) if not (g[i + 1].startswith('0') and g[i + 1].isdigit()) else int(g[i + 1])
                        if w < 2**64: vals.add(w)
                        v = v * w if g[i] == '*' else (v << w if w < 64 else v)
                        if v < 2**64: vals.add(v)
            except ValueError:
                pass
    return sorted(v for v in vals if v >= 3)

def write_dict(path):
    cur = literals()
    try:
        base = set(int(x) for x in open(os.path.join(V, 'engine/baseline_literals.txt')).read().split())
    except OSError:
        base = set()
    new = [v for v in cur if v not in base]
    d = list(cur)
    if new:  # constants that are new in this tree take half of the dictionary
        d += new * max(1, len(cur) // len(new))
    with open(path, 'w') as f:
        f.write('\n'.join(map(str, d)) + '\n')
    return len(cur), len(new)

def build_one(prop, cfg):
    """Returns (binary or None, log)."""
    spec = PROPS[prop]
    c = CONFIGS[cfg]
    cxx = c.get('cxx', 'g++')
    # -iquote and -I: the headers of the tree under test come before any other
    base = [cxx] + c['flags'] + ['-I' + REPO, '-pthread', '-Wno-ignored-attributes', '-Wno-unused-result',
            '-Wno-deprecated-declarations', '-w', '-DREPO_DIR="%s"' % REPO]
    src = os.path.join(V, 'harness', spec.get('src', prop + '.cpp'))
    hsrc = [os.path.join(V, 'engine', f) for f in os.listdir(os.path.join(V, 'engine'))] + \
           [os.path.join(V, 'harness', f) for f in os.listdir(os.path.join(V, 'harness')) if f.endswith('.hpp')] + [src]
    h = tree_hash(repo_sources() + [p for p in hsrc if os.path.isfile(p)])
    h.update(json.dumps([base, spec.get('libs'), spec.get('defs'), cfg]).encode())
    key = h.hexdigest()[:20]
    d = os.path.join(BUILD, prop)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, '%s-%s' % (cfg, key))
    if os.path.exists(exe):
        return exe, ''
    for f in os.listdir(d):  # older builds of this configuration
        if f.startswith(cfg + '-') and '.tmp' not in f:
            p = os.path.join(d, f)
            (shutil.rmtree if os.path.isdir(p) else os.unlink)(p)
    od = exe + '.o'
    os.makedirs(od, exist_ok=True)
    units = [src]
    kind = spec.get('libs', 'core')
    if kind == 'core':
        units.append(os.path.join(REPO, 'emp-tool/emp-tool.cpp'))
        for u in lib_sources():
            if not os.path.basename(u).startswith('float32_') and u not in units:
                units.append(u)
    elif kind == 'full':
        units += lib_sources()
    objs, jobs = [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for u in units:
            o = os.path.join(od, re.sub(r'\W', '_', u) + '.o')
            objs.append(o)
            fl = list(base)
            if u == src:
                fl += c.get('hflags', ['-std=c++14']) + spec.get('defs', [])
            else:
                fl += ['-std=c++11']
                if os.path.basename(u).startswith('float32_'):
                    # straight-line gate lists: optimising them only costs compile time
                    fl = [x for x in fl if x not in ('-O3', '-O2')] + ['-O1']
            jobs.append((u, o, fl, ex.submit(run, fl + ['-c', u, '-o', o])))
        text = ''
        for u, o, fl, j in jobs:
            r = j.result()
            if r.returncode and u == src:
                # internals this harness looks at may have been renamed
                r2 = run(fl + ['-DNO_WHITEBOX', '-c', u, '-o', o])
                if r2.returncode == 0:
                    log('note: %s built without its white-box parts' % prop)
                    r = r2
            if r.returncode:
                shutil.rmtree(od, ignore_errors=True)
                return None, 'compiling %s failed:\n%s' % (u, r.stdout[-6000:])
    r = atomic_compile(base + c.get('ldflags', []) + objs + ['-lcrypto', '-ldl'], exe)
    shutil.rmtree(od, ignore_errors=True)
    if r.returncode:
        return None, 'linking failed:\n' + r.stdout[-6000:]
    return exe, ''

def env_for(cfg):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'exitcode=76:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=76'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=76'
    e.update(CONFIGS[cfg].get('env', {}))
    return e

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--build-only', action='store_true')
    ap.add_argument('--no-fuzz', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    spec = PROPS[prop]
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    os.makedirs(BUILD, exist_ok=True)
    cfgs = list(spec['configs'])
    if a.replay:
        m = re.search(r'^config (\S+)$', open(a.replay).read(), re.M)
        cfgs = [(m.group(1) if m else cfgs[0][0], 1.0)]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        built = list(ex.map(lambda c: build_one(prop, c[0]), cfgs))
    for (c, _), (exe, text) in zip(cfgs, built):
        if exe is None:
            log('CHECK ERROR: %s (%s): %s' % (prop, c, text))
            return 2
    tb = time.time() - t0
    log('%s: built %s in %.1fs' % (prop, ','.join(c for c, _ in cfgs), tb))
    if a.build_only:
        return 0
    if a.replay:
        r = subprocess.run([built[0][0], '--replay', a.replay], env=env_for(cfgs[0][0]))
        return 1 if r.returncode == 1 else (0 if r.returncode == 0 else 2)
    dictf = os.path.join(BUILD, prop, 'dict%d.txt' % os.getpid())
    nlit, nnew = write_dict(dictf)
    subsres, viol = [], None
    cap = 560 if tier == 'quick' else 0
    for k, ((cfg, scale), (exe, _)) in enumerate(zip(cfgs, built)):
        outf = os.path.join(BUILD, prop, 'out%d_%s.json' % (os.getpid(), cfg))
        cmd = [exe, '--seed', str(a.seed * 1000 + k), '--tier', tier, '--out', outf, '--dict', dictf,
               '--scale', str(scale * a.scale)]
        if cap:
            cmd += ['--cap', str(max(20, int((cap - (time.time() - t0)) / (len(cfgs) - k))))]
        if a.only:
            cmd += ['--only', a.only]
        log('%s [%s]' % (prop, cfg))
        r = subprocess.run(cmd, env=env_for(cfg), stdout=subprocess.DEVNULL)
        if r.returncode not in (0, 1) or not os.path.exists(outf):
            log('CHECK ERROR: %s harness ended with %d' % (prop, r.returncode))
            os.unlink(dictf)
            return 2
        res = json.load(open(outf))
        os.unlink(outf)
        for s in res['subs']:
            s['config'] = cfg
            subsres.append(s)
            if s['violated'] and viol is None:
                viol = s
        if viol:
            break
    if not viol and tier == 'thorough' and spec.get('fuzz') and not a.no_fuzz:
        import fuzz
        viol = fuzz.campaign(prop, spec, a.seed, build_one, subsres, log, env_for)
    os.unlink(dictf)
    replay = None
    if viol:
        os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
        replay = os.path.join(V, 'replays', '%s-%s-%s.txt' % (prop, viol['name'], viol['config']))
        with open(replay, 'w') as f:
            f.write('# %s\n# case: %s\n' % (viol['msg'].replace('\n', ' ')[:1500], viol['note'].replace('\n', ' ')[:1500]))
            f.write('property %s\nconfig %s\nsub %s\nchoices %s\n' % (prop, viol['config'], viol['name'], ' '.join(map(str, viol['choices']))))
    ev = sum(s['evaluations'] for s in subsres)
    labels, samples = {}, []
    for s in subsres:
        for k, v in s['labels'].items():
            labels['%s: %s' % (s['name'], k)] = labels.get('%s: %s' % (s['name'], k), 0) + v
        for x in s['samples'][:2]:
            if len(samples) < 12 and x:
                samples.append('%s: %s' % (s['name'], x[:400]))
    if not samples:
        samples = ['%s: %s' % (s['name'], (s['note'] or s['msg'])[:400]) for s in subsres[:3]]
    evd = {
        'property': prop, 'tier': tier, 'seed': a.seed, 'level': spec.get('level', 'exploration'),
        'coverage': {
            'evaluations': ev,
            'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in subsres),
            'rule': 'Distinct = different choice sequence within one build configuration. ' +
                    ' | '.join('%s: %s' % (s['name'], s['rule']) for s in subsres if s['config'] == cfgs[0][0]),
            'samples': samples,
            'per_subcheck': [{k: s[k] for k in ('config', 'name', 'evaluations', 'planned', 'nontrivial', 'distinct_nontrivial', 'discards', 'wall_s', 'truncated', 'flaky')} for s in subsres],
            'case_classes': labels,
            'source_constants_tried': nlit,
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if viol else 0,
    }
    if viol:
        evd['coverage']['failing_case'] = {'subcheck': viol['name'], 'config': viol['config'], 'message': viol['msg'][:1500], 'case': viol['note'][:1500], 'replay': replay}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    tmp = os.path.join(V, 'evidence', '.%s.%d' % (prop, os.getpid()))
    json.dump(evd, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(V, 'evidence', prop + '.json'))
    if viol:
        print('%s: %s\n  case: %s' % (viol['name'], viol['msg'][:800], viol['note'][:800]))
        print('VIOLATION property=%s replay=%s' % (prop, replay), flush=True)
        return 1
    print('%s held: %d cases, %d distinct non-trivial, %.1fs' % (prop, ev, evd['coverage']['distinct_nontrivial'], evd['wall_s']))
    return 0

if __name__ == '__main__':
    sys.exit(main())
