"""plant.py confirm [ids...]: builds each planted bug in a scratch copy, confirms it, writes seeded/<id>/.
plant.py check [ids...]: runs the property's check (and all others with --all) against it."""
import sys, os, subprocess, json, shutil, importlib, concurrent.futures as cf, threading
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
VERIF = os.path.dirname(os.path.dirname(here))
from bugs1 import B
for m in sorted(f[:-3] for f in os.listdir(here) if f.startswith('bugs') and f.endswith('.py') and f != 'bugs1.py'): importlib.import_module(m)
ENV = {**os.environ, 'CI': '1', 'TZ': 'UTC', 'NO_COLOR': '1'}; ENV.pop('NODE_ENV', None)
W = int(os.environ.get('WORKERS', '7'))
local = threading.local(); ids = iter(range(1000)); lock = threading.Lock()
def scratch():
    if not hasattr(local, 'dir'):
        with lock: n = next(ids)
        local.dir = f'/tmp/plant/{os.getpid()}_{n}'
        os.makedirs('/tmp/plant', exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', local.dir], check=True)
    subprocess.run('git checkout -q -- . && git clean -fdq src', shell=True, cwd=local.dir, check=True)
    return local.dir
def sh(cmd, cwd, timeout=600, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
def apply(b, d):
    for f, old, new in b['edits']:
        p = f'{d}/{f}'; s = open(p).read()
        assert s.count(old) == 1, f"{b['id']}: {s.count(old)} matches in {f}: {old[:80]}"
        open(p, 'w').write(s.replace(old, new))
def build(d):
    open(f'{d}/tsconfig.plant.json', 'w').write('{"extends":"./tsconfig.json","compilerOptions":{"noEmit":true,"types":["node"]},"include":["./src"],"exclude":["./src/**/*.spec.ts","./src/test-utils"]}')
    r = sh('./node_modules/.bin/tsc --noEmit -p tsconfig.plant.json && ./node_modules/.bin/tsdown src/index.ts --format esm,cjs --dts', d)
    os.remove(f'{d}/tsconfig.plant.json')
    return r
def tests(d):
    out = f'{d}.json'
    sh(f'timeout 300 ./node_modules/.bin/vitest run --exclude e2e --testTimeout=15000 --reporter=json --outputFile.json={out}', d)
    res = {}
    for f in json.load(open(out))['testResults']:
        for t in f['assertionResults']: res[f['name'].replace(d, '') + '::' + t['fullName']] = t['status']
    os.remove(out)
    return res
def write(b):
    t = f'{VERIF}/seeded/{b["id"]}'; os.makedirs(t, exist_ok=True)
    shutil.copy(f'{here}/h.mjs', t)
    demo = b['demo'].strip()
    names = [n for n in ['Resend', 'assert', 'body', 'json', 'problem', 'requests', 'resend', 'serve'] if __import__('re').search(rf'\b{n}\b', demo)]
    open(f'{t}/demo.mjs', 'w').write(f"// {b['breaks']}.\nimport {{ {', '.join(names)} }} from './h.mjs';\n\n{demo}\n")
    open(f'{t}/demo.sh', 'w').write('#!/bin/bash\nNODE_ENV=production exec node "$(dirname "$0")/demo.mjs"\n')
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{t}/meta.json', 'w'), indent=1)
    return t
base = None
def confirm(b):
    try:
        d = scratch(); t = write(b)
        if os.path.exists(f'{t}/patch.diff'): os.remove(f'{t}/patch.diff')
        r = build(d)
        if r.returncode: return f"{b['id']}: clean build fails"
        r = sh(f'bash {t}/demo.sh', d)
        if r.returncode: return f"{b['id']}: demo fails on the clean tree: {r.stderr[-600:]}"
        apply(b, d)
        open(f'{t}/patch.diff', 'w').write(sh('git diff -- src', d).stdout)
        r = build(d)
        if r.returncode: return f"{b['id']}: does not build: {(r.stdout + r.stderr)[-800:]}"
        r = sh(f'bash {t}/demo.sh', d)
        if r.returncode == 0: return f"{b['id']}: demo passes with the bug"
        res = tests(d)
        lost = [k for k, v in base.items() if v == 'passed' and res.get(k) != 'passed']
        if lost: return f"{b['id']}: {len(lost)} tests fail: {lost[:3]}"
        return f"{b['id']}: ok"
    except Exception as e:
        return f"{b['id']}: {type(e).__name__} {e}"
def check(b):
    d = scratch()
    p = f'{VERIF}/seeded/{b["id"]}/patch.diff'
    if not os.path.exists(p): return f"{b['id']}: not confirmed"
    r = sh(f'git apply {p}', d)
    if r.returncode: return f"{b['id']}: patch does not apply"
    props = sorted(f[:-4] for f in os.listdir(f'{VERIF}/props')) if '--all' in sys.argv else [b['prop']]
    seeds = [1] if '--seeds' not in sys.argv else [1, 2, 3]
    hits = {}
    for q in props:
        for s in seeds:
            r = sh(f'node run.mjs {q}', os.environ.get('CHECKS', VERIF), env={**ENV, 'VERIF_REPO': d, 'VERIF_SEED': str(s)})
            hits.setdefault(q, []).append(r.returncode)
    caught = [q for q in props if all(c == 1 for c in hits[q])]
    part = [q for q in props if q not in caught and any(c for c in hits[q])]
    return f"{b['id']}: {'CAUGHT' if b['prop'] in caught else 'MISSED'} by own; all: {' '.join(caught)}{' | partly: ' + ' '.join(q + str(hits[q]) for q in part) if part else ''}"
if __name__ == '__main__':
    mode = sys.argv[1]; want = [a for a in sys.argv[2:] if not a.startswith('--')]
    todo = [b for b in B if not want or any(b['id'].startswith(w) for w in want)]
    if mode == 'confirm':
        d = scratch(); base = tests(d); print(sum(v == 'passed' for v in base.values()), 'tests pass on the clean tree', flush=True)
    with cf.ThreadPoolExecutor(W) as ex:
        for line in ex.map(confirm if mode == 'confirm' else check, todo): print(line, flush=True)
    subprocess.run(f'rm -rf /tmp/plant/{os.getpid()}_*', shell=True)
