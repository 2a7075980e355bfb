"""run.py tests MUTANTS OUT: which mutants pass the existing tests. run.py checks SURVIVORS OUT: which of those a check reports."""
import sys, os, json, subprocess, threading, queue, shutil, re
mode, inp, out = sys.argv[1:4]
W = int(os.environ.get('WORKERS', '8'))
VERIF = os.environ.get('CHECKS', '/verif')
ENV = {**os.environ, 'CI': '1', 'TZ': 'UTC', 'NO_COLOR': '1'}; ENV.pop('NODE_ENV', None)
mutants = json.load(open(inp))
for i, m in enumerate(mutants): m.setdefault('id', i)
q = queue.Queue()
for m in mutants: q.put(m)
done = []; lock = threading.Lock()
BASE = {k for k in json.load(open('/tmp/base.json'))} if os.path.exists('/tmp/base.json') else None
BY = {'domains': ['C30', 'C13'], 'webhooks': ['C32', 'C33', 'C31', 'C25'], 'receiving': ['C34', 'C35', 'C36', 'C37', 'C26', 'C25', 'C09'], 'emails': ['C14', 'C26', 'C16', 'C20'], 'batch': ['C15', 'C12', 'C08'], 'broadcasts': ['C18', 'C16', 'C26', 'C17'], 'templates': ['C19', 'C20', 'C16', 'C24'], 'contact-properties': ['C28', 'C23'], 'contacts': ['C21', 'C22', 'C24', 'C23', 'C29', 'C13'], 'automation': ['C27', 'C26'], 'events': ['C31'], 'topics': ['C31', 'C23'], 'suppressions': ['C31', 'C26', 'C23'], 'resend.ts': ['C02', 'C03', 'C06', 'C07', 'C08', 'C09', 'C38', 'C04', 'C40', 'C37'], 'render': ['C16', 'C17'], 'pagination': ['C25'], 'chainable': ['C20']}
ALL = [f'C{i:02d}' for i in range(1, 41)]
def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 99, 'timeout'
def worker(n):
    d = f'/tmp/mut/{os.getpid()}_{n}'; os.makedirs('/tmp/mut', exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = f"{d}/{m['file']}"; src = open(p, encoding='utf8').read()
        u = src.encode('utf-16-le'); new = (u[:2 * m['start']] + m['replacement'].encode('utf-16-le') + u[2 * m['end']:]).decode('utf-16-le')
        open(p, 'w', encoding='utf8').write(new)
        try:
            if mode == 'tests':
                rc, o = sh('timeout 120 ./node_modules/.bin/vitest run --exclude e2e --bail=1 --testTimeout=5000 --pool=threads --maxWorkers=1 --no-isolate', d, 130)
                m['survives'] = rc == 0
            else:
                first = [c for k, v in BY.items() if k in m['file'] for c in v]
                m['caught'] = None; m['errors'] = []
                for c in list(dict.fromkeys(first + ALL)):
                    rc, o = sh(f'node run.mjs {c}', VERIF, 600, {**ENV, 'VERIF_REPO': d, 'VERIF_SEED': '1'})
                    if rc == 1 and 'VIOLATION' in o: m['caught'] = c; break
                    if rc: m['errors'].append((c, rc, o[-300:]))
                    if rc == 2 and 'cannot bundle' in o: m['caught'] = 'no bundle'; break
        finally:
            open(p, 'w', encoding='utf8').write(src)
        with lock:
            done.append(m)
            if len(done) % 50 == 0: print(len(done), '/', len(mutants), flush=True); json.dump(done, open(out, 'w'), indent=0)
    shutil.rmtree(d)
ts = [threading.Thread(target=worker, args=(n,)) for n in range(W)]
for t in ts: t.start()
for t in ts: t.join()
if mode == 'tests': done = [m for m in done if m['survives']]
json.dump(sorted(done, key=lambda m: m['id']), open(out, 'w'), indent=0)
print(len(done), 'survive' if mode == 'tests' else 'checked')
