#!/usr/bin/env python3
# Runs the check of each planted bug's property against a scratch copy with the bug applied. Usage: runseeds.py [-p] [substr...]
import sys, os, subprocess, json, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = [a for a in sys.argv[1:]]
ids = [d for d in sorted(os.listdir(V + '/seeded')) if os.path.exists(f'{V}/seeded/{d}/patch.diff')]
ids = [d for d in ids if not want or any(w in d for w in want)]
def run(d):
    w = f'/tmp/seedwork/r-{d}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    subprocess.run(['mkdir', '-p', w + '/verif/evidence'])
    for x in ('specs', 'replay', 'bin', 'known-findings.txt', 'properties.jsonl'):
        subprocess.run(['cp', '-a', f'{V}/{x}', w + '/verif/'])
    subprocess.run(['git', 'apply', f'{V}/seeded/{d}/patch.diff'], cwd=w + '/repo', check=True)
    prop = json.load(open(f'{V}/seeded/{d}/meta.json'))['property']
    env = dict(os.environ, GOVER_REPO=w + '/repo', GOVER_VERIF=w + '/verif', VERIF_SEED='1', VERIF_TIER='quick')
    t = time.time()
    r = subprocess.run([V + '/bin/gover', 'check', '-p', prop, '-j', '4'], cwd=w + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = r.stdout
    v = [l for l in out.split('\n') if l.startswith('VIOLATION')]
    fi = [l for l in out.split('\n') if 'FAILING-INPUT' in l or 'failing input' in l.lower()]
    fa = [l for l in out.split('\n') if l.startswith('failed')]
    shutil.rmtree(w, ignore_errors=True)
    return f"{d}: {'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode} {'NOINPUT' if v and 'no-failing' in v[0] else ''} {time.time()-t:.0f}s | {(fa[0] if fa else '')[:120]} | {(fi[0] if fi else '')[:160]}" + ('' if r.returncode in (0, 1) else '\n' + out[-500:])
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(run, ids):
        print(r, flush=True)
