#!/usr/bin/env python3
# Builds the planted bugs under /verif/seeded from tools/seeds_*.py: each is (id, property, file, old, new, needs, breaks, test body[, imports]).
# For every bug: patch applies, project builds, stable tests pass, demo fails with it and passes without it.
import sys, os, subprocess, json, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork/repo'
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on the demonstrated input
D=$(cd "$(dirname "$0")" && pwd)
J=$(mktemp)
printf '{"Replace":{"%s/zz_demo_verif_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$J"
timeout 200 go test -overlay "$J" -vet=off -count=1 -timeout 60s -run '^TestDemo$' . 
'''
def sh(cmd, cwd=W, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    want = sys.argv[1:]
    seeds = []
    g = {}
    for f in sorted(glob.glob(V + '/tools/seeds_*.py')):

        exec(open(f).read(), g)
        seeds += g['SEEDS']
    os.makedirs('/tmp/seedwork', exist_ok=True)
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    sh('git checkout -q -- . ')
    for s in seeds:
        sid, prop, edits, needs, breaks, body = s[:6]
        imports = s[6] if len(s) > 6 else ['testing']
        if want and not any(w in sid for w in want):
            continue
        d = f'{V}/seeded/{sid}'
        os.makedirs(d, exist_ok=True)
        test = body if body.startswith('package') else 'package readline\n\nimport (\n' + ''.join(f'\t"{i}"\n' for i in imports) + ')\n\n' + body
        open(d + '/demo_test.go', 'w').write(test)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {d}/demo.sh')
        ok = True
        for f, old, new in edits:
            p = f'{W}/{f}'
            t = open(p).read()
            if t.count(old) != 1:
                print(sid, 'EDIT MATCHES', t.count(old), f); ok = False
            open(p, 'w').write(t.replace(old, new, 1))
        if not ok:
            sh('git checkout -q -- .'); continue
        open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
        b = sh('go build . ./runes')
        t = sh('go test -count=1 . ./runes 2>&1')
        r1 = sh(f'bash {d}/demo.sh')
        sh('git checkout -q -- .')
        bl = json.load(open('/opt/vp/BASELINE.json'))
        msg = f'demo clean {r0.returncode} patched {r1.returncode} build {b.returncode} tests {t.returncode}'
        good = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and t.returncode == 0 and 'build failed' not in r1.stdout
        print(sid, 'OK' if good else 'BAD ' + msg)
        if not good:
            print((r0.stdout if r0.returncode else '')[-1500:], (r1.stdout if 'build failed' in r1.stdout else '')[-800:], (t.stdout if t.returncode else '')[-800:])
main()
