#!/usr/bin/env python3
"""refactor.py [-p C01,C02] [-s SEED] [-t TIER] [DIFF...]: applies behaviour-preserving rewrites of
the library (default: all in tools/refactors), each in a scratch copy of /repo,
and runs the checks against it: every one must stay quiet. Development aid."""
import json, os, shutil, subprocess, sys, tempfile, pathlib
COVER = '-cover -covermode=atomic -coverpkg=github.com/zyedidia/generic/...,./cmd/vmon'
VERIF = pathlib.Path(__file__).resolve().parent.parent
def sh(c, **kw): return subprocess.run(['bash', '-c', c], capture_output=True, text=True, **kw)
props = [json.loads(l)['id'] for l in open(VERIF/'properties.jsonl')]
seed, tier, diffs = '1', 'quick', []
a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == '-p': props = a.pop(0).split(',')
    elif x == '-s': seed = a.pop(0)
    elif x == '-t': tier = a.pop(0)
    else: diffs.append(pathlib.Path(x).resolve())
diffs = diffs or sorted((VERIF/'tools/refactors').glob('*.diff'))
root = pathlib.Path(tempfile.mkdtemp(prefix='refactor.', dir='/tmp'))
bad = 0
try:
    scratch = root/'repo'
    sh(f'cp -a /repo {scratch}; git -C {scratch} checkout -q -f HEAD')
    (root/'go.mod').write_text((VERIF/'harness/go.mod').read_text().replace('=> /repo', f'=> {scratch}'))
    shutil.copy(VERIF/'harness/go.sum', root/'go.sum')
    env = f'. {VERIF}/env.sh; cd {VERIF}/harness; '
    for d in diffs:
        r = sh(f'git -C {scratch} apply {d}')
        if r.returncode: print(d.name, 'does not apply', r.stderr); bad += 1; continue
        for flag, out in (('', 'vmon'), ('-race', 'vmon-race'), (COVER, 'vmon-work')):
            r = sh(env + f'go build {flag} -modfile={root}/go.mod -o {root}/{out} ./cmd/vmon')
            if r.returncode: print(d.name, 'build fails', r.stderr[-800:]); bad += 1
        for p in props:
            c = sh(env + f'TMPDIR={root} timeout 900 {root}/vmon check -prop {p} -tier {tier} -seed {seed} -root {root}/vr -racebin {root}/vmon-race -workbin {root}/vmon-work')
            if c.returncode:
                bad += 1
                print(d.name, p, 'ALARM rc', c.returncode, c.stdout.strip()[-1200:], c.stderr[-300:], flush=True)
        print(d.name, 'done', flush=True)
        sh(f'git -C {scratch} checkout -q -f HEAD; git -C {scratch} clean -qfd')
finally:
    shutil.rmtree(root)
sys.exit(bad > 0)
