#!/usr/bin/env python3
"""detect.py [ID...]: runs the owning property's quick check against every
(or the named) change in /verif/seeded, each in a scratch copy of /repo, and
writes tools/detections.json, from which DESIGN.md's table is made
(design_table.py). A development aid: no registered check reads /verif/seeded.
"""
import json, os, shutil, subprocess, sys, tempfile, pathlib, time

COVER = '-cover -covermode=atomic -coverpkg=github.com/zyedidia/generic/...,./cmd/vmon'
VERIF = pathlib.Path(__file__).resolve().parent.parent
def sh(c, **kw):
    return subprocess.run(['bash', '-c', c], capture_output=True, text=True, **kw)

store = VERIF / 'tools/detections.json'
res = json.loads(store.read_text()) if store.exists() else {}
ids = sys.argv[1:] or sorted(p.name for p in (VERIF/'seeded').iterdir())
root = pathlib.Path(tempfile.mkdtemp(prefix='detect.', dir='/tmp'))
try:
    scratch = root / 'repo'
    sh(f'cp -a /repo {scratch}; git -C {scratch} checkout -q -f HEAD')
    (root/'go.mod').write_text((VERIF/'harness/go.mod').read_text().replace('=> /repo', f'=> {scratch}'))
    shutil.copy(VERIF/'harness/go.sum', root/'go.sum')
    sh(f'git -C {VERIF} archive HEAD harness | tar -x -C {root}') # as committed, so that work can go on
    env = f'. {VERIF}/env.sh; cd {root}/harness; '
    for sid in ids:
        d = VERIF/'seeded'/sid
        prop = json.loads((d/'meta.json').read_text())['property']
        a = sh(f'git -C {scratch} apply {d}/patch.diff')
        if a.returncode:
            print(sid, 'does not apply:', a.stderr); continue
        b = sh(env + f'go build -modfile={root}/go.mod -o {root}/vmon ./cmd/vmon')
        race = ''
        modes = sh(f'{root}/vmon list | grep "^{prop} "').stdout
        if b.returncode == 0 and 'mode=race' in modes:
            b = sh(env + f'go build -race -modfile={root}/go.mod -o {root}/vmon-race ./cmd/vmon')
            race = f'-racebin {root}/vmon-race'
        if b.returncode == 0 and 'mode=work' in modes:
            b = sh(env + f'go build {COVER} -modfile={root}/go.mod -o {root}/vmon-work ./cmd/vmon')
            race += f' -workbin {root}/vmon-work'
        t = time.time()
        c = sh(env + f'TMPDIR={root} timeout 900 {root}/vmon check -prop {prop} -tier quick -seed 1 -root {root}/vr {race}')
        t = time.time() - t
        caught = c.returncode == 1 and f'VIOLATION property={prop} ' in c.stdout
        where = ''
        for l in c.stdout.splitlines():
            l = l.strip()
            if '/' in l and ': ' in l and 'VIOLATION' not in l and not l.startswith('OK'):
                where = l.split(': ')[0]; break
        res[sid] = {'caught': caught, 'scenario': where.rsplit('/', 1)[0], 'seconds': round(t, 1)}
        print(sid, 'CAUGHT' if caught else f'MISSED rc={c.returncode}', where, f'{t:.1f}s', flush=True)
        if not caught: print(c.stdout[-400:], b.stderr[-400:])
        sh(f'git -C {scratch} checkout -q -f HEAD')
        store.write_text(json.dumps(res, indent=1) + '\n')
finally:
    shutil.rmtree(root)
res = {k: v for k, v in sorted(res.items()) if (VERIF/'seeded'/k).exists()}
store.write_text(json.dumps(res, indent=1) + '\n')
print(sum(v['caught'] for v in res.values()), 'of', len(res), 'caught')
