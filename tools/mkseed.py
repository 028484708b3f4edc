#!/usr/bin/env python3
"""mkseed.py SPEC.py...: makes /verif/seeded/<id>/ from specs and confirms each.

A spec file defines SEEDS, a list of dicts: id, prop, needs, breaks,
edits [(file, old, new)], demo (a Go program; IMPORTS are its own), race (bool).
In a scratch copy of /repo each patch is applied, must build, must pass the
stable tests, and its demo must exit 0 without and nonzero with it. Then the
property's check is built against the scratch copy and run (only to report).
-k ID,ID restricts; -n skips the checks.
"""
import json, os, shutil, subprocess, sys, tempfile, pathlib, re

COVER = '-cover -covermode=atomic -coverpkg=github.com/zyedidia/generic/...,./cmd/vmon'
VERIF = pathlib.Path('/verif')
DEMO_SH = r'''#!/bin/bash
# Exit 0 if the demonstration passes against the repository in the current
# directory, nonzero if it fails. Writes only to a scratch directory of its own.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
d=$(mktemp -d) || exit 0
trap 'rm -rf -- "$d"' EXIT
cp "$here/demo.go" "$d/main.go" || exit 0
cp "$repo/go.sum" "$d/go.sum"
sed -e 's/^module .*/module demo/' -e 's/^go .*/go 1.22/' "$repo/go.mod" >"$d/go.mod"
printf '\nrequire github.com/zyedidia/generic v0.0.0\nreplace github.com/zyedidia/generic => %s\n' "$repo" >>"$d/go.mod"
cd "$d" || exit 0
go build RACE-o demo . || { echo "the demonstration does not build"; exit 0; }
timeout 120 ./demo
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def main():
    args = sys.argv[1:]
    only, checks, specs = None, True, []
    while args:
        a = args.pop(0)
        if a == '-k': only = set(args.pop(0).split(','))
        elif a == '-n': checks = False
        else: specs.append(a)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    root = pathlib.Path(tempfile.mkdtemp(prefix='seed.', dir='/tmp'))
    bad = 0
    try:
        scratch = root / 'repo'
        sh(f'cp -a /repo {scratch}; git -C {scratch} checkout -q -f HEAD')
        if checks:
            mod = (VERIF/'harness/go.mod').read_text().replace('=> /repo', f'=> {scratch}')
            (root/'go.mod').write_text(mod)
            shutil.copy(VERIF/'harness/go.sum', root/'go.sum')
        for spec in specs:
            ns = {}
            exec(open(spec).read(), ns)
            for s in ns['SEEDS']:
                if only and s['id'] not in only: continue
                bad += one(s, root, scratch, base, checks)
                sh(f'git -C {scratch} checkout -q -f HEAD')
    finally:
        shutil.rmtree(root)
    sys.exit(1 if bad else 0)

def one(s, root, scratch, base, checks):
    sid = s['id']
    out = root / 'out' / sid
    out.mkdir(parents=True)
    (out/'demo.go').write_text(s['demo'].lstrip('\n'))
    (out/'demo.sh').write_text(DEMO_SH.replace('RACE', '-race ' if s.get('race') else ''))
    os.chmod(out/'demo.sh', 0o755)
    f = sh(f'cd {out} && gofmt -l demo.go')
    if f.stdout: sh(f'gofmt -w {out}/demo.go')
    d0 = sh(f'bash {out}/demo.sh', cwd=scratch)
    if d0.returncode or 'does not build' in d0.stdout:
        print(f'{sid}: BAD demo fails or does not build without the patch: {d0.stdout[-800:]}{d0.stderr[-1500:]}'); return 1
    for file, old, new in s['edits']:
        p = scratch / file
        t = p.read_text()
        if t.count(old) != 1:
            print(f'{sid}: BAD {t.count(old)} matches in {file} of:\n{old}'); return 1
        p.write_text(t.replace(old, new))
    env = dict(os.environ)
    e = '. /opt/vp/env.sh; '
    sh(e + 'gofmt -w ' + ' '.join({f for f, _, _ in s['edits']}), cwd=scratch)
    b = sh(e + 'go build ./... && go vet ./...', cwd=scratch)
    if b.returncode:
        print(f'{sid}: BAD does not build: {b.stderr[-1500:]}'); return 1
    t = sh(f'sed "s#cd /repo#cd {scratch}#" /opt/vp/test.sh > {root}/test.sh; bash {root}/test.sh {root}/t.json')
    r = json.load(open(root/'t.json'))
    passed = set(r.get('passed', []))
    lost = [x for x in base if x not in passed]
    if lost:
        print(f'{sid}: BAD tests fail: {lost[:5]}'); return 1
    d1 = sh(f'bash {out}/demo.sh', cwd=scratch)
    if d1.returncode == 0:
        print(f'{sid}: BAD demo passes with the patch: {d1.stdout[-500:]}'); return 1
    diff = sh('git diff', cwd=scratch).stdout
    (out/'patch.diff').write_text(diff)
    (out/'meta.json').write_text(json.dumps(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), indent=1) + '\n')
    dst = VERIF/'seeded'/sid
    if dst.exists(): shutil.rmtree(dst)
    shutil.copytree(out, dst)
    msg = f'{sid}: ok (demo: {(d1.stdout+d1.stderr).strip().splitlines()[:1]})'
    if checks:
        env_sh = f'. {VERIF}/env.sh; cd {VERIF}/harness; '
        b = sh(env_sh + f'go build -modfile={root}/go.mod -o {root}/vmon ./cmd/vmon')
        if b.returncode: print(msg, 'HARNESS DOES NOT BUILD', b.stderr[-500:]); return 1
        race = ''
        if s['prop'] in ('C07', 'C22', 'C30'):
            sh(env_sh + f'go build -race -modfile={root}/go.mod -o {root}/vmon-race ./cmd/vmon')
            race = f'-racebin {root}/vmon-race'
        if s['prop'] in ('C33',):
            sh(env_sh + f'go build {COVER} -modfile={root}/go.mod -o {root}/vmon-work ./cmd/vmon')
            race = f'-workbin {root}/vmon-work'
        c = sh(env_sh + f'TMPDIR={root} timeout 900 {root}/vmon check -prop {s["prop"]} -tier quick -seed 1 -root {root}/vr {race}')
        v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'INCONC' in l]
        caught = c.returncode == 1 and any(l.startswith('VIOLATION property=' + s['prop']) for l in v)
        msg += ('  CAUGHT ' if caught else f'  **MISSED** rc={c.returncode} ') + c.stdout.strip()[-260:].replace('\n', ' | ')
    print(msg, flush=True)
    return 0

main()
