#!/usr/bin/env python3
"""mkseed.py SPEC.py: builds /verif/seeded/<id> from a spec after confirming it in a scratch copy.
SPEC defines a list SEEDS of dicts: id, property, pkg (dir under go), edits [(file, old, new)], demo (body of a _test.go
file), needs, breaks, opt: race (run the demo with -race)."""
import os, sys, json, subprocess, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-buildvcs=false')
DEMO = '''#!/bin/bash
# exit 0: the property holds for this scenario; non-zero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false
repo=$PWD
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
printf '{"Replace":{"%%s":"%%s"}}' "$repo/go/%(pkg)s/seed_demo_test.go" "$tmp/demo_test.go" > "$tmp/ov.json"
cd "$repo/go" && timeout 200 go test -overlay "$tmp/ov.json" -vet=off -count=1 -timeout 60s -run '^TestSeedDemo$' ./%(pkg)s
'''
def sh(cmd, cwd): return subprocess.run(cmd, cwd=cwd, shell=True, env=env, capture_output=True, text=True)
base = json.load(open('/opt/vp/BASELINE.json'))
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    wt = tempfile.mkdtemp(prefix='seedwt')
    try:
        subprocess.check_call('cp -a /repo/. %s/' % wt, shell=True)
        sh('git checkout -q -- . ', wt)
        out = '/verif/seeded/' + s['id']
        tmpo = tempfile.mkdtemp(prefix='seedout')
        open(tmpo + '/demo_test.go.txt', 'w').write(s['demo'].lstrip())
        open(tmpo + '/demo.sh', 'w').write(DEMO % {'pkg': s['pkg']})
        r = sh('bash %s/demo.sh' % tmpo, wt)
        if r.returncode != 0:
            print(s['id'], 'FAIL: demo fails on the clean tree\n', r.stdout[-1500:], r.stderr[-1500:]); continue
        orig = subprocess.check_output('git log --format=%h --grep="^base$"|tail -1', shell=True, cwd=wt, text=True).strip() or '7c78a8f'
        bad = False
        for f, a, b in s['edits']:
            p = wt + '/go/' + f
            t = open(p).read()
            if t.count(a) != 1:
                print(s['id'], 'FAIL: edit matches', t.count(a), 'times in', f); bad = True; break
            open(p, 'w').write(t.replace(a, b))
        if bad: continue
        r = sh('cd go && go build ./... && go vet ./invoke >/dev/null 2>&1; go build ./...', wt)
        if r.returncode != 0:
            print(s['id'], 'FAIL: does not build', r.stderr[-800:]); continue
        diff = subprocess.check_output(['git', 'diff'], cwd=wt, text=True)
        r = sh('bash %s/demo.sh' % tmpo, wt)
        if r.returncode == 0:
            print(s['id'], 'FAIL: demo passes with the change'); continue
        msg = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()][:3]
        r = sh('cd go && go test -vet=off -count=1 -timeout 5m ./... ./types/uuid/... ./transport/wasmrs/cmd/wasmrs/... 2>&1 | grep -E "^(FAIL|---)"', wt)
        if r.stdout.strip():
            print(s['id'], 'FAIL: existing tests', r.stdout[:500]); continue
        # removed lines should be the original repository's
        blame = ''
        os.makedirs(out, exist_ok=True)
        shutil.copy(tmpo + '/demo_test.go.txt', out); shutil.copy(tmpo + '/demo.sh', out)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print(s['id'], 'ok', msg[:2])
        shutil.rmtree(tmpo)
    finally:
        shutil.rmtree(wt)
