#!/usr/bin/env python3
"""Helper used while planting bugs: seed(id, prop, edits, pkg, demo, needs, breaks)
writes seeded/<id>/, after confirming in a scratch copy that the change builds,
passes the existing tests, and fails the demonstration, which passes without it.
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {**os.environ, 'GOFLAGS': '-mod=mod', 'GOPROXY': 'off'}
DEMO = '''#!/bin/bash
# run with cwd at the repository: exits 0 when the property holds here
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/@PKG@zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off
go test -vet=off -count=1 -timeout 120s @FLAGS@-overlay "$t/overlay.json" -run '^TestDemo' ./@PKG@
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env={**ENV, **kw})
def tests(R):
    for _ in range(3):
        r = sh(['go', 'test', './...'], R)
        if r.returncode == 0: return True, ''
    return False, ' '.join(l.strip() for l in r.stdout.splitlines() if '--- FAIL' in l)[:300] or r.stderr[:300]
def seed(id, prop, edits, pkg, demo, needs, breaks, flags='', checks=None):
    d = os.path.join(ROOT, 'seeded', id); os.makedirs(d, exist_ok=True)
    pk = pkg.strip('./'); pk = pk + '/' if pk else ''
    open(d + '/demo_test.go', 'w').write(demo.lstrip())
    open(d + '/demo.sh', 'w').write(DEMO.replace('@PKG@', pk).replace('@FLAGS@', flags and flags + ' '))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    T = tempfile.mkdtemp(prefix='seed.', dir='/tmp'); R = T + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', R], check=True)
        ok = True
        base = sh([d + '/demo.sh'], R)
        if base.returncode: print(id, 'DEMO FAILS ON BASE', (base.stdout + base.stderr)[-1500:]); ok = False
        for f, old, new in edits:
            s = open(os.path.join(R, f)).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            for l in old.splitlines():
                pass
            open(os.path.join(R, f), 'w').write(s.replace(old, new))

        r = sh(['go', 'vet', './...'], R)
        r = sh(['go', 'build', './...'], R)
        if r.returncode: print(id, 'BUILD', r.stderr[:800]); return False
        diff = sh(['git', 'diff'], R).stdout
        open(d + '/patch.diff', 'w').write(diff)
        # original lines only?
        orig = set(l for f, _, _ in edits for l in sh(['git', 'show', 'baedfed:' + f], '/repo').stdout.splitlines())
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in orig: print(id, 'NOT ORIGINAL:', l)
        t, why = tests(R)
        if not t: print(id, 'TESTS FAIL', why); ok = False
        r = sh([d + '/demo.sh'], R)
        if not r.returncode: print(id, 'DEMO PASSES WITH PATCH'); ok = False
        caught = []
        for c in checks or [prop]:
            r = sh(['./check.sh', c, 'quick'], ROOT, VERIF_REPO=R)
            caught.append((c, r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:1] or (r.stdout + r.stderr)[-300:]))
        print(id, 'ok' if ok else 'NOT OK', caught)
        return ok
    finally:
        shutil.rmtree(T)
