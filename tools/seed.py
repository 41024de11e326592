#!/usr/bin/env python3
"""Makes and confirms a planted bug.
seed.py ID PROP PKG FILE DEMO 'needs' 'breaks' <<< replacements   (blocks: <<<< old ==== new >>>>)
DEMO: a Go test file (package clause included) with TestDemo. Works in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys, tempfile
sid, prop, pkg, demo, needs, breaks = sys.argv[1:7]
spec = sys.stdin.read()
wt = tempfile.mkdtemp(prefix='seed-')
try:
    subprocess.check_call(['cp', '-a', '/repo', wt + '/repo'])
    r = wt + '/repo'
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=r)
    for m in re.finditer(r'^@@@ (\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$', spec, re.S | re.M):
        f, old, new = m.groups()
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit('%s: %d occurrences of %r' % (f, s.count(old), old))
        open(p, 'w').write(s.replace(old, new))
    d = subprocess.check_output(['git', 'diff'], cwd=r).decode()
    if not d:
        sys.exit('no change')
    out = '/verif/seeded/' + sid
    os.makedirs(out, exist_ok=True)
    shutil.copy(demo, out + '/demo_test.go.txt')
    open(out + '/patch.diff', 'w').write(d)
    race = '-race ' if '//demo:race' in open(demo).read() else ''
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$d/demo_test.go.txt" "$t/demo_test.go"
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$t/demo_test.go\\"}}" > "$t/o.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go test %s-overlay "$t/o.json" -vet=off -count=1 -timeout 250s -run '^TestDemo$' ./%s
''' % (pkg, race, pkg))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
    env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
    a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    b = subprocess.run(['bash', out + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print('demo: unchanged rc=%d, changed rc=%d' % (a.returncode, b.returncode))
    bo = b.stdout.decode()
    if a.returncode != 0 or b.returncode == 0 or 'build failed' in bo:
        print(a.stdout.decode()[-2500:]); print(bo[-2500:]); sys.exit('BAD DEMO')
    print(bo[-300:])
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    pk = sorted({t.rsplit('/Test', 1)[0] for t in base})
    o = subprocess.run('go build $(go list -e ./... | grep -v /cmd/stl2svx$) && go test -vet=off -count=1 %s' % ' '.join(pk), shell=True, cwd=r, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print('tests rc=%d' % o.returncode)
    if o.returncode:
        print(o.stdout.decode()[-3000:]); sys.exit('TESTS FAIL')
finally:
    shutil.rmtree(wt)
