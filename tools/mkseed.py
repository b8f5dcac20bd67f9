#!/usr/bin/env python3
"""Development aid: builds and verifies /verif/seeded/<id> from tools/seeds/<id>.txt.
mkseed.py ID...        spec format:
  property: C01
  needs: ...
  breaks: ...
  pkg: src/ferryd/core          (package the demonstration runs in)
  file: path  <<< old ===> new >>>  (edits as in mutants.txt)
  --- demo
  Go test body (package clause and imports are written there too)
"""
import sys, os, re, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', CGO_ENABLED='0', HOME='/root')
DEMO = '''#!/bin/bash
# Runs the demonstration against the package in the current directory's tree.
D="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
R="$PWD"
T="$(mktemp -d)"
export TMPDIR="$T"
sep=""
{ printf '{"Replace": {'
for f in "$D"/*_test.go; do
  printf '%s"%s/@PKG@/%s": "%s"' "$sep" "$R" "$(basename "$f")" "$f"; sep=", "
done
printf '}}'; } > "$T/overlay.json"
timeout 250 go test -vet=off -count=1 @RACE@-overlay "$T/overlay.json" -run '^TestZDemo' ./@PKG@
r=$?
chmod -R u+w "$T"; rm -rf "$T"
[ $r -eq 0 ]
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def build(i):
    s = open(f'{V}/tools/seeds/{i}.txt').read()
    head, demo = s.split('\n--- demo\n', 1)
    meta = {}
    for k in ('property', 'needs', 'breaks', 'pkg'):
        m = re.search(rf'^{k}: (.*)$', head, flags=re.M)
        meta[k] = m.group(1).strip()
    out = f'{V}/seeded/{i}'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    d = tempfile.mkdtemp(prefix='seed-')
    ok = True
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
        open(out + '/zz_demo_test.go', 'w').write(demo)
        u = f'{V}/tools/seeds/util_{os.path.basename(meta["pkg"])}.go'
        if os.path.exists(u):
            shutil.copy(u, out + '/zz_util_test.go')
        open(out + '/demo.sh', 'w').write(DEMO.replace('@PKG@', meta['pkg']).replace('@RACE@', ''))
        os.chmod(out + '/demo.sh', 0o755)
        r0 = sh(['bash', out + '/demo.sh'], d)
        f = None
        for m in re.finditer(r'^file: (\S+)$|^<<<\n(.*?)^===>\n(.*?)^>>>$', head, flags=re.M | re.S):
            if m.group(1):
                f = m.group(1); continue
            p = d + '/' + f
            t = open(p).read()
            if t.count(m.group(2)) < 1:
                print(i, 'PATTERN NOT FOUND', f, m.group(2)[:80]); return False
            open(p, 'w').write(t.replace(m.group(2), m.group(3), 1))
        patch = sh(['git', 'diff'], d).stdout
        open(out + '/patch.diff', 'w').write(patch)
        json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        b = sh(['go', 'build', './...'], d)
        t = sh(['go', 'test', '-vet=off', '-count=1', './...'], d)
        r1 = sh(['bash', out + '/demo.sh'], d)
        ok = r0.returncode == 0 and b.returncode == 0 and t.returncode == 0 and r1.returncode != 0
        print(i, 'OK' if ok else 'BAD', f'clean={r0.returncode} build={b.returncode} tests={t.returncode} patched={r1.returncode}')
        if r0.returncode:
            print(r0.stdout[-1500:], r0.stderr[-1500:])
        if b.returncode: print(b.stderr[:500])
        if os.environ.get('SHOW') or (r1.returncode and 'build failed' in r1.stdout):
            print(r1.stdout[-1200:], r1.stderr[-600:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ok
if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(V + '/tools/seeds') if f.endswith('.txt'))
    sys.exit(0 if all([build(i) for i in ids]) else 1)
