#!/usr/bin/env python3
"""Development aid: which checks report which planted change. seedcheck.py [-a] [ID...]"""
import sys, os, re, json, subprocess, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', CGO_ENABLED='0')
def run(i, allp, an, ids):
    p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        r = subprocess.run(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return i, p, 'PATCH FAILS ' + r.stderr[:200]
        vd = d + '/.v'; os.mkdir(vd); shutil.copy(V + '/known-findings.txt', vd)
        r = subprocess.run([an, '-repo', d, '-verif', vd] + (ids if allp else [p]), env=ENV, capture_output=True, text=True)
        bad = sorted(set(re.findall(r'VIOLATION property=(\S+)', r.stdout)))
        rules = []
        if p in bad:
            rules = sorted(set(re.findall(r': \[([\w-]+)\]', open(f'{vd}/evidence/{p}.violations.txt').read())))
        return i, p, ('caught ' if p in bad else 'MISSED ') + ' '.join(bad) + ' ' + ','.join(rules)
    finally:
        shutil.rmtree(d, ignore_errors=True)
a = sys.argv[1:]
allp = '-a' in a
a = [x for x in a if x != '-a']
an = os.environ.get('AN', '/tmp/an')
ids = subprocess.run([an, '-list'], capture_output=True, text=True).stdout.split()
sel = [x for x in sorted(os.listdir(V + '/seeded')) if not a or any(x.startswith(y) for y in a)]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for r in ex.map(lambda i: run(i, allp, an, ids), sel):
        print(*r, flush=True)
