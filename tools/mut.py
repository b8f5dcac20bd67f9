#!/usr/bin/env python3
"""Development aid (no check uses it): run checks against small edits of /repo.
mut.py [-j N] [FILTER...]   edits are listed in mutants.txt:
  === id | bug C01,C02 | file      (bug: those checks must report)
  === id | ok * | file             (behaviour kept: every check must be quiet)
  <<<  old  ===>  new  >>>         (one or more replacements; 'file: path' switches file)
"""
import sys, os, re, subprocess, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', CGO_ENABLED='0')
def parse():
    out = []
    cur = None
    for part in re.split(r'^=== ', open(V + '/tools/mutants.txt').read(), flags=re.M)[1:]:
        head, body = part.split('\n', 1)
        i, kind, f = [x.strip() for x in head.split('|')]
        kind, props = kind.split()
        reps = []
        pos = 0
        for m in re.finditer(r'^file: (\S+)$|^<<<\n(.*?)^===>\n(.*?)^>>>$', body, flags=re.M | re.S):
            if m.group(1):
                f = m.group(1)
            else:
                reps.append((f, m.group(2), m.group(3)))
        out.append((i, kind, props.split(','), reps))
    return out
def run(m, ids, an):
    i, kind, props, reps = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for f, o, n in reps:
            p = d + '/' + f
            s = open(p).read()
            if s.count(o) < 1 and s.count(o[:-1]) == 1:
                o, n = o[:-1], n[:-1]
            if s.count(o) < 1:
                return i, kind, 'PATTERN NOT FOUND in ' + f + ': ' + o[:60]
            s = s.replace(o, n, 1)
            open(p, 'w').write(s)
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=dict(os.environ, GOFLAGS='-buildvcs=false'), capture_output=True, text=True)
        if b.returncode:
            return i, kind, 'NO BUILD ' + b.stderr[:300]
        sel = ids if '*' in props or os.environ.get('ALL') else props
        if kind == 'bug' and os.environ.get('ALL'):
            sel = ids
        vd = d + '/.v'
        os.mkdir(vd)
        shutil.copy(V + '/known-findings.txt', vd)
        r = subprocess.run([an, '-repo', d, '-verif', vd] + sel, env=ENV, capture_output=True, text=True)
        bad = sorted(set(re.findall(r'VIOLATION property=(\S+)', r.stdout)))
        why = {}
        for p in bad:
            try:
                t = open(vd + '/evidence/' + p + '.violations.txt').read()
                why[p] = t.split('\n')[0][:160]
            except Exception:
                why[p] = '?'
        if kind == 'bug':
            miss = [p for p in props if p not in bad]
            return i, kind, ('MISSED by ' + ','.join(miss) if miss else 'caught') + (' ' + str(why) if os.environ.get('WHY') else (' by ' + ','.join(bad)))
        return i, kind, 'quiet' if not bad else 'FALSE ALARM ' + str(why)
    finally:
        shutil.rmtree(d)
def main():
    fl = [a for a in sys.argv[1:] if not a.startswith('-')]
    an = '/tmp/mut-an'
    subprocess.run(['go', 'build', '-o', an, '.'], cwd=V + '/analyzer', env=ENV, check=True)
    ids = subprocess.run([an, '-list'], capture_output=True, text=True).stdout.split()
    ms = [m for m in parse() if not fl or any(f in m[0] or f in m[2] or f == m[1] for f in fl)]
    bad = 0
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for i, kind, r in ex.map(lambda m: run(m, ids, an), ms):
            flag = '' if r.startswith('caught') or r == 'quiet' else '   <<<<<<'
            bad += bool(flag)
            print(f'{i:34} {kind:4} {r}{flag}', flush=True)
    print(len(ms), 'edits,', bad, 'unexpected')
main()
