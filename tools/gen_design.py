#!/usr/bin/env python3
"""Writes DESIGN.md from the checks' rules, the notes, the planted bugs and the edits."""
import json, re, glob, collections, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/'
props=[json.loads(l) for l in open(V+'properties.jsonl')]
desc = dict(l.split('\t', 1) for l in subprocess.run([V + '.build/ferrycheck', '-rules'], capture_output=True, text=True).stdout.splitlines())
seeds=collections.defaultdict(list)
for f in sorted(glob.glob(V+'seeded/*/meta.json')):
    m=json.load(open(f)); seeds[m['property']].append(f.split('/')[-2])
bug=collections.Counter(); ok=collections.Counter()
for l in open(V+'tools/mutants.txt'):
    if l.startswith('=== '):
        a=[x.strip() for x in l[4:].split('|')]
        k,ps=a[1].split(None,1)
        for p in re.split(r'[ ,]+',ps): (bug if k=='bug' else ok)[p]+=1
fixed=collections.Counter(re.findall(r'^fixed: property=(C\d+)',open(V+'known-findings.txt').read(),re.M))
notes=json.load(open(V+'tools/design_notes.json'))
na=json.load(open(V+'tools/not_applicable.json'))
tail=open(V+'tools/design_tail.md').read()
N=sum(l.split('|')[1].strip().startswith('bug') for l in open(V+'tools/mutants.txt') if l.startswith('=== '))
K=sum(l.split('|')[1].strip().startswith('ok') for l in open(V+'tools/mutants.txt') if l.startswith('=== '))
tail=tail.replace('%SEEDS%',str(sum(map(len,seeds.values())))).replace('%BUG%',str(N)).replace('%OK%',str(K))
out=[open(V+'tools/design_head.md').read()]
for p in props:
    i=p['id']
    if i in na: continue
    n=notes.get(i,{})
    out.append(f"### {i} {p['title']}\n")
    out.append("Decided by: "+(n.get('how') or desc.get(i,''))+".\n")
    if n.get('entries'): out.append("Analysed: "+n['entries']+".\n")
    if n.get('limits'): out.append("Bounds and assumptions: "+n['limits']+".\n")
    out.append("Tried on: %s; %d breaking and %d behaviour-preserving edits.%s\n"%(
      'planted '+', '.join(seeds[i])+' (caught)' if seeds[i] else 'no kept planted bug',bug[i],ok[i],
      ' %d defect%s of ferryd found and repaired.'%(fixed[i],'s' if fixed[i]>1 else '') if fixed[i] else ''))
out.append("## Not applicable\n")
for i,r in na.items():
    t=[p['title'] for p in props if p['id']==i][0]
    out.append(f"* {i} ({t}): {r}")
out.append('\n'+tail)
open(V+'DESIGN.md','w').write('\n'.join(out))
