#!/usr/bin/env python3
# BOUNDS.md: what each family of each check enumerates, from the evidence of the last runs.
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {}
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    titles[p['id']] = p['title']
out = ['# Bounds and sizes of every family', '',
       'Written by tools/gen_bounds.py from evidence/*.json (quick tier, 8 cores). Every family enumerates its whole space; '
       '"cases" are executions of the code under check, "states" distinct abstract states, "steps" transitions judged.', '']
for f in sorted(glob.glob(root + '/evidence/C*.json')):
    e = json.load(open(f))
    i = os.path.basename(f)[:-5]
    out += ['## %s %s' % (i, titles.get(i, '')), '', '| family | cases | states | steps | bound |', '|---|---|---|---|---|']
    for x in e['coverage']['families']:
        out.append('| %s | %s | %s | %s | %s |' % (x['family'], x['cases'], x['states'], x['transitions'], x['bound'].replace('|', '\\|')))
    out.append('')
open(root + '/BOUNDS.md', 'w').write('\n'.join(out))
