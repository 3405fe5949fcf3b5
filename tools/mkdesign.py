"""Writes DESIGN.md: head, the table of contracts (from the contracts themselves), tail and the planted bugs."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
for f in sorted(glob.glob(V + '/contracts/c[0-9]*.py')):
    importlib.import_module('contracts.' + os.path.basename(f)[:-3])
from engine.contract import REGISTRY  # noqa: E402

by = {}
for r in REGISTRY.values():
    by.setdefault(r['prop'], []).append(r)
titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open(V + '/properties.jsonl')}
out = [open(V + '/tools/design_head.md').read()]
for p in sorted(by):
    out.append('### %s %s\n' % (p, titles[p]))
    for r in by[p]:
        if r['level'] == 'proved':
            lev = 'proved'
        else:
            lev = 'bounded, %s (%s)' % ('sampled only' if r.get('concrete_only') else 'symbolic', r['bound'])
        funcs = ', '.join(sorted({x.split(':')[1] for x in r['funcs']}))
        out.append('* `%s` - %s. %s [%s]' % (r['fn'].__name__, lev, ' '.join((r['fn'].__doc__ or '').split()), funcs))
    out.append('')
out.append(open(V + '/tools/design_tail.md').read())
caught = json.load(open(V + '/tools/caught.json'))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append('* `%s` (%s): %s Needs: %s. %s' % (n, m['property'], m['what_it_breaks'].rstrip('.').capitalize() + '.', m['needs'],
                                                  caught.get(n, 'Not yet run.')))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
