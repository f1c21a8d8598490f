"""writes DESIGN.md from tools/DESIGN.in.md, the property definitions, the evidence of the last runs and tools/seed_results.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.propdefs import DEFS
from contracts.props import PROPS
pt, na = [], []
for d, reason in DEFS:
    i = d['id']
    if i not in PROPS:
        na.append('* **%s** %s. %s' % (i, d['title'], reason or 'not reached yet'))
        continue
    s = PROPS[i]
    e = {}
    try:
        e = json.load(open(V + '/evidence/%s.json' % i))
    except Exception:
        pass
    cov = e.get('coverage', {})
    pr = [f['contract'].replace('fdb5::', '').replace('chunked_data_view::', '') for f in cov.get('functions_under_contract', []) if f['status'] == 'proved']
    np = ['%s (%s)' % (f['contract'].replace('fdb5::', ''), f['reason']) for f in cov.get('functions_under_contract', []) if f['status'] != 'proved']
    t = '### %s %s\n' % (i, d['title'])
    t += '*Proved for all inputs* (%s obligations, %s s wall in all): %s.\n' % (cov.get('discharged'), e.get('wall_s', e.get('wall', '?')), ', '.join('`%s`' % x for x in dict.fromkeys(pr)) or 'none')
    if np:
        t += '*Under contract, not proved*: %s.\n' % '; '.join(np)
    if s.get('note'):
        t += s['note'].strip() + '\n'
    if s.get('bounded'):
        t += '*Bounded stand-in* (`%s`): %s; bounds: %s.\n' % (', '.join(s.get('harness', [])), s['bounded'], s.get('bounds', ''))
    t += '*Why tests cannot*: %s.\n' % d['why_tests_cant']
    for a in s.get('assumptions', []):
        t += '*Assumed*: %s\n' % a
    pt.append(t)
sr = {}
try:
    sr = json.load(open(V + '/tools/seed_results.json'))
except Exception:
    pass
st = ['| planted bug | property | reported by |', '|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    try:
        m = json.load(open(V + '/seeded/%s/meta.json' % s))
    except Exception:
        continue
    st.append('| %s: %s | %s | %s |' % (s, m['what_it_breaks'], m['property'], sr.get(s, 'not run yet')))
t = open(V + '/tools/DESIGN.in.md').read()
for k, v in [('PROPTABLE', '\n'.join(pt)), ('NATABLE', '\n'.join(na) or 'none'), ('SEEDTABLE', '\n'.join(st)), ('FINDINGS\n', '')]:
    t = t.replace(k, v)
open(V + '/DESIGN.md', 'w').write(t)
