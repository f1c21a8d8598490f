"""writes properties.jsonl and MANIFEST.json from contracts/propdefs.py and contracts/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.propdefs import DEFS
from contracts.props import PROPS
checks, na = [], []
with open(V + '/properties.jsonl', 'w') as f:
    for d, reason in DEFS:
        f.write(json.dumps(d) + '\n')
        i = d['id']
        if i in PROPS:
            s = PROPS[i]
            note = 'Function contracts on the real code, discharged for all inputs by an SMT portfolio from ASTs extracted from /repo on every run; ' + s.get('note', '')
            if s.get('bounded'):
                note += ' Bounded (not counted as proved): ' + s['bounded'] + ' [' + s.get('bounds', '') + '].'
            note += ' Trusted: clang front end, the extractor, the symbolic executor and its library models, the solvers; see DESIGN.md.'
            checks.append(dict(property=i, quick_cmd='python3-vt engine/check.py %s quick' % i, thorough_cmd='python3-vt engine/check.py %s thorough' % i,
                               technique='contract-based deductive verification of the real C++ (weakest-precondition style symbolic execution of clang ASTs, inferred loop invariants, SMT discharge)',
                               level=s.get('level', 'proof'), level_note=' '.join(note.split())))
        else:
            na.append(dict(property=i, reason=reason or 'not reached yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
