"""new.py SPEC.py: SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (C++ text)"""
import sys, os, json, subprocess, shutil, runpy
K = os.path.dirname(os.path.abspath(__file__))
for sp in sys.argv[1:]:
    s = runpy.run_path(sp)
    seeds = s['SEEDS'] if 'SEEDS' in s else [s]
    for z in seeds:
        d = '/verif/seeded/' + z['id']
        os.makedirs(d, exist_ok=True)
        w = '/tmp/sw/patchtree'
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        for f in {e[0] for e in z['edits']}:
            os.makedirs(os.path.dirname(w + '/a/' + f), exist_ok=True)
            os.makedirs(os.path.dirname(w + '/b/' + f), exist_ok=True)
            shutil.copy('/repo/' + f, w + '/a/' + f)
            shutil.copy('/repo/' + f, w + '/b/' + f)
        for f, old, new in z['edits']:
            t = open(w + '/b/' + f).read()
            assert t.count(old) == 1, (z['id'], f, t.count(old), old)
            open(w + '/b/' + f, 'w').write(t.replace(old, new))
        r = subprocess.run(['diff', '-ruN', 'a', 'b'], cwd=w, stdout=subprocess.PIPE)
        out = b'\n'.join(l for l in r.stdout.split(b'\n') if not l.startswith(b'diff -ruN'))
        open(d + '/patch.diff', 'wb').write(out)
        open(d + '/demo.cc', 'w').write(z['demo'])
        shutil.copy(K + '/demo.sh', d + '/demo.sh')
        for n, t in z.get('files', {}).items():
            open(d + '/' + n, 'w').write(t)
        json.dump({'property': z['property'], 'needs': z['needs'], 'what_it_breaks': z['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(z['id'], subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff']).returncode)
