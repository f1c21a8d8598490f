"""try planted changes in an isolated copy of /repo (private mount, pid and network namespace)
usage: seed.py ID... | --all   [--notest] [--checks all]"""
import json, os, shutil, subprocess, sys, time
W = '/tmp/sw'
RES = W + '/results'
INNER = r'''
set -u
mount --bind {w}/repo /repo
mount --bind {w}/verif /verif
ip link set lo up 2>/dev/null || ifconfig lo up 2>/dev/null
cd /repo
git config --global --add safe.directory '*' 2>/dev/null
git checkout -q -- . || exit 90
git apply {seed}/patch.diff || {{ echo "PATCH FAILS"; exit 91; }}
bash /opt/vp/build.sh > {log}.build 2>&1 || {{ echo "BUILD FAILS"; tail -30 {log}.build; exit 92; }}
echo "-- demo with the change"
( bash {seed}/demo.sh > {log}.demo 2>&1 ); echo "demo rc=$?"
if [ "{test}" = 1 ]; then
  bash /opt/vp/test.sh {log}.tests.json > {log}.tests 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('{log}.tests.json'))
st=b['stable']
miss=[x for x in st if x not in set(t['passed'])]
print('tests missing:', len(miss), miss[:6])
P
fi
cd /verif
for c in {checks}; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt engine/check.py $c > {log}.check.$c 2>&1; echo "check $c rc=$?"; grep -h "^VIOLATION" {log}.check.$c; tail -1 {log}.check.$c
done
cd /repo && git checkout -q -- . 
'''


def sync():
    os.makedirs(W, exist_ok=True)
    os.makedirs(RES, exist_ok=True)
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '/.git/index.lock', '/repo/', W + '/repo/'])
    subprocess.check_call(['rsync', '-a', '--delete', '--exclude', '/evidence', '/verif/', W + '/verif/'])
    os.makedirs(W + '/verif/evidence', exist_ok=True)


def one(i, test, allc, claimed):
    seed = '/tmp/sw/seeds/' + i
    os.makedirs('/tmp/sw/seeds', exist_ok=True)
    shutil.rmtree(seed, ignore_errors=True)
    shutil.copytree('/verif/seeded/' + i, seed)
    meta = json.load(open(seed + '/meta.json'))
    log = RES + '/' + i
    checks = claimed if allc else [meta['property']]
    # the demonstration on the unchanged tree
    r0 = subprocess.run(['unshare', '-Urmnpf', '--mount-proc', 'bash', '-c', 'mount --bind %s/repo /repo; ip link set lo up; cd /repo && bash %s/demo.sh > %s.demo0 2>&1' % (W, seed, log)])
    t = time.time()
    r = subprocess.run(['unshare', '-Urmnpf', '--mount-proc', 'bash', '-c', INNER.format(w=W, seed=seed, log=log, test=int(test), checks=' '.join(checks))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(errors='replace')
    got = [l for l in out.split('\n') if l.startswith('VIOLATION')]
    rf = '/verif/tools/seed_results.json'
    try:
        sr = json.load(open(rf))
    except Exception:
        sr = {}
    by = []
    for l in got:
        p = l.split('property=')[1].split()[0]
        k = p + (' (failed obligation)' if 'no-failing-input-found' in l else ' (failing input)')
        if k not in by:
            by.append(k)
    if 'check ' in out:
        sr[i] = ', '.join(by) or 'missed'
        json.dump(sr, open(rf, 'w'), indent=1, sort_keys=True)
    print('=== %s (%s) demo-clean rc=%s  %.0fs\n%s' % (i, meta['property'], r0.returncode, time.time() - t, r.stdout.decode(errors='replace')), flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    test = '--notest' not in a
    allc = '--checks' in a
    ids = [x for x in a if not x.startswith('--') and x != 'all']
    if '--all' in a:
        ids = sorted(os.listdir('/verif/seeded'))
    claimed = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
    sync()
    for i in ids:
        one(i, test, allc, claimed)
