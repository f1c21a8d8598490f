"""Extraction of /repo's translation units, cached by the content of the repository files they read."""
import hashlib, json, os, re, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
AST = os.environ.get('VERIF_AST', os.path.join(BUILD, 'ast'))
FDBX = os.path.join(BUILD, 'fdbx')
SITE = '/opt/vp/venv/lib/python3.12/site-packages'
GEN = os.path.join(BUILD, 'native', 'gen')


def isystems():
    r = []
    for a in ['eckitlib/include', 'eckitlib/include/eckit', 'metkitlib/include', 'metkitlib/include/metkit',
              'eckitlib/include/eckit/option', 'eccodeslib/include', 'eckitlib/include/eckit/geo',
              'eckitlib/include/eckit/codec', 'eckitlib/include/eckit/maths', 'eckitlib/include/eckit/spec']:
        r += ['-isystem', os.path.join(SITE, a)]
    return r


def includes():
    return ['-I' + REPO + '/src/chunked_data_view/include', '-I' + REPO + '/src', '-I' + GEN, '-I' + GEN + '/chunked_data_view',
            '-I' + REPO + '/src/dummy_daos']


def flags():
    return ['-std=gnu++17', '-w', '-DNDEBUG'] + includes() + isystems()


def lib_sources():
    """sources of libfdb5 and of the chunked data view library, as the project lists them"""
    out = []
    for root, ds, fs in os.walk(REPO + '/src/fdb5'):
        rel = os.path.relpath(root, REPO + '/src/fdb5')
        top = rel.split('/')[0]
        for f in fs:
            p = os.path.join(root, f)
            if not f.endswith('.cc'):
                continue
            if top in ('tools', 'compat', 'rados', 'fam'):
                continue
            if re.search(r'/src/fdb5/remote/fdb-[a-z]+\.cc$', p):
                continue
            out.append(p)
    out += [REPO + '/src/fdb5/fam/FamFieldLocation.cc', REPO + '/src/fdb5/tools/FDBTool.cc', REPO + '/src/fdb5/tools/FDBVisitTool.cc']
    cdv = []
    for root, ds, fs in os.walk(REPO + '/src/chunked_data_view'):
        for f in fs:
            if f.endswith('.cc'):
                cdv.append(os.path.join(root, f))
    return sorted(p for p in out if os.path.exists(p)), sorted(cdv)


_hash = {}


def fhash(p):
    if p not in _hash:
        try:
            with open(p, 'rb') as fh:
                _hash[p] = hashlib.sha1(fh.read()).hexdigest()
        except OSError:
            _hash[p] = 'absent'
    return _hash[p]


def _slug(src):
    return os.path.relpath(src, REPO).replace('/', '__')


def _key(src, deps):
    h = hashlib.sha1()
    for d in sorted(set(deps) | {src}):
        h.update(d.encode())
        h.update(fhash(d).encode())
    return h.hexdigest()


def cached(src):
    """path of an up-to-date extraction of src, or None"""
    meta = os.path.join(AST, _slug(src) + '.meta')
    try:
        m = json.load(open(meta))
    except Exception:
        return None
    if m.get('fdbx') != fhash(FDBX) or not os.path.exists(m['out']):
        return None
    if _key(src, m['deps']) != m['key']:
        return None
    return m['out']


class ExtractError(Exception):
    pass


def extract(src):
    out = cached(src)
    if out:
        return out
    os.makedirs(AST, exist_ok=True)
    out = os.path.join(AST, _slug(src) + '.jsonl')
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run([FDBX, tmp, REPO + '/src', src, '--'] + flags(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/tmp')
    if r.returncode != 0 or not os.path.exists(tmp):
        raise ExtractError(src + ': ' + r.stdout.decode(errors='replace')[-2000:])
    with open(tmp) as fh:
        first = json.loads(fh.readline())
    if first['errors']:
        os.unlink(tmp)
        raise ExtractError(src + ': ' + r.stdout.decode(errors='replace')[-2000:])
    os.replace(tmp, out)
    json.dump({'deps': first['deps'], 'key': _key(src, first['deps']), 'out': out, 'fdbx': fhash(FDBX)}, open(os.path.join(AST, _slug(src) + '.meta'), 'w'))
    return out


def extract_all(jobs=8):
    a, b = lib_sources()
    errs = []

    def one(s):
        try:
            extract(s)
        except ExtractError as e:
            errs.append(str(e))

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, a + b))
    return errs


def ensure_gen():
    g = os.path.join(GEN, 'fdb5')
    if os.path.exists(os.path.join(g, 'fdb5_version.h')):
        return
    subprocess.check_call(['bash', os.path.join(VERIF, 'native', 'gen.sh'), GEN])


if __name__ == '__main__':
    ensure_gen()
    e = extract_all()
    for x in e:
        print('extract error', x, file=sys.stderr)
    print('extracted', len(glob.glob(AST + '/*.jsonl')), 'units;', len(e), 'errors')
