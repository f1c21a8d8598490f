"""Native build of /repo's current tree (libfdb5, chunked data view) and of the replay/bounded harnesses.
Everything is keyed by content: an object is rebuilt exactly when a file it read has changed."""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import tu
from tu import REPO, VERIF, BUILD, SITE, GEN, fhash

OUT = os.environ.get('VERIF_NATIVE', os.path.join(BUILD, 'native'))
CXX = ['g++', '-std=gnu++17', '-O0', '-fPIC', '-w', '-pipe']
LIBDIRS = [SITE + '/eckitlib/lib64', SITE + '/metkitlib/lib64', SITE + '/eccodeslib/lib64', SITE + '/eckitlib.libs']


class BuildError(Exception):
    pass


def deps_of(dfile):
    txt = open(dfile).read().replace('\\\n', ' ')
    out = []
    for t in txt.split(':', 1)[1].split():
        if t.startswith(REPO + '/') or t.startswith(VERIF + '/'):
            out.append(t)
    return out


def sig(cmd, deps):
    h = hashlib.sha1(' '.join(cmd).encode())
    for d in sorted(set(deps)):
        h.update(d.encode())
        h.update(fhash(d).encode())
    return h.hexdigest()


def compile1(src, obj, extra=()):
    """returns (obj, rebuilt)"""
    cmd = CXX + tu.includes() + tu.isystems() + list(extra) + (['-x', 'c'] if src.endswith('.c') else []) + [src]
    if src.endswith('.c'):
        cmd[0:1] = ['gcc']
        cmd = [c for c in cmd if c != '-std=gnu++17']
    meta = obj + '.sig'
    try:
        m = json.load(open(meta))
        if os.path.exists(obj) and m['sig'] == sig(cmd, m['deps']):
            return obj, False
    except Exception:
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    d = obj + '.d'
    r = subprocess.run(cmd + ['-c', '-o', obj, '-MD', '-MF', d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('%s: %s' % (src, r.stdout.decode(errors='replace')[-3000:]))
    deps = deps_of(d)
    os.unlink(d)
    json.dump({'sig': sig(cmd, deps), 'deps': deps}, open(meta, 'w'))
    return obj, True


def slug(p):
    return os.path.relpath(p, REPO).replace('/', '__')


def link(out, objs, args, soname=None):
    key = hashlib.sha1((' '.join(args) + ' '.join(objs)).encode())
    for o in objs:
        try:
            key.update(json.load(open(o + '.sig'))['sig'].encode())
        except Exception:
            key.update(b'?')
    k = key.hexdigest()
    try:
        if os.path.exists(out) and open(out + '.key').read() == k:
            return False
    except OSError:
        pass
    rp = []
    for d in LIBDIRS:
        rp += ['-Wl,-rpath-link,' + d, '-Wl,-rpath,' + d]
    r = subprocess.run(['g++', '-fuse-ld=gold', '-o', out] + objs + args + rp + ['-Wl,-rpath,' + OUT], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('link %s: %s' % (out, r.stdout.decode(errors='replace')[-3000:]))
    open(out + '.key', 'w').write(k)
    return True


DEPLIBS = ['-L' + SITE + '/eckitlib/lib64', '-L' + SITE + '/metkitlib/lib64', '-L' + SITE + '/eccodeslib/lib64', '-lmetkit', '-leckit', '-leckit_option', '-leccodes', '-luuid', '-lpthread', '-ldl', '-lrt']


def build_lib(jobs=8):
    tu.ensure_gen()
    a, b = tu.lib_sources()
    d = [REPO + '/src/dummy_daos/daos.cc', REPO + '/src/dummy_daos/dummy_daos.cc', REPO + '/src/dummy_daos/daos/tests_lib.cc']
    allsrc = [(s, os.path.join(OUT, 'obj', slug(s) + '.o')) for s in a + b + d]
    v = os.path.join(GEN, 'fdb5', 'fdb5_version.c')
    allsrc.append((v, os.path.join(OUT, 'obj', 'fdb5_version.c.o')))
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda so: compile1(*so), allsrc))
    objs = [o for o, _ in res]
    link(os.path.join(OUT, 'libvfdb.so'), objs, ['-shared', '-Wl,-soname,libvfdb.so'] + DEPLIBS)
    return sum(1 for _, r in res if r)


def build_harness(name):
    """compile native/<name>.cc against the current headers and link it with the library"""
    src = os.path.join(VERIF, 'native', name + '.cc')
    obj, _ = compile1(src, os.path.join(OUT, 'obj', 'harness_' + name + '.o'), ('-fno-access-control', '-I' + VERIF + '/native', '-O1'))
    exe = os.path.join(OUT, name)
    link(exe, [obj], ['-L' + OUT, '-lvfdb'] + DEPLIBS)
    return exe


if __name__ == '__main__':
    t = time.time()
    n = build_lib()
    print('native library: %d objects rebuilt, %.1fs' % (n, time.time() - t))
    for h in sys.argv[1:]:
        print(build_harness(h))
