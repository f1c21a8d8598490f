"""run a harness as an unprivileged user in a scratch directory that is removed afterwards"""
import os, sys, tempfile, shutil, subprocess, signal
d = tempfile.mkdtemp(prefix='vh_', dir='/tmp')
os.chmod(d, 0o755)
home = os.path.join(d, 's')
os.mkdir(home)
uid = 65534
try:
    os.chown(home, uid, uid)
except OSError:
    uid = None


def pre():
    if uid is not None and os.getuid() == 0:
        os.setgroups([])
        os.setgid(uid)
        os.setuid(uid)


env = dict(os.environ, VH_DIR=home, HOME=home, TMPDIR=home, FDB_HOME=home)
try:
    rc = subprocess.call(sys.argv[1:], env=env, cwd=home, preexec_fn=pre)
finally:
    if d.startswith('/tmp/vh_'):
        shutil.rmtree(d, ignore_errors=True)
sys.exit(rc if rc >= 0 else 128 - rc)
