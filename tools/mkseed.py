"""Make planted bugs: python3 tools/mkseed.py SPECFILE [ID...]

SPECFILE defines bug(id, prop, file, edits, needs, breaks, demo).  Every bug is
applied to a scratch copy of /repo, has to keep the stable tests passing, and
its demonstration has to succeed without it and fail with it; then it is
written to /verif/seeded/ID."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = 'LinearResponseVariationalBayes'
BUGS = []
PRE = '''import copy, sys, warnings
warnings.simplefilter('ignore')
import numpy as np
import autograd.numpy as agnp
import scipy as sp
import scipy.sparse
import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as so

def check(cond, msg):
    if not cond:
        print('FAILED:', msg)
        sys.exit(1)

def near(a, b, msg, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(b))),
          '%s: %s, expected %s' % (msg, a, b))

def numjac(f, x, h=1e-5):
    x = np.array(x, dtype=float)
    cols = []
    for i in range(x.size):
        e = np.zeros(x.size); e[i] = h
        cols.append((np.asarray(f(x + e), dtype=float) - np.asarray(f(x - e), dtype=float)) / (2 * h))
    return np.array(cols).T

def rejects(f, msg):
    try:
        f()
    except Exception:
        return
    check(False, 'accepted: ' + msg)

'''


def bug(id, prop, file, edits, needs, breaks, demo):
    BUGS.append((id, prop, file, edits, needs, breaks, demo))


DEMO_SH = '''#!/bin/bash
export OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def stable(d):
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                        '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + d + '/j.xml'],
                       cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                                       OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    import xml.etree.ElementTree as ET
    ok = set()
    for t in ET.parse(d + '/j.xml').getroot().iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in t):
            ok.add(t.get('classname') + '::' + t.get('name'))
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(want - ok)


def demo(d, folder):
    r = subprocess.run(['bash', folder + '/demo.sh'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return r.returncode, r.stdout.decode()[-300:]


def make(b):
    id, prop, file, edits, needs, breaks, src = b
    t = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        d = t + '/repo'
        shutil.copytree('/repo', d, symlinks=True)
        folder = t + '/demo'
        os.mkdir(folder)
        open(folder + '/demo.sh', 'w').write(DEMO_SH)
        open(folder + '/demo.py', 'w').write(PRE + src.strip('\n') + "\nprint('ok')\n")
        rc, out = demo(d, folder)
        if rc != 0:
            return id, 'DEMO FAILS ON BASE: ' + out
        for e in edits:
            f, old, new = (file,) + tuple(e) if len(e) == 2 else e
            p = '%s/%s/%s' % (d, PKG, f)
            s = open(p).read()
            if s.count(old) < 1:
                return id, 'no match: ' + old[:60]
            if s.count(old) > 1:
                return id, '%d matches: %s' % (s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        rc, out = demo(d, folder)
        if rc == 0:
            return id, 'DEMO PASSES WITH THE BUG'
        bad = stable(d)
        if bad:
            return id, 'TESTS CATCH IT: %s' % bad[:3]
        diff = subprocess.run(['git', '-C', d, 'diff'], stdout=subprocess.PIPE).stdout
        o = '%s/seeded/%s' % (HERE, id)
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'wb').write(diff)
        shutil.copy(folder + '/demo.sh', o)
        shutil.copy(folder + '/demo.py', o)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(o + '/meta.json', 'w'), indent=1)
        return id, 'kept (%s)' % out.strip().splitlines()[-1][:110]
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    todo = [b for b in BUGS if len(sys.argv) < 3 or b[0] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(make, todo):
            print('%-34s %s' % r, flush=True)
