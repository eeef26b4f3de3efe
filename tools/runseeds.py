"""Run the checks against planted bugs, each in scratch copies of /repo and
/verif: python3 tools/runseeds.py [-j N] [ID...]"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(id):
    t = tempfile.mkdtemp(prefix='runseed-', dir='/tmp')
    try:
        shutil.copytree('/repo', t + '/repo', symlinks=True)
        shutil.copytree(HERE, t + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'out', 'evidence'))
        os.mkdir(t + '/verif/out'); os.mkdir(t + '/verif/evidence')
        meta = json.load(open('%s/seeded/%s/meta.json' % (HERE, id)))
        subprocess.run(['git', '-C', t + '/repo', 'apply', '%s/seeded/%s/patch.diff' % (HERE, id)], check=True)
        t0 = time.time()
        r = subprocess.run(['bin/check', meta['property']], cwd=t + '/verif', stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONPATH=t + '/repo', VERIF_SEED='1'))
        out = r.stdout.decode()
        viol = [l for l in out.splitlines() if l.startswith('VIOLATION property=' + meta['property'])]
        nxt = out.splitlines()
        why = ''
        if viol:
            why = nxt[nxt.index(viol[0]) + 1].strip()[:150]
        state = 'caught' if r.returncode == 1 and viol else 'MISSED' if r.returncode == 0 else 'rc %d %s' % (r.returncode, out[-200:])
        return id, meta['property'], state, time.time() - t0, why
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 2
    if a[:1] == ['-j']:
        j = int(a[1]); a = a[2:]
    ids = a or sorted(os.path.basename(p) for p in glob.glob(HERE + '/seeded/*'))
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(run, ids):
            print('%-26s %s %-7s %4.0fs %s' % r, flush=True)
