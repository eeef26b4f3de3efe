"""Shared machinery: running TLC, reading what it prints, reporting."""
import json
import math
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
JAR = '/opt/veriftools/tla/tla2tools.jar'
COMM = '/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """The machinery (not the code under test) failed."""


class Violated(Exception):
    def __init__(self, what, detail=None):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


class Tlc(object):
    """The outcome of one TLC run."""
    def __init__(self):
        self.records = []
        self.states = 0
        self.distinct = 0
        self.diameter = 0
        self.seconds = 0.0
        self.ok = False
        self.error = ''
        self.coverage = {}


def run_tlc(module, env=None, cfg=None, workers=8, timeout=800, extra=(),
            expect_ok=True, heap='6g', quiet_records=False, coverage=False, stall=None):
    """Run TLC on spec/<module>.tla; collect the records it prints."""
    tmp = tempfile.mkdtemp(prefix='lrvb-tlc-')
    out_path = os.path.join(tmp, 'out.txt')
    cmd = ['java', '-Djava.io.tmpdir=' + tmp, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-cp', JAR + ':' + COMM, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(tmp, 'md'),
           '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg']
    if coverage:
        cmd += ['-coverage', '1000']
    cmd += list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    res = Tlc()
    try:
        with open(out_path, 'wb') as out:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out,
                                 stderr=subprocess.STDOUT)
            size, grown = 0, time.time()
            while True:
                try:
                    rc = p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    now = time.time()
                    n = os.path.getsize(out_path)
                    if n != size:
                        size, grown = n, now
                    # an overflow makes TLC spend ages on its error message
                    if now - t0 > timeout or (stall and now - grown > stall):
                        p.kill()
                        p.wait()
                        raise Machinery('TLC timed out on ' + module)
        res.seconds = time.time() - t0
        other = []
        with open(out_path, 'r', errors='replace') as f:
            for line in f:
                if line.startswith('"@@'):
                    if not quiet_records:
                        s = json.loads(line)
                        res.records.append(json.loads(s[2:]))
                else:
                    other.append(line)
                    if ' states generated, ' in line and 'distinct states found' in line:
                        w = line.replace(',', '').split()
                        try:
                            i = w.index('states')
                            res.states = int(w[i - 1])
                            res.distinct = int(w[i + 2])
                        except (ValueError, IndexError):
                            pass
                    if line.startswith('The depth of the complete state graph'):
                        res.diameter = int(line.split()[-1].rstrip('.'))
                    if coverage and line.startswith('<') and ' of module ' in line and ': ' in line:
                        nm = line[1:].split(' ', 1)[0]
                        cnt = line.rsplit(': ', 1)[1].strip()
                        res.coverage[nm] = cnt
        res.ok = rc == 0
        if rc != 0:
            res.error = ''.join([l for l in other if 'Overflow' in l or l.startswith('Error:')][:5]) + ''.join(other)[-6000:]
            if expect_ok:
                raise Machinery('TLC failed on %s (rc %d):\n%s' % (module, rc, res.error))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class JsonFile(object):
    """A temporary JSON file handed to TLC."""
    def __init__(self, data):
        fd, self.path = tempfile.mkstemp(prefix='lrvb-in-', suffix='.json')
        with os.fdopen(fd, 'w') as f:
            json.dump(data, f)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        os.unlink(self.path)


class Ctx(object):
    """One run of one check."""
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.runs = []
        self.counts = {}
        self.violations = []
        self.known = load_known(pid)
        self.known_hit = []
        self.assumptions = []

    def rng(self, salt=0):
        return random.Random('%s/%s/%s' % (self.pid, self.seed, salt))

    def tlc(self, module, data=None, var='LRVB_SUITES', **kw):
        if data is not None:
            with JsonFile(data) as path:
                env = {var: path}
                env.update(kw.pop('env', {}))
                res = run_tlc(module, env=env, **kw)
        else:
            res = run_tlc(module, **kw)
        self.states += res.distinct
        self.transitions += max(res.states - 0, 0)
        self.runs.append({'module': module, 'states_generated': res.states,
                          'distinct_states': res.distinct, 'seconds': round(res.seconds, 2)})
        return res

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, replay):
        """Record a violation.  key identifies the input for known findings."""
        for k in self.known:
            if k['key'] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                return
        if not os.path.isdir(OUT):
            os.makedirs(OUT)
        path = os.path.join(OUT, '%s-%d.json' % (self.pid, len(self.violations)))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'key': key, 'what': what,
                       'seed': self.seed, 'tier': self.tier, 'replay': replay}, f,
                      indent=1, default=str)
        self.violations.append((key, what, path))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('  ' + str(what)[:1000])
        sys.stdout.flush()

    def too_many(self):
        return len(self.violations) >= 5

    def evidence(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated,
               'samples': self.samples, 'tlc_runs': self.runs,
               'replayed': self.counts}
        ev = {'property': self.pid, 'tier': 'quick' if self.quick else 'thorough',
              'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        d = os.path.join(VERIF, 'evidence')
        if not os.path.isdir(d):
            os.makedirs(d)
        path = os.path.join(d, self.pid + '.json')
        s = json.dumps(ev, indent=1, default=str)
        if len(s) > 900000:
            cov['samples'] = [str(x)[:2000] for x in self.samples]
            s = json.dumps(ev, indent=1, default=str)
        with open(path, 'w') as f:
            f.write(s + '\n')


class SubCtx(object):
    """What a worker process records; merged into the parent's Ctx."""
    def __init__(self):
        self.stuck = False
        self.counts = {}
        self.validated = 0
        self.samples = []
        self.violations = []

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, replay):
        self.violations.append((key, str(what), replay))

    def too_many(self):
        return len(self.violations) >= 5


class Stuck(BaseException):
    """One item has used up its processor time."""


# processor seconds for one item; the longest on the unchanged tree takes a tenth of it
ITEM_SECONDS = 150


def watched(sub, work, item, quick):
    """work(sub, item), given up when it does not come back.  The clock is the
    process's own, so a busy machine does not run it down."""
    def late(signum, frame):
        names = []
        while frame is not None:
            names.append((frame.f_code.co_filename, frame.f_lineno))
            frame = frame.f_back
        raise Stuck(names)
    old = signal.signal(signal.SIGVTALRM, late)
    limit = ITEM_SECONDS if quick else 6 * ITEM_SECONDS
    signal.setitimer(signal.ITIMER_VIRTUAL, limit, 1)
    t0 = time.process_time()
    try:
        try:
            work(sub, item)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
    except Stuck as e:
        inside = [n for n in e.args[0] if 'LinearResponseVariationalBayes' in n[0]]
        if not inside:
            raise Machinery('an item took more than %d s: %s' % (limit, e.args[0][:5]))
        sub.stuck = True
        sub.violation('stuck', 'a call did not come back within %d s of processor time, in %s line %d' % (
            (limit,) + inside[0]), {'item': item if isinstance(item, dict) else str(item)[:5000]})
    if os.environ.get('LRVB_TIMES'):
        sys.stderr.write('item %.1f\n' % (time.process_time() - t0))


def parallel(ctx, items, work, jobs=None):
    """work(subctx, item) for every item, in forked workers."""
    if any(v[0] == 'stuck' for v in ctx.violations):
        return
    jobs = jobs or min(8, os.cpu_count() or 1)
    jobs = max(1, min(jobs, len(items)))
    pids = []
    for j in range(jobs):
        fd, path = tempfile.mkstemp(prefix='lrvb-w-')
        os.close(fd)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                sub = SubCtx()
                err = None
                try:
                    for i in range(j, len(items), jobs):
                        watched(sub, work, items[i], ctx.quick)
                        if sub.too_many() or sub.stuck:
                            break
                except Machinery as e:
                    err = str(e)
                except Exception:
                    err = traceback.format_exc()
                with open(path, 'w') as f:
                    json.dump({'counts': sub.counts, 'validated': sub.validated,
                               'samples': sub.samples, 'violations': sub.violations,
                               'err': err}, f, default=str)
                rc = 0
            finally:
                os._exit(rc)
        pids.append((pid, path))
    errs = []
    for pid, path in pids:
        _, st = os.waitpid(pid, 0)
        try:
            with open(path) as f:
                d = json.load(f)
        except ValueError:
            errs.append('worker died with status %s' % st)
            continue
        finally:
            os.unlink(path)
        for k, v in d['counts'].items():
            ctx.count(k, v)
        ctx.validated += d['validated']
        for smp in d['samples']:
            ctx.sample(smp)
        for v in d['violations']:
            if not ctx.too_many():
                ctx.violation(*v)
        if d['err']:
            errs.append(d['err'])
    if errs and not ctx.violations:
        raise Machinery('\n'.join(errs))


def load_known(pid):
    path = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('known', []) if k['property'] == pid]


def fl(r):
    """A rational [n, d] of the model as a float."""
    return r[0] / float(r[1])


def fmt_exc():
    return traceback.format_exc(limit=6)
