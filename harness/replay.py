"""Walking the behaviours TLC printed on the implementation."""
import json

from common import Machinery, fmt_exc, parallel
import params


def group(records, nsuites):
    g = [[] for _ in range(nsuites + 1)]
    for r in records:
        g[r['s']].append(r)
    return g


def canon(x):
    return json.dumps(x, sort_keys=True)


def run_suites(ctx, suites, reads=(), module='MC_Params', lenient=(), driver=None, jobs=None, **kw):
    """Check the suites with TLC and replay every transition.  After a lenient
    call the state is not compared."""
    for s in suites:
        s['module'] = module
        if lenient:
            s['lenient'] = list(lenient)
    if getattr(ctx, 'replay_file', None):
        rp = json.load(open(ctx.replay_file))['replay']
        if rp.get('suite', {}).get('module') != module:
            return
        suites = [rp['suite']]
    g = explore(ctx, module, suites, **kw)
    work = []
    for si, suite in enumerate(suites):
        recs = g[si + 1]
        if recs is None:
            continue
        init = [r for r in recs if r.get('i') == 0 and 'k' not in r]
        if len(init) != 1:
            raise Machinery('suite %d: %d initial states' % (si, len(init)))
        recs = [r for r in recs if 'k' in r]
        if suite['mode'] == 'script':
            recs.sort(key=lambda r: r['k'])
            if len(recs) != len(suite['ops']):
                raise Machinery('suite %d: %d of %d steps' % (si, len(recs), len(suite['ops'])))
        # a large graph is toured in shares
        n = 1 if suite['mode'] == 'script' else min(6, 1 + len(recs) // 800)
        work += [(suite, init[0], recs, (i, n)) for i in range(n)]
    work.sort(key=lambda w: -len(w[2]) / w[3][1])

    def one(sub, w):
        suite, init, recs, share = w
        bases = params.Bases()

        def begin():
            if driver is not None:
                return driver(suite, init, bases)
            return StoreDriver(suite, init, bases, reads)
        if suite['mode'] == 'script':
            walk_script(sub, suite, begin, recs)
        else:
            walk_graph(sub, suite, init, begin, recs, share)
    parallel(ctx, work, one, jobs)


def explore(ctx, module, suites, **kw):
    """The records TLC prints, by suite (from 1).  When some generated suite
    leaves TLC's 32 bit integers, explore one by one and drop those suites."""
    kw.setdefault('timeout', 150 if ctx.quick else 1500)
    kw['stall'] = 20 if ctx.quick else 40
    try:
        res = ctx.tlc(module, data=suites, **kw)
        return group(res.records, len(suites))
    except Machinery as e:
        if 'Overflow' not in str(e) and 'timed out' not in str(e):
            raise
    from concurrent.futures import ThreadPoolExecutor
    kw.update({'timeout': 60, 'workers': 1, 'heap': '2g', 'stall': 25})

    def some(ss):
        try:
            res = ctx.tlc(module, data=ss, **dict(kw, timeout=60 if len(ss) == 1 else 240))
            return group(res.records, len(ss))[1:]
        except Machinery as e:
            if 'Overflow' not in str(e) and 'timed out' not in str(e):
                raise
            return None
    # in parts, and the parts that fail one by one
    k = max(1, len(suites) // 24)
    parts = [suites[i:i + k] for i in range(0, len(suites), k)]
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(some, parts))
        single = [s for p, g in zip(parts, got) if g is None for s in p]
        ones = iter(list(ex.map(lambda s: some([s]), single)) if k > 1 else [None] * len(single))
    out = []
    for p, g in zip(parts, got):
        for i in range(len(p)):
            if g is not None:
                out.append(g[i])
            else:
                one = next(ones)
                out.append(None if one is None else one[0])
    bad = sum(1 for r in out if r is None)
    if bad * 5 > len(suites):
        raise Machinery('%d of %d suites leave the integer range' % (bad, len(suites)))
    ctx.count('suites dropped: integers too large', bad)
    return [[]] + out


def describe(op):
    return {k: v for k, v in op.items() if k not in ('c',)}


def fail(ctx, suite, trail, err):
    ops = [suite['ops'][k - 1] for k in trail]
    small = dict(suite)
    small.update({'mode': 'script', 'ops': ops})
    key = 'ops:' + canon([suite.get('init'), [describe(o) for o in ops[-1:]]])
    ctx.violation(key, 'after %s: %s' % ([o['op'] for o in ops], err), {'suite': small})


class StoreDriver(object):
    """ParamStore on the implementation."""
    def __init__(self, suite, init, bases, reads):
        self.suite = suite
        self.st = params.Store(suite['init'], init['h'], bases, reads)
        self.st.check(init['h'])

    def step(self, op, rec):
        if op['op'] == 'bad' and rec['r']['ok']:
            raise Machinery('the model accepts the illegal call %s' % op)
        self.st.apply(op, rec['r'], rec['h'])
        self.st.caller.settle()
        if op['op'] not in self.suite.get('lenient', ()):
            self.st.check(rec['h'])


def walk_script(ctx, suite, begin, recs):
    trail = []
    try:
        st = begin()
        for r in recs:
            trail.append(r['k'])
            st.step(suite['ops'][r['k'] - 1], r)
            ctx.count('op:' + suite['ops'][r['k'] - 1]['op'])
            ctx.validated += 1
    except params.Mismatch as e:
        fail(ctx, suite, trail, e)
        return
    except Machinery:
        raise
    except Exception:
        fail(ctx, suite, trail, 'raised ' + fmt_exc())
        return
    ctx.sample({'script': [describe(o) for o in suite['ops']][:3]})


def walk_graph(ctx, suite, init, begin, recs, share=(0, 1)):
    """A tour through every transition of the explored graph: from the current
    state take an untried transition, or go to the nearest state that has one,
    or start over."""
    trans = {}
    for r in recs:
        src = (r['l'], canon(r['p']))
        trans.setdefault(src, {})[r['k']] = r
    start_state = (0, canon(init['h']))

    def dst(r):
        return (r['k'], canon(r['h']))
    for src in trans:
        for r in trans[src].values():
            r['dst'] = dst(r)
    todo = {s: set(trans[s]) for s in sorted(trans)[share[0]::share[1]]}
    total = sum(len(t) for t in todo.values())
    done = 0
    cur, st, trail = None, None, []

    def path_from(s):
        """Shortest path from s to a state with untried transitions."""
        seen = {s: None}
        queue = [s]
        for u in queue:
            if todo.get(u):
                out = []
                while seen[u] is not None:
                    pu, k = seen[u]
                    out.append(k)
                    u = pu
                return out[::-1]
            for k, r in trans.get(u, {}).items():
                if r['dst'] not in seen:
                    seen[r['dst']] = (u, k)
                    queue.append(r['dst'])
        return None

    def drop(s, k):
        """A transition that failed is not taken again."""
        del trans[s][k]
        bad.append(k)
        n = int(k in todo.get(s, ()))
        todo.get(s, set()).discard(k)
        return n

    bad = []
    while done < total:
        if cur is None or len(trail) > 60:
            try:
                st = begin()
            except params.Mismatch as e:
                fail(ctx, suite, [], e)
                return
            except Exception:
                fail(ctx, suite, [], 'raised ' + fmt_exc())
                return
            cur, trail = start_state, []
        if todo.get(cur):
            ks = [sorted(todo[cur])[0]]
        else:
            ks = path_from(cur)
            if ks is None:
                if cur == start_state and bad:
                    return
                if cur == start_state:
                    raise Machinery('unreachable transitions')
                cur = None
                continue
        for k in ks:
            r = trans[cur][k]
            trail.append(k)
            try:
                st.step(suite['ops'][k - 1], r)
            except params.Mismatch as e:
                fail(ctx, suite, trail, e)
                if ctx.too_many():
                    return
                total -= drop(cur, k)
                cur = None
                break
            except Machinery:
                raise
            except Exception:
                fail(ctx, suite, trail, 'raised ' + fmt_exc())
                if ctx.too_many():
                    return
                total -= drop(cur, k)
                cur = None
                break
            if k in todo.get(cur, ()):
                todo[cur].discard(k)
                done += 1
                ctx.count('op:' + suite['ops'][k - 1]['op'])
                ctx.validated += 1
            cur = r['dst']
    ctx.sample({'graph': suite.get('name'), 'states': len(trans), 'transitions': total})
