"""
Runner infrastructure: deterministic cases in forked shards, three valued
verdicts, replay files, evidence files.

A *case* is one deterministic history (seeded by VERIF_SEED, property and case
number).  Monitors raise `Violation` (or record it in the context).  A case can
end held / violated / inconclusive; the check exits 0 / 1 / 3.
"""
import os, sys, json, time, signal, traceback, io, random, contextlib, hashlib, re
import multiprocessing as mp
import numpy as np
import sanitize

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class Violation(Exception):
    """key: the mechanism (stable, no random values); msg: the witness"""
    def __init__(self, key, msg=''):
        super(Violation, self).__init__("{}: {}".format(key, msg))
        self.key, self.msg = key, str(msg)


class Hang(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Ctx(object):
    """One case: random generators, event counters, history."""
    def __init__(self, prop, seed, case, tier):
        self.prop, self.seed, self.case, self.tier = prop, seed, case, tier
        h = int(hashlib.sha256('{}|{}|{}'.format(prop, seed, case).encode()).hexdigest()[:15], 16)
        self.rng = np.random.default_rng(h)
        np.random.seed(h % (2**32))
        random.seed(h)
        self.n = {}
        self.distinct = set()
        self.history = []
        self.samples = []

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def seen(self, *what):
        """a distinct non-trivial observation (state, transition, verdict)"""
        self.distinct.add(hashlib.md5(repr(what).encode()).hexdigest()[:12])

    def step(self, text):
        self.history.append(text)

    # random helpers -------------------------------------------------------
    def chance(self, p):
        return self.rng.random() < p

    def pick(self, seq):
        seq = list(seq)
        return seq[int(self.rng.integers(len(seq)))]

    def wpick(self, pairs):
        w = np.array([p[1] for p in pairs], float)
        return pairs[int(self.rng.choice(len(pairs), p=w / w.sum()))][0]

    def int(self, a, b):
        return int(self.rng.integers(a, b + 1))


def check(cond, key, msg=''):
    if not cond:
        raise Violation(key, msg() if callable(msg) else msg)


def same(a, b):
    """bitwise same floats (nan == nan, and -0. == 0.)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    return bool(np.all(a == b))


def close(a, b, rtol=1e-9, atol=1e-11):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))


@contextlib.contextmanager
def quiet():
    """paramz prints progress: not of interest here"""
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


def raises(exc, f, *a, **k):
    """(True, exception) if f raises exc, (False, None) if it returned; others propagate"""
    try:
        f(*a, **k)
    except exc as e:
        forget(e)
        return True, e
    return False, None


def forget(e):
    """an error kept for later keeps the local variables of the code it went through alive, observers among them"""
    while e is not None:
        e.__traceback__ = None
        e = e.__context__


# ---------------------------------------------------------------------------
def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


WATCHDOG = int(os.environ.get('VERIF_CASE_SECONDS', '90'))
STEPS = int(os.environ.get('VERIF_CASE_STEPS', '40000000'))


def _alarm(*a):
    raise Hang()


def _one(mod, prop, seed, case, tier, steplimit=None):
    """run one case -> dict(outcome=held|violated|hang|steps, ...)"""
    ctx = Ctx(prop, seed, case, tier)
    res = dict(case=case, outcome='held')
    mon = getattr(sys, 'monitoring', None)
    used = [0]
    if steplimit:
        def ev(*a):
            used[0] += 1
            if used[0] > steplimit:
                raise StepLimit()
        mon.use_tool_id(2, 'verif')
        mon.register_callback(2, mon.events.PY_START, ev)
        mon.register_callback(2, mon.events.JUMP, ev)
        mon.set_events(2, mon.events.PY_START | mon.events.JUMP)
    else:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(WATCHDOG)
    try:
        bad0 = sanitize.stats()[2]
        with quiet():
            mod.run_case(ctx)
        a, f, bad = sanitize.stats()
        check(bad <= bad0, 'memory-written-after-being-freed', lambda: '{} blocks'.format(bad - bad0))
    except Violation as e:
        res.update(outcome='violated', key=e.key, msg=e.msg, tb=traceback.format_exc(limit=-6))
    except Hang:
        res.update(outcome='hang')
    except StepLimit:
        res.update(outcome='steps', tb=traceback.format_exc(limit=-12))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if '/paramz/' in f.filename]
        where = inner[-1].name if inner else tb[-1].name
        res.update(outcome='violated', key='unexpected-{}-in-{}'.format(type(e).__name__, where),
                   msg=str(e)[:500], tb=traceback.format_exc(limit=-14))
    finally:
        if steplimit:
            mon.set_events(2, 0)
            mon.free_tool_id(2)
        else:
            signal.alarm(0)
    res.update(n=ctx.n, distinct=ctx.distinct, samples=ctx.samples[:2],
               history=ctx.history if res['outcome'] != 'held' else ctx.history[:6])
    return res


def _shard(mod, prop, seed, cases, tier, conn):
    out = dict(n={}, distinct=set(), bad=[], samples=[], done=0)
    keys = {}
    mem0 = sanitize.stats()
    for c in cases:
        r = _one(mod, prop, seed, c, tier)
        if r['outcome'] == 'hang' and getattr(sys, 'monitoring', None):
            r2 = _one(mod, prop, seed, c, tier, STEPS)
            if r2['outcome'] == 'steps':
                r2.update(outcome='violated', key='does-not-terminate',
                          msg='more than {} steps in one case'.format(STEPS))
            r = r2
        out['done'] += 1
        for k, v in r['n'].items():
            out['n'][k] = out['n'].get(k, 0) + v
        out['distinct'] |= r['distinct']
        if r['outcome'] != 'held':
            k = r.get('key')
            keys[k] = keys.get(k, 0) + 1
            if keys[k] <= 2:
                out['bad'].append({k: r[k] for k in r if k not in ('distinct', 'n')})
            if sum(keys.values()) >= 12:
                break
        elif len(out['samples']) < 2:
            out['samples'].append(dict(case=c, history=r['samples'] or r['history']))
    st = sanitize.stats()
    out['mem'] = (st[0] - mem0[0], st[1] - mem0[1])
    conn.send(out)
    conn.close()


def main(prop, mod, tier, seed, replay=None, jobs=None):
    t0 = time.time()
    import paramz  # noqa
    if replay is not None:
        spec = json.load(open(replay))
        r = _one(mod, prop, spec['seed'], spec['case'], spec['tier'])
        print(json.dumps({k: v for k, v in r.items() if k != 'distinct'}, indent=1, default=str))
        if r['outcome'] == 'violated':
            print('VIOLATION property={} replay={}'.format(prop, replay))
            return 1
        return 0 if r['outcome'] == 'held' else 3
    ncases = mod.CASES[tier]
    if os.environ.get('VERIF_CASES'):
        ncases = int(os.environ['VERIF_CASES'])
    jobs = jobs or min(os.cpu_count() or 1, 8, ncases)
    procs = []
    ctxm = mp.get_context('fork')
    for j in range(jobs):
        a, b = ctxm.Pipe(False)
        p = ctxm.Process(target=_shard, args=(mod, prop, seed, range(j, ncases, jobs), tier, b))
        p.start()
        b.close()
        procs.append((p, a))
    tot = dict(n={}, distinct=set(), bad=[], samples=[], done=0)
    errors = []
    for p, a in procs:
        try:
            o = a.recv()
        except EOFError:
            errors.append('a shard ended without an answer')
            continue
        finally:
            p.join()
        for k, v in o['n'].items():
            tot['n'][k] = tot['n'].get(k, 0) + v
        tot['distinct'] |= o['distinct']
        tot['bad'] += o['bad']
        tot['samples'] += o['samples']
        tot['done'] += o['done']
        tot['mem'] = [a + b for a, b in zip(tot.get('mem', (0, 0)), o['mem'])]
    known = load_known(prop)
    violations, findings, incon = [], {}, []
    for b in sorted(tot['bad'], key=lambda b: b['case']):
        if b['outcome'] == 'violated':
            hit = [k for k in known if k[0] == b['key']]
            if hit:
                findings[hit[0]] = findings.get(hit[0], 0) + 1
            else:
                violations.append(b)
        else:
            incon.append('case {}: {}'.format(b['case'], b['outcome']))
    incon += errors
    # the deciding monitors have to be reached
    for name, least in mod.MINIMUM.items():
        need = least if ncases >= mod.CASES['quick'] else 1
        if tot['n'].get(name, 0) < need and not violations:
            incon.append('only {} events of {} (at least {} expected)'.format(tot['n'].get(name, 0), name, need))
    if not violations and len(tot['distinct']) < min(mod.DISTINCT, ncases):
        incon.append('only {} distinct observations'.format(len(tot['distinct'])))
    wall = round(time.time() - t0, 2)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    shown = []
    lines = []
    seen = set()
    for b in violations:
        if b['key'] in seen or len(seen) >= 5:
            continue
        seen.add(b['key'])
        name = '{}-{}-{}-{}.json'.format(prop, tier, seed, b['case'])
        path = os.path.join(REPLAYS, name)
        rec = dict(property=prop, tier=tier, seed=seed, case=b['case'], key=b['key'], msg=b['msg'],
                   history=b.get('history'), traceback=b.get('tb'))
        json.dump(rec, open(path, 'w'), indent=1, default=str)
        shown.append({k: rec[k] for k in ('case', 'key', 'msg')})
        lines.append('VIOLATION property={} replay={}'.format(prop, path))
    events = sum(tot['n'].values())
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(evaluations=int(tot['n'].get(mod.EVAL, 0)) or events,
                            distinct_nontrivial=len(tot['distinct']),
                            rule=mod.RULE,
                            samples=[json.loads(json.dumps(s, default=str)) for s in tot['samples'][:4]],
                            cases=tot['done'], events=tot['n']),
              wall_s=wall, assumptions=list(mod.ASSUMPTIONS),
              violations=shown)
    ev['coverage']['memory_sanitizer'] = dict(numpy_blocks_allocated=tot.get('mem', (0, 0))[0],
                                              numpy_blocks_freed_and_poisoned=tot.get('mem', (0, 0))[1],
                                              state=sanitize.WHY or 'on')
    if incon:
        ev['inconclusive'] = incon
    tmp = os.path.join(EVID, '.{}.{}.tmp'.format(prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, prop + '.json'))
    for (k, text), c in findings.items():
        print('KNOWN-FINDING: property={} {}'.format(prop, text))
    print('{} {} seed={}: {} cases, {} events, {} distinct, {:.1f}s'.format(
        prop, tier, seed, tot['done'], events, len(tot['distinct']), wall))
    for s in shown:
        print('  case {case}: {key}: {msg}'.format(**s)[:600])
    for l in lines:
        print(l)
    if violations:
        return 1
    if incon:
        for i in incon:
            print('INCONCLUSIVE', i)
        return 3
    return 0
