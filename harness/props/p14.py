"""P14: saving and loading"""
import os, sys, json, subprocess, tempfile, shutil
import numpy as np
import monitors as M, twin
from vcommon import check, same
from world import World
LEVEL = 'exploration'
CASES = dict(quick=720, thorough=4000)
EVAL = 'twin_elements_compared'
MINIMUM = dict(twin_elements_compared=900, twin_objectives=100, pickles=300, states_compared=500, other_process=15, files_replaced=18)
DISTINCT = 200
RULE = 'distinct (structure, constraints, update switch) saved and loaded'
ASSUMPTIONS = ['binary protocols 1 to 5 and the default', 'both processes use the same code']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class W(World):
    def op_pickle(self):
        qs = list(self.roots)
        before = [twin.state(self, r, False) for r in qs]
        r = super(W, self).op_pickle()
        for a, q in zip(before, qs):
            d = twin.equal(a, twin.state(self, q, False))
            check(d is None, 'saving-changes-original', lambda: d)
            self.ctx.count('states_compared')
        return r

    def copied(self, h, n):
        twin.copied(self, h, n, getattr(self, 'what', 'loaded'))

    def op_copy(self):
        self.what = 'copy'
        try:
            return super(W, self).op_copy()
        finally:
            self.what = 'loaded'


def both(w, op=None):
    M.values(w)
    M.constraints(w)
    M.fresh(w)
    if op in ('pickle', 'link', 'unlink', 'move', 'rename', 'end'):
        M.structure(w)
        M.names(w)
        M.optvec(w)


def elsewhere(w):
    """load in another process; the same script of operations on both sides gives the same states"""
    c = w.ctx
    r = w.main
    if not r.size or not w.is_on(r):
        return
    d = tempfile.mkdtemp(prefix='verif-p14-')
    try:
        path = os.path.join(d, 'm.pickle')
        proto = c.pick([1, 2, 3, 4, 5])
        r.obj.pickle(path, proto)
        script = c.int(0, 10 ** 6)
        c.step('{!r} saved (protocol {}) and loaded in another process, script {}'.format(r, proto, script))
        env = dict(os.environ)
        out = os.path.join(d, 'out.json')
        p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'child14.py'), path, str(script), out], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=80)
        check(p.returncode == 0 and os.path.exists(out), 'loading-elsewhere-fails', lambda: p.stdout.decode()[-1500:])
        theirs = json.load(open(out))
        import child14
        mine = json.loads(json.dumps(child14.script(r.obj.copy(), script)))
        check(len(mine) == len(theirs), 'loaded-behaves-differently', lambda: (len(mine), len(theirs)))
        for k, (a, b) in enumerate(zip(mine, theirs)):
            check(a == b, 'loaded-behaves-differently', lambda: 'step {}: {} instead of {}'.format(k, b, a))
        c.count('other_process')
        c.count('script_steps', len(mine))
    finally:
        shutil.rmtree(d)


def run_case(ctx):
    w = W(ctx)
    w.run(ctx.int(12, 28), dict(copy=2, pickle=20, updates=1, link=8, unlink=6, restarts=1), [both])
    if ctx.case % 9 == 0:
        elsewhere(w)
    ctx.samples = ctx.history[:12]
