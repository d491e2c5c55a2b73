"""Loads a model and runs a deterministic script of operations on it; prints the states in between.

Runs in another process for P14, and is imported by the check to run the same script on its side."""
import os, sys, json


def script(m, seed):
    import numpy as np
    from paramz import Param, Parameterized
    from paramz.transformations import Logexp, Logistic, __fixed__
    import zoo
    rng = np.random.RandomState(seed % 2**31)
    out = []

    def leaves():
        ls = []
        m.traverse(lambda p: ls.append(p) if isinstance(p, Param) else None)
        return ls

    def look(what):
        o = [what, m.name, m.size, [str(n) for n in m.parameter_names_flat(include_fixed=True)],
             [str(n) for n in m.parameter_names_flat()],
             [float(v).hex() for v in np.ravel(m.param_array)],
             [float(v).hex() for v in np.ravel(m.optimizer_array)],
             sorted([(str(p), [int(k) for k in i]) for p, i in m.constraints.items() if len(i)]), str(m) if hasattr(m, 'objective_function') else '']
        if hasattr(m, 'objective_function'):
            o.append(float(m.objective_function()).hex())
            o.append([float(v).hex() for v in np.ravel(m.gradient)])
        out.append(o)
    look('loaded')
    for p in list(m.constraints.properties()):
        if p != __fixed__:
            l = leaves()[rng.randint(len(leaves()))]
            l.unconstrain(p)
    look('given constraints removed from some')
    l = leaves()[rng.randint(len(leaves()))]
    l[...] = rng.uniform(.1, .9, l.shape)
    look('set')
    l.constrain_bounded(0., 1., warning=False)
    look('bounded')
    l.unconstrain(Logistic(0., 1.))
    look('bounds removed')
    leaves()[rng.randint(len(leaves()))].fix(warning=False)
    look('fixed')
    m.unfix()
    look('unfixed')
    if isinstance(m, Parameterized):
        m.link_parameter(zoo.leaf('extra', rng.normal(0, 1, 2), 77, Logexp()))
        m.trigger_update()
        look('linked')
    x = np.array(m.optimizer_array)
    m.optimizer_array = np.where(np.isfinite(x), .9 * np.clip(x, -3, 3), 0.)
    look('vector set')
    m.unconstrain()
    look('unconstrained')
    if hasattr(m, 'objective_function'):
        m.optimize('lbfgsb', max_iters=3)
        look('optimized')
        m.optimize('scg', max_iters=2, messages=True)
        look('optimized, showing progress')
        m.optimize_restarts(1, max_iters=2, verbose=False)
        look('restarts')
        m.checkgrad()
        look('gradient check')
    m.copy()
    look('copied')
    return out


if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    import warnings, logging
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import numpy
    numpy.seterr(all='ignore')
    sys.pycache_prefix = os.path.join(here, 'no-such-cache')
    import paramz, zoo
    m = paramz.load(sys.argv[1])
    r = script(m, int(sys.argv[2]))
    json.dump(r, open(sys.argv[3], 'w'))
