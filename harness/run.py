"""run.py PROPERTY quick|thorough [--replay FILE]"""
import os, sys
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, here)
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)
import numpy, scipy.optimize  # noqa  (from their own byte code cache)
import decorator, six  # noqa
try:
    import IPython.display, ipywidgets  # noqa
except Exception:
    pass
numpy.seterr(all='ignore')
import sanitize
sanitize.install()
# paramz itself always from its current source
sys.pycache_prefix = os.path.join(here, 'no-such-cache')
import paramz  # noqa
sys.pycache_prefix = None
assert os.path.realpath(paramz.__file__).startswith(os.path.realpath(REPO)), paramz.__file__
warnings.simplefilter('ignore')

import vcommon
import importlib


def run():
    args = sys.argv[1:]
    replay = None
    if '--replay' in args:
        i = args.index('--replay')
        replay = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('props.' + prop.lower())
    return vcommon.main(prop, mod, tier, seed, replay)


if __name__ == '__main__':
    sys.exit(run())
