"""cover.py [CASES [PROPERTY...]]: which lines of paramz no check ever runs (single process, VERIF_SEED)"""
import os, sys
os.environ['PYTHONHASHSEED'] = '0'
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [H, REPO]
sys.dont_write_bytecode = True
import warnings, logging
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
import numpy, scipy.optimize, importlib, glob, ast  # noqa
numpy.seterr(all='ignore')
hit = {}
mon = sys.monitoring
mon.use_tool_id(4, 'cover')


def line(code, n):
    f = code.co_filename
    if '/paramz/' in f and '/tests/' not in f:
        hit.setdefault(f, set()).add(n)
    return mon.DISABLE


mon.register_callback(4, mon.events.LINE, line)
mon.set_events(4, mon.events.LINE)
import sanitize
sanitize.install()
sys.pycache_prefix = os.path.join(H, 'no-such-cache')
import paramz
sys.pycache_prefix = None
warnings.simplefilter('ignore')
import vcommon
if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    props = sys.argv[2:] or sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(H + '/props/p[0-9]*.py'))
    for p in props:
        mod = importlib.import_module('props.' + p.lower())
        for c in range(min(n, mod.CASES['quick'])):
            r = vcommon._one(mod, p, int(os.environ.get('VERIF_SEED', '1')), c, 'quick')
            if r['outcome'] != 'held':
                print(p, c, r['outcome'], r.get('key'), r.get('msg'))
        print(p, sum(map(len, hit.values())), file=sys.stderr)
    root = os.path.dirname(paramz.__file__)
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            f = os.path.join(d, f)
            if not f.endswith('.py') or '/tests/' in f:
                continue
            src = open(f).read()
            doc = set()
            lines = set()
            for node in ast.walk(ast.parse(src)):
                if isinstance(node, ast.stmt):
                    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                        continue
                    if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Try)):
                        continue
                    lines.add(node.lineno)
            miss = sorted(lines - hit.get(f, set()))
            L = src.split('\n')
            print('==', os.path.relpath(f, root), len(lines), 'statements', len(miss), 'never run')
            for m in miss:
                print('   %4d %s' % (m, L[m - 1]))
