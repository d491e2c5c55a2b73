"""evalone.py FRACTION PROPERTY... : runs the first part of the quick cases of each property in one process each,
one after another, until one reports a violation (for tools/mutate.py)"""
import os, sys
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
src = open(os.path.join(H, 'run.py')).read().split("\nimport vcommon\n")[0]
__file__ = os.path.join(H, 'run.py')
exec(compile(src, __file__, 'exec'))
import vcommon, importlib, io, re, signal, time
frac = float(sys.argv[1])
vcommon.EVID = vcommon.REPLAYS = sys.argv[2]
out = []
for p in sys.argv[3:]:
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        os.dup2(w, 1)
        signal.alarm(0)
        mod = importlib.import_module('props.' + p.lower())
        os.environ['VERIF_CASES'] = str(max(8, int(mod.CASES['quick'] * frac)))
        try:
            c = vcommon.main(p, mod, 'quick', int(os.environ.get('VERIF_SEED', '1')), jobs=1)
        except BaseException as e:
            print('ERROR', repr(e)[:200])
            c = 9
        sys.stdout.flush()
        os._exit(c)
    os.close(w)
    t = os.fdopen(r).read()
    c = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if c == 1:
        m = re.search(r'  case \d+: .*', t)
        print('CAUGHT', p, (m.group(0) if m else '')[:160])
        sys.exit(1)
    if c not in (0, 3):
        print('ODD', p, c, t[-300:])
sys.exit(0)
