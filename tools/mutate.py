"""mutate.py OUT [FILE...] : plants small changes all over paramz in scratch copies, drops those the existing tests
find, and runs a part of the quick checks against the others.  What no check finds is listed in OUT for reading."""
import ast, os, sys, json, subprocess, shutil, threading, queue, random, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['parameterized.py', 'param.py', 'model.py', 'caching.py', 'transformations.py', 'domains.py', 'util.py'] + ['core/' + f for f in (
    'constrainable.py', 'gradcheckable.py', 'index_operations.py', 'indexable.py', 'lists_and_dicts.py', 'nameable.py', 'observable.py',
    'observable_array.py', 'parameter_core.py', 'parentable.py', 'pickleable.py', 'updateable.py')] + [
    'examples/ridge_regression.py', 'optimization/optimization.py', 'optimization/scg.py', 'optimization/verbose_optimization.py']
ORDER = {'caching.py': 'P12', 'transformations.py': 'P07 P06 P04 P14', 'core/observable_array.py': 'P24 P15 P11 P13', 'core/observable.py': 'P10 P24',
         'core/index_operations.py': 'P20 P03 P15 P26', 'optimization/scg.py': 'P25 P17 P18', 'optimization/optimization.py': 'P17 P25 P18 P19 P23',
         'optimization/verbose_optimization.py': 'P23 P17 P22 P19', 'examples/ridge_regression.py': 'P23', 'model.py': 'P08 P18 P19 P17 P09 P22 P23',
         'core/pickleable.py': 'P13 P14 P26', 'core/nameable.py': 'P16 P22', 'param.py': 'P15 P22 P09 P24 P13 P27 P03', 'core/gradcheckable.py': 'P09',
         'core/updateable.py': 'P11 P10', 'core/indexable.py': 'P03 P15 P22 P09 P26 P02', 'core/constrainable.py': 'P03 P05 P04 P11 P06',
         'parameterized.py': 'P01 P02 P21 P22 P15 P16 P26 P27', 'core/parameter_core.py': 'P06 P01 P11 P21 P16 P05 P19 P10 P02', 'core/parentable.py': 'P02',
         'core/lists_and_dicts.py': 'P10 P20 P02 P13', 'util.py': 'P22', 'domains.py': 'P07'}
ALL = ['P%02d' % i for i in range(1, 60) if os.path.exists('%s/harness/props/p%02d.py' % (V, i))]
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
       ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '//', ast.FloorDiv: '/', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&'}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.encode().split(b'\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    raw = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def rep(n, new, what):
        a, b = pos(n)
        s = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(s, 'x', 'exec')
        except SyntaxError:
            return
        if s != src:
            out.append((n.lineno, '{}: {} -> {}'.format(what, seg(n).split('\n')[0][:70], new.split('\n')[0][:70]), s))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name in ('plot', 'save', '_repr_mimebundle_'):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip |= set(ast.walk(n)) - {n}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip |= set(ast.walk(n.body[0]))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip |= set(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                rep(n, '({} {} {})'.format(seg(n.left), o, seg(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            rep(n, '({} {} {})'.format(seg(n.left), BIN[type(n.op)], seg(n.right)), 'operator')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            rep(n, '(%s)' % seg(n.operand), 'unary')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), 'constant')
            elif isinstance(v, int):
                rep(n, str(v + 1), 'constant')
                if v:
                    rep(n, str(v - 1), 'constant')
            elif isinstance(v, float):
                rep(n, repr(v * 10 if v else 1.), 'constant')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, '(not (%s))' % seg(n.test), 'condition')
            rep(n.test, 'False', 'condition')
            if not isinstance(n, ast.While):
                rep(n.test, 'True', 'condition')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert, ast.Break, ast.Continue)):
            rep(n, 'pass', 'statement')
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, 'return None', 'return')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    a = [seg(x) for x in n.args] + [('**' + seg(q.value) if q.arg is None else q.arg + '=' + seg(q.value)) for q in n.keywords if q is not k]
                    rep(n, '{}({})'.format(seg(n.func), ', '.join(a)), 'keyword')
            if len(n.args) == 2 and not n.keywords:
                rep(n, '{}({}, {})'.format(seg(n.func), seg(n.args[1]), seg(n.args[0])), 'swap')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'astype', 'flatten', 'ravel'):
                rep(n, seg(n.func.value), 'no ' + n.func.attr)
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            rep(n.type, 'ZeroDivisionError', 'except')
    return out


def sh(cmd, timeout, **k):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return 124, ''
    except OSError as e:
        return 125, str(e)


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or FILES
    frac = os.environ.get('FRACTION', '.1')
    jobs = int(os.environ.get('JOBS', '7'))
    done = set()
    if os.path.exists(out):
        done = set(tuple(json.loads(l)[k] for k in ('file', 'line', 'what')) for l in open(out))
    kinds = os.environ.get('KINDS', 'compare,operator,bool,drop operand,unary,constant,condition,statement,return,keyword,swap,except,no copy,no astype,no flatten,no ravel').split(',')
    pick = [l.rstrip('\n').split(' ', 2) for l in open(os.environ['PICK'])] if os.environ.get('PICK') else None    # "file line part of the change"
    q = queue.Queue()
    todo = []
    for f in files:
        for line, what, s in mutants(open('/repo/paramz/' + f).read()):
            if (f, line, what) not in done and what.split(':')[0] in kinds and (pick is None or any(
                    f.endswith(p[0]) and int(p[1]) == line and p[2] in what for p in pick)):
                todo.append((f, line, what, s))
    random.Random(int(os.environ.get('SHUFFLE', '0'))).shuffle(todo)
    if os.environ.get('LIMIT'):
        todo = todo[:int(os.environ['LIMIT'])]
    for t in todo:
        q.put(t)
    print(len(todo), 'mutants', flush=True)
    lock = threading.Lock()
    W = '/tmp/mut/w.%d' % os.getpid()
    os.makedirs(W)

    def work(k):
        d = '%s/%d' % (W, k)
        os.makedirs(d + '/e')
        subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
        env = dict(os.environ, PYTHONPATH=d + '/repo', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', VERIF_REPO=d + '/repo', VERIF_CASE_SECONDS='25', VERIF_CASE_STEPS='4000000')
        while 1:
            try:
                f, line, what, s = q.get_nowait()
            except queue.Empty:
                break
            t0 = time.time()
            fn = d + '/repo/paramz/' + f
            open(fn, 'w').write(s)
            c, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', '--tb=no', '-W', 'ignore', '-o',
                       'python_files=*_tests.py *_test.py test_*.py', 'paramz/tests'] + DESELECT, 200, cwd=d + '/repo', env=env)
            if c != 0:
                r = 'tests'
            else:
                first = ORDER.get(f, '').split()
                c, o = sh([PY, '-B', V + '/tools/evalone.py', frac, d + '/e'] + first + [p for p in ALL if p not in first and not os.environ.get('ONLY')], 1500, cwd=d, env=env)
                r = 'caught ' + o.strip().split('\n')[-1][:200] if c == 1 else 'timeout' if c == 124 else 'MISSED' + (' ' + o[-400:] if o.strip() and 'ODD' in o else '')
            shutil.copy('/repo/paramz/' + f, fn)
            with lock:
                open(out, 'a').write(json.dumps(dict(file=f, line=line, what=what, result=r, seconds=round(time.time() - t0, 1))) + '\n')
    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(W)


def failing():
    o = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--tb=no', '-W', 'ignore', '-rf', '-o', 'python_files=*_tests.py *_test.py test_*.py',
            'paramz/tests'], 200, cwd='/repo', env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))[1]
    return [l.split()[1] for l in o.split('\n') if l.startswith('FAILED')]


if __name__ == '__main__':
    DESELECT = sum((['--deselect', t] for t in failing()), [])
    main()
