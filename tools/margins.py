"""how far the events of the last runs (evidence/) are above the minima which the checks demand"""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in range(1, 28):
    p = 'P%02d' % i
    e = json.load(open('%s/evidence/%s.json' % (HERE, p)))
    t = ast.parse(open('%s/harness/props/%s.py' % (HERE, p.lower())).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", 0) == 'MINIMUM':
            for k in n.value.keywords:
                m, v = k.value.value, e['coverage']['events'].get(k.arg, 0)
                if v < 1.6 * m:
                    print(p, e['tier'], k.arg, v, m, round(v / m, 2))
