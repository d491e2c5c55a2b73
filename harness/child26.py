"""Loads a model with notes in a process where none was ever made; prints the notes of all parts (for P26)."""
import os, sys, json


def report(m):
    out = []
    m.traverse(lambda x: out.append([x.name, x.size, sorted([str(k), [int(i) for i in v]] for k, v in x.notes.items() if len(v)) if x.size else []]))
    return out


if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), here]
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    import numpy, scipy.optimize  # noqa
    sys.pycache_prefix = os.path.join(here, 'no-such-cache')
    import paramz
    m = paramz.load(sys.argv[1])
    out = [report(m)]
    m.notes.add('later', [0])
    if m.size > 1:
        m.notes.remove('prior', [m.size - 1])
    out.append(report(m))
    json.dump(out, open(sys.argv[2], 'w'))
