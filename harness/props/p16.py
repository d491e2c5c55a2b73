"""P16: names"""
import monitors as M
from world import World
LEVEL = 'exploration'
CASES = dict(quick=900, thorough=6000)
EVAL = 'attributes_followed'
MINIMUM = dict(attributes_followed=10000, former_names_checked=300, renames=300, op_link=200, op_unlink=100, names_refused=200)
DISTINCT = 300
RULE = 'distinct lists of sibling names for which uniqueness, attributes and name lists were compared'
ASSUMPTIONS = ['names which are attributes of the classes themselves are not used']


def refused(w, op=None):
    if op == 'badname':
        M.values(w)
        M.constraints(w)
        M.structure(w)


refused.always = True


def run_case(ctx):
    w = World(ctx)
    w.run(ctx.int(15, 35), dict(set=16, inplace=1, optset=2, rename=22, badname=8, link=14, move=4, unlink=10, illegal=4, fix=10,
                                unfix=4, constrain=4, unconstrain=2, copy=3, pickle=3, updates=1), [M.names, refused])
    ctx.samples = ctx.history[:12]
