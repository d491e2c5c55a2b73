"""P03: constraint tables of every level against per-element bookkeeping"""
import monitors as M
from world import World
LEVEL = 'exploration'
CASES = dict(quick=1050, thorough=6000)
EVAL = 'constraint_tables_compared'
MINIMUM = dict(constraint_tables_compared=5000, constrains=500, fixes=300, unfixes=150, unconstrains=150, op_link=100,
               op_unlink=50, constraints_refused=80, op_move=50, copies=20, pickles=20)
DISTINCT = 500
RULE = 'distinct non-empty constraint tables (constraint -> indices) compared at some handle'
ASSUMPTIONS = ['the provided constraints with six pairs of bounds']


def refused(w, op=None):
    if op == 'badconstraint':
        M.values(w)
        M.optvec(w)


refused.always = True


def run_case(ctx):
    w = World(ctx)
    w.run(ctx.int(15, 40), dict(set=6, inplace=1, optset=3, constrain=26, fix=16, unfix=10, unconstrain=14, link=10,
                                move=6, unlink=8, illegal=3, badconstraint=3, rename=2, copy=3, pickle=3, randomize=1, updates=1),
          [M.constraints, refused])
    ctx.samples = ctx.history[:12]
