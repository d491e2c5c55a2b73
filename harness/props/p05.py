"""P05: fixed elements"""
import monitors as M
from world import World
LEVEL = 'exploration'
CASES = dict(quick=900, thorough=6000)
EVAL = 'fixed_checks'
MINIMUM = dict(fixed_checks=5000, fixed_checks_with_fixes=3000, fixes=500, unfixes=200, randomizes=50, optimizes=50,
               restarts=30, checkgrads=20, optimizer_sets=200)
DISTINCT = 200
RULE = 'distinct patterns of fixed elements (per kind of handle) for which names and optimizer vector were compared'
ASSUMPTIONS = []


def run_case(ctx):
    w = World(ctx)
    w.run(ctx.int(12, 30), dict(set=6, inplace=2, optset=12, optback=4, randomize=6, constrain=10, fix=24, unfix=10,
                                unconstrain=8, optimize=5, restarts=4, checkgrad=4, calls=3, updates=1), [M.fixed, M.values])
    ctx.samples = ctx.history[:12]
