"""P11: derived state"""
import monitors as M
from world import World
LEVEL = 'exploration'
CASES = dict(quick=1500, thorough=8000)
EVAL = 'nodes_fresh'
MINIMUM = dict(nodes_fresh=5000, objectives_fresh=3000, quiet_checks=1000, switches=300)
DISTINCT = 1000
RULE = 'distinct objective values compared with a recomputation from scratch'
ASSUMPTIONS = ['structure changes are followed by trigger_update(), as they do not recompute by themselves']


def run_case(ctx):
    w = World(ctx)
    w.run(ctx.int(15, 40), dict(set=34, inplace=10, updates=8, fix=12, link=4, move=2, unlink=3, extreme=1, restarts=1), [M.fresh, M.values])
    ctx.samples = ctx.history[:12]
