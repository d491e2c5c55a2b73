"""P06: the optimizer vector at every level"""
import monitors as M
from world import World
LEVEL = 'exploration'
CASES = dict(quick=1200, thorough=6000)
EVAL = 'optimizer_vectors_compared'
MINIMUM = dict(optimizer_vectors_compared=10000, optimizer_sets=800, tiny_values=300)
DISTINCT = 1000
RULE = 'distinct optimizer vectors compared with the inverse images of the reference values'
ASSUMPTIONS = ['values whose optimizer value is beyond 15 are left to P04 and P07 (rounding at the border of the domain)']


def run_case(ctx):
    w = World(ctx)
    partial = ctx.chance(.4)

    def some(w, op=None):
        # vectors read only now and then at some handle: a stale one stays stale
        if not partial:
            return M.optvec(w)
        if ctx.chance(.4):
            h = w.any_handle()
            if h is not None:
                M.optvec_one(w, h)
                w.op_optback()
    w.run(ctx.int(15, 40), dict(set=26, optset=14, optback=8, updates=2, fix=10, unfix=7, tiny=6), [some])
    M.optvec(w)
    ctx.samples = ctx.history[:12]
