"""Shared parts of the checks which judge recorded minimizations."""
import itertools

from . import nmrun
from .common import pmap


def _one(item):
    kind, seed = item
    if kind == 'limits':
        return [nmrun.limits_run(seed)]
    return nmrun.observe(seed, kind)


def grid_steps(ctx):
    """Every function with few values: all branches of the first iterations."""
    inf = nmrun.INF
    res = [(1, [0, 1, 2], 4, 9, 64, 2), (2, [0, 1], 3, 9, 256, 0)]
    if ctx.thorough:
        res += [(1, [0, 1, 2], 6, 99, 2, 0), (1, [0, 1, inf], 5, 99, 2, -1), (2, [0, 1, 2], 3, 99, 2, 0), (2, [0, 1], 5, 99, 2, 0)]
    return res


def grid_options(ctx):
    """Limits and tolerances, with functions of two values."""
    res = list(itertools.product([1], [[0, 1]], range(0, 5), range(1, 9), [-1, 0, 64, 128], [-1, 0, 2]))
    if ctx.thorough:
        res += itertools.product([2], [[0, 1]], range(0, 4), range(2, 11), [-1, 0, 256, 512], [-1, 0, 2])
        return res
    return ctx.rng.sample(res, 90)


def grid_fake(ctx):
    """Functions of two values, with existing nodes at all places near the simplex."""
    res = []
    for nodes in [c for num in (0, 1, 2) for c in itertools.combinations([[-64], [-32], [0], [16], [32], [48], [64]], num)]:
        for width, per, (maxiter, maxfev, x2, f2) in itertools.product(
            [16, 24, 40], [False, True], [(3, 99, 0, 0), (3, 99, 64, 2), (4, 5, 0, 0), (2, 99, 128, 0)]
        ):
            res.append((1, [0, 1], maxiter, maxfev, x2, f2, (nodes, width, per)))
    two = [
        (2, [0, 1], 2, maxfev, 0, 0, (nodes, width, per)) for width in [64, 200] for per in [False, True] for maxfev in [6, 99]
        for nodes in [[[0, 0]], [[128, 128]], [[256, 0], [0, 256]], [[-128, 256]], [[384, -256]]]
    ]
    return ctx.rng.sample(res, ctx.pick(30, len(res))) + ctx.rng.sample(two, ctx.pick(2, len(two)))


def run_grid(ctx, grid, limit):
    """Run the code on all functions which the design is exhausted for (values are chosen at the first evaluation)."""
    grid = [case if len(case) == 7 else (*case, None) for case in grid]
    items = [(*case, prefix, limit) for case in grid for prefix in itertools.product(range(len(case[1])), repeat=case[0] + 1)]
    ctx.rng.shuffle(items)
    recs = []
    for out in ctx.collect(pmap(nmrun.enumerate_values, items, limit=600, deadline=ctx.deadline), items):
        ctx.count('enumerated_blocks_complete' if out[1] else 'enumerated_blocks_cut')
        recs += out[0]
    ctx.count('enumerated_minimizations', len(recs))
    for start in range(0, len(recs), 20000):
        ctx.judge('NMTrace', recs[start:start + 20000])


def run(ctx, kind, num, limits=0, grid=None, limit=60000):
    ctx.model_check('MCNelderMead', 'MCNelderMead.cfg', min_states=1000)
    ctx.model_check('MCNelderMead', 'MCNelderMead_2d.cfg', min_states=10000)
    items = [(kind, '{}-nm-{}-{}'.format(ctx.prop, ctx.seed, i)) for i in range(num)]
    items += [('limits', '{}-lim-{}-{}'.format(ctx.prop, ctx.seed, i)) for i in range(limits)]
    recs = ctx.collect(pmap(_one, items, limit=60, deadline=ctx.deadline), items)
    recs = [r for out in recs for r in out]
    ctx.count('runs_discarded_as_inexact', sum(r is None for r in recs))
    recs = [r for r in recs if r is not None]
    for rec in recs:
        ctx.count('minimizations_' + rec['kind'])
        ctx.count('status_{}'.format((rec.get('res') or rec).get('status')))
        ctx.count('iterations', len(rec.get('hist', ())))
    for rec in recs[:2]:
        ctx.sample(rec)
    for start in range(0, len(recs), 4000):
        ctx.judge('NMTrace', recs[start:start + 4000])
    if grid:
        run_grid(ctx, grid(ctx), limit)
    ctx.assumptions += [
        'simplices on integer lattices on which all steps are exact for the first 4 (4-D) to 14 (1-D) iterations; later steps are not judged',
        'function values are integers below 2^28 or infinite; the fake potential is judged in 1 and 2 dimensions',
    ]
