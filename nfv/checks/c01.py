"""C01: every starting simplex is dealt with exactly once."""
from ..searchcheck import run as run_search


def run(ctx):
    k = ctx.pick(1, 12)
    run_search(ctx, [('scenario', 350 * k, {}), ('parallel', 150 * k, {}), ('dense', 120 * k, {}), ('overlap', 120 * k, {}), ('resumed', 120 * k, {}),
                     ('descending', 250 * k, {})], ['none'], final=150 * k,
               monitor=('none', ['lose_simplex', 'start_again']), tree=dict(num=ctx.pick(16, 600), limit=ctx.pick(40, 2000)))
