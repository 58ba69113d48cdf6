"""C07: resuming from a saved state continues the search."""
from ..searchcheck import run as run_search


def run(ctx):
    k = ctx.pick(1, 12)
    run_search(ctx, [('resumed', 500 * k, {}), ('dense', 200 * k, {'resume': True})], [], live=True,
               monitor=('live', ['forget_run', 'lose_refined']), tree=dict(num=ctx.pick(12, 400), limit=ctx.pick(50, 2000), interrupt=1))
