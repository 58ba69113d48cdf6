"""C05: a refinement launches the stencil scaled and shifted to the node."""
from ..searchcheck import run as run_search


def run(ctx):
    k = ctx.pick(1, 12)
    run_search(ctx, [('scenario', 450 * k, {}), ('dense', 150 * k, {}), ('resumed', 60 * k, {})], ['nocheck'], final=300 * k,
               monitor=('nocheck', ['launch_less', 'foreign']))
