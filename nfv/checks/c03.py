"""C03: each minimization yields one correctly classified result."""
from ..searchcheck import run as run_search


def run(ctx):
    k = ctx.pick(1, 12)
    run_search(ctx, [('classify', 400 * k, {}), ('scenario', 100 * k, {}), ('resumed', 60 * k, {}), ('descending', 700 * k, {})], ['none'], final=150 * k,
               monitor=('none', ['lose_result', 'classify']))
