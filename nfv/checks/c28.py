"""C28: no minimization starts from an already covered simplex."""
from ..searchcheck import run as run_search


def run(ctx):
    k = ctx.pick(1, 12)
    run_search(ctx, [('dense', 600 * k, {}), ('dense', 150 * k, {'resume': True}), ('scenario', 150 * k, {})], ['open'],
               monitor=('check1', ['start_covered']))
