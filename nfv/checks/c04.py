"""C04: found nodes are covered by refined positions, without redundancy."""
from ..searchcheck import run as run_search


def run(ctx):
    k = ctx.pick(1, 12)
    run_search(ctx, [('dense', 600 * k, {}), ('scenario', 200 * k, {}), ('resumed', 100 * k, {}), ('descending', 200 * k, {})], ['per'], final=200 * k,
               monitor=('per', ['lose_position', 'refine_twice']))
