"""C02: the parallelism limit is respected and used."""
from ..searchcheck import run as run_search


def run(ctx):
    k = ctx.pick(1, 12)
    run_search(ctx, [('parallel', 700 * k, {}), ('scenario', 200 * k, {}), ('resumed', 80 * k, {})], ['open'],
               monitor=('open', ['one_more', 'idle']), tree=dict(num=ctx.pick(40, 800), limit=ctx.pick(50, 2000)))
