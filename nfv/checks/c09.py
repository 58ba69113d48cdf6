"""C09: a failing gap function ends the search cleanly."""
from .c18 import observe_saved
from ..common import pmap
from ..searchcheck import run as run_search


def run(ctx):
    k = ctx.pick(1, 12)
    run_search(ctx, [('failing', 700 * k, {}), ('resumed', 100 * k, {'stop': ('fail',)})], [], live=True,
               monitor=('none', []), tree=dict(num=ctx.pick(12, 400), limit=ctx.pick(40, 2000), interrupt=1, crash=False))
    items = ['{}-saved-{}-{}'.format(ctx.prop, ctx.seed, i) for i in range(400 * k)]
    recs = ctx.collect(pmap(observe_saved, items, limit=25, deadline=ctx.deadline), items)
    ctx.count('calls_of_run', len(recs))
    ctx.judge('ContextTrace', recs)
