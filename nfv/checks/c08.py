"""C08: the save file is brought up to date."""
from .c18 import observe_saved
from ..common import pmap
from ..searchcheck import run as run_search


def run(ctx):
    k = ctx.pick(1, 12)
    run_search(ctx, [('delayed', 700 * k, {}), ('scenario', 120 * k, {}), ('dense', 80 * k, {}), ('failing', 80 * k, {})], [], live=True)
    items = ['{}-saved-{}-{}'.format(ctx.prop, ctx.seed, i) for i in range(400 * k)]
    recs = ctx.collect(pmap(observe_saved, items, limit=25, deadline=ctx.deadline), items)
    ctx.count('calls_of_run', len(recs))
    ctx.judge('ContextTrace', recs)
