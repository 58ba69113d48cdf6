"""C25: identification works on all search outputs and their nodes only."""
from ..common import pmap
from ..identinput import batch


def run(ctx):
    ctx.model_check('MCIdentify', ctx.pick('MCIdentify_1d.cfg', 'MCIdentify_1d_deep.cfg'), min_states=10000)
    num = ctx.pick(1000, 12000)
    seeds = ['c25-{}-{}'.format(ctx.seed, i) for i in range(num)]
    chunks = [seeds[i::num // 10] for i in range(num // 10)]
    records = [r for b in ctx.collect(pmap(batch, chunks, limit=120, deadline=ctx.deadline), chunks) for r in b]
    for rec in records:
        ctx.count('from_' + rec['source'].replace(' ', '_'))
        if len(rec['results']) < 12:
            ctx.sample(rec)
    ctx.count('without_nodes', sum(not r['objs'] for r in records))
    ctx.judge('IdentTrace', records)
