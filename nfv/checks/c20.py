"""C20: saving and loading preserves all objects."""
from ..common import pmap
from ..storerun import batch, histories, queue_histories


def run(ctx):
    ctx.model_check('MCStore', ctx.pick('MCStore.cfg', 'MCStore_deep.cfg'), min_states=3000)
    num = ctx.pick(2500, 30000)
    seeds = ['c20-{}-{}'.format(ctx.seed, i) for i in range(num)]
    chunks = [seeds[i::num // 20] for i in range(num // 20)]
    records = [r for b in ctx.collect(pmap(batch, chunks, limit=120, deadline=ctx.deadline), chunks) for r in b]
    for rec in records:
        ctx.count('of_' + (rec['kind'] if rec['kind'] != 'attrs' else rec['obj'].replace(' ', '_')))
        if rec['kind'] != 'attrs':
            ctx.sample(rec)
    length = ctx.pick(3, 4)
    items = [item for item in queue_histories(length) if len(item[1]) == length + 1]  # the shorter ones are their beginnings
    parts = [items[i::16] for i in range(16)]
    enumerated = [r for b in ctx.collect(pmap(histories, parts, limit=600, deadline=ctx.deadline), parts) for r in b]
    ctx.count('enumerated_queue_histories', len(enumerated))
    ctx.judge('StoreTrace', records + enumerated)
