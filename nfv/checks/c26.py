"""C26: plots show exactly the result."""
from ..common import pmap
from ..plotrun import batch, graph_items, graphs


def run(ctx):
    ctx.model_check('MCPlot', ctx.pick('MCPlot.cfg', 'MCPlot_deep.cfg'), min_states=3000)
    num = ctx.pick(1200, 16000)
    seeds = ['c26-{}-{}'.format(ctx.seed, i) for i in range(num)]
    chunks = [seeds[i::num // 20] for i in range(num // 20)]
    records = [r for b in ctx.collect(pmap(batch, chunks, limit=120, deadline=ctx.deadline), chunks) for r in b]
    for rec in records:
        ctx.count('plots_' + rec['about'].split()[0])
        if len(rec['paths']) < 4:
            ctx.sample(rec)
    ctx.count('paths', sum(len(r['paths']) for r in records))
    ctx.judge('PlotTrace', records)
    items = graph_items(ctx.rng, ctx.thorough)
    records = [r for b in ctx.collect(pmap(graphs, items, limit=300, deadline=ctx.deadline), items) for r in b]
    ctx.count('enumerated_graphs', len(records))
    for start in range(0, len(records), 20000):
        ctx.judge('PlotTrace', records[start:start + 20000])
