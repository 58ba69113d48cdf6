"""C11: options for the initial state are honoured."""
from .. import optionrun
from ..common import pmap


def run(ctx):
    ctx.model_check('Options', 'Options.cfg', min_states=100)
    items = ['c11-{}-{}'.format(ctx.seed, i) for i in range(ctx.pick(900, 15000))]
    recs = ctx.collect(pmap(optionrun.observe, items, limit=60, deadline=ctx.deadline), items)
    for rec in recs:
        evt = rec['ev'][0]
        opts = evt['o']
        ctx.count('load{:d}_file{:d}_state{:d}_quiet{:d}'.format(opts['load'], opts['hasfile'], opts['hasstate'], opts['quiet']))
        ctx.count('outcome_' + evt['outcome'])
        ctx.count('force', evt['force'])
    for rec in recs[:2]:
        ctx.sample(rec)
    for start in range(0, len(recs), 3000):
        ctx.judge('SearchTrace', recs[start:start + 3000])
    ctx.assumptions += [
        'states saved by interrupted or finished searches in up to 3 dimensions; the judged search itself finds no nodes and does not refine',
    ]
