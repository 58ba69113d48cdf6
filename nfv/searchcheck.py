"""Shared parts of the checks which judge recorded searches."""
import os
import threading

from . import searchgen
from .common import MachineryError, pmap
from .finalrun import final_run
from .searchdrv import drive, explore


def _one(item):
    gen, seed, num, kwargs = item
    return drive((getattr(searchgen, gen)(seed, **kwargs), num))


def generate(ctx, plan, limit=40):
    """plan: list of (generator name, number of runs, keyword arguments)."""
    items = []
    for gen, num, kwargs in plan:
        items += [(gen, '{}-{}-{}-{}'.format(ctx.prop, gen, ctx.seed, i), i, kwargs) for i in range(num)]
    ctx.rng.shuffle(items)
    recs = ctx.collect(pmap(_one, items, limit=limit, deadline=ctx.deadline), items)
    ctx.count('runs_discarded_as_ambiguous', sum(r is None for r in recs))
    return [r for r in recs if r is not None]


def _tree(item):
    seed, limit, kwargs = item
    return explore((searchgen.tiny(seed, **kwargs), 0, limit))


def trees(ctx, num, limit, **kwargs):
    """All schedules (and interruptions) of small searches."""
    items = [('{}-tree-{}-{}'.format(ctx.prop, ctx.seed, i), limit, kwargs) for i in range(num)]
    recs = []
    for out in ctx.collect(pmap(_tree, items, limit=ctx.pick(120, 1200), deadline=ctx.deadline), items):
        if out is None:
            ctx.count('runs_discarded_as_ambiguous')
            continue
        ctx.count('small_searches')
        ctx.count('small_searches_with_all_schedules', out[1])
        recs += out[0]
    ctx.count('schedules_enumerated', len(recs))
    return recs


def describe(ctx, recs):
    for rec in recs:
        ctx.count('processes', len(rec['c']))
        for evt in rec['ev']:
            ctx.count('events_' + evt['e'])
            ctx.count('starts', len(evt['started']))
        last = [e for e in rec['ev'] if not e['snap']['none']]
        if last:
            snap = last[-1]['snap']
            ctx.count('results', len(snap['res']))
            ctx.count('nodes', sum(r['node'] for r in snap['res']))
            ctx.count('refined', len(snap['refd']))
    for rec in recs[:2]:
        ctx.sample(rec)


#: searches which go wrong in a way the monitor has to notice, and the largest number of zeros needed
BUGS = dict(
    lose_simplex='1', lose_result='1', lose_position='1', lose_refined='1', refine_twice='3', start_covered='2', start_again='1', one_more='1',
    forget_run='1', classify='1', launch_less='1', foreign='1', idle='1'
)


def monitor_design(ctx, conf, bugs):
    """The monitor accepts every behaviour of the specified search, and rejects those of broken ones."""
    env = dict(NS_MAX=ctx.pick('1', '2'), NS_BUG='', TRACE='/dev/null')
    for name in ctx.pick([conf], sorted({conf, 'per', 'live', 'none', 'open', 'check1', 'nocheck'})):
        ctx.model_check('MCMonitor', 'MCMonitor.cfg', min_states=1000, workers=ctx.pick(3, 8), env=dict(env, NS_CONF=name))
    for bug in ctx.pick(bugs, sorted(BUGS)):
        res = ctx.model_check(
            'MCMonitor', 'MCMonitor_step.cfg', expect_ok=False, workers=ctx.pick(3, 8), env=dict(env, NS_CONF='per', NS_MAX=BUGS[bug], NS_BUG=bug)
        )
        if 'Accepted is violated' not in res.out:
            raise MachineryError('the monitor accepts a search with {}\n{}'.format(bug, res.out[-3000:]))


def design(ctx, confs, *, thorough=('per', 'open', 'check1', 'nocheck', 'none'), live=False, monitor=None):
    """Exhaust the design for the given small configurations; returns a function to wait for the outcome."""
    errors = []

    def work():
        try:
            for conf in ctx.pick(confs, sorted(set(confs) | set(thorough))):
                ctx.model_check(
                    'MCNodeSearch', 'MCNodeSearch.cfg', min_states=1000, workers=ctx.pick(3, 8),
                    env=dict(NS_CONF=conf, NS_MAX=ctx.pick('2', '3'))
                )
            if live or ctx.thorough:
                ctx.model_check(
                    'MCNodeSearch', 'MCNodeSearch_live.cfg', min_states=1000, workers=ctx.pick(3, 8),
                    env=dict(NS_CONF='live', NS_MAX=ctx.pick('1', '2'))
                )
            if monitor:
                monitor_design(ctx, *monitor)
        except BaseException as exc:  # pylint: disable=broad-except
            errors.append(exc)

    thread = threading.Thread(target=work)
    thread.start()

    def wait():
        thread.join()
        if errors:
            raise errors[0]
    return wait


def run(ctx, plan, confs, live=False, final=0, monitor=None, tree=None):
    wait = design(ctx, confs, live=live, monitor=monitor)
    try:
        recs = generate(ctx, plan)
        if tree:
            recs += trees(ctx, **tree)
        describe(ctx, recs)
        for start in range(0, len(recs), 4000):
            ctx.judge('SearchTrace', recs[start:start + 4000])
        if final:
            items = ['{}-final-{}-{}'.format(ctx.prop, ctx.seed, i) for i in range(final)]
            recs = [r for r in ctx.collect(pmap(final_run, items, limit=120, deadline=ctx.deadline), items) if r]
            ctx.count('realistic_searches', len(recs))
            ctx.count('realistic_results', sum(len(r['res']) for r in recs))
            for start in range(0, len(recs), 4000):
                ctx.judge('SearchFinal', recs[start:start + 4000])
    finally:
        wait()
    ctx.assumptions += [
        'searches on integer lattices with exact binary scales; most minimizations end after the evaluation of the starting simplex',
        'the state is observed through the save file whenever all evaluations in progress wait for the gap function',
        'bounds: up to 3 dimensions, mesh up to 6 per direction, up to 14 zeros of the gap function, up to 60 steps per run',
    ]
    return recs
