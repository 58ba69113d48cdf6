"""C18: run returns or raises in every calling context."""
import asyncio
import os
import random
import tempfile
import shutil
import threading
import time
import warnings

import numpy as np

from ..common import pmap


class Special(Exception):
    """Raised by gap functions."""


class Base(BaseException):
    """Raised by gap functions."""


ERRORS = dict(
    KeyError=KeyError, ValueError=ValueError, Special=Special, Base=Base, CancelledError=asyncio.CancelledError, SystemExit=SystemExit,
    KeyboardInterrupt=KeyboardInterrupt, TimeoutError=TimeoutError
)
CONTEXTS = [
    'main_fresh', 'main_unset', 'main_idle', 'main_running', 'main_after_run', 'thread_none', 'thread_idle', 'thread_running',
    'thread_beside', 'executor', 'nested', 'twice_running'
]
CALL_LIMIT = 25.


def problem(rng, tmp, slow=0):
    """Returns a function which gives fresh arguments of a search."""
    dim = rng.choice([1, 1, 2])
    error = rng.choice([None, None, None] + sorted(ERRORS))
    when = rng.choice([0, 1, 5, 20, 60])
    once = rng.random() < .5
    center = [rng.random() for _ in range(dim)]
    is_async = rng.random() < .5
    kind = rng.choice(['points', 'none', 'wrong_dim', 'bad_save'] if rng.random() < .25 else ['points'])
    par = rng.choice([1, 3, 50])
    if slow:
        when, kind = 0, 'points'
        error = error or rng.choice([None, 'ValueError'])

    def fresh(tag):
        calls = [0]
        lock = threading.Lock()

        def gap(pos):
            if slow and tag != 'ref' and not calls[0]:
                time.sleep(slow)
            with lock:
                calls[0] += 1
                num = calls[0]
            if error and (num == when + 1 if once else num > when):
                raise ERRORS[error]('given')
            val = float(np.linalg.norm(np.array(pos) - center))
            return val + (kind == 'none')

        async def coro(pos):
            await asyncio.sleep(0)
            return gap(pos)

        kwargs = dict(
            limits=[(0, 1)] * dim, initial_mesh_size=rng_free['mesh'], feature_size=.3, num_minimize_parallel=par, periodic=rng_free['per'],
            nelder_mead_kwargs=dict(maxiter=30), refinement_stencil=None, simplex_check_cutoff=dim + 1
        )
        if kind == 'wrong_dim':
            kwargs['initial_mesh_size'] = (2, ) * (dim + 1)
        if kind == 'bad_save':
            kwargs.update(save_file=os.path.join(tmp, 'missing', 'save'))
        elif rng_free['save']:
            kwargs.update(save_file=os.path.join(tmp, 'save' + tag))
        return (coro if is_async else gap), kwargs

    rng_free = dict(mesh=rng.choice([1, 3]) if dim == 1 else 2, per=rng.random() < .5, save=rng.random() < .3)
    if not rng_free['per'] and rng_free['mesh'] == 1:
        rng_free['mesh'] = 2
    return fresh


def digest(res):
    return sorted((tuple(np.asarray(r.pos).tolist()), float(r.value), int(r.num_fev)) for r in res.minimization_results)


def outcome_of(func):
    """('ok', digest) or (name of the exception, None)"""
    try:
        res = func()
    except BaseException as exc:  # pylint: disable=broad-except
        return type(exc).__name__, None
    return 'ok', digest(res)


class Call:
    """One call of run in a given context."""
    def __init__(self, ctx, fresh, times=1):
        self.ctx, self.fresh, self.times = ctx, fresh, times
        self.out = ('nothing', None)
        self.usable, self.left, self.kept, self.why = True, 0, True, ''

    def go(self):
        for num in range(self.times):
            res = outcome_of(lambda n=num: self.run('s{}'.format(n)))
        return res

    def run(self, tag='a'):
        import nodefinder as nf
        gap, kwargs = self.fresh(tag)
        return nf.search.run(gap, **kwargs)

    def test_idle(self, loop, current=True):
        """The loop is open, current, has no tasks and can be used."""
        try:
            if current:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.kept = asyncio.get_event_loop() is loop
            self.left = len(asyncio.all_tasks(loop))
            for _ in range(2):
                self.usable = loop.run_until_complete(asyncio.sleep(0.001, 'fine')) == 'fine' and self.usable
        except BaseException as exc:  # pylint: disable=broad-except
            self.usable, self.why = False, repr(exc)

    def idle(self):
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        self.out = self.go()
        self.test_idle(loop)
        if self.usable and not self.left:
            loop.close()
        asyncio.set_event_loop(None)

    def running(self, times=1):
        async def main():
            for num in range(times):
                self.out = outcome_of(lambda n=num: self.run(str(n)))
            me = asyncio.current_task()
            self.kept = asyncio.get_running_loop() is loop
            self.left = len([t for t in asyncio.all_tasks() if t is not me])
            self.usable = await asyncio.sleep(0.001, 'fine') == 'fine'
        loop = asyncio.new_event_loop()
        try:
            loop.run_until_complete(main())
        except BaseException as exc:  # pylint: disable=broad-except
            self.usable, self.why = False, repr(exc)
        loop.close()

    def none(self):
        self.out = self.go()

    def perform(self):
        name = self.ctx
        if name.startswith('thread_') and name != 'thread_beside':
            target = dict(thread_none=self.none, thread_idle=self.idle, thread_running=self.running)[name]
            thread = threading.Thread(target=target, daemon=True)
            thread.start()
            thread.join()
        elif name in ('thread_beside', 'executor'):
            # a thread beside a running loop
            async def main():
                loop = asyncio.get_running_loop()
                if name == 'executor':
                    self.out = await loop.run_in_executor(None, self.go)
                else:
                    thread = threading.Thread(target=self.none, daemon=True)
                    thread.start()
                    while thread.is_alive():
                        await asyncio.sleep(0.001)
                me = asyncio.current_task()
                self.left = len([t for t in asyncio.all_tasks() if t is not me])
            try:
                asyncio.run(main())
            except BaseException as exc:  # pylint: disable=broad-except
                self.usable, self.why = False, repr(exc)
        elif name == 'main_fresh':
            asyncio.set_event_loop_policy(None)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.out = self.go()
                try:
                    loop = asyncio.get_event_loop()
                except RuntimeError:
                    loop = None
            if loop is not None:
                self.test_idle(loop)
        elif name == 'main_unset':
            asyncio.set_event_loop(None)
            self.out = self.go()
        elif name == 'main_after_run':
            asyncio.run(asyncio.sleep(0))
            self.out = self.go()
        elif name == 'main_idle':
            self.idle()
        elif name == 'main_running':
            self.running()
        elif name == 'twice_running':
            self.running(2)
        elif name == 'nested':
            self.nested()

    def nested(self):
        """A gap function which itself runs a search."""
        import nodefinder as nf
        done = []

        def outer(pos):
            if not done:
                done.append(self.go())
            return 1.
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            nf.search.run(
                outer, limits=[(0, 1)], initial_mesh_size=1, feature_size=.5, refinement_stencil=None,
                nelder_mead_kwargs=dict(xtol=float('inf'), ftol=float('inf'))
            )
        except BaseException as exc:  # pylint: disable=broad-except
            self.usable, self.why = False, repr(exc)
        self.out = done[0]
        self.test_idle(loop)
        asyncio.set_event_loop(None)


def observe(seed, slow=0):
    import nodefinder as nf
    threading.excepthook = lambda args: None
    warnings.simplefilter('ignore')
    rng = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix='ctx_', dir=os.environ.get('NFV_SCRATCH'))
    try:
        fresh = problem(rng, tmp, slow)
        gap, kwargs = fresh('ref')
        expected = outcome_of(lambda: asyncio.run(nf.search.run_async(gap, **kwargs)))
        call = Call(rng.choice(CONTEXTS), fresh, 1 if slow else rng.choice([1, 1, 2]))
        call.perform()
        return dict(
            kind='call', ctx=call.ctx, expected=expected[0], got=call.out[0], same=call.out[1] == expected[1], usable=call.usable, why=call.why,
            left=call.left, kept=call.kept, about=str(seed)
        )
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def observe_saved(seed):
    """What is saved when the gap function raises (also interrupts), one minimization after the other."""
    import nodefinder as nf
    threading.excepthook = lambda args: None
    warnings.simplefilter('ignore')
    rng = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix='ctx_', dir=os.environ.get('NFV_SCRATCH'))
    dim, mesh = rng.choice([(1, 5), (1, 9), (2, 3), (3, 2)])
    total = mesh**dim
    when = rng.randrange(total * (dim + 1))
    error = rng.choice(sorted(ERRORS))
    once = rng.random() < .5
    path = os.path.join(tmp, 'save')

    def fresh(_):
        calls = [0]

        def gap(pos):
            calls[0] += 1
            if calls[0] == when + 1 if once else calls[0] > when:
                raise ERRORS[error]('given')
            return 1.

        return gap, dict(
            limits=[(0, 1)] * dim, initial_mesh_size=mesh, feature_size=.3, num_minimize_parallel=1, save_file=path,
            nelder_mead_kwargs=dict(xtol=float('inf'), ftol=float('inf')), save_delay=rng.choice([0., 5.])
        )

    try:
        call = Call(rng.choice([c for c in CONTEXTS if c != 'twice_running']), fresh)
        call.perform()
        state = nf.io.load(path) if os.path.exists(path) else None
        return dict(
            kind='saved', ctx=call.ctx, error=error, got=call.out[0], per=dim + 1, total=total, when=when,
            results=-1 if state is None else len(state.result.minimization_results),
            pending=-1 if state is None else len(state.simplex_queue.objects), about=str(seed)
        )
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def observe_slow(seed):
    """A gap function which takes its time; then it returns or raises."""
    return observe(seed, random.Random(seed).choice([2.5, 3.5, 5.5, 6.5, 10.5]))


def run(ctx):
    ctx.model_check('RunContext', 'RunContext.cfg', min_states=100)
    items = ['c18-{}-{}'.format(ctx.seed, i) for i in range(ctx.pick(1200, 20000))]
    recs = ctx.collect(pmap(observe, items, limit=CALL_LIMIT, deadline=ctx.deadline), items)
    items = ['c18-slow-{}-{}'.format(ctx.seed, i) for i in range(ctx.pick(24, 160))]
    slow = ctx.collect(pmap(observe_slow, items, limit=2 * CALL_LIMIT, deadline=ctx.deadline), items)
    ctx.count('slow_calls', len(slow))
    recs += slow
    for rec in recs:
        ctx.count('context_' + rec['ctx'])
        ctx.count('outcome_' + rec['got'])
    for rec in recs[:2]:
        ctx.sample(rec)
    ctx.judge('ContextTrace', recs)
    ctx.assumptions += [
        'a call which takes more than {} s counts as blocking forever (usual duration: below 1 s)'.format(CALL_LIMIT),
        'the event loop of the calling thread is open; interrupts are raised by the gap function',
    ]
