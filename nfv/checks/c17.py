"""C17: without refinement, results do not depend on the schedule."""
import asyncio
import hashlib
import os
import random
import shutil
import tempfile
import warnings

import numpy as np

from ..common import pmap
from ..nmrun import state
from ..searchcheck import design
from ..vloop import VirtualLoop


class Abort(Exception):
    """Ends a search from within the gap function."""


def landscape(rng, dim, size):
    kind = rng.choice(['dist', 'dist', 'wave', 'hash', 'const', 'stairs', 'mixed', 'nan', 'inf'])
    center = np.array([[s * rng.random() for s in size] for _ in range(rng.choice([1, 2, 3]))])
    salt = str(rng.random()).encode()
    size = np.array(size)

    def dist(pos):
        d = (pos - center + size / 2) % size - size / 2
        return float(np.min(np.linalg.norm(d, axis=-1)))

    def rough(pos):
        return int.from_bytes(hashlib.blake2b(np.ascontiguousarray(pos).tobytes() + salt, digest_size=4).digest(), 'big') / 2**32

    def gap(pos):
        pos = np.array(pos, dtype=float)
        if kind == 'dist':
            return dist(pos)
        if kind == 'wave':
            return float(np.sum(np.sin(np.pi * pos / size)**2))
        if kind == 'hash':
            return rough(pos)
        if kind == 'const':
            return 0.
        if kind == 'stairs':
            return float(np.floor(5 * dist(pos)))
        if kind == 'mixed':
            return dist(pos) + .1 * rough(pos)
        if dist(pos) < .2 * float(min(size)):
            return float(kind)
        return dist(pos)
    return gap


def signature(res):
    parts = [np.asarray(res.pos, dtype=float).tobytes(), float(res.value).hex(), res.num_fev, res.num_iter, res.status, bool(res.success), res.message]
    for hist in (res.simplex_history, getattr(res, 'fun_simplex_history', None)):
        parts.append(None if hist is None else np.asarray(hist, dtype=float).tobytes())
    return hashlib.blake2b(repr(parts).encode(), digest_size=12).hexdigest()


class Case:
    def __init__(self, seed):
        rng = self.rng = random.Random(seed)
        self.dim = rng.choice([1, 2, 2, 3])
        self.size = [rng.choice([1., 1., .3, 7.]) for _ in range(self.dim)]
        self.per = rng.random() < .6
        self.mesh = tuple(rng.randint(1 if self.per else 2, {1: 8, 2: 3, 3: 2}[self.dim]) for _ in range(self.dim))
        self.gap = landscape(rng, self.dim, self.size)
        self.thr = rng.choice([1e-6, 1e-3, .1, .5])
        nm = {}
        if rng.random() < .5:
            nm['maxiter'] = rng.choice([1, 3, 10, 40])
        if rng.random() < .3:
            nm['maxfev'] = rng.choice([1, 5, 20, 70])
        if rng.random() < .2:
            nm['keep_history'] = rng.random() < .5
        if rng.random() < .2:
            nm['fprime_cutoff'] = rng.choice([.1, 1., 3.])
        self.kwargs = dict(
            limits=[(0, s) for s in self.size], periodic=self.per, initial_mesh_size=self.mesh, gap_threshold=self.thr,
            feature_size=rng.choice([.05, .2, .6, 2.]) * min(self.size), refinement_stencil=None, nelder_mead_kwargs=nm,
            simplex_check_cutoff=self.dim + rng.choice([1, 1, 5])
        )

    def search(self, tmp, how, par, abort=None, copy=None, **extra):
        """One call of run_async; returns the result, None if the gap function aborted it."""
        import nodefinder as nf
        rng = self.rng
        calls = [0]
        save = extra.get('save_file')

        def gap(pos):
            calls[0] += 1
            if abort is not None and calls[0] > abort:
                raise Abort
            if copy and calls[0] > copy[0] and save and os.path.exists(save) and not os.path.exists(copy[1]):
                shutil.copy(save, copy[1])
            return self.gap(pos)

        async def delayed(pos):
            pos = np.array(pos)
            if how != 'zero':
                await asyncio.sleep(rng.choice([0, 0, 0.001, 0.01, 0.03 * rng.random()]))
            res = gap(pos)
            if how == 'slow_end':
                await asyncio.sleep(.015 * rng.random())
            return res

        loop = VirtualLoop()
        try:
            return loop.run_until_complete(nf.search.run_async(
                gap if how == 'sync' else delayed, num_minimize_parallel=par, **dict(self.kwargs, **extra)
            ))
        except Abort:
            return None
        finally:
            loop.close()


def observe(seed):
    import nodefinder as nf
    warnings.simplefilter('ignore')
    case = Case(seed)
    rng = case.rng
    tmp = tempfile.mkdtemp(prefix='sch_', dir=os.environ.get('NFV_SCRATCH'))
    ids = {}

    def num(res):
        return ids.setdefault(signature(res), len(ids) + 1)

    try:
        alone, _ = starts(case, tmp, num)
        runs = []

        def run(name, *args, **kwargs):
            res = case.search(tmp, *args, **kwargs)
            if res is None:
                return
            runs.append(dict(
                how=name, done=True, what='', res=[num(r) for r in res.minimization_results], nodes=[num(r) for r in res.nodes]
            ))

        pars = [1, 2, 3, 50]
        hows = ['sync', 'delayed', 'zero', 'slow_end']
        run('sync1', 'sync', 1)
        run('parallel', rng.choice(hows), 50)
        for _ in range(2):
            how, par = rng.choice(hows), rng.choice(pars)
            run('{}{}'.format(how, par), how, par)
        # interrupted by failing evaluations, or continued from the save file at some time
        for _ in range(2):
            count = rng.randint(0, 40) if rng.random() < .6 else rng.randint(0, 400)
            path = os.path.join(tmp, 'save{}'.format(len(runs)))
            copy = (count, path + 'copy') if rng.random() < .5 else None
            delay = rng.choice([0., .05, .2])
            name = '{} at {}'.format('copied' if copy else 'failed', count)
            case.search(
                tmp, rng.choice(hows), rng.choice(pars), abort=None if copy else count, copy=copy, save_file=path, save_delay=delay
            )
            path = copy[1] if copy else path
            if not os.path.exists(path):
                continue
            if rng.random() < .3:
                case.search(tmp, rng.choice(hows), rng.choice(pars), abort=rng.randint(0, 60), save_file=path, load=True)
            if rng.random() < .5:
                run(name, rng.choice(hows), rng.choice(pars), save_file=path, load=True)
            else:
                run(name, rng.choice(hows), rng.choice(pars), initial_state=nf.io.load(path))
        return dict(alone=alone, runs=runs, about=str(seed))
    finally:
        shutil.rmtree(tmp)


class Small(Case):
    """Searches with few evaluations, of which all schedules are tried."""
    def __init__(self, seed):
        super().__init__(seed)
        rng = self.rng
        self.dim = rng.choice([1, 1, 1, 2])
        self.size, self.per = [1.] * self.dim, rng.random() < .5
        self.mesh = (2, 1) if self.dim == 2 else (rng.choice([2, 2, 3]), )
        self.gap = landscape(rng, self.dim, self.size)
        nm = dict(maxfev=1 if self.mesh == (3, ) else rng.choice([2, 3, 4]))
        if rng.random() < .3:
            nm = dict(maxiter=1)
        self.kwargs.update(
            limits=[(0, 1)] * self.dim, periodic=self.per, initial_mesh_size=self.mesh, nelder_mead_kwargs=nm, simplex_check_cutoff=self.dim + 1
        )

    def scheduled(self, script, path, stops):
        """The search whose evaluations end as the script says; what was decided on, and what came of it."""
        import nodefinder as nf
        waiting, taken, stopped = [], [], []

        async def gap(pos):
            future = asyncio.get_running_loop().create_future()
            waiting.append(future)
            await future
            return self.gap(pos)

        async def play():
            while True:
                seen = -1
                while seen != len(waiting) or not waiting:
                    seen = len(waiting)
                    for _ in range(12):
                        await asyncio.sleep(0)
                    if not waiting:
                        await asyncio.sleep(.005)
                num = len(waiting) + (stops and not stopped and os.path.exists(path))
                idx = script[len(taken)] if len(taken) < len(script) else 0
                taken.append((idx, num))
                if idx == len(waiting):
                    stopped.append(True)
                    waiting.pop(0).set_exception(Abort())
                else:
                    waiting.pop(idx).set_result(None)

        async def main():
            player = asyncio.ensure_future(play())
            try:
                return await nf.search.run_async(gap, num_minimize_parallel=50, save_file=path if stops else None, save_delay=0., **self.kwargs)
            finally:
                player.cancel()

        loop = VirtualLoop()
        try:
            return loop.run_until_complete(main()), taken, False
        except Abort:
            return None, taken, True
        finally:
            loop.close()


def all_schedules(item):
    seed, limit = item
    warnings.simplefilter('ignore')
    case = Small(seed)
    tmp = tempfile.mkdtemp(prefix='sch_', dir=os.environ.get('NFV_SCRATCH'))
    ids = {}
    num = lambda res: ids.setdefault(signature(res), len(ids) + 1)  # noqa
    try:
        alone, simplices = starts(case, tmp, num)
        stops = case.rng.random() < .5
        runs, script, complete = [], [], False
        while len(runs) < limit:
            path = os.path.join(tmp, 'save')
            if os.path.exists(path):
                os.remove(path)
            res, taken, stopped = case.scheduled(script, path, stops)
            if stopped:
                res = case.search(tmp, 'sync', 50, save_file=path, load=True)
            runs.append(dict(
                how=repr(taken), done=True, what='', res=[num(r) for r in res.minimization_results], nodes=[num(r) for r in res.nodes]
            ))
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if not taken:
                complete = True
                break
            script = [idx for idx, _ in taken[:-1]] + [taken[-1][0] + 1]
        return dict(alone=alone, runs=runs, about='schedules {}'.format(seed), complete=complete)
    finally:
        shutil.rmtree(tmp)


def starts(case, tmp, num):
    """What every starting simplex gives on its own: a search which fails at once has all of them pending."""
    import nodefinder as nf
    path = os.path.join(tmp, 'first')
    assert case.search(tmp, 'sync', 1, abort=0, save_file=path) is None
    simplices = list(nf.io.load(path).simplex_queue.objects)
    alone = []
    for simplex in simplices:
        res = case.search(tmp, 'sync', 1, initial_state=state([simplex], [], case.dim, case.thr))
        assert len(res.minimization_results) == 1
        alone.append(dict(sig=num(res.minimization_results[0]), node=bool(res.nodes)))
    return alone, simplices


def run(ctx):
    wait = design(ctx, ['none'], thorough=('none', ))
    try:
        items = ['c17-{}-{}'.format(ctx.seed, i) for i in range(ctx.pick(350, 12000))]
        recs = ctx.collect(pmap(observe, items, limit=60, deadline=ctx.deadline), items)
        parts = [('c17-all-{}-{}'.format(ctx.seed, i), ctx.pick(300, 6000)) for i in range(ctx.pick(32, 200))]
        small = ctx.collect(pmap(all_schedules, parts, limit=ctx.pick(200, 1500), deadline=ctx.deadline), parts)
        for rec in small:
            ctx.count('small_searches')
            ctx.count('small_searches_with_all_schedules', rec.pop('complete'))
            ctx.count('schedules_enumerated', len(rec['runs']))
        recs += small
        for rec in recs:
            ctx.count('searches', len(rec['runs']) + len(rec['alone']))
            ctx.count('results_compared', sum(len(r['res']) for r in rec['runs']))
            ctx.count('interrupted', sum(' at ' in r['how'] for r in rec['runs']))
        for rec in recs[:2]:
            ctx.sample(rec)
        ctx.judge('ScheduleTrace', recs)
    finally:
        wait()
    ctx.assumptions += [
        'deterministic gap functions; all schedules (and interruptions) of small searches, up to a number of them, others drawn at random (virtual time)',
        'results are compared by all of their attributes, bit by bit',
    ]
