"""C29: searches do not affect each other, and leave what they are given as it is."""
import asyncio
import hashlib
import os
import pickle
import random
import shutil
import signal
import tempfile
import threading
import time
import traceback
import warnings

import numpy as np

from ..common import MachineryError, ROOT, pmap
from ..storerun import flatten
from ..vloop import VirtualLoop
from .c17 import Abort, landscape, signature


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=12).hexdigest()


def look(obj):
    """All that is to be seen of an argument."""
    import nodefinder as nf
    if isinstance(obj, nf.search.result.ControllerState):
        return [found(obj.result), obj.simplex_queue.objects, obj.position_queue.objects]
    if isinstance(obj, np.ndarray):
        return [str(obj.dtype), obj.shape, obj.tobytes(), obj.flags.writeable]
    if isinstance(obj, dict):
        return [(key, look(val)) for key, val in obj.items()]
    return repr(obj)


def found(res):
    """A search result: everything in it."""
    return [
        [signature(r) for r in res.minimization_results], [signature(r) for r in res.nodes],
        sorted(np.asarray(p, dtype=float).tobytes() for p in res.refined_results), float(res.gap_threshold).hex(),
        float(res.dist_cutoff).hex(), look(np.asarray(res.coordinate_system.limits)), bool(res.coordinate_system.periodic)
    ]


def parts(res):
    """What is compared of a search result."""
    if res is None:
        return ['failed']
    results, _, refined, *rest = found(res)
    picked = [signature(r) for r in res.nodes]
    return ['result ' + s for s in results] + ['node ' + s for s in picked] + ['rest ' + digest([refined, rest])]


def apart(func, limit=30):
    """The value of func, computed in a process of its own."""
    here, there = os.pipe()
    pid = os.fork()
    if not pid:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(limit)
        try:
            val = ('ok', func())
        except BaseException:  # pylint: disable=broad-except
            val = ('error', traceback.format_exc())
        with os.fdopen(there, 'wb') as fobj:
            pickle.dump(val, fobj)
        os._exit(0)
    os.close(there)
    with os.fdopen(here, 'rb') as fobj:
        data = fobj.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        # let it be reported as what it is
        time.sleep(1000)
    if status or not data:
        raise MachineryError('process ended with {}'.format(status))
    kind, val = pickle.loads(data)
    if kind == 'error':
        raise RuntimeError(val)
    return val


class Scene:
    """Problems which share their arguments."""
    def __init__(self, seed, tmp):
        import nodefinder as nf
        rng = self.rng = random.Random(seed)
        self.tmp, self.names, self.objects, self.problems = tmp, [], {}, []
        # at the same time: only what does not depend on the order of completion
        self.free = rng.random() < .4
        dims = rng.choice([[1], [2], [2], [1, 2], [2, 3], [1, 3]])
        for dim in dims:
            size = [rng.choice([1., 1., .5]) for _ in range(dim)]
            self.add('limits', dim, [[0, s] for s in size])
            self.add('mesh', dim, [rng.randint(2, {1: 6, 2: 3, 3: 2}[dim]) for _ in range(dim)])
            simplex = np.concatenate([np.zeros((1, dim)), np.eye(dim)]) - .3
            self.add('stencil', dim, np.array([simplex * rng.choice([2., 3., -2.5]) + .1 * i for i in range(rng.choice([1, 2]))]))
        self.add('nm', 0, dict(maxiter=rng.choice([3, 10, 30])) if rng.random() < .7 else {})
        if rng.random() < .4:
            self.objects['nm', 0]['keep_history'] = rng.random() < .5
        for _ in range(rng.choice([2, 2, 3])):
            self.problems.append(self.problem(rng.choice(dims)))
        if rng.random() < .5:
            # the same but for the scales
            self.problems.append(dict(rng.choice(self.problems), feature=rng.choice([.3, .8]), thr=rng.choice([1e-4, .05, .3])))
        for dim in dims:
            if rng.random() < .5:
                path = os.path.join(tmp, 'state{}'.format(dim))
                origin = dict(self.problem(dim), state=False, abort=rng.randint(1, 60), fake=False)
                apart(lambda: self.search(origin, save_file=path, save_delay=0.))
                if os.path.exists(path):
                    self.add('state', dim, nf.io.load(path))

    def add(self, name, dim, obj):
        self.names.append('{}{}'.format(name, dim or ''))
        self.objects[name, dim] = obj

    def problem(self, dim):
        rng = self.rng
        size = [l[1] for l in self.objects['limits', dim]]
        return dict(
            dim=dim, gap=landscape(rng, dim, size), thr=rng.choice([1e-4, .05, .3]), feature=rng.choice([.2, .4, .9]),
            per=rng.random() < .5, nm=rng.random() < .7, state=rng.random() < .7, abort=rng.randint(1, 80) if rng.random() < .2 else 1200,
            par=rng.choice([1, 2, 50]), cutoff=dim + 1, mesh=rng.random() < .8, recheck=rng.random() < .7,
            stencil=None if self.free else rng.choice(['auto', 'shared', 'shared', None]), fake=not self.free and rng.random() < .2
        )

    def kwargs(self, prob):
        dim = prob['dim']
        res = dict(
            limits=self.objects['limits', dim], periodic=prob['per'], gap_threshold=prob['thr'], feature_size=prob['feature'],
            initial_mesh_size=self.objects['mesh', dim] if prob['mesh'] else 2, num_minimize_parallel=prob['par'],
            refinement_stencil=self.objects['stencil', dim] if prob['stencil'] == 'shared' else prob['stencil'],
            simplex_check_cutoff=prob['cutoff'], recheck_pos_dist=prob['recheck'], use_fake_potential=prob['fake']
        )
        if prob['nm']:
            res['nelder_mead_kwargs'] = self.objects['nm', 0]
        if prob['state'] and ('state', dim) in self.objects:
            res['initial_state'] = self.objects['state', dim]
        return res

    def gap(self, prob, nested=None):
        calls = [0]

        def gap(pos):
            calls[0] += 1
            if calls[0] > prob['abort']:
                raise Abort
            if nested and calls[0] == nested[0]:
                nested[1]()
            return prob['gap'](np.array(pos))
        return gap

    def search(self, prob, nested=None, **extra):
        """One search by itself."""
        import nodefinder as nf
        loop = VirtualLoop()
        try:
            return loop.run_until_complete(nf.search.run_async(self.gap(prob, nested), **dict(self.kwargs(prob), **extra)))
        except Abort:
            return None
        finally:
            loop.close()

    def blocking(self, prob):
        """The same with the function which blocks."""
        import nodefinder as nf
        try:
            return nf.search.run(self.gap(prob), **self.kwargs(prob))
        except Abort:
            return None

    def together(self, probs):
        """Several searches in one loop."""
        import nodefinder as nf
        rng = random.Random(self.rng.random())

        async def one(prob):
            plain = self.gap(prob)

            async def delayed(pos):
                pos = np.array(pos)
                await asyncio.sleep(rng.choice([0, 0, .001, .01, .03 * rng.random()]))
                return plain(pos)
            try:
                return await nf.search.run_async(rng.choice([plain, delayed]), **self.kwargs(prob))
            except Abort:
                return None

        async def main():
            return await asyncio.gather(*[one(p) for p in probs])
        loop = VirtualLoop()
        try:
            return loop.run_until_complete(main())
        finally:
            loop.close()

    def threads(self, probs):
        """Several searches in a thread each."""
        out, errors = [None] * len(probs), []

        def one(idx):
            try:
                out[idx] = self.blocking(probs[idx])
            except BaseException as exc:  # pylint: disable=broad-except
                errors.append(exc)
        running = [threading.Thread(target=one, args=(i, )) for i in range(len(probs))]
        for thread in running:
            thread.start()
        for thread in running:
            thread.join()
        if errors:
            raise errors[0]
        return out

    def play(self):
        """The searches in one process; what came of them, and the arguments, after each step."""
        import nodefinder as nf
        rng, events, ended = self.rng, [], []

        def done(how, items):
            ended.extend(res for _, res in items if res is not None)
            events.append(dict(
                how=how, got=[dict(prob=idx, res=parts(res)) for idx, res in items], args=self.args(), ended=[digest(found(r)) for r in ended]
            ))

        indices = list(range(len(self.problems)))
        for _ in range(rng.choice([3, 4, 5])):
            how = rng.choice(['async', 'async', 'run', 'identify', 'plot', 'nested'] + ['together', 'together', 'threads'] * self.free)
            idx = rng.choice(indices)
            prob = self.problems[idx]
            if how == 'async':
                done(how, [(idx, self.search(prob))])
            elif how == 'run':
                done(how, [(idx, self.blocking(prob))])
            elif how in ('together', 'threads'):
                # searches which fail give what they gave when they are alone, too
                several = [rng.choice(indices) for _ in range(rng.choice([2, 2, 3]))]
                done(how, list(zip(several, getattr(self, how)([self.problems[i] for i in several]))))
            elif how == 'nested':
                other, inner = rng.choice(indices), []
                res = self.search(prob, nested=(rng.randint(1, 8), lambda: inner.append((other, self.blocking(self.problems[other])))))
                done(how, inner + [(idx, res)])
            elif ended:
                res = rng.choice(ended)
                if how == 'identify':
                    if len(res.nodes) < 60:
                        nf.identify.run(res, feature_size=rng.choice([None, .1, .5]))
                elif len(res.coordinate_system.size) in (2, 3):
                    import matplotlib.pyplot as plt
                    nf.search.plot.points(res)
                    if rng.random() < .3:
                        nf.search.plot.simplices(res)
                    plt.close('all')
                done(how, [])
        return events

    def args(self):
        return [digest(look(obj)) for obj in self.objects.values()]


def observe(seed):
    warnings.simplefilter('ignore')
    tmp = tempfile.mkdtemp(prefix='ind_', dir=os.environ.get('NFV_SCRATCH'))
    ids = {}
    num = lambda key: ids.setdefault(key, len(ids) + 1)  # noqa
    try:
        scene = Scene(seed, tmp)
        want = [apart(lambda p=p: parts(scene.search(p))) for p in scene.problems]
        before = scene.args()
        events = apart(scene.play, limit=40)
        return dict(
            about=seed, names=scene.names, args=[num(x) for x in before], want=[[num(x) for x in w] for w in want],
            failed=sum(w == ['failed'] for w in want), found=sum(len(w) for w in want),
            ev=[
                dict(
                    how=e['how'], got=[dict(prob=g['prob'] + 1, res=[num(x) for x in g['res']]) for g in e['got']],
                    args=[num(x) for x in e['args']], ended=[num(x) for x in e['ended']]
                ) for e in events
            ]
        )
    finally:
        shutil.rmtree(tmp)


def run(ctx):
    ctx.model_check('Independent', 'Independent.cfg', min_states=5000)
    text = open(os.path.join(ROOT, 'spec', 'Independent.cfg')).read()
    for broken in ('inplace', 'scale', 'memo', 'shared', 'alias'):
        res = ctx.model_check('Independent', text.replace('"copy"', '"{}"'.format(broken)), expect_ok=False)
        if 'is violated' not in res.out:
            raise MachineryError('the specification accepts searches which are not independent: ' + broken)
    start = time.time()
    items = ['c29-{}-{}'.format(ctx.seed, i) for i in range(ctx.pick(900, 15000))]
    recs = ctx.collect(pmap(observe, items, limit=60, deadline=ctx.deadline), items)
    ctx.count('seconds_of_searches', int(time.time() - start))
    for rec in recs:
        ctx.count('problems', len(rec['want']))
        ctx.count('problems_whose_search_fails', rec.pop('failed'))
        ctx.count('results_of_problems', rec.pop('found'))
        ctx.count('with_state', any(n.startswith('state') for n in rec['names']))
        for evt in rec['ev']:
            ctx.count('events_' + evt['how'])
            ctx.count('results_compared', sum(len(g['res']) for g in evt['got']))
    for rec in recs[:2]:
        ctx.sample(rec)
    ctx.judge('IndepTrace', recs)
    ctx.assumptions += [
        'deterministic gap functions; searches at the same time are without refinement, fake potential and skipped simplices',
        'arguments and results are compared by all that is to be seen of them, bit by bit',
    ]
