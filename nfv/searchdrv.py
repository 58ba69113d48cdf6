"""
Drives real searches step by step.  The gap function is asynchronous; its calls
are held back until the simplex they belong to is released, which gives full
control over the order in which minimizations finish.  Between two releases the
event loop runs until nothing happens any more; then the save file is read.

Everything is observed through the public interface: calls of the gap function,
the save file, and the returned result.
"""
import asyncio
import hashlib
import math
import os
import random
import shutil
import tempfile
import warnings

import numpy as np

from .lattice import Lattice
from .vloop import VirtualLoop

INF, NAN = 2**29, 2**29 + 1
IDLE_TICKS = 12
STUCK_TICKS = 400


class GapError(Exception):
    """Raised by the gap function on purpose."""


def norm_simplex(simplex):
    return tuple(sorted(tuple(int(x) for x in v) for v in simplex))


def encode(val):
    val = float(val)
    if math.isnan(val):
        return NAN
    if math.isinf(val):
        return INF if val > 0 else -INF
    rnd = round(val)
    return int(rnd) if abs(val - rnd) < 1e-6 and abs(rnd) < INF else -999999


class World:
    """The gap function and the configuration, on the lattice."""
    def __init__(self, spec):
        self.spec = spec
        self.lat = Lattice(spec['unit'])
        self.dim = len(spec['limits'])
        self.lo = [min(l) for l in spec['limits']]
        self.hi = [max(l) for l in spec['limits']]
        self.size = [h - l for l, h in zip(self.lo, self.hi)]
        self.per = spec['per']
        self.thr = spec['thr']
        self.zeros = {tuple(z) for z in spec.get('zeros', ())}
        self.special = {tuple(k): v for k, v in spec.get('special', ())}

    def normalize(self, pos):
        if not self.per:
            return tuple(pos)
        return tuple(l + (x - l) % s for x, l, s in zip(pos, self.lo, self.size))

    def value(self, pos):
        """Value of the gap function; a (deterministic) hash for most points."""
        key = self.normalize(pos)
        if key in self.special:
            return self.special[key]
        num = int.from_bytes(hashlib.blake2b(repr(key).encode() + str(self.spec['vseed']).encode(), digest_size=4).digest(), 'big')
        if key in self.zeros:
            return num % (self.thr + 1) if num % 3 else self.thr
        kind = self.spec.get('vals', 'hash')
        if kind == 'hash':
            return self.thr + 1 + num % 40
        if kind == 'dist':
            # distance to the zeros: a landscape which leads to nodes
            best = None
            for z in self.zeros:
                dist = 0
                for k in range(self.dim):
                    d = abs(key[k] - z[k])
                    if self.per:
                        d = min(d, self.size[k] - d)
                    dist += d
                best = dist if best is None else min(best, dist)
            return 1000 if best is None else self.thr + best
        if kind in ('mix', 'neg'):
            if any(x < l - sz or x > h + sz for x, l, h, sz in zip(key, self.lo, self.hi, self.size)):
                # no nodes far away, there might be no end otherwise
                return self.thr + 1 + num % 40
            return num % (2 * self.thr + 2) - (3 * self.thr // 2 + 1 if kind == 'neg' else 0)
        raise ValueError(kind)

    def mesh(self, mesh=None):
        res = [[]]
        mesh = mesh or self.spec['mesh']
        for k in range(self.dim):
            cells = mesh[k] if self.per else mesh[k] - 1
            coords = [self.lo[k] + (i * self.size[k]) // max(1, cells) for i in range(mesh[k])]
            res = [v + [x] for v in res for x in coords]
        out = []
        for v in res:
            simplex = [v]
            for k in range(self.dim):
                w = list(v)
                w[k] += self.size[k] // (2 * mesh[k])
                simplex.append(w)
            out.append(norm_simplex(simplex))
        return out

    def launch(self, pos):
        if not self.spec['hasStencil']:
            return []
        feat, den = self.spec['feature'], 3 * self.spec['sden']
        return [
            norm_simplex([[q + (feat * x) // den for q, x in zip(pos, v)] for v in simplex])
            for simplex in self.spec['stencil']
        ]


def search_kwargs(world, spec):
    lat = world.lat
    kwargs = dict(
        limits=[[lat.fl(x) for x in l] for l in spec['limits']], periodic=spec['per'],
        initial_mesh_size=spec['mesh'] if not spec.get('intmesh') else spec['mesh'][0],
        gap_threshold=float(spec['thr']), feature_size=lat.fl(spec['feature']),
        nelder_mead_kwargs=dict(spec['nm']), num_minimize_parallel=spec['par'],
        recheck_pos_dist=spec['doRecheck'], recheck_count_cutoff=spec['recheck'],
        simplex_check_cutoff=spec['check'], use_fake_potential=spec.get('fake', False)
    )
    for key in ('xtol', 'ftol'):
        if kwargs['nelder_mead_kwargs'].get(key) == 'inf':
            kwargs['nelder_mead_kwargs'][key] = float('inf')
    if spec['hasStencil']:
        kwargs['refinement_stencil'] = np.array(spec['stencil'], dtype=float) / spec['sden']
    else:
        kwargs['refinement_stencil'] = None
    # leave out what equals the default, sometimes
    if spec.get('defaults'):
        defaults = dict(
            recheck_pos_dist=True, recheck_count_cutoff=0, simplex_check_cutoff=0, use_fake_potential=False, periodic=True
        )
        for key, val in defaults.items():
            if kwargs[key] == val:
                del kwargs[key]
    return kwargs


def core_config(spec):
    return dict(
        limits=spec['limits'], per=spec['per'], feature=spec['feature'], mesh=spec['mesh'],
        stencil=spec['stencil'], sden=spec['sden'], hasStencil=spec['hasStencil'], check=spec['check'],
        recheck=spec['recheck'], doRecheck=spec['doRecheck'], par=spec['par'], thr=spec['thr']
    )


# --------------------------------------------------------------------------
# projection of results and states
# --------------------------------------------------------------------------
def project_result(lat, res, is_node):
    hist = np.asarray(res.simplex_history)
    start = lat.i(hist[0])
    return dict(
        s=[list(v) for v in norm_simplex(start)], end=lat.i(hist[-1][0]), pos=lat.i(res.pos), val=encode(res.value),
        ok=bool(res.success), node=bool(is_node)
    )


def project_container(lat, cont):
    nodes = list(cont.nodes)
    res = [project_result(lat, r, True) for r in nodes]
    res += [project_result(lat, r, False) for r in cont.rejected_results]
    refd = [lat.i(p) for p in list(cont.refined_results)]
    # all results are also given as minimization_results
    if sorted(id(r) for r in cont.minimization_results) != sorted(id(r) for r in nodes + list(cont.rejected_results)):
        res.append(dict(s=[], end=[], pos=[], val=-1, ok=False, node=True))
    return res, refd


def project_state(lat, state):
    res, refd = project_container(lat, state.result)
    return dict(
        none=False,
        pend=[[list(v) for v in norm_simplex(lat.i(s))] for s in state.simplex_queue.objects],
        posq=[lat.i(list(p)) for p in state.position_queue.objects],
        res=res, refd=refd
    )


NOSNAP = dict(none=True)


# --------------------------------------------------------------------------
# the driver
# --------------------------------------------------------------------------
class Registry:
    """Which simplices a position can be a vertex of."""
    def __init__(self):
        self.vertex = {}
        self.known = set()

    def add(self, simplices):
        for s in simplices:
            if s not in self.known:
                self.known.add(s)
                for v in set(s):
                    self.vertex.setdefault(v, []).append(s)

    def candidates(self, pos):
        return self.vertex.get(pos, ())

    def ambiguous(self):
        return any(all(len(self.vertex[v]) > 1 for v in s) for s in self.known)


class Driver:
    """One run: possibly several processes (after crashes, failures, resuming)."""
    def __init__(self, spec, rng):
        self.spec = spec
        self.rng = rng
        self.world = World(spec)
        self.lat = self.world.lat
        self.reg = Registry()
        self.gap_log = {}
        self.events = []
        self.configs = []
        self.note = None
        self.tmp = tempfile.mkdtemp(prefix='run_', dir=os.environ.get('NFV_SCRATCH'))
        self.proc = -1
        self.max_events = spec.get('maxev', 60)
        # systematic exploration: the decisions to be taken, and those taken
        self.script = spec.get('script')
        self.taken = []

    # ------------------------------------------------------------------
    def record(self):
        return dict(
            c=self.configs, gap=[[list(k), v] for k, v in sorted(self.gap_log.items())], ev=self.events,
            about=self.spec.get('about', '')
        )

    def run(self):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self._run()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        if self.reg.ambiguous() and not self.spec.get('free'):
            return None
        return self.record()

    def _run(self):
        loaded, path, spec = None, None, self.spec
        for num, plan in enumerate(self.spec['procs']):
            spec = dict(self.spec, **plan.get('change', {}))
            self.cur = World(spec)
            if spec['unit'] != self.spec['unit']:
                raise ValueError('unit')
            loop = VirtualLoop()
            loop.set_exception_handler(lambda *args: None)
            old = os.getcwd()
            try:
                out = loop.run_until_complete(self._process(spec, plan, loaded, path, num))
            finally:
                try:
                    os.chdir(old)
                    left = asyncio.all_tasks(loop)
                    for task in left:
                        task.cancel()
                    if left:
                        loop.run_until_complete(asyncio.wait(left, timeout=2))
                finally:
                    loop.close()
            if out is None:
                break
            if self.script is not None and not self.interrupted:
                break
            loaded, path = out

    def choose(self, options):
        """Decision of the systematic exploration."""
        num = len(self.taken)
        idx = self.script[num] if num < len(self.script) else 0
        self.taken.append((idx, len(options)))
        return options[idx]

    # ------------------------------------------------------------------
    def snapshot(self, path):
        import nodefinder as nf
        if path is None or not os.path.exists(path):
            return dict(NOSNAP)
        return project_state(self.lat, nf.io.load(path))

    async def _process(self, spec, plan, loaded, load_path, num):
        import nodefinder as nf
        self.proc += 1
        self.interrupted = False
        world = self.cur
        lat = self.lat
        rng = self.rng
        self.configs.append(core_config(spec))
        reg = self.reg
        pdir = os.path.join(self.tmp, 'p{}'.format(num))
        os.mkdir(pdir)
        os.chdir(pdir)
        save = os.path.join(pdir, 'save.hdf5') if spec.get('save', True) else None

        kwargs = search_kwargs(world, spec)
        kind = 'fresh'
        tags = spec.get('tags', '')
        if loaded is not None and not loaded['none']:
            tags = ','.join(filter(None, [tags, 'C07']))
            kind = plan.get('how', 'load')
            if kind == 'load' and save:
                shutil.copy(load_path, save)
                kwargs['load'] = True
                kwargs['load_quiet'] = rng.random() < 0.5
            else:
                kwargs['initial_state'] = nf.io.load(load_path)
            kind = 'load'
        elif loaded is not None or plan.get('loadmissing'):
            # nothing was saved: start from scratch
            kwargs['load'] = bool(save)
            kwargs['load_quiet'] = True
        force = bool(plan.get('force', False))
        if force:
            kwargs['force_initial_mesh'] = True
        if save:
            kwargs['save_file'] = save
            kwargs['save_delay'] = spec.get('delay', 0.)
        if kind == 'load':
            reg.add(norm_simplex(s) for s in loaded['pend'])
            if force:
                reg.add(world.mesh())
        else:
            reg.add(world.mesh())
        if kind == 'load':
            for p in loaded['posq']:
                reg.add(world.launch(p))

        oneshot = spec.get('oneshot', True)
        released, started, new_started, calls = set(), {}, [], {}
        held = {}
        count = [0]
        dead = [False]
        loop = asyncio.get_running_loop()

        def enter(pos):
            count[0] += 1
            key = tuple(lat.i(pos))
            val = self.world.value(key)
            if val <= world.thr:
                reg.add(world.launch(world.normalize(key)))
            cands = reg.candidates(key)
            calls[key] = calls.get(key, 0) + 1
            if len(cands) == 1:
                s = cands[0]
                if s not in started:
                    started[s] = 1
                    new_started.append(s)
                elif oneshot and calls[key] > started[s] * s.count(key):
                    started[s] += 1
                    new_started.append(s)
            return key, val, cands

        def leave(key, val):
            self.gap_log[key] = encode(val)
            return float(val)

        async def gap_async(pos):
            key, val, cands = enter(pos)
            while cands and not any(s in released for s in cands):
                fut = loop.create_future()
                for s in cands:
                    held.setdefault(s, []).append(fut)
                await fut
                cands = reg.candidates(key)
            if dead[0]:
                await loop.create_future()
            return leave(key, val)

        def gap_sync(pos):
            key = tuple(lat.i(pos))
            return leave(key, self.world.value(key))

        async def gap_free(pos):
            key = tuple(lat.i(pos))
            for _ in range(rng.choice([0, 0, 1, 2, 5])):
                await asyncio.sleep(0)
            return leave(key, self.world.value(key))

        # without control over the schedule: only the outcome is judged
        sync = bool(spec.get('free'))
        gap = {'sync': gap_sync, 'async': gap_free}[spec['free']] if sync else gap_async
        if spec.get('npvalue'):
            inner = gap
            if spec.get('free') == 'sync':
                gap = lambda x: np.float64(inner(x))  # noqa
        task = loop.create_task(nf.search.run_async(gap, **kwargs))

        def stat():
            if not save:
                return None
            try:
                info = os.stat(save)
                return info.st_mtime_ns, info.st_ino, info.st_size
            except OSError:
                return None

        async def settle(limit=2000, wait=True):
            idle, last = 0, None
            for _ in range(limit):
                await asyncio.sleep(0)
                cur = (count[0], stat(), task.done(), len(held))
                idle = idle + 1 if cur == last else 0
                last = cur
                if idle >= IDLE_TICKS or (task.done() and idle >= 2):
                    break
            else:
                return False
            # changes have to be saved within this time
            end = loop.time() + spec.get('delay', 0.) + 0.05
            while wait and loop.time() < end and not task.done():
                await asyncio.sleep(0)
            return True

        def take_started():
            res = [[list(v) for v in s] for s in new_started]
            new_started.clear()
            return res

        def event(name, rel=(), **extra):
            evt = dict(e=name, proc=self.proc + 1, rel=[[list(v) for v in s] for s in rel], started=take_started(), **extra)
            self.events.append(evt)
            return evt

        def running():
            return [s for s in started if s not in released and any(not f.done() for f in held.get(s, ()))]

        def release(simplices):
            for s in simplices:
                released.add(s)
            for s in simplices:
                for fut in held.pop(s, []):
                    if not fut.done():
                        fut.set_result(None)

        def finish(rel):
            """The search has returned or raised."""
            exc = None if task.cancelled() else task.exception()
            if task.cancelled() or exc is not None:
                self.note = 'raised'
                event('raise', rel, snap=dict(NOSNAP), detail=repr(exc))
                return
            res, refd = project_container(lat, task.result())
            snap = self.snapshot(save)
            same, detail = True, ''
            if snap['none']:
                if save:
                    same, detail = False, 'no file'
                snap = dict(none=False, pend=[], posq=[], res=res, refd=refd)
                if not spec['hasStencil'] and loaded is not None and not loaded['none']:
                    snap['posq'] = loaded['posq']
            else:
                key = lambda lst: sorted(map(repr, lst))  # noqa
                if key(snap['res']) != key(res) or key(snap['refd']) != key(refd):
                    same, detail = False, 'file: {} results, {} refined; returned: {}, {}'.format(
                        len(snap['res']), len(snap['refd']), len(res), len(refd)
                    )
                snap = dict(snap, res=res, refd=refd)
            extra = [f for f in os.listdir(pdir) if f != 'save.hdf5']
            if extra or (not save and os.listdir(pdir)):
                same, detail = False, 'files: {}'.format(os.listdir(pdir))
            event('end', rel, snap=snap, same=same, detail=detail)

        # ---- the start ----
        start_loaded = dict(loaded) if kind == 'load' else dict(NOSNAP)
        if sync:
            self.events.append(dict(
                e='start', kind=kind, force=force, proc=self.proc + 1, loaded=start_loaded, tags=tags, rel=[], started=[], snap=dict(NOSNAP)
            ))
            while not task.done():
                await asyncio.sleep(0)
            if not task.cancelled() and task.exception() is None:
                # the results tell which minimizations there were
                left = [norm_simplex(r['s']) for r in start_loaded.get('res', ())]
                for r in project_container(lat, task.result())[0]:
                    s = norm_simplex(r['s'])
                    if s in left:
                        left.remove(s)
                    else:
                        new_started.append(s)
            finish(sorted(set(new_started)))
            if task.cancelled() or task.exception() is not None:
                return None
            return self._handover(save, plan)
        await settle()
        evt = event('start', kind=kind, force=force, loaded=start_loaded, tags=tags, snap=dict(NOSNAP) if task.done() else self.snapshot(save))
        if task.done():
            # cumulative: judged by the end event
            finish([])
            if task.cancelled() or task.exception() is not None:
                return None
            return self._handover(save, plan)

        steps = 0
        stop_at = plan.get('stop_at')   # number of releases after which to crash / fail
        last_stat = stat()
        while True:
            run = running()
            if not run:
                for _ in range(STUCK_TICKS):
                    await asyncio.sleep(0)
                    if task.done() or running():
                        break
                if task.done():
                    finish([])
                    if task.cancelled() or task.exception() is not None:
                        return None
                    return self._handover(save, plan)
                if running():
                    continue
                event('stuck', snap=dict(NOSNAP), detail='no evaluation in progress, but the search does not return')
                return None
            run.sort()
            policy = spec.get('policy', 'one')
            if policy == 'mixed':
                policy = rng.choice(['one', 'one', 'multi', 'all'])
            if self.script is not None:
                # any minimization finishes, or fails, or the process dies meanwhile
                options = [('go', s) for s in run]
                if num + 1 < len(spec['procs']):
                    options += [('fail', s) for s in run]
                    options += [('crash{}'.format(t), s) for t in spec['ticks'] for s in run]
                what, simplex = self.choose(options)
                rel = [simplex]
                if what != 'go':
                    self.interrupted = True
                    how = dict(stop='fail') if what == 'fail' else dict(stop='crash', ticks=int(what[5:]))
                    return await self._stop(how, rel, task, save, locals())
            elif policy == 'one':
                rel = [rng.choice(run)]
            elif policy == 'fifo':
                rel = [min(run, key=list(started).index)]
            elif policy == 'lifo':
                rel = [max(run, key=list(started).index)]
            elif policy == 'multi':
                rel = rng.sample(run, rng.randint(1, len(run)))
            else:
                rel = run
            steps += 1
            if stop_at is not None and steps >= stop_at:
                return await self._stop(plan, rel, task, save, locals())
            release(rel)
            ok = await settle()
            if task.done():
                finish(rel)
                if task.cancelled() or task.exception() is not None:
                    return None
                return self._handover(save, plan)
            if not ok:
                event('stuck', rel, snap=dict(NOSNAP), detail='does not become idle')
                return None
            cur = stat()
            snap = self.snapshot(save)
            event('step', rel, snap=snap, stale=bool(save and cur == last_stat))
            last_stat = cur
            if len(self.events) > self.max_events:
                # enough: let the rest go on by itself
                self.note = 'truncated'
                return None

    def _handover(self, save, plan):
        if save is None or not os.path.exists(save):
            return None
        return self.snapshot(save), save

    async def _stop(self, plan, rel, task, save, env):
        """Crash, or a failing evaluation, at the given step."""
        event, release, held, count = env['event'], env['release'], env['held'], env['count']
        rng = self.rng
        if plan['stop'] == 'crash':
            release(rel)
            for _ in range(plan['ticks']):
                await asyncio.sleep(0)
            copy = os.path.join(self.tmp, 'crash{}.hdf5'.format(self.proc))
            if save and os.path.exists(save):
                shutil.copy(save, copy)
            snap = self.snapshot(copy)
            env['dead'][0] = True
            if task.done() and not task.cancelled() and task.exception() is not None:
                event('raise', rel, snap=dict(NOSNAP), detail=repr(task.exception()))
                return None
            if not snap['none']:
                event('crash', rel, snap=snap)
            task.cancel()
            await asyncio.wait([task], timeout=5)
            return snap, copy
        # failing evaluations
        bad = rng.sample(rel, rng.randint(1, len(rel)))
        good = [s for s in rel if s not in bad]
        release(good)
        must = []
        if plan.get('calm'):
            # these are finished, but not necessarily saved yet
            await env['settle'](wait=False)
            must = [[list(v) for v in s] for s in good]
        elif plan.get('ticks'):
            for _ in range(plan['ticks']):
                await asyncio.sleep(0)
        raised = []
        for s in bad:
            futs = [f for f in held.get(s, []) if not f.done()]
            for fut in (futs if rng.random() < 0.3 else futs[:1] if rng.random() < 0.5 else futs[-1:]):
                exc = GapError(len(raised)) if plan.get('exc', 'gap') == 'gap' else plan_exc(plan['exc'], len(raised))
                raised.append(exc)
                fut.set_exception(exc)
        before = None
        for _ in range(STUCK_TICKS):
            await asyncio.sleep(0)
            if task.done():
                break
        if not task.done():
            event('stuck', rel, snap=dict(NOSNAP), detail='search waits after a failing evaluation')
            return None
        before = count[0]
        # evaluations which go on must not lead to new ones
        release([s for s in list(held)])
        for _ in range(60):
            await asyncio.sleep(0)
        snap = self.snapshot(save)
        exc = None if task.cancelled() else task.exception()
        if snap['none']:
            event('stuck', rel, snap=dict(NOSNAP), detail='no save file after failure')
            return None
        event(
            'fail', good, snap=snap, failed=[[list(v) for v in s] for s in bad], raised=any(exc is r for r in raised),
            exc=repr(exc), after=count[0] - before, must=must
        )
        return snap, save


def plan_exc(kind, num):
    return {
        'value': ValueError, 'key': KeyError, 'os': OSError, 'stop': RuntimeError, 'assert': AssertionError,
        'zero': ZeroDivisionError
    }[kind](num)


def drive(item):
    """item: (spec, seed)"""
    spec, seed = item
    return Driver(spec, random.Random(seed)).run()


def explore(item):
    """Every sequence of decisions for (spec, seed), up to a number of runs; the records, and whether these are all."""
    spec, seed, limit = item
    script, recs = [], []
    while len(recs) < limit:
        driver = Driver(dict(spec, script=script), random.Random(seed))
        rec = driver.run()
        if rec is None:
            return None
        recs.append(rec)
        taken = driver.taken
        while taken and taken[-1][0] + 1 == taken[-1][1]:
            taken.pop()
        if not taken:
            return recs, True
        script = [idx for idx, _ in taken[:-1]] + [taken[-1][0] + 1]
    return recs, False
