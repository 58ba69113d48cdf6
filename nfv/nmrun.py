"""Recorded minimizations with exact arithmetic, run through the search."""
import asyncio
import hashlib
import math
import os
import random
import shutil
import tempfile

import numpy as np

from .lattice import Lattice, BADINT
from .searchdrv import encode, INF

STEPS = {1: 14, 2: 7, 3: 5, 4: 4}
_TEMPLATE = []


def template():
    """A state as saved by a search; its queues are used to start from given simplices."""
    if not _TEMPLATE:
        import nodefinder as nf
        tmp = tempfile.mkdtemp(prefix='tmpl_', dir=os.environ.get('NFV_SCRATCH'))
        try:
            path = os.path.join(tmp, 'state.hdf5')
            loop = asyncio.new_event_loop()
            loop.run_until_complete(nf.search.run_async(
                lambda x: 0., limits=[(0, 1)], initial_mesh_size=1, save_file=path, refinement_stencil=None
            ))
            loop.close()
            _TEMPLATE.append(nf.io.load(path))
        finally:
            shutil.rmtree(tmp)
    return _TEMPLATE[0]


def queue_types():
    """The types of the queue of simplices and of the queue of positions."""
    try:
        tmpl = template()
    except Exception:
        # saving does not work at all
        from nodefinder.search import _queue
        return _queue.SimplexQueue, _queue.PositionQueue
    return type(tmpl.simplex_queue), type(tmpl.position_queue)


def state(simplices, nodes, dim, thr):
    """A search state with the given pending simplices, and nodes at the given positions."""
    import nodefinder as nf
    tmpl = template()
    res = nf.search.result
    result = res.SearchResultContainer(
        coordinate_system=nf.coordinate_system.CoordinateSystem(limits=[(0, 1)] * dim, periodic=False),
        minimization_results=[
            res.MinimizationResult(pos=np.array(p), value=0., success=True) for p in nodes
        ], gap_threshold=thr, dist_cutoff=1.
    )
    return res.ControllerState(
        result=result, simplex_queue=type(tmpl.simplex_queue)(objects=simplices),
        position_queue=type(tmpl.position_queue)()
    )


def make(seed, kind='mixed'):
    rng = random.Random(seed)
    fake = rng.random() < 0.35
    fake = dict(single=False, fake=rng.random() < 0.9).get(kind, fake)
    dim = rng.choice([1, 1, 2, 2, 2, 3, 3, 4]) if not fake else rng.choice([1, 2, 2])
    slope = not fake and rng.random() < (0.4 if kind == 'single' else 0.2)
    steps = STEPS[dim] if not fake else {1: 4, 2: 2}[dim]
    if slope:
        steps = min(steps, {1: 7, 2: 4, 3: 2, 4: 2}[dim])
    fact = {1: 2, 2: 4, 3: 6, 4: 8}[dim]
    scale = fact**steps * (2 * fact**steps if fake else 1) * 2
    size = 3 if fake or slope else 6
    lat = Lattice(2.**rng.choice([-20, -10, -24]))
    while True:
        start = [[rng.randint(-size, size) * scale for _ in range(dim)] for _ in range(dim + 1)]
        if len({tuple(v) for v in start}) == dim + 1 or rng.random() < 0.05:
            break
    return rng, fake, slope, dim, steps, scale, lat, start


def landscape(rng, dim, scale):
    kind = rng.choice(['hash', 'hash', 'ties', 'dist', 'dist', 'max', 'linear', 'const', 'quad', 'quad'])
    salt = str(rng.random()).encode()
    mod = rng.choice([2, 3, 5, 30, 1000]) if kind != 'ties' else 3
    center = [rng.randint(-8, 8) * scale // rng.choice([1, 2]) for _ in range(dim)]
    grain = max(1, scale // rng.choice([1, 2, 4, 8, 64]))
    weight = [rng.choice([1, 1, 2, 3]) for _ in range(dim)]
    hole = rng.random() < 0.2

    def value(key):
        if hole and sum(key) // max(1, scale) % 5 == 0:
            return INF
        if kind in ('hash', 'ties'):
            return int.from_bytes(hashlib.blake2b(repr(tuple(key)).encode() + salt, digest_size=4).digest(), 'big') % mod
        if kind == 'const':
            return 3
        if kind == 'linear':
            return sum(w * x for w, x in zip(weight, key)) // grain
        if kind == 'dist':
            return sum(w * abs(x - c) for x, c, w in zip(key, center, weight)) // grain
        if kind == 'max':
            return max(abs(x - c) for x, c in zip(key, center)) // grain
        return sum(w * ((x - c) // grain)**2 for x, c, w in zip(key, center, weight)) // 16
    return value


MESSAGES = [('function evaluations', 1), ('iterations', 2), ('derivative', 3), ('success', 0)]


def msg_class(msg):
    if isinstance(msg, bytes):
        msg = msg.decode()
    for text, num in MESSAGES:
        if text in str(msg):
            return num
    return -1


def history(lat, res):
    sims = np.asarray(res.simplex_history)
    funs = np.asarray(res.fun_simplex_history)
    return [[[lat.i(v), encode(f)] for v, f in zip(sim, fun)] for sim, fun in zip(sims, funs)]


def observe(seed, kind='mixed'):
    import nodefinder as nf
    rng, fake, slope, dim, steps, scale, lat, start = make(seed, kind)
    fct = landscape(rng, dim, scale)
    per = rng.random() < 0.3
    limits = [[-10 * scale, 10 * scale]] * dim
    nodes = []
    if fake or rng.random() < 0.2:
        nodes = [[rng.randint(-9, 9) * scale // rng.choice([1, 2]) for _ in range(dim)] for _ in range(rng.choice([0, 1, 2, 4]) if fake else rng.choice([1, 2, 4]))]
        if rng.random() < 0.3:
            nodes.append(list(rng.choice(start)))
    feature = 3 * (rng.randint(1, 9) * scale // rng.choice([1, 2]))
    thr = float(rng.choice([0, 30, 110, 590]))
    nm = dict(maxiter=rng.randint(max(1, steps - 3), steps) if rng.random() < 0.9 else rng.choice([1, 2, 3]) if rng.random() < 0.9 else 0)
    opt = dict(maxiter=nm['maxiter'], maxfev=200 * dim, fp=0, fq=0)
    if rng.random() < 0.25:
        nm['maxfev'] = opt['maxfev'] = rng.randint(dim, dim + 3 * steps)
    if rng.random() < 0.8:
        x2 = rng.choice([-1, 2 * scale, scale, scale // 2, scale // 4, scale // 8, 0, 2 * scale * rng.randint(1, 12)])
        opt['xtol2'] = x2
        nm['xtol'] = float('inf') if x2 < 0 else lat.fl(x2) / 2
    else:
        # the default: 0.01 times the feature size, made such that there are no ties
        unit = max(1, scale // 16)
        num = rng.choice([1, 3, 7, 16, 40, 100])
        feature = 100 * num * unit + 50
        if feature % 3 or feature > 60 * scale or feature < 300:
            feature = feature + (3 - feature % 3)
        if (2 * feature) % 100 == 0:
            feature += 3
        opt['xtol2'] = 2 * feature // 100
    if rng.random() < 0.8:
        f2 = rng.choice([-1, 0, 0, 1, 2, 3, 7, 20, 100])
        opt['ftol2'] = f2
        nm['ftol'] = float('inf') if f2 < 0 else f2 / 2
    else:
        thr = float(rng.choice([10, 30, 110, 590]))
        opt['ftol2'] = int(2 * thr // 20)
    if slope:
        fp, fq = rng.choice([(1, 1), (1, 2), (1, 4), (1, 16), (3, 8), (1, 64), (1, 8)])
        best = min(fct(v) for v in start)
        if rng.random() < 0.6 and 0 < best < INF:
            # close to the slope of the starting simplex
            edge = math.isqrt(max(sum((a - b)**2 for a, b in zip(v, w)) for v in start for w in start))
            fp, fq = 1, max(1, edge // best + rng.choice([0, 0, 0, 1]))
        opt['fp'], opt['fq'] = fp, fq
        nm['fprime_cutoff'] = fp / fq / lat.unit
    c_box = nf.coordinate_system.CoordinateSystem(limits=[[lat.fl(x) for x in l] for l in limits], periodic=per)
    if fake and per:
        nodes = [lat.i(c_box.normalize_position(lat.f(p))) for p in nodes]

    others = []
    if fake and rng.random() < 0.5:
        # more simplices, one after the other: nodes which were found before repel the next ones
        for _ in range(rng.choice([1, 2, 3])):
            shift = [rng.choice([0, 0, 1, -1, 2]) * scale for _ in range(dim)]
            other = [[x + y for x, y in zip(v, shift)] for v in start]
            if rng.random() < 0.5:
                other[rng.randrange(dim + 1)] = [rng.randint(-3, 3) * scale for _ in range(dim)]
            if sorted(other) not in [sorted(o) for o in others + [start]]:
                others.append(other)
        thr = float(rng.choice([110, 590, 10**6])) if 'ftol' in nm else thr

    def one(keep):
        log = []

        def gap(pos):
            key = lat.i(pos)
            val = fct(key)
            log.append([key, val if val < INF else INF])
            return float(val) if val < INF else float('inf')

        async def coro(pos):
            res = gap(pos)
            await asyncio.sleep(0)
            return res
        opts = dict(nm) if keep else dict(nm, keep_history=False)
        init = state([[tuple(lat.f(v)) for v in sim] for sim in [start] + others], [lat.f(p) for p in nodes], dim, max(thr, 1.))
        # only the nodes given, and the rejected ones
        loop = asyncio.new_event_loop()
        try:
            res = loop.run_until_complete(nf.search.run_async(
                coro if rng.random() < 0.3 else gap, limits=[[lat.fl(x) for x in l] for l in limits], periodic=per, initial_state=init,
                initial_mesh_size=1, refinement_stencil=None, gap_threshold=thr, feature_size=lat.fl(feature),
                use_fake_potential=fake, nelder_mead_kwargs=opts, simplex_check_cutoff=dim + 1, num_minimize_parallel=1 if others else 50
            ))
        finally:
            loop.close()
        found = [r for r in res.minimization_results if hasattr(r, 'num_fev')]
        assert len(found) == 1 + len(others)
        return found, log

    found, log = one(True)

    def bad(lst):
        return any(x == BADINT or abs(x) >= 2**26 for p, _ in lst for x in p)

    def record(res, log, first_sim, nodes):
        hist = history(lat, res)
        nohist = True
        if not fake and rng.random() < 0.3:
            (other, ), log_other = one(False)
            nohist = bool(
                sorted(log_other) == sorted(log) and np.array_equal(other.pos, res.pos) and encode(other.value) == encode(res.value)
                and other.num_fev == res.num_fev and other.num_iter == res.num_iter and other.status == res.status
                and other.success == res.success and other.message == res.message
                and np.array_equal(other.simplex_history, [res.simplex_history[-1]])
                and getattr(other, 'fun_simplex_history', None) is None
            )
        last = hist[-1]
        pos = lat.i(res.pos)
        if per and pos == lat.i(c_box.normalize_position(lat.f(last[0][0]))):
            # mapped into the limits by the search, see C03
            pos = last[0][0]
        if bad(log) or any(abs(v) > 2**28 and v != INF for _, v in log):
            return None
        if opt['fq'] and any(abs(x) > 8000 for p, _ in log for x in p) or opt['fq'] and any(abs(v) * opt['fq'] > 40000 for _, v in log if v != INF):
            return None
        if fake:
            # squared distances would be too large
            if dim * feature**2 >= 2**31:
                return None
        return dict(
            kind='fake' if fake else 'nm', start=first_sim, log=log, hist=hist, opt=opt, limits=limits, per=per,
            feature=feature, nodes=list(nodes), nohist=nohist,
            res=dict(pos=pos, value=encode(res.value), nfev=int(res.num_fev), niter=int(res.num_iter), status=int(res.status),
                     success=bool(res.success), msg=msg_class(res.message)), about=str(seed)
        )

    if not others:
        return [record(found[0], log, start, nodes)]
    # which minimization is next: its first evaluations are those of a starting simplex
    left, known, recs = [start] + others, list(nodes), []
    while left:
        for sim in left:
            if sorted(p for p, _ in log[:dim + 1]) == sorted(sim):
                break
        else:
            return recs + [dict(kind='unmatched', why='no minimization from a pending simplex next', about=str(seed))]
        left.remove(sim)
        res = [r for r in found if sorted(lat.i(v) for v in np.asarray(r.simplex_history)[0]) == sorted(sim)]
        if len(res) != 1:
            return recs + [dict(kind='unmatched', why='result of a simplex missing', about=str(seed))]
        used = int(res[0].num_fev)
        rec = record(res[0], log[:used], sim, known)
        if rec is None:
            # steps may have been inexact, and the nodes not on the lattice
            return recs
        recs.append(rec)
        log = log[used:]
        if res[0].success and res[0].value <= thr:
            place = lat.i(res[0].pos)
            if bad([(place, 0)]):
                return recs
            known.append(place)
    if log:
        recs.append(dict(kind='unmatched', why='evaluations after the last minimization', about=str(seed)))
    return recs


def limits_run(seed):
    """Functions which are never converged: limits given, or by default."""
    import nodefinder as nf
    rng = random.Random(seed)
    dim = rng.choice([1, 2, 3, 4])
    nm = {}
    maxfev = maxiter = -1
    if rng.random() < 0.5:
        nm['maxfev'] = maxfev = rng.choice([1, 5, 50, 333, 10**5])
    if rng.random() < 0.5:
        nm['maxiter'] = maxiter = rng.choice([0, 1, 2, 30, 150, 900])
    if maxfev > 10**4 and maxiter < 0 and rng.random() < 0.5:
        nm['maxiter'] = None
    kind = rng.choice(['nan', 'flat', 'inf'])

    def gap(pos):
        if kind == 'nan':
            return float('nan')
        if kind == 'inf':
            return float('inf')
        return 1. + hash(tuple(np.round(np.asarray(pos) * 1e9))) % 97
    if kind == 'flat':
        nm['xtol'] = -1.
    start = [tuple(rng.uniform(0, 1) for _ in range(dim)) for _ in range(dim + 1)]
    loop = asyncio.new_event_loop()
    try:
        res = loop.run_until_complete(nf.search.run_async(
            gap, limits=[(0, 1)] * dim, periodic=False, initial_state=state([start], [], dim, 1.), initial_mesh_size=1, refinement_stencil=None,
            nelder_mead_kwargs=nm, simplex_check_cutoff=dim + 1, feature_size=0.6
        ))
    finally:
        loop.close()
    res = res.minimization_results[0]
    return dict(
        kind='limits', n=dim, maxfev=maxfev, maxiter=maxiter, nfev=int(res.num_fev), niter=int(res.num_iter), status=int(res.status),
        success=bool(res.success), about=str(seed)
    )


# ---------------------------------------------------------------------------
# all functions: values are decided on when a position is evaluated first
# ---------------------------------------------------------------------------
FINE = {1: 6, 2: 4}
STARTS = {1: [[0], [64]], 2: [[0, 0], [256, 0], [0, 256]]}


def scripted(dim, values, nm, opt, script, fake=None):
    """
    One minimization with the values given by the script (indices), and the decisions taken.
    With fake potential: existing nodes, its width, and whether the box (twice as large as the simplex) is periodic.
    """
    import nodefinder as nf
    lat = Lattice(2.**-10)
    start = STARTS[dim]
    nodes, width, per, size = [], 1024, False, 8192
    if fake:
        # room for the steps of two minimizations
        start = [[x << FINE[dim] for x in v] for v in start]
        nodes, width, per = [[x << FINE[dim] for x in p] for p in fake[0]], fake[1] << FINE[dim], fake[2]
        size = max(x for v in start for x in v)
        if per:
            # as the container keeps them
            nodes = [list(p) for p in sorted({tuple((x + size) % (2 * size) - size for x in p) for p in nodes})]
    known, taken, log = {}, [], []

    def gap(pos):
        key = tuple(lat.i(pos))
        if key not in known:
            idx = script[len(taken)] if len(taken) < len(script) else 0
            taken.append(idx)
            known[key] = values[idx]
        log.append([list(key), known[key]])
        return float(known[key]) if known[key] < INF else float('inf')

    init = state([[tuple(lat.f(v)) for v in start]], [lat.f(p) for p in nodes], dim, 1.)
    loop = asyncio.new_event_loop()
    try:
        res = loop.run_until_complete(nf.search.run_async(
            gap, limits=[(-size / 1024, size / 1024)] * dim, periodic=per, initial_state=init, initial_mesh_size=1, refinement_stencil=None,
            gap_threshold=0., feature_size=3 * width / 1024, nelder_mead_kwargs=nm, simplex_check_cutoff=dim + 1, use_fake_potential=bool(fake)
        ))
    finally:
        loop.close()
    res, = [r for r in res.minimization_results if hasattr(r, 'num_fev')]
    hist, pos = history(lat, res), lat.i(res.pos)
    if per and hist and all((a - b) % (2 * size) == 0 for a, b in zip(pos, hist[-1][0][0])):
        # mapped into the limits by the search, see C03
        pos = hist[-1][0][0]
    return dict(
        kind='fake' if fake else 'nm', start=start, log=log, hist=hist, opt=opt, limits=[[-size, size]] * dim, per=per,
        feature=3 * width, nodes=nodes, nohist=True,
        res=dict(pos=pos, value=encode(res.value), nfev=int(res.num_fev), niter=int(res.num_iter), status=int(res.status),
                 success=bool(res.success), msg=msg_class(res.message)), about='{} {} {} {}'.format(dim, values, fake, taken)
    ), taken


def enumerate_values(item):
    """All minimizations whose first values are given by a prefix."""
    dim, values, maxiter, maxfev, x2, f2, fake, prefix, limit = item
    if fake and x2 > 0:
        x2 <<= FINE[dim]
    nm = dict(
        maxiter=maxiter, maxfev=maxfev, xtol=float('inf') if x2 < 0 else x2 / 2 / 1024, ftol=float('inf') if f2 < 0 else f2 / 2
    )
    opt = dict(maxiter=maxiter, maxfev=maxfev, xtol2=x2, ftol2=f2, fp=0, fq=0)
    recs, script = [], list(prefix)
    while len(recs) < limit:
        rec, taken = scripted(dim, values, nm, opt, script, fake)
        recs.append(rec)
        while len(taken) > len(prefix) and taken[-1] + 1 == len(values):
            taken.pop()
        if len(taken) <= len(prefix):
            return recs, True
        script = taken[:-1] + [taken[-1] + 1]
    return recs, False
