"""Realistic searches: continuous gap functions, complete minimizations."""
import asyncio
import os
import random
import shutil
import tempfile
import time
import warnings

import numpy as np

from .lattice import Lattice
from .searchdrv import norm_simplex

CELLS = 4000


def make_gap(rng, dim, lo, size, per):
    """Gap functions with isolated nodes, lines, surfaces; periodic if needed."""
    kind = rng.choice(['points', 'points', 'shell', 'shell', 'plane', 'none', 'wave'])
    center = np.array([[l + s * rng.random() for l, s in zip(lo, size)] for _ in range(rng.choice([1, 2, 3]))])
    rad = min(size) * rng.uniform(0.15, 0.35)
    axis = rng.randrange(dim)
    lo, size = np.array(lo), np.array(size)

    def delta(pos, c):
        d = pos - c
        if per:
            d = (d + size / 2) % size - size / 2
        return d

    if kind == 'points':
        return lambda x: float(min(np.linalg.norm(delta(np.array(x), c)) for c in center))
    if kind == 'shell':
        return lambda x: float(abs(np.linalg.norm(delta(np.array(x), center[0])) - rad))
    if kind == 'plane':
        return lambda x: float(abs(delta(np.array(x), center[0])[axis]))
    if kind == 'none':
        return lambda x: 1 + float(np.linalg.norm(delta(np.array(x), center[0])))
    return lambda x: float(np.sum(np.sin(np.pi * (np.array(x) - lo) / size)**2))


def final_run(seed):
    import nodefinder as nf
    rng = random.Random(seed)
    dim = rng.choice([1, 2, 2, 2, 3])
    per = rng.random() < 0.6
    unit = rng.choice([1 / CELLS, 1 / CELLS, 0.3 / CELLS, 7. / CELLS])
    lat = Lattice(unit)
    lo = [rng.choice([0, 0, rng.randint(-CELLS, CELLS)]) for _ in range(dim)]
    size = [rng.choice([CELLS, CELLS, rng.randint(CELLS // 2, CELLS)]) for _ in range(dim)]
    limits = [[l, l + s] if rng.random() < 0.8 else [l + s, l] for l, s in zip(lo, size)]
    mesh = [rng.randint(1 if per else 2, {1: 8, 2: 4, 3: 2}[dim]) for _ in range(dim)]
    gap = make_gap(rng, dim, [lat.fl(x) for x in lo], [lat.fl(x) for x in size], per)
    thr = rng.choice([1e-6, 1e-4, 1e-3 * min(size) * unit])
    feature = 3 * rng.choice({1: [20, 60, 150, 500], 2: [150, 300, 600], 3: [600, 1000]}[dim])
    sten = rng.choice(['auto', 'auto', 'auto', 'none', 'mesh'])
    if sten == 'auto':
        arr = nf.search.refinement_stencil.get_auto_stencil(dim=dim)
    elif sten == 'mesh':
        arr = nf.search.refinement_stencil.get_mesh_stencil(mesh_size=[2] * dim, dist_multiplier=rng.choice([1., 2.5, 2.]))
    kwargs = dict(
        limits=[[lat.fl(x) for x in l] for l in limits], periodic=per, initial_mesh_size=tuple(mesh), gap_threshold=thr,
        feature_size=lat.fl(feature), num_minimize_parallel=rng.choice([1, 3, 50])
    )
    check = recheck = 0
    if rng.random() < 0.3:
        check = kwargs['simplex_check_cutoff'] = rng.choice([0, 1, 2])
    if rng.random() < 0.2:
        recheck = kwargs['recheck_count_cutoff'] = rng.choice([0, 1])
    if sten == 'none':
        kwargs['refinement_stencil'] = None
    elif sten == 'mesh':
        kwargs['refinement_stencil'] = arr if rng.random() < 0.7 else arr.tolist()
        if isinstance(kwargs['refinement_stencil'], list):
            kwargs['refinement_stencil'] = arr
    elif rng.random() < 0.5:
        kwargs['refinement_stencil'] = 'auto'
    if rng.random() < 0.3:
        kwargs['nelder_mead_kwargs'] = dict(maxiter=rng.choice([10, 40]))
    calls = [0]
    latest = time.time() + 8

    def sync(pos):
        calls[0] += 1
        if calls[0] > 60000 or time.time() > latest:
            raise TimeoutError
        return gap(pos)

    async def coro(pos):
        for _ in range(rng.choice([0, 0, 1, 3])):
            await asyncio.sleep(0)
        return sync(pos)

    fct = coro if rng.random() < 0.4 else sync
    tmp = tempfile.mkdtemp(prefix='fin_', dir=os.environ.get('NFV_SCRATCH'))
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if rng.random() < 0.3:
                kwargs.update(save_file=os.path.join(tmp, 'save.hdf5'))
            if rng.random() < 0.5:
                res = nf.search.run(fct, **kwargs)
            else:
                res = loop.run_until_complete(nf.search.run_async(fct, **kwargs))
    except TimeoutError:
        # too large
        return None
    finally:
        shutil.rmtree(tmp)
        asyncio.set_event_loop(None)
        loop.close()
    results = [(r, True) for r in res.nodes] + [(r, False) for r in res.rejected_results]
    if len(results) > 130:
        return None
    # coarse: everything is rounded
    near = Lattice(unit)
    i = lambda x: np.round(np.asarray(x, dtype=float) / near.unit).astype(int).tolist()  # noqa
    span = 10000
    conf = dict(
        limits=limits, per=per, feature=feature, mesh=mesh, sden=span, hasStencil=sten != 'none', check=check,
        recheck=recheck, doRecheck=True,
        stencil=[] if sten == 'none' else np.round(np.asarray(arr) * span).astype(int).tolist()
    )
    return dict(
        c=conf, refd=[i(p) for p in res.refined_results],
        res=[
            dict(
                s=[list(v) for v in norm_simplex(i(r.simplex_history[0]))], pos=i(r.pos), node=node, ok=bool(r.success),
                below=bool(r.value <= thr),
                fits=bool(abs(gap(np.array(r.pos)) - r.value) <= 1e-9 * max(1, abs(r.value)) * max(1, max(size) * unit))
            ) for r, node in results
        ], about=str(seed)
    )
