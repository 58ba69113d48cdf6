"""C19: the initial mesh covers the box evenly."""
import asyncio
import os
import random
import tempfile

import numpy as np

from ..common import pmap
from ..lattice import Lattice, units


def observe(seed):
    import nodefinder as nf
    rng = random.Random(seed)
    dim = rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
    per = rng.random() < .5
    top = {1: 12, 2: 6, 3: 4, 4: 3}[dim]
    low = 1
    if rng.random() < .3:
        mesh = [rng.randint(low, top)] * dim
        given = rng.choice([int, np.int64, np.int32])(mesh[0])
    else:
        mesh = [rng.randint(low, top) for _ in range(dim)]
        given = rng.choice([tuple, list, np.array])(mesh)
    exact = rng.random() < .7
    lat = Lattice(rng.choice(units() if exact else [.1, 1 / 3, np.pi, 1e-3]))
    limits = []
    for m in mesh:
        size = 2 * m * (1 if per else max(1, m - 1)) * rng.choice([1, 1, 2, 3, 50])
        lo = rng.choice([0, 0, -size // 2, -size, rng.randint(-500, 500)])
        limits.append([lo, lo + size] if rng.random() < .75 else [lo + size, lo])
    pick = rng.random()
    kwargs = dict(
        limits=[rng.choice([tuple, list])(lat.fl(x) for x in l) for l in limits], periodic=per, initial_mesh_size=given,
        feature_size=lat.fl(max(abs(b - a) for a, b in limits)) * rng.choice([.3, 1., 5.]), refinement_stencil=None,
        nelder_mead_kwargs=dict(xtol=float('inf'), ftol=float('inf')), num_minimize_parallel=rng.choice([1, 4, 50])
    )
    if rng.random() < .5:
        kwargs['limits'] = rng.choice([tuple, np.array])(kwargs['limits'])
    loop = asyncio.new_event_loop()
    tmp = tempfile.mkdtemp(prefix='mesh_', dir=os.environ.get('NFV_SCRATCH'))
    path = os.path.join(tmp, 'save')

    def fail(pos):
        raise KeyError

    def fine(pos):
        # unsuccessful, or not a node
        return 7.

    try:
        if pick < .7:
            res = loop.run_until_complete(nf.search.run_async(fine, **kwargs))
            simp = [r.simplex_history[0] for r in res.minimization_results]
        else:
            if pick < .85:
                try:
                    loop.run_until_complete(nf.search.run_async(fail, save_file=path, **kwargs))
                except KeyError:
                    pass
            else:
                # a finished search of one simplex, then with the initial mesh
                loop.run_until_complete(nf.search.run_async(
                    fine, save_file=path, **dict(kwargs, initial_mesh_size=1, limits=[(0, 1)] * dim, periodic=True, feature_size=1.)
                ))
                try:
                    loop.run_until_complete(nf.search.run_async(fail, save_file=path, load=True, force_initial_mesh=True, **kwargs))
                except KeyError:
                    pass
            simp = nf.io.load(path).simplex_queue.objects
    finally:
        loop.close()
        for name in os.listdir(tmp):
            os.remove(os.path.join(tmp, name))
        os.rmdir(tmp)
    return dict(kind='mesh', limits=limits, per=per, mesh=mesh, simp=[[list(lat.i(v)) for v in s] for s in simp], about=str(seed))


def batch(seeds):
    return [observe(s) for s in seeds]


def run(ctx):
    ctx.model_check('MCMesh', 'MCMesh.cfg', min_states=300)
    num = ctx.pick(1500, 30000)
    seeds = ['c19-{}-{}'.format(ctx.seed, i) for i in range(num)]
    items = [seeds[i:i + 25] for i in range(0, num, 25)]
    recs = [r for part in ctx.collect(pmap(batch, items, limit=120), items) for r in part]
    for rec in recs[:2]:
        ctx.sample(rec)
    ctx.count('simplices', sum(len(r['simp']) for r in recs))
    for start in range(0, len(recs), 10000):
        ctx.judge('MeshTrace', recs[start:start + 10000])
    ctx.assumptions += ['up to 4 dimensions and 12 points per direction; box sizes commensurate with the mesh']
