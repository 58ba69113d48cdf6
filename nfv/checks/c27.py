"""C27: built-in refinement stencils are sound."""
import math
import random

import numpy as np

from ..common import pmap
from ..lattice import Lattice, units


def mesh_record(rng, stencil, mesh, lat, half):
    return dict(kind='stencil', mesh=mesh, half=half, simp=lat.i(stencil))


def round_record(rng, stencil, dim, num):
    scale = {2: 1000, 3: 400}[dim]
    arr = np.asarray(stencil, dtype=float)
    if not np.all(np.isfinite(arr)) or np.any(np.abs(arr) > 20):
        arr = np.zeros((1, 1, 1))
    simp = np.round(arr * scale).astype(int).tolist()
    dirs = []
    for _ in range(60):
        vec = np.array([rng.gauss(0, 1) for _ in range(dim)])
        dirs.append(np.round(100 * vec / np.linalg.norm(vec)).astype(int).tolist())
    angle = math.pi / num * 1.05 + .02 if dim == 2 else 3.6 / math.sqrt(num)
    return dict(
        kind='round', d=dim, num=num, S=scale, simp=simp, dirs=dirs, tol={2: 6000, 3: 3000}[dim], minvol={2: 10000, 3: 100000}[dim],
        vmax=max(1, math.ceil(max(np.linalg.norm(s[0]) for s in simp))), cosn=math.floor(100 * math.cos(angle)) - 2
    )


def observe(seed):
    from nodefinder.search import refinement_stencil as rs
    rng = random.Random(seed)
    pick = rng.random()
    if pick < .55:
        dim = rng.choice([1, 2, 2, 3, 3, 4])
        mesh = [rng.randint(1, {1: 9, 2: 5, 3: 4, 4: 3}[dim]) for _ in range(dim)]
        if rng.random() < .5:
            mesh = [rng.choice([1, 3, 3, 5] if dim < 4 else [1, 3])] * dim
        lat = Lattice(rng.choice(units()))
        if rng.random() < .4 and mesh == [3] * dim or rng.random() < .2:
            # the default size
            unit = 60
            lat = Lattice(2.5 / unit / 12)
            half = 12 * unit
            if any(half % (m * max(1, m - 1)) for m in mesh):
                return None
            kwargs = {}
        else:
            half = rng.choice([1, 2, 7]) * math.lcm(*[m * max(1, m - 1) for m in mesh])
            kwargs = dict(dist_multiplier=lat.fl(half))
        return mesh_record(rng, rs.get_mesh_stencil(mesh_size=rng.choice([tuple, list])(mesh), **kwargs), mesh, lat, half)
    if pick < .7:
        dim = rng.choice([1, 2, 3, 4])
        stencil = rs.get_auto_stencil(dim=dim)
        if dim in (2, 3):
            return round_record(rng, stencil, dim, {2: 5, 3: 30}[dim])
        # the mesh stencil of its default width
        return mesh_record(rng, stencil, [3] * dim, Lattice(2.5 / 720), 720)
    if pick < .85:
        num = rng.randint(3, 20)
        return round_record(rng, rs.get_circle_stencil(num_points=num), 2, num)
    num = rng.randint(6, 60)
    return round_record(rng, rs.get_sphere_stencil(num_points=num), 3, num)


def batch(seeds):
    return [observe(s) for s in seeds]


def run(ctx):
    ctx.model_check('MCMesh', 'MCMesh.cfg', min_states=300)
    num = ctx.pick(800, 8000)
    seeds = ['c27-{}-{}'.format(ctx.seed, i) for i in range(num)]
    items = [seeds[i:i + 25] for i in range(0, num, 25)]
    recs = [r for part in ctx.collect(pmap(batch, items, limit=120), items) for r in part if r]
    for rec in recs[:2]:
        ctx.sample(rec)
    for rec in recs:
        ctx.count('stencils_' + rec['kind'])
    ctx.judge('MeshTrace', recs)
    ctx.assumptions += ['circle stencils with 3 to 20, sphere stencils with 6 to 60 simplices; spread judged on 60 random directions each']
