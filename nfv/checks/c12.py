"""C12: neighbour queries agree with a brute-force search."""
import itertools
import os
import random
import tempfile

import numpy as np

from ..common import pmap
from ..lattice import Lattice, units


def make(seed):
    rng = random.Random(seed)
    dim = rng.choice([1, 1, 2, 2, 3])
    exact = rng.random() < 0.8
    per = rng.random() < 0.55
    if exact:
        lat = Lattice(rng.choice(units()))
    else:
        lat = Lattice(rng.choice([0.1, 1 / 3, 0.0271, 1e-3, np.pi]))
    scale = rng.choice([8, 20, 60, 600])
    even = 1 if exact else 2
    lo = [even * rng.choice([0, 0, rng.randint(-scale, scale)]) for _ in range(dim)]
    size = [even * rng.choice([1, 2, 3, scale, rng.randint(1, scale), 2 * scale + 1]) for _ in range(dim)]
    if rng.random() < 0.5:
        size = [size[0]] * dim
    # cutoff: number of cells between less than one and more than 100
    base = rng.choice(size)
    kind = rng.random()
    if kind < 0.5:
        cut = rng.randint(1, max(1, base))
    elif kind < 0.75:
        cut = max(1, base // rng.randint(1, 8))
    elif kind < 0.9:
        cut = rng.randint(1, 2 * max(size) + 3)
    else:
        cut = 1 + rng.randint(0, 3)
    frac = 2 if (not exact or rng.random() < 0.4) else 1
    # cutoff = num / frac, (2 * cut + 1) / 2 if frac == 2
    num = 2 * cut + 1 if frac == 2 else cut
    cutoff = num / frac

    def pos(center=None):
        res = []
        for k in range(dim):
            l, s = lo[k], size[k]
            choice = rng.random()
            if center is not None and choice < 0.75:
                reach = int(cutoff) + 2
                val = center[k] + rng.choice([0, rng.randint(-reach, reach), int(cutoff), -int(cutoff), int(cutoff) + 1, rng.randint(-1, 1)])
                if per and rng.random() < 0.3:
                    val += s * rng.choice([-1, 1, 2])
            elif choice < 0.82:
                val = rng.randint(l, l + s)
            elif choice < 0.9:
                val = rng.choice([l, l + s, l + s - 1, l + s + 1, l - 1])
            else:
                val = rng.randint(l - 2 * s - 2, l + 3 * s + 2)
            if not exact:
                val = 2 * (val // 2) + 1
            res.append(val)
        return res

    nodes = [pos() for _ in range(rng.randint(0, 4))]
    query = pos()
    for _ in range(rng.randint(0, 4)):
        nodes.append(pos(query))
    if rng.random() < 0.15:
        nodes.append(list(query))
    if rng.random() < 0.1 and nodes:
        nodes.append(list(rng.choice(nodes)))
    rng.shuffle(nodes)
    refd = [pos(query if rng.random() < 0.6 else None) for _ in range(rng.randint(0, 5))]
    if rng.random() < 0.3 and nodes:
        refd.append(list(rng.choice(nodes)))
    if rng.random() < 0.2:
        refd.append(list(query))
    queries = [query] + [pos(rng.choice(nodes) if nodes else None) for _ in range(3)]
    rejected = [pos(query) for _ in range(rng.randint(0, 2))]
    return dict(
        lat=lat.unit, exact=exact, limits=[[l, l + s] for l, s in zip(lo, size)], per=per, cut2=[num * num, frac * frac], cut=[num, frac],
        nodes=nodes, refd=refd, queries=queries, rejected=rejected, mode=rng.choice(['add', 'init', 'mixed', 'saved'])
    )


def small_boxes():
    """Boxes of few lattice points with all cutoffs; all points are nodes and every one is asked for."""
    res = []
    for dim, sizes in [(1, itertools.product(range(1, 13))), (2, itertools.product(range(1, 5), repeat=2)), (3, itertools.product(range(1, 3), repeat=3))]:
        for size in sizes:
            for num in range(1, {1: 2 * size[0] + 4, 2: 12, 3: 7}[dim]):
                for per, low, frac in itertools.product([False, True], [0, -3], [1, 2]):
                    res.append((size, num, frac, per, low))
    return res


def make_small(item):
    size, num, frac, per, low = item
    points = [list(p) for p in itertools.product(*[range(low - 1, low + s + 2) for s in size])]
    if per:
        points = [p for p in points if all(low <= x < low + s for x, s in zip(p, size))]
    queries = [list(p) for p in itertools.product(*[range(low - (len(size) < 3), low + s + 1 + (len(size) < 3)) for s in size])]
    return dict(
        lat=2.**-3, exact=True, limits=[[low, low + s] for s in size], per=per, cut2=[num * num, frac * frac], cut=[num, frac], nodes=points,
        refd=points[::2], queries=queries, rejected=[], mode='add' if num % 2 else 'init'
    )


def observe(seed):
    import nodefinder as nf
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import SearchResultContainer, MinimizationResult
    case = make(seed) if isinstance(seed, str) else make_small(seed)
    lat = Lattice(case['lat'])
    csys = CoordinateSystem(limits=[[lat.fl(x) for x in l] for l in case['limits']], periodic=case['per'])
    cutoff = lat.fl(case['cut'][0]) / case['cut'][1]

    def node(p):
        return MinimizationResult(pos=lat.f(p), value=0., success=True)

    results = [node(p) for p in case['nodes']]
    for num, p in enumerate(case['rejected']):
        results.append(MinimizationResult(pos=lat.f(p), value=0. if num % 2 else 2., success=not num % 2))
    refd = [lat.f(p) for p in case['refd']]
    split = {'add': 0, 'init': len(results), 'mixed': len(results) // 2, 'saved': len(results)}[case['mode']]
    rsplit = {'add': 0, 'init': len(refd), 'mixed': len(refd) // 2, 'saved': len(refd)}[case['mode']]
    cont = SearchResultContainer(
        coordinate_system=csys, minimization_results=results[:split], gap_threshold=1., dist_cutoff=cutoff,
        refined_results=refd[:rsplit]
    )
    queries = [lat.f(q) for q in case['queries']]
    # queries in between must not influence later ones
    for q in queries[:2]:
        list(cont.get_neighbour_distance_iterator(q))
    for res in results[split:]:
        cont.add_result(res)
    for pos in refd[rsplit:]:
        cont.set_refined(pos)
    if case['mode'] == 'saved':
        with tempfile.TemporaryDirectory(dir=os.environ['NFV_SCRATCH']) as tmp:
            nf.io.save(cont, os.path.join(tmp, 'a'))
            cont = nf.io.load(os.path.join(tmp, 'a'))
    out = []
    for q, qpos in zip(queries, case['queries']):
        def d2(dists):
            return sorted(lat.d2([float(d) for d in dists if d < cutoff]))
        out.append(dict(
            kind='nbr', limits=case['limits'], per=case['per'], exact=case['exact'], cut2=case['cut2'], nodes=case['nodes'], refd=case['refd'], q=qpos,
            nd=d2(cont.get_neighbour_distance_iterator(q)), alld=d2(cont.get_all_neighbour_distances(q)),
            rd=d2(cont.get_refined_neighbour_distance_iterator(q))
        ))
    return out


def batch(seeds):
    return [r for s in seeds for r in observe(s)]


def run(ctx):
    ctx.model_check('MCGeometry', 'MCGeometry_quick.cfg', min_states=10000)
    ctx.model_check('MCGeometry', ctx.pick('MCGeometry_2d.cfg', 'MCGeometry_deep.cfg'), min_states=5000)
    num = ctx.pick(5000, 60000)
    seeds = ['c12-{}-{}'.format(ctx.seed, i) for i in range(num)]
    items = [seeds[i:i + 100] for i in range(0, num, 100)]
    small = small_boxes()
    ctx.count('small_boxes_possible', len(small))
    small = ctx.rng.sample(small, ctx.pick(240, len(small)))
    ctx.count('small_boxes', len(small))
    items += [small[i:i + 20] for i in range(0, len(small), 20)]
    recs = [r for part in ctx.collect(pmap(batch, items, limit=120), items) for r in part]
    for rec in recs[:2]:
        ctx.sample(rec)
    for start in range(0, len(recs), 30000):
        ctx.judge('GeoTrace', recs[start:start + 30000])
    ctx.count('nonempty_answers', sum(1 for r in recs if r['nd'] or r['rd']))
    ctx.count('answers_smaller_than_all', sum(1 for r in recs if len(r['nd']) < len(r['nodes'])))
    ctx.assumptions += [
        'positions on integer lattices (exact binary scales, plus inexact scales away from ties)',
    ]
