"""C13: the coordinate system is consistent."""
import itertools
import random

import numpy as np

from ..common import pmap
from ..lattice import Lattice, units


def make(seed):
    rng = random.Random(seed)
    dim = rng.choice([1, 1, 2, 2, 3, 3, 4])
    exact = rng.random() < 0.75
    per = rng.random() < 0.6
    if exact:
        lat = Lattice(rng.choice(units() + [2.**34, 2.**-40]))
        lo = [rng.choice([0, 0, rng.randint(-40, 40)]) for _ in range(dim)]
        size = [rng.choice([1, 2, 3, 8, rng.randint(1, 60)]) for _ in range(dim)]
    else:
        # limits at even, positions at odd coordinates: never on a boundary
        lat = Lattice(rng.choice([0.1, 1 / 3, 0.0271, 1e-3, np.pi, 1e-10, 1e10]))
        lo = [2 * rng.randint(-20, 20) for _ in range(dim)]
        size = [2 * rng.randint(1, 30) for _ in range(dim)]
    hi = [l + s for l, s in zip(lo, size)]

    def pos():
        res = []
        for l, s in zip(lo, size):
            kind = rng.random()
            if not exact:
                res.append(2 * rng.randint((l - 3 * s) // 2, (l + 4 * s) // 2) + 1)
            elif kind < 0.15:
                res.append(l)
            elif kind < 0.3:
                res.append(l + s)
            elif kind < 0.65:
                res.append(rng.randint(l, l + s))
            else:
                res.append(rng.randint(l - 3 * s - 5, l + 4 * s + 5))
        return res

    a, b = pos(), pos()
    if rng.random() < 0.15:
        b = list(a)
    if rng.random() < 0.2 and per:
        b = [x + s * rng.randint(-2, 2) for x, s in zip(a, size)]
    shift = [2 * rng.randint(-30, 30) for _ in range(dim)]
    image = [s * rng.randint(-3, 3) for s in size]
    arr = [pos() for _ in range(rng.randint(1, 4))]
    fracin = [rng.randint(0, s - 1) if s > 1 else 0 for s in size]
    if not exact:
        fracin = [2 * rng.randint(0, s // 2 - 1) + 1 for s in size]
    limits = [[l, h] if rng.random() < 0.6 else [h, l] for l, h in zip(lo, hi)]
    return dict(lat=lat.unit, exact=exact, limits=limits, per=per, a=a, b=b, shift=shift, image=image, arr=arr, fracin=fracin, size=size)


def small_boxes():
    """All positions in and around boxes of few lattice points, each with all others."""
    res = []
    for sizes, reach in [(itertools.product(range(1, 9)), 3), (itertools.product(range(1, 4), repeat=2), 1)]:
        for size, per, low, flip in itertools.product(list(sizes), [False, True], [0, -3], [False, True]):
            points = itertools.product(*[range(low - reach * s - 1, low + (reach + 1) * s + 2) for s in size])
            res += [(size, per, low, flip, reach, p) for p in points]
    return res


def make_small(item):
    size, per, low, flip, reach, pos = item
    dim = len(size)
    arr = [list(p) for p in itertools.product(*[range(low - reach * s - 1, low + (reach + 1) * s + 2) for s in size])]
    other = arr[(7 * sum(pos) + 3 * len(arr) // 4) % len(arr)]
    return dict(
        lat=2.**-3, exact=True, limits=[[low + s, low] if flip else [low, low + s] for s in size], per=per, a=list(pos), b=other,
        shift=[2 * pos[0] + 4] * dim, image=[s * (abs(pos[0]) % 5 - 2) for s in size], arr=arr, fracin=[abs(x) % s for x, s in zip(pos, size)],
        size=list(size)
    )


def observe(seed):
    from nodefinder.coordinate_system import CoordinateSystem
    case = make(seed) if isinstance(seed, str) else make_small(seed)
    seed = str(seed)
    lat = Lattice(case['lat'])
    rng = random.Random(seed + '-x')
    limits = [[lat.fl(x) for x in lim] for lim in case['limits']]
    if rng.random() < 0.5:
        limits = tuple(tuple(x) for x in limits)
    if rng.random() < 0.3:
        limits = np.array(limits)
    csys = CoordinateSystem(limits=limits, periodic=case['per'])
    a, b, arr = lat.f(case['a']), lat.f(case['b']), lat.f(case['arr'])
    keep = [np.copy(x) for x in (a, b, arr)]
    shift, image = lat.f(case['shift']), lat.f(case['image'])
    frac = csys.get_frac(a)
    size = np.array(case['size'], dtype=float)
    fracin = np.array(case['fracin']) / size
    flat = Lattice(1.)
    ffrac = np.asarray(csys.get_frac(csys.get_pos(fracin))) * size
    fo = np.asarray(frac) * size
    # fractions are only exact up to rounding, which may lead to the other end
    if case['per'] and not case['exact']:
        fo = np.where(np.abs(fo - size) < 1e-6, 0, fo)
        ffrac = np.where(np.abs(ffrac - size) < 1e-6, 0, ffrac)
    rec = dict(
        kind='coord', limits=case['limits'], per=case['per'], a=case['a'], b=case['b'], arr=case['arr'],
        fracin=case['fracin'],
        lo=lat.i(np.asarray(csys.limits)[:, 0]), hi=lat.i(np.asarray(csys.limits)[:, 1]), dim=int(csys.dim), size=lat.i(csys.size),
        dab=lat.d2(csys.distance(a, b)), dba=lat.d2(csys.distance(b, a)),
        dshift=lat.d2(csys.distance(a + shift, b + shift)),
        dimage=lat.d2(csys.distance(a + image, b)),
        darr=lat.d2(csys.distance(a, arr)),
        vec=lat.i(csys.connecting_vector(a, b)),
        vecarr=lat.i(csys.connecting_vector(a, arr)),
        frac=flat.i(fo), back=lat.i(csys.get_pos(frac)),
        fracpos=flat.i(ffrac), posoff=lat.i(csys.get_pos(fracin)),
        norm=lat.i(csys.normalize_position(a)), normarr=lat.i(csys.normalize_position(arr)),
        same=bool(all(np.array_equal(x, y) for x, y in zip(keep, (a, b, arr)))),
    )
    if csys.periodic != case['per']:
        rec['dim'] = -1
    return rec


def batch(seeds):
    return [observe(s) for s in seeds]


def run(ctx):
    ctx.model_check('MCGeometry', 'MCGeometry_quick.cfg', min_states=10000)
    ctx.model_check('MCGeometry', ctx.pick('MCGeometry_2d.cfg', 'MCGeometry_deep.cfg'), min_states=5000)
    num = ctx.pick(12000, 150000)
    seeds = ['c13-{}-{}'.format(ctx.seed, i) for i in range(num)]
    items = [seeds[i:i + 500] for i in range(0, num, 500)]
    small = small_boxes()
    ctx.count('small_box_positions_possible', len(small))
    small = ctx.rng.sample(small, ctx.pick(600, len(small)))
    ctx.count('small_box_positions', len(small))
    items += [small[i:i + 100] for i in range(0, len(small), 100)]
    recs = [r for part in ctx.collect(pmap(batch, items), items) for r in part]
    for rec in recs[:2]:
        ctx.sample(rec)
    for start in range(0, len(recs), 30000):
        ctx.judge('GeoTrace', recs[start:start + 30000])
    ctx.count('periodic', sum(r['per'] for r in recs))
    ctx.assumptions += [
        'positions on integer lattices (exact binary scales, plus inexact scales away from ties), |coordinates| < 2^14',
    ]
