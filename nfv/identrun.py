"""Identification of generated sets of positions: cases and records for IdentTrace."""
import itertools
import math
import os
import random
import tempfile
import warnings

import numpy as np

from .lattice import Lattice

POW2 = [1., 0.5, 2.**-4, 2.**-12, 8., 2.**-33, 2.**30]
ANY = [0.1, 1 / 3, 0.0271, 1e-3, np.pi, 1e-10, 3.7e9]
METHODS = ['ballistic', 'shortest_path', 'dominating_set']
LINKS = 10000


# ---------------------------------------------------------------------------
# generated positions. All coordinates are even, and f as well as half of the
# box sizes are odd, such that there are never ties; if ``exact`` is set they
# are arbitrary, and calculated without rounding.
# ---------------------------------------------------------------------------
def frame(rng, dim, size, exact_scale=None):
    """Unit, lower limits and sizes of the box; sizes at least size."""
    pow2 = rng.random() < 0.4 if exact_scale is None else exact_scale
    unit = rng.choice(POW2 if pow2 else ANY)
    lo = [2 * rng.choice([0, 0, -size, rng.randint(-4 * size, 4 * size)]) for _ in range(dim)]
    sizes = []
    for _ in range(dim):
        val = 2 * (size + rng.choice([0, 1, rng.randint(0, size)])) // 2
        val = 2 * (val | 1)
        sizes.append(val)
    return pow2, unit, lo, sizes


def even(x):
    return 2 * int(round(x / 2.))


def wrap(rng, pts, lo, sizes, per, mode=None):
    """Images of the positions; in the box, somewhere else, or mixed."""
    if not per:
        return [list(p) for p in pts]
    mode = mode or rng.choice(['in', 'in', 'in', 'raw', 'mixed'])
    res = []
    for p in pts:
        q = list(p)
        if mode != 'raw':
            q = [l + (x - l) % s for x, l, s in zip(q, lo, sizes)]
        if mode == 'mixed':
            q = [x + s * rng.choice([-1, 0, 0, 1, 2]) for x, s in zip(q, sizes)]
        res.append(q)
    return res


def case_small(rng):
    """A few small groups of positions."""
    dim = rng.choice([1, 2, 2, 2, 3, 3, 3, 4])
    f = rng.choice([5, 9, 15, 21])
    pow2, unit, lo, sizes = frame(rng, dim, rng.choice([2, 3, 5, 8]) * f)
    # exact ties: arbitrary integers
    step = 1 if pow2 and rng.random() < .8 else 2
    if step == 1:
        f = rng.choice([5, 10, 13, 15, 20])
        sizes = [(s // 2) | 1 for s in sizes]
    per = rng.random() < .6
    pts = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        cen = [rng.randint(l, l + s) for l, s in zip(lo, sizes)]
        if rng.random() < .4:
            cen = [rng.choice([l, l + s]) for l, s in zip(lo, sizes)]
        cen = [step * (x // step) for x in cen]
        kind = rng.choice(['tiny', 'ball', 'chain', 'chain', 'flat', 'tie', 'square'])
        num = rng.choice([1, 1, 2, 3, 4, 5, 6, 7])
        if kind == 'tiny':
            reach = max(1, f // 8)
            for _ in range(num):
                pts.append([x + step * (rng.randint(-reach, reach) // step) for x in cen])
        elif kind in ('ball', 'flat'):
            axes = rng.sample(range(dim), min(dim, rng.choice([1, 2, 2, 3]))) if kind == 'flat' else range(dim)
            for _ in range(num):
                pts.append([x + (step * (rng.randint(-f, f) // step) if k in axes else 0) for k, x in enumerate(cen)])
        elif kind == 'chain':
            vec = [step * (rng.randint(-f, f) // step) for _ in range(dim)]
            norm = math.sqrt(sum(x * x for x in vec)) or 1
            fac = rng.choice([1, .99, .7, .5, .34]) * f / norm
            vec = [step * int(x * fac / step) for x in vec]
            side = [step * (rng.randint(-2, 2) // step) for _ in range(dim)] if rng.random() < .3 else [0] * dim
            for n in range(num):
                pts.append([x + n * v + (n % 2) * d for x, v, d in zip(cen, vec, side)])
        elif kind == 'tie':
            # distances exactly f (3-4-5 and 5-12-13 triangles)
            pts.append(cen)
            for _ in range(num - 1):
                vec = [0] * dim
                axis = rng.sample(range(dim), min(dim, 2))
                if len(axis) == 1 or rng.random() < .4 or f not in (5, 10, 13, 15, 20):
                    vec[axis[0]] = rng.choice([-1, 1]) * f
                else:
                    a, b = {5: (3, 4), 10: (6, 8), 13: (5, 12), 15: (9, 12), 20: (12, 16)}[f]
                    vec[axis[0]], vec[axis[1]] = rng.choice([-1, 1]) * a, rng.choice([-1, 1]) * b
                vec = [step * (v // step) if step > 1 else v for v in vec]
                if rng.random() < .3:
                    vec[rng.randrange(dim)] += step * rng.choice([-1, 1])
                base = rng.choice(pts[-num:])
                pts.append([x + v for x, v in zip(base, vec)])
        else:
            side = step * max(1, int(f * rng.choice([.3, .5, .7, .9])) // step)
            for _ in range(num):
                pts.append([x + side * rng.choice([0, 0, 1, 1, 2]) for x in cen])
        if len(pts) > 14:
            break
    pts = pts[:16]
    if rng.random() < .1:
        pts = pts[:rng.choice([0, 1])]
    return dict(
        unit=unit, limits=[[l, l + s] for l, s in zip(lo, sizes)], per=per, f=f, label=4, about='small', exact=True,
        pts=wrap(rng, pts, lo, sizes, per)
    )


def case_filled(rng):
    """A straight line, plane or volume, evenly filled."""
    label = rng.choice([1, 1, 2, 2, 3])
    dim = rng.choice({1: [1, 2, 3, 3, 4], 2: [2, 3, 3, 4], 3: [3, 3, 4]}[label])
    f = rng.choice([501, 1001])
    count = {1: rng.choice([3, 4, 5]), 2: rng.choice([3, 4]), 3: rng.choice([2, 3])}[label]
    gap = f / (count - .02 + .001 * rng.random())
    full = rng.random() < .35 and label > 0
    long = {1: 5, 2: 2.6, 3: 2.2}[label] * f
    if full:
        # along the axes, all around the periodic box
        per = True
        _, unit, lo, sizes = frame(rng, dim, 3 * f)
        axes = rng.sample(range(dim), label)
        base = [rng.choice([l, l + s, rng.randint(l, l + s)]) for l, s in zip(lo, sizes)]
        nums = {}
        for a in axes:
            sizes[a] = 2 * (int(rng.uniform(3.2, 4.) * f / 2) | 1) if label < 3 else 2 * (int(rng.uniform(3., 3.3) * f / 2) | 1)
            nums[a] = int(math.ceil(sizes[a] / gap))
        grid = np.stack(np.meshgrid(*[np.arange(nums[a]) / nums[a] for a in axes], indexing='ij'), axis=-1).reshape(-1, label)
        pts = []
        for row in grid:
            p = list(base)
            for a, x in zip(axes, row):
                p[a] += x * sizes[a]
            pts.append([even(x) for x in p])
    else:
        per = rng.random() < .6
        _, unit, lo, sizes = frame(rng, dim, int(2 * long))
        vecs = np.eye(dim)[rng.sample(range(dim), dim)]
        if rng.random() < .7:
            gen = np.random.RandomState(rng.randrange(2**31))
            vecs = np.linalg.qr(gen.normal(size=(dim, dim)))[0].T
        base = np.array([rng.choice([l, l + s, rng.randint(l, l + s)]) for l, s in zip(lo, sizes)])
        num = int(long // gap) + 1
        grid = np.stack(np.meshgrid(*[np.arange(num) - num / 2.] * label, indexing='ij'), axis=-1).reshape(-1, label)
        noise = rng.choice([0, 0, .1]) * gap
        gen = np.random.RandomState(rng.randrange(2**31))
        shift = gen.uniform(-noise, noise, size=grid.shape) / gap if noise else 0
        pts = [[even(x) for x in base + ((row) * gap) @ vecs[:label]] for row in grid + shift]
    return dict(
        unit=unit, limits=[[l, l + s] for l, s in zip(lo, sizes)], per=per, f=f, label=label, about='filled', exact=False,
        pts=wrap(rng, pts, lo, sizes, per)
    )


def arc(rng, center, rad, start, stop, gap, closed):
    num = max(2, int(math.ceil(abs(stop - start) * rad / gap)))
    angles = start + (stop - start) * np.arange(num + (0 if closed else 1)) / num
    return [center[:2] + rad * np.array([math.cos(a), math.sin(a)]) for a in angles]


def segment(start, stop, gap):
    num = max(1, int(math.ceil(np.linalg.norm(np.array(stop) - start) / gap)))
    return [np.array(start) + (np.array(stop) - start) * i / num for i in range(num + 1)]


def case_curve(rng):
    """Curves: open, closed, crossing, ending at each other, around the box."""
    dim = rng.choice([2, 2, 3])
    f = rng.choice([501, 1001])
    gap = f / rng.choice([1.05, 1.5, 2.2, 3.3, 4.5])
    kind = rng.choice(['line', 'circle', 'cross', 'tee', 'around', 'eight', 'arc', 'square', 'parallel', 'star', 'spiral'])
    label = 4
    straight = np.array([math.cos(.3), math.sin(.3)])
    ang = rng.uniform(0, 2 * math.pi)
    straight = np.array([math.cos(ang), math.sin(ang)]) if rng.random() < .7 else np.array(rng.choice([[1, 0], [0, 1]]))
    ortho = np.array([-straight[1], straight[0]])
    zero = np.zeros(2)
    if kind == 'line':
        pts, label = segment(zero, straight * rng.uniform(4, 12) * f, gap), 1
    elif kind == 'circle':
        rad = rng.choice([1.2, 2, 3, 4]) * f
        pts = arc(rng, zero, rad, ang, ang + 2 * math.pi, gap, True)
        label = 1 if rad > 1.9 * f else 4
    elif kind == 'arc':
        pts, label = arc(rng, zero, rng.uniform(2, 4) * f, ang, ang + rng.uniform(2, 5), gap, False), 1
    elif kind == 'cross':
        pts = segment(-straight * 4 * f, straight * 4 * f, gap) + segment(-ortho * 4 * f, ortho * 4 * f, gap)
    elif kind == 'tee':
        pts = segment(-straight * 4 * f, straight * 4 * f, gap) + segment(zero, ortho * 4 * f, gap)
    elif kind == 'star':
        pts = []
        arms = rng.choice([3, 3, 5, 6])
        for i in range(arms):
            a = ang + i * 2 * math.pi / arms
            pts += segment(zero, np.array([math.cos(a), math.sin(a)]) * rng.uniform(2, 5) * f, gap)
    elif kind == 'eight':
        rad = 2 * f
        pts = arc(rng, zero, rad, 0, 2 * math.pi, gap, True) + arc(rng, np.array([2. * rad, 0]), rad, math.pi, 3 * math.pi, gap, True)
    elif kind == 'square':
        sid = rng.uniform(3, 5) * f
        pts = []
        for a, b in [((0, 0), (1, 0)), ((1, 0), (1, 1)), ((1, 1), (0, 1)), ((0, 1), (0, 0))]:
            pts += segment(np.array(a) * sid, np.array(b) * sid, gap)
    elif kind == 'parallel':
        pts = segment(zero, straight * 5 * f, gap) + segment(ortho * .1 * f, straight * 5 * f + ortho * .1 * f, gap)
    elif kind == 'spiral':
        pts = [rng_r * np.array([math.cos(a), math.sin(a)]) for a, rng_r in [(t, (1.5 * f + t * .35 * f)) for t in np.arange(0, 3 * math.pi, gap / (2.5 * f))]]
    else:
        pts = None
    size = 16 * f
    _, unit, lo, sizes = frame(rng, dim, size)
    sizes = [2 * (s // 4 | 1) for s in sizes]
    per = rng.random() < .6 or kind == 'around'
    noise = rng.choice([0, 0, 0, .02, .05]) * f
    gen = np.random.RandomState(rng.randrange(2**31))
    base = np.array([rng.choice([l, l + s, rng.randint(l, l + s)]) for l, s in zip(lo, sizes)])
    axes = rng.sample(range(dim), 2)
    if kind == 'around':
        axis = axes[0]
        sizes[axis] = 2 * (int(rng.uniform(3.2, 9) * f / 2) | 1)
        num = int(math.ceil(sizes[axis] / gap))
        wave = rng.choice([0, 0, .3]) * f
        label = 4 if wave and sizes[axis] < 6 * f else 1
        out = []
        for i in range(num):
            p = np.array(base, dtype=float)
            p[axis] += sizes[axis] * i / num
            p[axes[1]] += wave * math.sin(2 * math.pi * i / num)
            out.append(p)
        pts = out
    else:
        flat, pts = pts, []
        for x in flat:
            p = np.array(base, dtype=float)
            p[axes[0]] += x[0]
            p[axes[1]] += x[1]
            pts.append(p)
    if noise:
        pts = [p + gen.uniform(-noise, noise, size=dim) for p in pts]
    if rng.random() < .2:
        # unevenly filled
        pts = [p for p in pts if gen.uniform() > .25]
        label = 4
    if f / gap < 2:
        # possibly torn by noise
        label = 4
    pts = [[even(x) for x in p] for p in pts]
    return dict(
        unit=unit, limits=[[l, l + s] for l, s in zip(lo, sizes)], per=per, f=f, label=label, about=kind, exact=False,
        pts=wrap(rng, pts, lo, sizes, per)
    )


def case_blob(rng):
    """Clusters of many positions, much smaller than the feature size."""
    dim = rng.choice([1, 2, 3, 3, 4])
    f = rng.choice([201, 1001])
    _, unit, lo, sizes = frame(rng, dim, rng.choice([2, 4]) * f)
    per = rng.random() < .7
    pts = []
    for _ in range(rng.choice([1, 1, 2])):
        base = [rng.choice([l, l + s, rng.randint(l, l + s)]) for l, s in zip(lo, sizes)]
        reach = rng.choice([1, 4, int(f * .09 / math.sqrt(dim))])
        pts += [[even(x + rng.randint(-reach, reach)) for x in base] for _ in range(rng.choice([1, 2, 5, 12, 25]))]
    return dict(
        unit=unit, limits=[[l, l + s] for l, s in zip(lo, sizes)], per=per, f=f, label=4, about='blob', exact=False,
        pts=wrap(rng, pts, lo, sizes, per)
    )


# all sets of at most so many positions on a grid: numbers of grid positions, feature sizes (grid spacing 5), largest sets
GRIDS = [((5, ), (5, 10, 15, 20), 5), ((7, ), (5, 10, 12, 15), 7), ((9, ), (5, 10, 20, 25), 9), ((5, 3), (5, 8, 10, 13), 4), ((5, 5), (5, 8, 10, 12), 3),
         ((3, 3, 3), (5, 8, 9, 10), 3)]


def grid_cases():
    """All of these; (grid, f, per, positions as bits)."""
    for grid, feats, most in GRIDS:
        for num in range(1, most + 1):
            for sub in itertools.combinations(list(itertools.product(*[range(n) for n in grid])), num):
                for f in feats:
                    for per in (True, False):
                        yield grid, f, per, sub


def case_grid(rng, item):
    grid, f, per, sub = item
    lo = [rng.choice([0, 0, -5, 30]) for _ in grid]
    pts = [[l + 5 * x for l, x in zip(lo, p)] for p in sub]
    sizes = [5 * n for n in grid]
    return dict(
        unit=rng.choice(POW2), limits=[[l, l + s] for l, s in zip(lo, sizes)], per=per, f=f, label=4, about='grid', exact=True,
        pts=wrap(rng, pts, lo, sizes, per)
    )


MIX = dict(
    C21=[case_small] * 6 + [case_curve, case_filled, case_blob],
    C22=[case_small] * 3 + [case_filled] * 3 + [case_curve, case_blob],
    C23=[case_curve] * 6 + [case_small] * 3 + [case_filled],
    C24=[case_small] * 3 + [case_blob] * 4 + [case_curve, case_filled],
)


# ---------------------------------------------------------------------------
def describe(lat, results):
    """Records of the identified objects."""
    from nodefinder.identify.result import NodalPoint, NodalLine
    out = []
    for obj in results:
        num = len(obj.positions)
        rec = dict(
            pos=lat.i([list(p) for p in obj.positions]), dim=4 if obj.dimension is None else int(obj.dimension),
            shape='none', avg=[], nodes=[], edges=[], deg=[], name=''
        )
        shape = obj.shape
        if isinstance(shape, NodalPoint):
            rec.update(shape='point', avg=lat.i(np.asarray(shape.position, dtype=float) * num, tol=1e-4))
        elif isinstance(shape, NodalLine):
            rec.update(
                shape='line', nodes=lat.i([list(n) for n in shape.graph.nodes]),
                edges=[lat.i([list(a), list(b)]) for a, b in shape.graph.edges],
                deg=[[int(d), int(n)] for d, n in shape.degree_count.items()], name=str(shape.shape_name)
            )
        elif shape is not None:
            rec['shape'] = 'other'
        out.append(rec)
    return out


def given(rng, lat, pts):
    """The positions, as they may be handed over."""
    order = list(pts)
    rng.shuffle(order)
    for _ in range(rng.choice([0, 0, 1, 5])):
        if order:
            order.insert(rng.randrange(len(order) + 1), list(rng.choice(order)))
    kind = rng.choice(['lists', 'tuples', 'arrays', 'array'])
    if kind == 'lists':
        return [[lat.fl(x) for x in p] for p in order]
    if kind == 'tuples':
        return [tuple(lat.fl(x) for x in p) for p in order]
    if kind == 'arrays' or not order:
        return [lat.f(p) for p in order]
    return lat.f(order)


def observe(arg):
    """arg: (property, seed)"""
    import nodefinder as nf
    from nodefinder.coordinate_system import CoordinateSystem
    prop, seed, *item = arg
    rng = random.Random(seed)
    case = rng.choice(MIX[prop])(rng) if not item else case_grid(rng, item[0])
    while len(case['pts']) > (100 if prop in ('C21', 'C24') else 400):
        case = rng.choice(MIX[prop])(rng)
    lat = Lattice(case['unit'])
    csys = CoordinateSystem(limits=[[lat.fl(x) for x in l] for l in case['limits']], periodic=case['per'])
    out = []
    methods = METHODS if prop == 'C23' else [rng.choice(METHODS)]
    for method in methods:
        for _ in range(2 if prop in ('C21', 'C22') else 1):
            random.seed(rng.random())
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                kwargs = {} if rng.random() < .1 and method == 'shortest_path' else dict(evaluate_line_method=method)
                res = nf.identify.run_from_positions(
                    given(rng, lat, case['pts']), coordinate_system=csys, feature_size=lat.fl(case['f']), **kwargs
                )
            out.append(dict(
                kind='ident', limits=case['limits'], per=case['per'], f=case['f'], pts=case['pts'], method=method,
                exact=case['exact'], label=case['label'], about='{} {}'.format(case['about'], seed),
                objs=describe(lat, res.results)
            ))
    return out


def run_check(ctx, num):
    from .common import pmap
    args = [(ctx.prop, '{}-{}-{}'.format(ctx.prop, ctx.seed, i)) for i in range(num)]
    cases = list(grid_cases())
    ctx.count('grid_cases_in_total', len(cases))
    few = ctx.pick(160, 16000)
    args += [(ctx.prop, '{}-grid-{}-{}'.format(ctx.prop, ctx.seed, i), x) for i, x in enumerate(ctx.rng.sample(cases, few))]
    num = len(args)
    chunks = [args[i::num // 8 + 1] for i in range(num // 8 + 1)]
    records = [r for b in ctx.collect(pmap(batch, chunks, limit=120, deadline=ctx.deadline), chunks) for r in b]
    for key in ('filled', 'small', 'blob', 'grid'):
        ctx.count('records_' + key, sum(r['about'].startswith(key) for r in records))
    ctx.count('objects', sum(len(r['objs']) for r in records))
    ctx.count('lines', sum(o['shape'] == 'line' for r in records for o in r['objs']))
    ctx.count('points', sum(o['shape'] == 'point' for r in records for o in r['objs']))
    for rec in records:
        if len(rec['pts']) < 12:
            ctx.sample(rec)
    ctx.judge('IdentTrace', records)


def batch(args):
    return [r for a in args for r in observe(a)]
