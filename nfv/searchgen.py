"""Random search scenarios for the driver."""
import random

from .lattice import Lattice, units

SIMPLEX_SHAPES = {
    1: [[[0], [1]], [[1], [2]], [[-1], [1]], [[-2], [-1]], [[2], [3]], [[0], [0]]],
    2: [
        [[0, 0], [1, 0], [0, 1]], [[1, 0], [2, 0], [1, 1]], [[-1, 0], [0, 1], [1, -1]], [[2, 1], [3, 1], [2, 2]],
        [[-2, -1], [-1, -1], [-1, -2]], [[0, 1], [0, 2], [1, 3]], [[1, 1], [1, 1], [2, 2]]
    ],
    3: [
        [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [2, 0, 0], [1, 1, 0], [1, 0, 1]],
        [[-1, -1, 0], [0, -1, 1], [1, 0, 0], [0, 2, 1]]
    ]
}


def stencil(rng, dim, num):
    """Mostly arbitrary simplices with small coordinates, also degenerate ones."""
    res = []
    for _ in range(num):
        if rng.random() < 0.4:
            sim = [list(v) for v in rng.choice(SIMPLEX_SHAPES[dim])]
        else:
            sim = [[rng.randint(-5, 5) for _ in range(dim)] for _ in range(dim + 1)]
        rng.shuffle(sim)
        res.append(sim)
    if num > 1 and rng.random() < 0.2:
        # the same simplex again, in another order
        again = [list(v) for v in res[0]]
        rng.shuffle(again)
        res[-1] = again
    return res


def lcm(*nums):
    from math import gcd
    res = 1
    for n in nums:
        res = res * n // gcd(res, n)
    return res


def base(rng, *, dims=(1, 1, 2, 2, 3), small=True):
    """A configuration; the caller chooses the gap function and the processes."""
    dim = rng.choice(dims)
    per = rng.random() < 0.6
    maxmesh = {1: 6, 2: 3, 3: 2}[dim]
    sden = rng.choice([1, 2, 4])
    intmesh = rng.random() < 0.2
    mesh = [rng.randint(1, maxmesh) for _ in range(dim)]
    if intmesh:
        mesh = [mesh[0]] * dim
    if not per:
        mesh = [max(2, m) if rng.random() < 0.9 else m for m in mesh]
        if intmesh:
            mesh = [mesh[0]] * dim
    limits = []
    for m in mesh:
        step = lcm(2 * m, max(1, m - 1)) if not per else 2 * m
        size = step * rng.randint(1, max(1, 60 // step))
        if size < 12:
            size = step * (12 // step + 1)
        low = rng.choice([0, 0, rng.randint(-30, 30)])
        limits.append([low, low + size])
    cut = sden * rng.randint(1, max(1, 14 // sden))
    num = rng.choice([0, 1, 1, 2, 2, 3]) if dim < 3 else rng.choice([0, 1, 1, 2])
    # num == 0: an empty stencil is not supported (nothing to scale); no stencil
    sten = stencil(rng, dim, num)
    unit = rng.choice(units() + [2.**-44, 2.**20])
    spec = dict(
        unit=unit, limits=[l if rng.random() < 0.7 else l[::-1] for l in limits], per=per, mesh=mesh, intmesh=intmesh, hasStencil=num > 0,
        stencil=sten, sden=sden, feature=3 * cut, thr=rng.choice([0, 1, 3]),
        check=rng.choice([0, 0, 0, 1, 1, dim, dim + 1]), recheck=rng.choice([0, 0, 0, 1, 2]),
        doRecheck=rng.random() < 0.85, par=rng.choice([1, 1, 2, 2, 3, 5, 50]), nm=dict(xtol='inf', ftol='inf'),
        vseed=rng.randint(0, 10**9), defaults=rng.random() < 0.3, fake=False, npvalue=rng.random() < 0.3,
        policy=rng.choice(['one', 'one', 'one', 'fifo', 'lifo', 'multi', 'mixed', 'all']),
        procs=[{}], save=True
    )
    return spec


def add_zeros(rng, spec, *, prob=None, cap=14, depth=3):
    """Let nodes lie at vertices of mesh simplices, and of refinements."""
    from .searchdrv import World
    world = World(spec)
    prob = prob if prob is not None else rng.choice([0.08, 0.15, 0.3, 0.5])
    zeros = []
    level = [v for s in world.mesh() for v in s]
    for _ in range(depth):
        level = sorted(set(level))
        cand = [v for v in level if rng.random() < prob]
        if not cand and level and not zeros:
            cand = [rng.choice(level)]
        rng.shuffle(cand)
        cand = [world.normalize(v) for v in cand[:max(0, cap - len(zeros))]]
        zeros += cand
        level = [v for z in cand for s in world.launch(z) for v in s]
        prob = prob * rng.choice([0.5, 1])
    spec['zeros'] = sorted(set(map(tuple, zeros)))
    return spec


def scenario(seed, **kwargs):
    """A one-shot search with full control over the schedule."""
    rng = random.Random(seed)
    spec = base(rng, **kwargs)
    add_zeros(rng, spec)
    if rng.random() < 0.1:
        # infinite or undefined values (two infinite ones in the same simplex are
        # never converged, either)
        from .searchdrv import World
        verts = [v for s in World(spec).mesh() for v in s]
        values = [float('inf')]
        if rng.random() < 0.5:
            # undefined values never converge: no successful minimization at all
            values.append(float('nan'))
            spec['nm'] = dict(maxfev=1)
        spec['special'] = [[list(World(spec).normalize(rng.choice(verts))), rng.choice(values)] for _ in range(1 if len(values) == 1 else 4)]
    spec['about'] = str(seed)
    return spec


def resumed(seed, *, stop=('crash', 'crash', 'fail', 'end'), **kwargs):
    """Searches which are interrupted (also repeatedly) and resumed."""
    rng = random.Random(seed)
    spec = base(rng, **kwargs)
    add_zeros(rng, spec)
    if spec['policy'] == 'all':
        spec['policy'] = 'one'
    procs = []
    for num in range(rng.choice([1, 1, 2, 3])):
        how = rng.choice(stop)
        plan = {}
        if how != 'end':
            plan = dict(
                stop=how, stop_at=rng.choice([1, 2, 3, 4, 6]), ticks=rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8]), calm=rng.random() < 0.2,
                exc=rng.choice(['gap', 'value', 'key', 'os', 'stop', 'assert', 'zero'])
            )
        procs.append(plan)
    procs.append({})
    for num, plan in enumerate(procs[1:]):
        plan['how'] = rng.choice(['load', 'load', 'state'])
        plan['force'] = rng.random() < 0.2
        change = {}
        if rng.random() < 0.25:
            # a different call: refinement switched off or on, other settings
            if rng.random() < 0.4:
                change['hasStencil'] = False
            if rng.random() < 0.4:
                change['par'] = rng.choice([1, 2, 4])
            if rng.random() < 0.4:
                change['thr'] = rng.choice([0, 1, 3])
            if rng.random() < 0.4:
                change['check'] = rng.choice([0, 1, 2])
            if rng.random() < 0.4:
                change['recheck'] = rng.choice([0, 1])
            if rng.random() < 0.4:
                change['feature'] = 3 * spec['sden'] * rng.randint(1, 8)
            if rng.random() < 0.3 and plan['force']:
                base_spec = base(rng, dims=(len(spec['mesh']),))
                if base_spec['per'] == spec['per']:
                    change['mesh'], change['limits'] = base_spec['mesh'], base_spec['limits']
                    change['intmesh'] = base_spec['intmesh']
        plan['change'] = change
    spec['procs'] = procs
    spec['about'] = str(seed)
    return spec


def parallel(seed, **kwargs):
    """Different degrees of parallelism, several minimizations finishing at once."""
    rng = random.Random(seed)
    spec = base(rng, dims=(1, 2, 2))
    spec['par'] = rng.choice([1, 2, 3, 4, 5, 7, 8])
    spec['policy'] = rng.choice(['one', 'multi', 'multi', 'all', 'mixed', 'lifo'])
    if rng.random() < 0.03:
        # more than are allowed by default
        num = rng.randint(52, 90)
        spec.update(mesh=[num], intmesh=False, limits=[[0, 4 * num * (1 if spec['per'] else num - 1)]], par=rng.randint(51, 95), hasStencil=False)
        spec['limits'] = [[0, 4 * num]] if spec['per'] else [[0, 2 * num * (num - 1)]]
        spec.update(maxev=12, policy=rng.choice(['multi', 'all']), feature=3, stencil=[], sden=1, nm=dict(xtol='inf', ftol='inf'))
    add_zeros(rng, spec, cap=14 if len(spec['mesh']) > 1 or spec['mesh'][0] < 50 else 2)
    spec['about'] = str(seed)
    return spec


def dense(seed, resume=False, **kwargs):
    """Many nodes with distances around the cutoff."""
    rng = random.Random(seed)
    for _ in range(100):
        spec = base(rng, dims=(1, 1, 2, 2, 3))
        spread = max(abs(l[1] - l[0]) // m for l, m in zip(spec['limits'], spec['mesh']))
        cut = spec['sden'] * max(1, rng.choice([spread // 2, spread, 3 * spread // 2, 2 * spread]) // spec['sden'])
        spec['feature'] = 3 * cut
        if cut <= 40:
            break
    spec['check'] = rng.choice([0, 0, 1, 1, 2, 3])
    spec['recheck'] = rng.choice([0, 0, 0, 1, 2])
    if rng.random() < (0.6 if resume else 0.3):
        # several positions close to each other can be queued at the same time
        spec['check'] = 5
        spec['recheck'] = rng.choice([0, 1])
        spec['doRecheck'] = rng.random() < 0.5
    spec['policy'] = rng.choice(['one', 'one', 'fifo', 'lifo', 'mixed', 'multi'])
    add_zeros(rng, spec, prob=rng.choice([0.2, 0.4, 0.7]), cap=20)
    if resume or rng.random() < 0.25:
        spec['procs'] = [
            dict(stop=rng.choice(['crash', 'fail']), stop_at=rng.choice([2, 3, 4, 5] if spec['check'] < 5 else [3, 5, 8, 12, 16, 20]), ticks=rng.choice([0, 3, 6])) if rng.random() < 0.8 else {},
            dict(how=rng.choice(['load', 'state']), force=rng.random() < 0.4)
        ]
    spec['about'] = str(seed)
    return spec


def classify(seed, **kwargs):
    """Values around the threshold; unsuccessful minimizations."""
    rng = random.Random(seed)
    spec = base(rng, dims=(1, 2, 2, 3))
    spec['thr'] = rng.choice([0, 1, 3, 7, 0])
    spec['vals'] = rng.choice(['mix', 'mix', 'neg'])
    if spec['hasStencil'] and not (spec['doRecheck'] and spec['recheck'] == 0):
        spec['doRecheck'], spec['recheck'] = True, 0
    how = rng.random()
    if how < 0.25:
        spec['nm'] = dict(maxfev=1)
    elif how < 0.35:
        spec['nm'] = dict(xtol='inf', ftol='inf', maxiter=10, maxfev=1000)
    if rng.random() < 0.3:
        from .searchdrv import World
        world = World(spec)
        verts = [v for s in world.mesh() for v in s]
        vals = [float('inf')] if 'xtol' in spec['nm'] else [float('inf'), float('nan'), -float('inf')]
        spec['special'] = [[list(world.normalize(rng.choice(verts))), rng.choice(vals)] for _ in range(1 if len(vals) == 1 else 4)]
    spec['maxev'] = 25
    spec['procs'] = [{}]
    spec['about'] = str(seed)
    return spec


def failing(seed, **kwargs):
    """One or several evaluations fail at some point; the search is resumed afterwards."""
    rng = random.Random(seed)
    spec = base(rng)
    add_zeros(rng, spec)
    spec['par'] = rng.choice([1, 2, 3, 4, 50])
    if spec['policy'] == 'all':
        spec['policy'] = 'multi'
    spec['procs'] = [
        dict(
            stop='fail', stop_at=rng.choice([1, 1, 2, 3, 4, 5]), ticks=rng.choice([0, 0, 1, 2, 3, 5]), calm=rng.random() < 0.4,
            exc=rng.choice(['gap', 'value', 'key', 'os', 'stop', 'assert', 'zero'])
        ), {}
    ]
    if rng.random() < 0.3:
        spec['procs'].insert(1, dict(spec['procs'][0], stop_at=rng.choice([1, 2, 3])))
    for plan in spec['procs'][1:]:
        plan['how'] = rng.choice(['load', 'state'])
    spec['about'] = str(seed)
    return spec


def descending(seed, **kwargs):
    """Minimizations of several iterations, without control over the schedule."""
    rng = random.Random(seed)
    spec = base(rng, dims=(1, 1, 2))
    scale = 64
    spec['limits'] = [[x * scale for x in l] for l in spec['limits']]
    spec['feature'] = spec['feature'] * scale * rng.choice([1, 1, 2])
    spec['unit'] = spec['unit'] / scale
    spec['oneshot'] = False
    spec['free'] = rng.choice(['sync', 'sync', 'async'])
    if max(abs(x) for l in spec['limits'] for x in l) > 60 * scale or spec['feature'] > 40 * 3 * scale:
        return descending(str(seed) + 'x', **kwargs)
    add_zeros(rng, spec, prob=0.2, depth=1)
    spec['vals'] = rng.choice(['hash', 'dist', 'dist', 'dist'])
    dim = len(spec['mesh'])
    spec['nm'] = dict(maxiter=rng.randint(1, 6 if dim == 1 else 3))
    spec['nm']['xtol'] = rng.choice(['inf', spec['unit'] * scale * rng.choice([1, 2, 4])])
    spec['nm']['ftol'] = rng.choice(['inf', 8., 1.])
    if rng.random() < 0.1:
        spec['nm']['maxfev'] = rng.randint(1, 10)
    if spec['hasStencil'] and not (spec['doRecheck'] and spec['recheck'] == 0):
        spec['doRecheck'], spec['recheck'] = True, 0
    if rng.random() < 0.3:
        spec['thr'] = rng.choice([8, 64])
    spec['about'] = str(seed)
    return spec


def delayed(seed, **kwargs):
    """With a delay between saving."""
    rng = random.Random(seed)
    spec = rng.choice([scenario, scenario, scenario, resumed, failing])(seed + '-s')
    spec['delay'] = rng.choice([0., 0.004, 0.02, 0.1, 0.3, 1.5])
    if len(spec['procs']) == 1 and rng.random() < 0.12:
        spec['save'] = False
    spec['maxev'] = 25
    spec['about'] = str(seed)
    return spec


def tiny(seed, interrupt=0, crash=True, **kwargs):
    """Small enough for all schedules to be run."""
    from .searchdrv import World
    rng = random.Random(seed)
    for num in range(1000):
        spec = base(rng, dims=(1, 1, 2))
        total = 1
        for m in spec['mesh']:
            total *= m
        if total > (3 if interrupt else 5) or total * len(spec['stencil']) < 1:
            continue
        spec['par'] = rng.choice([1, 2, 2, 3])
        if rng.random() < .5:
            # nodes which cover each other
            spread = max(abs(l[1] - l[0]) // m for l, m in zip(spec['limits'], spec['mesh']))
            spec['feature'] = 3 * spec['sden'] * max(1, rng.choice([spread // 2, spread, 2 * spread]) // spec['sden'])
        add_zeros(rng, spec, prob=rng.choice([.2, .4, .7]), cap=rng.choice([1, 2] if interrupt else [1, 2, 3, 4]), depth=2)
        break
    spec.update(procs=[{}] + [dict(how=rng.choice(['load', 'state'])) for _ in range(interrupt)], ticks=[2, 4, 6] if crash else [], save=True, policy='script')
    spec.pop('special', None)
    spec['about'] = str(seed)
    return spec


def overlap(seed, **kwargs):
    """Different refinements launch the same simplices, or some of the mesh."""
    from .searchdrv import World
    rng = random.Random(seed)
    for _ in range(1000):
        spec = base(rng, dims=(1, 1, 2))
        if not spec['hasStencil']:
            continue
        dim, den = len(spec['mesh']), spec['sden']
        fact = spec['feature'] // (3 * den)
        if rng.random() < .7:
            # shifted by v; nodes at a distance v are not covered by each other
            reach = den + rng.choice([0, 1, 3])
            shift = [rng.choice([-1, 1]) * reach if k == 0 else rng.choice([0, 0, 1]) for k in range(dim)]
            rng.shuffle(shift)
            first = [shift] + [[x + rng.randint(-3, 3) for x in shift] for _ in range(dim)]
            spec['stencil'] = [first, [[x + y for x, y in zip(v, shift)] for v in first]]
            if rng.random() < .3:
                spec['stencil'].append([[x + 2 * y for x, y in zip(v, shift)] for v in first])
            world = World(spec)
            start = rng.choice([v for s in world.mesh() for v in s])
            steps = rng.choice([1, 1, 2, 3])
            spec['zeros'] = sorted({world.normalize([x + n * fact * y for x, y in zip(start, shift)]) for n in range(steps + 1)})
        else:
            world = World(spec)
            offs = [sz // (2 * m) for sz, m in zip(world.size, spec['mesh'])]
            grid = [sz // (m if spec['per'] else max(1, m - 1)) for sz, m in zip(world.size, spec['mesh'])]
            if any(x % fact for x in offs + grid):
                continue
            # the mesh simplex of this grid point, or of a neighbour
            move = [rng.choice([0, 0, 1]) * g // fact for g in grid]
            spec['stencil'] = [[list(move)] + [[x + (o // fact if k == j else 0) for k, x in enumerate(move)] for j, o in enumerate(offs)]]
            if rng.random() < .5:
                spec['stencil'] += stencil(rng, dim, 1)
            points = sorted({tuple(v) for s in world.mesh() for v in s})
            spec['zeros'] = sorted({world.normalize(rng.choice(points)) for _ in range(rng.choice([1, 2]))})
        spec['check'] = rng.choice([1, dim, dim + 1, dim + 1])
        break
    spec['about'] = str(seed)
    return spec
