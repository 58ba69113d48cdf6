"""Saving and loading: records for StoreTrace."""
import collections
import math
import os
import random
import tempfile
import warnings

import numpy as np

from . import identrun, nmrun
from .lattice import Lattice


# ---------------------------------------------------------------------------
# attribute maps
# ---------------------------------------------------------------------------
def number(val):
    val = float(val)
    return 'nan' if math.isnan(val) else val.hex()


def is_cells(obj):
    """Containers of results which are no lists (by position)."""
    return callable(getattr(obj, 'values', None))


def flatten(obj, path='', out=None):
    """All public attributes, as [path, value] pairs."""
    import networkx as nx
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search import result as sres
    from nodefinder.identify import result as ires
    out = [] if out is None else out
    if obj is None or isinstance(obj, str):
        out.append([path, repr(obj)])
    elif isinstance(obj, (bool, np.bool_)):
        out.append([path, str(bool(obj))])
    elif isinstance(obj, (int, float, np.integer, np.floating)):
        out.append([path, number(obj)])
    elif isinstance(obj, np.ndarray):
        if obj.shape == ():
            return flatten(obj.item(), path, out)
        out.append([path, 'array {}'.format(list(obj.shape))])
        for idx, val in np.ndenumerate(obj):
            flatten(val, path + '.' + ','.join(map(str, idx)), out)
    elif isinstance(obj, (tuple, list)):
        out.append([path, '{} {}'.format('tuple' if isinstance(obj, tuple) else 'list', len(obj))])
        for idx, val in enumerate(obj):
            flatten(val, '{}.{}'.format(path, idx), out)
    elif isinstance(obj, dict):
        out.append([path, 'dict {}'.format(len(obj))])
        for key, val in obj.items():
            flatten(val, '{}[{}]'.format(path, number(key) if not isinstance(key, str) else key), out)
    elif isinstance(obj, nx.Graph):
        nodes = sorted(tuple(number(x) for x in node) for node in obj.nodes)
        edges = sorted(tuple(sorted(tuple(number(x) for x in node) for node in edge)) for edge in obj.edges)
        out.append([path, 'graph'])
        out.extend([path + '.node', str(x)] for x in nodes)
        out.extend([path + '.edge', str(x)] for x in edges)
    elif is_cells(obj):
        flatten(list(obj.values()), path, out)
    else:
        SimplexQueue, PositionQueue = nmrun.queue_types()
        names = {
            CoordinateSystem: ['limits', 'periodic', 'dim', 'size'],
            sres.MinimizationResult: [x for x in vars(obj) if not x.startswith('_')],
            sres.JoinedMinimizationResult: [
                'ancestor', 'child', 'pos', 'value', 'success', 'status', 'message', 'num_fev', 'num_iter', 'simplex_history', 'fun_simplex_history'
            ],
            sres.SearchResultContainer: ['coordinate_system', 'nodes', 'rejected_results', 'minimization_results', 'refined_results', 'gap_threshold', 'dist_cutoff'],
            sres.ControllerState: ['result', 'simplex_queue', 'position_queue'],
            SimplexQueue: ['objects'],
            PositionQueue: ['objects'],
            ires.IdentificationResultContainer: ['coordinate_system', 'results', 'feature_size'],
            ires.IdentificationResult: ['positions', 'dimension', 'shape'],
            ires.NodalPoint: ['position'],
            ires.NodalLine: ['graph', 'degree_count', 'shape_name'],
        }[type(obj)]
        out.append([path, type(obj).__name__])
        for name in names:
            try:
                val = getattr(obj, name)
            except AttributeError:
                continue
            flatten(val, '{}.{}'.format(path, name), out)
    return out


# ---------------------------------------------------------------------------
# objects
# ---------------------------------------------------------------------------
ODD = [0., -0., 1., math.nan, math.inf, -math.inf, 5e-324, 1.7976931348623157e308, 0.1, 1 / 3, -1e-17, 12345678.9]


def val(rng):
    return rng.choice(ODD) if rng.random() < .4 else rng.uniform(-3, 3)


def mini(rng, dim, joined=True, pos=None):
    from nodefinder.search.result import MinimizationResult, JoinedMinimizationResult
    if joined and rng.random() < .3:
        return JoinedMinimizationResult(ancestor=mini(rng, dim, rng.random() < .3), child=mini(rng, dim, rng.random() < .2, pos))
    num = rng.choice([1, 2, 5])
    kwargs = dict(
        pos=np.array([val(rng) for _ in range(dim)] if pos is None else pos), value=val(rng), success=rng.random() < .6,
    )
    if rng.random() < .8:
        kwargs['pos'] = np.nan_to_num(kwargs['pos'], posinf=1., neginf=-1.) % 7
    if rng.random() < .5:
        kwargs['value'] = np.float64(kwargs['value'])
    if not joined or rng.random() < .9:
        kwargs.update(
            status=rng.choice([0, 1, 2, 3]), message=rng.choice(['', 'Optimization terminated successfully.', 'Maximum — über', 'a\nb']),
            num_fev=rng.choice([0, 1, 17, 10**6]), num_iter=np.int64(rng.randint(0, 99)),
            simplex_history=np.array([[[val(rng) for _ in range(dim)] for _ in range(dim + 1)] for _ in range(num)]),
            fun_simplex_history=np.array([[val(rng) for _ in range(dim + 1)] for _ in range(num)]),
        )
        if rng.random() < .1:
            kwargs['success'] = np.bool_(kwargs['success'])
    return MinimizationResult(**kwargs)


def coords(rng, dim):
    from nodefinder.coordinate_system import CoordinateSystem
    lim = []
    for _ in range(dim):
        low = rng.choice([0, -1, .3, -7.5, rng.uniform(-9, 9)])
        pair = [low, low + rng.choice([1, 2, .01, rng.uniform(.1, 9)])]
        lim.append(pair if rng.random() < .8 else pair[::-1])
    if rng.random() < .2:
        lim = [[0, rng.choice([1, 3])]] * dim
    return CoordinateSystem(limits=lim, periodic=rng.random() < .6)


def container(rng, dim):
    from nodefinder.search.result import SearchResultContainer
    csys = coords(rng, dim)
    size = float(np.max(csys.size))
    results = []
    for _ in range(rng.choice([0, 1, 2, 5])):
        pos = [rng.uniform(l - s, l + 2 * s) for (l, _), s in zip(csys.limits, csys.size)]
        results.append(mini(rng, dim, pos=pos))
    return SearchResultContainer(
        coordinate_system=csys, minimization_results=results, gap_threshold=rng.choice([1e-6, 0, 1., math.inf]),
        dist_cutoff=rng.choice([.1, 1 / 3, 1.]) * size,
        refined_results=[np.array([rng.uniform(l, h) for l, h in csys.limits]) for _ in range(rng.choice([0, 0, 1, 3]))]
    )


def points(rng, num, dim):
    return [[rng.uniform(-2, 2) for _ in range(dim)] for _ in range(num)]


def queues(rng, dim):
    SimplexQueue, PositionQueue = nmrun.queue_types()
    simp = SimplexQueue([points(rng, dim + 1, dim) for _ in range(rng.choice([0, 1, 3]))])
    pos = PositionQueue(points(rng, rng.choice([0, 1, 3]), dim))
    if simp.has_queued and rng.random() < .4:
        simp.pop_queued()
    return simp, pos


def ident(rng):
    import nodefinder as nf
    from nodefinder.coordinate_system import CoordinateSystem
    while True:
        case = rng.choice([identrun.case_small, identrun.case_curve, identrun.case_blob, identrun.case_small])(rng)
        if len(case['pts']) < 50:
            break
    lat = Lattice(case['unit'])
    csys = CoordinateSystem(limits=[[lat.fl(x) for x in l] for l in case['limits']], periodic=case['per'])
    random.seed(rng.random())
    return nf.identify.run_from_positions(
        [lat.f(p) for p in case['pts']], coordinate_system=csys, feature_size=lat.fl(case['f']), evaluate_line_method=rng.choice(identrun.METHODS)
    )


def line(rng):
    """Any graph: also with isolated nodes, several parts, without edges."""
    import networkx as nx
    from nodefinder.identify.result import NodalLine
    dim = rng.choice([1, 2, 3])
    nodes = [tuple(x) for x in points(rng, rng.choice([1, 2, 4, 7]), dim)]
    graph = nx.Graph()
    graph.add_nodes_from(nodes)
    for _ in range(rng.choice([0, 1, 3, 8])):
        if len(nodes) > 1:
            graph.add_edge(*rng.sample(nodes, 2))
    count = collections.Counter(deg for _, deg in graph.degree if deg != 2)
    return NodalLine(graph=graph, degree_count=count)


def any_ident(rng):
    """Results of an identification with any objects."""
    from nodefinder.identify import result as ires
    csys = coords(rng, 2)
    objs = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        dim = rng.choice([0, 1, 2, 3, None])
        shape = None
        if dim == 0:
            shape = ires.NodalPoint(position=np.array(points(rng, 1, 2)[0]))
        elif dim == 1:
            shape = line(rng)
        objs.append(ires.IdentificationResult(positions=[tuple(x) for x in points(rng, rng.choice([1, 2, 5]), 2)], dimension=dim, shape=shape))
    return ires.IdentificationResultContainer(coordinate_system=csys, results=objs, feature_size=rng.choice([.1, 1, 2.5]))


def real_search(rng):
    import nodefinder as nf
    dim = rng.choice([1, 2])
    center = np.array([rng.random() for _ in range(dim)])
    kind = rng.choice(['point', 'nan', 'none'])

    def gap(pos):
        if kind == 'nan' and pos[0] < .2:
            return math.nan
        return float(np.linalg.norm(np.array(pos) - center)) + (kind == 'none')

    kwargs = {}
    if rng.random() < .4:
        kwargs['nelder_mead_kwargs'] = rng.choice([dict(fprime_cutoff=1e-3), dict(maxiter=3), dict(maxfev=9), dict(keep_simplex_history=True)][:3])
    if rng.random() < .4:
        kwargs['refinement_stencil'] = None
    return nf.search.run(
        gap, limits=[(0, 1)] * dim, initial_mesh_size=2, feature_size=.3, gap_threshold=1e-3, periodic=rng.random() < .5, **kwargs
    )


def make(rng):
    """An object and its name."""
    from nodefinder.search.result import ControllerState
    dim = rng.choice([1, 1, 2, 2, 3])
    kind = rng.choice(['ident', 'ident', 'ident', 'objects', 'single', 'container', 'container', 'state', 'state', 'queue', 'csys', 'list', 'search', 'line', 'built'])
    if kind == 'ident':
        return ident(rng), kind
    if kind == 'objects':
        res = ident(rng)
        if not len(res):
            return res, 'ident'
        obj = rng.choice(list(res))
        if obj.shape is not None and rng.random() < .7:
            return obj.shape, 'shape'
        return obj, kind
    if kind == 'single':
        return mini(rng, dim), kind
    if kind == 'container':
        return container(rng, dim), kind
    if kind == 'queue':
        return rng.choice(queues(rng, dim)), kind
    if kind == 'csys':
        return coords(rng, rng.choice([1, 2, 3, 4])), kind
    if kind == 'list':
        if rng.random() < .5:
            return [coords(rng, 2), mini(rng, 2), ident(rng)], kind
        return {'a': container(rng, 1), 'b': ident(rng)}, kind
    if kind == 'line':
        return line(rng), kind
    if kind == 'built':
        return any_ident(rng), kind
    if kind == 'search':
        return real_search(rng), kind
    simp, pos = queues(rng, dim)
    return ControllerState(result=container(rng, dim), simplex_queue=simp, position_queue=pos), kind


def use(obj, seed):
    """Results of using the object."""
    import nodefinder as nf
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search import result as sres
    from nodefinder.identify import result as ires
    rng = random.Random(seed)
    out = []

    def put(name, value):
        flatten(value, name, out)

    if isinstance(obj, CoordinateSystem):
        dim = obj.dim
        a, b = np.array(points(rng, 2, dim)) * np.max(obj.size)
        put('distance', obj.distance(a, b))
        put('vector', obj.connecting_vector(a, b))
        put('norm', obj.normalize_position(a))
        put('average', obj.average([a, a + .01 * obj.size]))
        put('frac', obj.get_frac(b))
        put('repr', repr(obj))
    elif isinstance(obj, sres.SearchResultContainer):
        dim = obj.coordinate_system.dim
        for _ in range(3):
            pos = np.array([rng.uniform(l, h) for l, h in obj.coordinate_system.limits])
            put('nodes', sorted(obj.get_neighbour_distance_iterator(pos)))
            put('all', sorted(obj.get_all_neighbour_distances(pos)))
            put('refined', sorted(obj.get_refined_neighbour_distance_iterator(pos)))
        good = [r for r in obj.nodes if np.all(np.isfinite(r.pos))]
        if len(good) == len(list(obj.nodes)):
            random.seed(seed)
            res = nf.identify.run(obj)
            put('clusters', sorted(sorted(map(list, o.positions)) for o in res))
            put('feature', res.feature_size)
        put('repr', repr(obj))
    elif isinstance(obj, sres.ControllerState):
        out.extend(use(obj.result, seed))
    elif isinstance(obj, ires.IdentificationResultContainer):
        put('len', len(obj))
        put('iter', [o.dimension for o in obj])
        if len(obj):
            put('get', obj[0])
            put('last', obj[-1].positions)
        put('repr', repr([o for o in obj]))
        put('list', type(obj.results).__name__)
        if len(obj):
            out.extend(use(obj[0].shape, seed))
    elif isinstance(obj, ires.IdentificationResult):
        put('set', sorted(set(obj.positions)))
        out.extend(use(obj.shape, seed))
    elif isinstance(obj, ires.NodalLine):
        put('degrees', [obj.degree_count[k] for k in range(9)])
        put('some', sorted(obj.graph.degree[n] for n in obj.graph.nodes))
        put('repr', repr(obj))
    elif isinstance(obj, ires.NodalPoint):
        put('sum', float(np.sum(np.array(obj.position) * 2.)))
    elif isinstance(obj, list):
        for item in obj:
            out.extend(use(item, seed))
    elif isinstance(obj, dict):
        for key in sorted(obj):
            out.extend(use(obj[key], seed))
    return out


def reload(obj, tmp, name='x'):
    import nodefinder as nf
    path = os.path.join(tmp, name)
    nf.io.save(obj, path)
    return nf.io.load(path)


# ---------------------------------------------------------------------------
# files as earlier versions wrote them
# ---------------------------------------------------------------------------
ALIASES = {
    'nodefinder.search_result_container': 'nodefinder.result_container',
    'nodefinder.joined_minimization_result': 'nodefinder.joined_result',
}


def age(rng, path):
    """Rewrite the file in the older formats."""
    import h5py
    from fsc.hdf5_io import to_hdf5
    with h5py.File(path, 'a') as fobj:
        groups = []
        fobj.visititems(lambda name, obj: groups.append(name) if isinstance(obj, h5py.Group) else None)
        for name in [''] + groups:
            if name and not isinstance(fobj.get(name), h5py.Group):
                continue
            group = fobj[name] if name else fobj
            if 'type_tag' not in group:
                continue
            tag = group['type_tag'][()]
            tag = tag.decode() if isinstance(tag, bytes) else tag
            if tag in ALIASES and rng.random() < .7:
                del group['type_tag']
                group['type_tag'] = ALIASES[tag]
            if tag == 'nodefinder.search_result_container' and rng.random() < .5:
                if 'refined_results' in group and (not isinstance(group['refined_results'], h5py.Group) and len(group['refined_results']) == 0):
                    del group['refined_results']
            if tag == 'nodefinder.identification_result' and rng.random() < .7:
                if isinstance(group['positions'], h5py.Dataset):
                    old = [tuple(float(y) for y in x) for x in group['positions'][()]]
                    del group['positions']
                    to_hdf5(old, group.create_group('positions'))
                dim = group['dimension']
                if isinstance(dim, h5py.Group) and 'value' in dim:
                    val_ = dim['value'][()]
                    del group['dimension']
                    group['dimension'] = val_


def observe_attrs(rng, tmp, seed):
    import nodefinder as nf
    obj, name = make(rng)
    rec = dict(kind='attrs', obj=name, ok=True, exc='', before=[], after=[], usebefore=[], useafter=[], about=seed)
    useseed = rng.random()
    early = rng.random() < .5
    rec['before'] = flatten(obj)
    if early:
        rec['usebefore'] = use(obj, useseed)
    try:
        new = obj
        for num in range(rng.choice([1, 1, 1, 2, 3])):
            new = reload(new, tmp, rng.choice(['x', 'y', 'file{}.hdf5'.format(num)]))
        if rng.random() < .15:
            path = os.path.join(tmp, 'old')
            nf.io.save(new, path)
            age(rng, path)
            new = nf.io.load(path)
            rec['obj'] += ' (old format)'
        rec['after'] = flatten(new)
        if not early:
            rec['usebefore'] = use(obj, useseed)
        rec['useafter'] = use(new, useseed)
        if rng.random() < .3:
            # saving must not change the object
            rec['after'] = rec['after'] + [x for x in flatten(obj) if x not in rec['after']]
    except Exception as exc:  # pylint: disable=broad-except
        rec.update(ok=False, exc=repr(exc)[:300])
    return rec


# ---------------------------------------------------------------------------
# histories
# ---------------------------------------------------------------------------
def observe_queue(rng, tmp, seed):
    SimplexQueue, PositionQueue = nmrun.queue_types()
    kind = rng.choice(['simplex', 'position'])
    dim = rng.choice([1, 2, 3])
    pool = [points(rng, dim + 1, dim) if kind == 'simplex' else points(rng, 1, dim)[0] for _ in range(6)]
    key = (lambda s: tuple(sorted(tuple(map(float, v)) for v in s))) if kind == 'simplex' else (lambda p: tuple(map(float, p)))
    names = {key(x): n + 1 for n, x in enumerate(pool)}
    cls = SimplexQueue if kind == 'simplex' else PositionQueue
    rec = dict(kind='queue', type=kind, ok=True, exc='', ops=[], about=seed)

    def batch_(ids):
        objs = []
        for i in ids:
            obj = list(pool[i - 1])
            if kind == 'simplex':
                rng.shuffle(obj)
                obj = rng.choice([np.array(obj), obj, tuple(map(tuple, obj))])
            else:
                obj = rng.choice([np.array(obj), obj, tuple(obj)])
            objs.append(obj)
        return objs

    try:
        ids = [rng.randint(1, 6) for _ in range(rng.choice([0, 1, 3, 5]))]
        queue = cls(batch_(ids)) if ids or rng.random() < .5 else cls()
        running = []

        def note(op, **kw):
            entry = dict(op=op, objs=[], popped=0, objects=[names.get(key(x), 0) for x in queue.objects], has=bool(queue.has_queued), running=0, finished=False)
            if kind == 'simplex':
                entry.update(running=int(queue.num_running), finished=bool(queue.finished))
            entry.update(kw)
            rec['ops'].append(entry)

        note('add', objs=ids)
        for _ in range(rng.choice([2, 4, 8, 12])):
            choices = ['add', 'reload']
            if queue.has_queued:
                choices += ['pop'] * 3
            if running:
                choices += ['finish'] * 2
            op = rng.choice(choices)
            if op == 'add':
                ids = [rng.randint(1, 6) for _ in range(rng.choice([0, 1, 2, 4]))]
                queue.add_objects(batch_(ids))
                note(op, objs=ids)
            elif op == 'pop':
                obj = queue.pop_queued()
                if kind == 'simplex':
                    running.append(obj)
                note(op, popped=names.get(key(obj), 0))
            elif op == 'finish':
                obj = running.pop(rng.randrange(len(running)))
                queue.set_finished(obj)
                note(op, objs=[names.get(key(obj), 0)])
            else:
                queue = reload(queue, tmp)
                running = []
                note(op)
    except Exception as exc:  # pylint: disable=broad-except
        rec.update(ok=False, exc=repr(exc)[:300])
    return rec


def queue_histories(length):
    """
    All histories of a queue: the first objects, then additions, what is popped,
    ends of running objects (counted from the oldest) and loads of a saved queue.
    """
    def grow(kind, hist, waiting, running, seen, left):
        yield kind, hist
        if not left:
            return
        for ids in ([1], [2], [2, 1], [1, 3]):
            new = [i for i in ids if i not in seen]
            yield from grow(kind, hist + (('add', tuple(ids)), ), waiting + new, running, seen | set(ids), left - 1)
        if waiting:
            yield from grow(kind, hist + (('pop', ()), ), waiting[1:], running + waiting[:1] if kind == 'simplex' else running, seen, left - 1)
        for i in range(len(running)):
            yield from grow(kind, hist + (('finish', (i, )), ), waiting, running[:i] + running[i + 1:], seen, left - 1)
        if not hist or hist[-1][0] != 'reload':
            yield from grow(kind, hist + (('reload', ()), ), running + waiting, [], set(running + waiting), left - 1)
    for kind in ['simplex', 'position']:
        for first in [(), (1, ), (2, 1), (1, 1, 3)]:
            for item in grow(kind, (('add', first), ), list(dict.fromkeys(first)), [], set(first), length):
                yield item


def observe_history(kind, hist, tmp):
    SimplexQueue, PositionQueue = nmrun.queue_types()
    pool = [[[0., .1], [1., 0.], [.5, .25]], [[0., .1], [1., 0.], [.5, -.25]], [[0., 0.], [0., 1.], [-1., 0.]]]
    if kind == 'position':
        pool = [[0., .1], [0., .1 + 2**-50], [-.5, 0.]]
    key = (lambda s: tuple(sorted(tuple(map(float, v)) for v in s))) if kind == 'simplex' else (lambda p: tuple(map(float, p)))
    names = {key(x): n + 1 for n, x in enumerate(pool)}
    rec = dict(kind='queue', type=kind, ok=True, exc='', ops=[], about=repr(hist))
    queue, running = None, []
    try:
        for op, arg in hist:
            objs, popped = [], 0
            if op == 'add':
                objs = list(arg)
                new = [np.array(pool[i - 1]) for i in arg]
                if queue is None:
                    queue = (SimplexQueue if kind == 'simplex' else PositionQueue)(new)
                else:
                    queue.add_objects(new)
            elif op == 'pop':
                obj = queue.pop_queued()
                popped = names.get(key(obj), 0)
                if kind == 'simplex':
                    running.append(obj)
            elif op == 'finish':
                obj = running.pop(arg[0])
                queue.set_finished(obj)
                objs = [names.get(key(obj), 0)]
            else:
                queue, running = reload(queue, tmp), []
            entry = dict(op=op, objs=objs, popped=popped, objects=[names.get(key(x), 0) for x in queue.objects], has=bool(queue.has_queued), running=0, finished=False)
            if kind == 'simplex':
                entry.update(running=int(queue.num_running), finished=bool(queue.finished))
            rec['ops'].append(entry)
    except Exception as exc:  # pylint: disable=broad-except
        rec.update(ok=False, exc=repr(exc)[:300])
    return rec


def histories(items):
    with tempfile.TemporaryDirectory(dir=os.environ['NFV_SCRATCH']) as tmp, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return [observe_history(kind, hist, tmp) for kind, hist in items]


def observe_container(rng, tmp, seed):
    from nodefinder.search.result import SearchResultContainer, ControllerState
    dim = rng.choice([1, 2, 3])
    csys = coords(rng, dim)
    rec = dict(kind='container', ok=True, exc='', thr=10, ops=[], about=seed)
    size = float(np.max(csys.size))
    obj = SearchResultContainer(coordinate_system=csys, gap_threshold=10., dist_cutoff=size * rng.choice([.2, .5]))
    wrapped = rng.random() < .3
    if wrapped:
        simp, pos = queues(rng, dim)
        obj = ControllerState(result=obj, simplex_queue=simp, position_queue=pos)
    cont = lambda: obj.result if wrapped else obj  # noqa
    marks = [0]

    def note(op, **kw):
        # results are recognized by their number of evaluations, positions by their first coordinate
        num = lambda r: int((r.child if hasattr(r, 'ancestor') else r).num_fev)  # noqa
        entry = dict(
            op=op, obj=0, ok=False, val=0, nodes=[num(r) for r in cont().nodes], rejected=[num(r) for r in cont().rejected_results],
            all=[num(r) for r in cont().minimization_results], refined=[refs.get(number(np.array(p)[0]), 0) for p in cont().refined_results]
        )
        entry.update(kw)
        rec['ops'].append(entry)

    refs = {}
    try:
        for _ in range(rng.choice([2, 4, 7, 10])):
            op = rng.choice(['result', 'result', 'result', 'refine', 'reload'])
            if op == 'result':
                marks[0] += 1
                res = mini(rng, dim, joined=rng.random() < .3, pos=[rng.uniform(l - s, h + s) for (l, h), s in zip(csys.limits, csys.size)])
                inner = res.child if hasattr(res, 'ancestor') else res
                while hasattr(inner, 'ancestor'):
                    inner = res = inner.child
                worth, good = rng.choice([-3, 0, 9, 10, 11, 500]), rng.random() < .6
                inner.num_fev, inner.value, inner.success = marks[0], float(worth), good
                cont().add_result(res)
                note(op, obj=marks[0], ok=good, val=worth)
            elif op == 'refine':
                marks[0] += 1
                pos = np.array([rng.uniform(l, h) for l, h in csys.limits])
                refs[number(pos[0])] = marks[0]
                cont().set_refined(pos)
                note(op, obj=marks[0])
            else:
                obj = reload(obj, tmp)
                note(op)
    except Exception as exc:  # pylint: disable=broad-except
        rec.update(ok=False, exc=repr(exc)[:300])
    return rec


def observe(seed):
    rng = random.Random(seed)
    with tempfile.TemporaryDirectory(dir=os.environ['NFV_SCRATCH']) as tmp, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        func = rng.choice([observe_attrs] * 3 + [observe_queue, observe_container])
        return [func(rng, tmp, seed)]


def batch(seeds):
    return [r for s in seeds for r in observe(s)]
