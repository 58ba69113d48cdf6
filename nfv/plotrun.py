"""Recorded plots (records for PlotTrace)."""
import os
import random
import warnings

import numpy as np

from . import identrun
from .lattice import Lattice
from .storerun import flatten


def artists(axis, dim, skip=()):
    """Paths, marks and their values, as they are on the axes."""
    from matplotlib.collections import LineCollection, PathCollection
    paths, marks, vals = [], [], []
    for line in axis.lines:
        data = line.get_data_3d() if dim == 3 else line.get_data()
        points = np.array([np.asarray(x, dtype=float) for x in data]).T
        marked = line.get_marker() not in (None, 'None', '', ' ')
        if line.get_linestyle() not in ('None', '', ' '):
            paths.append(points)
            if marked and len(points) == 1:
                marks.extend(points)
        elif marked:
            marks.extend(points)
    for coll in axis.collections:
        if any(coll is s for s in skip):
            continue
        if isinstance(coll, LineCollection):
            segs = coll._segments3d if dim == 3 else coll.get_segments()  # pylint: disable=protected-access
            paths.extend(np.array(s) for s in segs)
        elif isinstance(coll, PathCollection):
            if dim == 3:
                new = np.array([np.ma.filled(np.ma.asarray(x, dtype=float), np.nan) for x in coll._offsets3d]).T  # pylint: disable=protected-access
            else:
                new = np.ma.filled(np.ma.asarray(coll.get_offsets(), dtype=float), np.nan)
            marks.extend(np.array(new).reshape(-1, dim))
            arr = coll.get_array()
            if arr is not None:
                vals.extend(np.asarray(arr, dtype=float))
    return paths, marks, vals


def shown(axis, dim):
    lims = [axis.get_xlim(), axis.get_ylim()]
    if dim == 3:
        lims.append(axis.get_zlim())
    return [sorted(map(float, x)) for x in lims]


def random_graph(rng, pos):
    import networkx as nx
    graph = nx.Graph()
    nodes = [tuple(p) for p in pos]
    kind = rng.choice(['path', 'cycle', 'random', 'random', 'tree', 'dense', 'two', 'star', 'empty', 'bow'])
    rng.shuffle(nodes)
    if kind == 'empty':
        graph.add_nodes_from(nodes)
        return graph
    if kind in ('path', 'cycle', 'two', 'bow'):
        graph.add_edges_from(zip(nodes, nodes[1:]))
        if kind == 'cycle' and len(nodes) > 2:
            graph.add_edge(nodes[-1], nodes[0])
        if kind == 'two' and len(nodes) > 3:
            graph.remove_edge(nodes[1], nodes[2])
        if kind == 'bow' and len(nodes) > 4:
            graph.add_edge(nodes[0], nodes[2])
            graph.add_edge(nodes[-1], nodes[2])
    elif kind == 'star':
        graph.add_edges_from((nodes[0], n) for n in nodes[1:])
    elif kind == 'tree':
        for i, n in enumerate(nodes[1:]):
            graph.add_edge(n, nodes[rng.randint(0, i)])
    else:
        num = len(nodes) * (rng.choice([1, 2]) if kind == 'random' else 3)
        for _ in range(num):
            a, b = rng.choice(nodes), rng.choice(nodes)
            if a != b:
                graph.add_edge(a, b)
    if not graph.nodes:
        graph.add_nodes_from(nodes)
    return graph


def observe(seed):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import nodefinder as nf
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.identify.result import (IdentificationResultContainer, IdentificationResult, NodalPoint, NodalLine)
    from nodefinder.search.result import SearchResultContainer, MinimizationResult, JoinedMinimizationResult
    from collections import Counter
    rng = random.Random(seed)
    dim = rng.choice([2, 2, 2, 3])
    pow2 = rng.random() < .6
    lat = Lattice(rng.choice([1., .5, 2.**-7]) if pow2 else rng.choice([.1, 1e-3, 7.3]))
    size = rng.choice([40, 100])
    lo = [rng.choice([0, -size, rng.randint(-50, 50)]) for _ in range(dim)]
    hi = [l + rng.choice([size, size // 2 + 1]) for l in lo]
    csys = CoordinateSystem(limits=[[lat.fl(a), lat.fl(b)] for a, b in zip(lo, hi)], periodic=rng.random() < .6)
    kind = rng.choice(['ident', 'ident', 'ident', 'shape', 'points', 'points', 'simplices', 'stencil'])
    rec = dict(
        kind='ident', about='{} {}'.format(kind, seed), ok=True, exc='', limits=[list(x) for x in zip(lo, hi)], shown=[], same=True, axisok=True,
        cut=0, objs=[], paths=[], marks=[], vals=[], simplices=[], origin=[]
    )

    def place():
        return [rng.randint(l, h) for l, h in zip(lo, hi)]

    def places(num):
        res = []
        while len(res) < num:
            p = place()
            if res and rng.random() < .6:
                p = [min(h, max(l, x + rng.randint(-6, 6))) for x, l, h in zip(rng.choice(res), lo, hi)]
            if p not in res:
                res.append(p)
        return res

    axis = None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if rng.random() < .4:
            fig = plt.figure()
            axis = fig.add_subplot(111, projection='3d' if dim == 3 else None)
        f = rng.choice([5, 10, 3, 20])
        # without exact numbers avoid ties
        feature = lat.fl(f) if pow2 else lat.fl(f) * 1.0001
        skip = ()
        try:
            if kind in ('ident', 'shape'):
                objs = []
                for _ in range(rng.choice([0, 1, 2, 4]) if kind == 'ident' else 1):
                    shape = rng.choice(['line', 'line', 'point', 'none']) if kind == 'ident' else rng.choice(['line', 'point'])
                    pos = places(rng.choice([1, 2, 3, 4, 6, 9]))
                    item = dict(shape=shape, pos=pos, at=[], nodes=[], edges=[])
                    if shape == 'point':
                        item['at'] = place()
                        val = NodalPoint(position=rng.choice([lat.f(item['at']), tuple(lat.f(item['at']))]))
                    elif shape == 'line':
                        graph = random_graph(rng, [lat.f(p) for p in pos])
                        item.update(nodes=lat.i(list(graph.nodes)), edges=[lat.i(e) for e in graph.edges])
                        deg = Counter(d for _, d in graph.degree)
                        deg.pop(2, None)
                        val = NodalLine(graph=graph, degree_count=deg)
                    else:
                        val = None
                    rec['objs'].append(item)
                    objs.append(IdentificationResult([lat.f(p) for p in pos], {'line': 1, 'point': 0, 'none': rng.choice([2, None])}[shape], val))
                if kind == 'ident':
                    obj = IdentificationResultContainer(coordinate_system=csys, feature_size=feature, results=objs)
                    rec['cut'] = 4 * f * f
                    if rng.random() < .2:
                        import tempfile
                        with tempfile.TemporaryDirectory(dir=os.environ['NFV_SCRATCH']) as tmp:
                            nf.io.save(obj, os.path.join(tmp, 'a'))
                            obj = nf.io.load(os.path.join(tmp, 'a'))
                    before = flatten(obj)
                    fig, out = nf.identify.plot.result(obj, axis=axis)
                    rec['same'] = flatten(obj) == before
                else:
                    if axis is None:
                        fig = plt.figure()
                        axis = fig.add_subplot(111, projection='3d' if dim == 3 else None)
                    axis.set_xlim(lat.fl(lo[0]), lat.fl(hi[0]))
                    axis.set_ylim(lat.fl(lo[1]), lat.fl(hi[1]))
                    if dim == 3:
                        axis.set_zlim(lat.fl(lo[2]), lat.fl(hi[2]))
                    before = flatten(val)
                    kwargs = {}
                    if rng.random() < .5:
                        kwargs['feature_size'] = feature
                        rec['cut'] = 4 * f * f
                    (nf.identify.plot.nodal_line if isinstance(val, NodalLine) else nf.identify.plot.nodal_point)(val, axis=axis, color='C0', **kwargs)
                    out = axis
                    rec['same'] = flatten(val) == before
            elif kind == 'points':
                rec['kind'] = 'points'
                cont = SearchResultContainer(coordinate_system=csys, gap_threshold=10., dist_cutoff=lat.fl(rng.choice([5, 20])))
                for p in places(rng.choice([0, 1, 3, 9, 20])):
                    if csys.periodic:
                        p = [l + (x - l) % (h - l) for x, l, h in zip(p, lo, hi)]
                    worth, good = rng.choice([0, 3, 10, 11, 99]), rng.random() < .7
                    res = MinimizationResult(pos=lat.f(p), value=float(worth), success=good)
                    if rng.random() < .3:
                        res = JoinedMinimizationResult(child=res, ancestor=MinimizationResult(pos=lat.f(place()), value=3., success=True))
                    if rng.random() < .1:
                        cont.add_result(MinimizationResult(pos=lat.f(p), value=float(worth), success=good))
                        if good and worth <= 10:
                            rec['objs'].append(dict(pos=p, val=worth))
                    cont.add_result(res)
                    if good and worth <= 10:
                        rec['objs'].append(dict(pos=p, val=worth))
                before = flatten(cont)
                fig, out = nf.search.plot.points(cont, axis=axis)
                rec['same'] = flatten(cont) == before
            elif kind == 'simplices':
                rec['kind'] = 'simplices'
                cont = SearchResultContainer(coordinate_system=csys, gap_threshold=10., dist_cutoff=lat.fl(5))
                nodes = []
                for _ in range(rng.choice([0, 1, 2])):
                    def hist():
                        res = [[place() for _ in range(dim + 1)] for _ in range(rng.choice([1, 2, 3]))]
                        rec['simplices'].extend(res)
                        return lat.f(res)
                    one = MinimizationResult(pos=lat.f(place()), value=0., success=True, simplex_history=hist())
                    if rng.random() < .4:
                        one = JoinedMinimizationResult(ancestor=one, child=MinimizationResult(pos=lat.f(place()), value=0., success=True, simplex_history=hist()))
                    nodes.append(one)
                before = flatten(nodes) + flatten(cont)
                fig, out = nf.search.plot.simplices(cont, nodes=nodes, axis=axis)
                rec['same'] = flatten(nodes) + flatten(cont) == before
            else:
                rec['kind'] = 'simplices'
                num = rng.choice([1, 2, 4])
                stcl = [[place() for _ in range(dim + 1)] for _ in range(num)]
                rec['simplices'] = stcl
                arr = lat.f(stcl)
                flat = np.array(stcl).reshape(-1, dim)
                if np.any(flat.min(axis=0) == flat.max(axis=0)):
                    return []
                rec['limits'] = [[int(a), int(b)] for a, b in zip(flat.min(axis=0), flat.max(axis=0))]
                kwargs = {}
                rec['origin'] = [[0] * dim]
                if rng.random() < .3:
                    kwargs['origin_settings'] = None
                    rec['origin'] = []
                copy = arr.copy()
                fig, out = nf.search.plot.stencil(arr, axis=axis, plot_sphere=False, **kwargs)
                rec['same'] = bool(np.all(arr == copy))
            if kind != 'shape':
                rec['axisok'] = (fig is None and out is axis) if axis is not None else (fig is not None and out in fig.axes)
            rec['shown'] = [lat.i(x) for x in shown(out, dim)]
            paths, marks, vals = artists(out, dim, skip)
            rec.update(paths=[lat.i(p) for p in paths], marks=lat.i(marks) if len(marks) else [], vals=[int(round(v)) for v in vals])
        except Exception as exc:  # pylint: disable=broad-except
            rec.update(ok=False, exc=repr(exc)[:300])
        finally:
            plt.close('all')
    return [rec]


def batch(seeds):
    return [r for s in seeds for r in observe(s)]


#: the positions of MCPlot
PLACES = [[0, 0], [1, 0], [0, 1], [3, 0], [3, 3]]


def graphs(item):
    """All graphs on the positions which the design is exhausted for; the numbers select the graphs."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import networkx as nx
    import nodefinder as nf
    import itertools
    order, numbers, f, first = item
    lat = Lattice(.5)
    recs = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fig, axis = plt.subplots()
        try:
            for num in numbers:
                places = [tuple(lat.f(PLACES[i])) for i in order]
                pairs = [e for i, e in enumerate(itertools.combinations(range(5), 2)) if num >> i & 1]
                graph = nx.Graph()
                if first:
                    graph.add_nodes_from(places)
                # the order in which edges are added decides on the order of neighbours
                random.Random(str((order, num))).shuffle(pairs)
                graph.add_edges_from((places[a], places[b]) for a, b in pairs)
                if not graph.nodes:
                    graph.add_nodes_from(places[:1])
                axis.clear()
                axis.set_xlim(0, 2)
                axis.set_ylim(0, 2)
                rec = dict(
                    kind='ident', about='graph {} {} {} {}'.format(order, num, f, first), ok=True, exc='', limits=[[0, 4], [0, 4]], shown=[[0, 4], [0, 4]], same=True,
                    axisok=True, cut=4 * f * f, paths=[], marks=[], vals=[], simplices=[], origin=[],
                    objs=[dict(shape='line', pos=[], at=[], nodes=lat.i(list(graph.nodes)), edges=[lat.i(e) for e in graph.edges])]
                )
                val = nf.identify.result.NodalLine(graph=graph, degree_count={})
                try:
                    nf.identify.plot.nodal_line(val, axis=axis, color='C0', **(dict(feature_size=lat.fl(f)) if f else {}))
                except Exception as exc:  # pylint: disable=broad-except
                    rec.update(ok=False, exc=repr(exc)[:300])
                rec['same'] = rec['objs'][0]['edges'] == [lat.i(e) for e in graph.edges] and rec['objs'][0]['nodes'] == lat.i(list(graph.nodes))
                paths, marks, _ = artists(axis, 2)
                rec.update(paths=[lat.i(p) for p in paths], marks=lat.i(marks) if len(marks) else [])
                recs.append(rec)
        finally:
            plt.close('all')
    return recs


def graph_items(rng, thorough):
    import itertools
    orders = list(itertools.permutations(range(5)))
    items = []
    for f in [0, 1, 2]:
        for first in [True, False]:
            for order in (orders[::10] if thorough else [rng.choice(orders)]):
                numbers = list(range(1024))
                if not thorough:
                    # every graph is drawn with one of the settings, at least
                    numbers = [n for n in numbers if n % 6 == (f * 2 + first)] + rng.sample(numbers, 100)
                items += [(order, numbers[i::4], f, first) for i in range(4)]
    return items
