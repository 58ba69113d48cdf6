"""identify.run on the outputs of searches (records of kind "run")."""
import os
import random
import tempfile
import warnings

import numpy as np

from . import identrun, nmrun
from .lattice import Lattice

THR = 10


def snapshot(obj):
    """Everything that could be modified."""
    from nodefinder.search.result import ControllerState
    state = []
    if isinstance(obj, ControllerState):
        state.append([
            np.array(obj.simplex_queue.objects).tolist(), np.array(obj.position_queue.objects).tolist()
        ])
        obj = obj.result
    csys = obj.coordinate_system
    state.append([
        np.array(csys.limits).tolist(), csys.periodic, obj.dist_cutoff, obj.gap_threshold,
        [(np.array(r.pos).tolist(), r.value, bool(r.success)) for r in obj.minimization_results],
        [(np.array(r.pos).tolist(), r.value, bool(r.success)) for r in obj.nodes],
        [np.array(r).tolist() for r in obj.refined_results], len(obj.rejected_results)
    ])
    return repr(state)


def search_result(rng, tmp):
    """A real (small) search; positions are rounded afterwards."""
    import nodefinder as nf
    lat = Lattice(1e-3)
    per = rng.random() < .7
    dim = rng.choice([1, 2, 2])
    limits = [[0, 4000]] * dim if rng.random() < .5 else [[-3000, 1000]] * dim
    center = [rng.choice([l, h, rng.randint(l, h)]) * lat.unit for l, h in limits]
    size = 4.
    kind = rng.choice(['point', 'shell', 'none'])

    def gap(pos):
        delta = np.abs(np.array(pos) - center) % size
        rad = np.linalg.norm(np.minimum(delta, size - delta) if per else np.array(pos) - center)
        return rad if kind == 'point' else abs(rad - 1.) if kind == 'shell' else 1 + rad

    f = rng.choice([600, 900]) if kind != 'shell' else 900
    kwargs = dict(
        limits=[[x * lat.unit for x in l] for l in limits], periodic=per, initial_mesh_size=(3, ) * dim, gap_threshold=1e-3, feature_size=f * lat.unit
    )
    if rng.random() < .5:
        kwargs['refinement_stencil'] = None
    if rng.random() < .5:
        kwargs['save_file'] = os.path.join(tmp, 'save')
    res = nf.search.run(gap, **kwargs)
    source = 'search'
    if 'save_file' in kwargs and rng.random() < .7:
        res = nf.io.load(kwargs['save_file'])
        source = 'save file'
    return lat, limits, per, f, res, source, 1e-3


def built(rng):
    from nodefinder.coordinate_system import CoordinateSystem
    from nodefinder.search.result import (SearchResultContainer, MinimizationResult, JoinedMinimizationResult, ControllerState)
    SimplexQueue, PositionQueue = nmrun.queue_types()
    while True:
        case = rng.choice([identrun.case_small] * 3 + [identrun.case_blob, identrun.case_curve])(rng)
        dim = len(case['limits'])
        if dim <= 2 or dim == 3 and case['about'] in ('small', 'blob'):
            if len(case['pts']) < 60:
                break
    lat = Lattice(case['unit'])
    csys = CoordinateSystem(limits=[[lat.fl(x) for x in l] for l in case['limits']], periodic=case['per'])
    results = []
    rejected = rng.choice([0, .1, .4, 1])
    for p in case['pts']:
        reject = rng.random() < rejected
        ok = not reject or rng.random() < .5
        val = rng.choice([0, 3, THR]) if not reject or not ok else THR + rng.choice([1, 500])
        res = MinimizationResult(pos=lat.f(p), value=float(val), success=ok)
        if rng.random() < .3:
            # the result of several minimizations
            child = res
            orig = MinimizationResult(pos=lat.f(p) + case['f'] * lat.unit, value=float(rng.choice([0, THR + 1])), success=rng.random() < .5)
            res = JoinedMinimizationResult(child=child, ancestor=orig)
        results.append(res)
    refined = [lat.f(p) for p in case['pts'][:rng.choice([0, 0, 3])]]
    cont = SearchResultContainer(
        coordinate_system=csys, gap_threshold=float(THR), dist_cutoff=lat.fl(case['f']) / 3, minimization_results=results, refined_results=refined
    )
    source = 'container'
    if rng.random() < .5:
        dim = len(case['limits'])
        simplices = [[[lat.fl(rng.randint(0, 9)) for _ in range(dim)] for _ in range(dim + 1)] for _ in range(rng.choice([0, 2]))]
        cont = ControllerState(
            result=cont, simplex_queue=SimplexQueue(simplices),
            position_queue=PositionQueue([lat.f(p) for p in case['pts'][:rng.choice([0, 2])]])
        )
        source = 'state'
    return lat, case['limits'], case['per'], case['f'], cont, source, THR


def observe(seed):
    import nodefinder as nf
    from nodefinder.search.result import ControllerState
    rng = random.Random(seed)
    with tempfile.TemporaryDirectory(dir=os.environ['NFV_SCRATCH']) as tmp, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        real = rng.random() < .06
        lat, limits, per, f, obj, source, thr = search_result(rng, tmp) if real else built(rng)
        if not real and rng.random() < .4:
            nf.io.save(obj, os.path.join(tmp, 'a'))
            obj = nf.io.load(os.path.join(tmp, 'a'))
            source = 'loaded ' + source
        result = obj.result if isinstance(obj, ControllerState) else obj
        kwargs = {}
        if rng.random() < .6:
            kwargs['evaluate_line_method'] = rng.choice(identrun.METHODS)
        if rng.random() < .3:
            f = rng.choice([f, 3 * f, f // 3 | 1, 2 * f + 1])
            kwargs['feature_size'] = lat.fl(f)
        csys = result.coordinate_system
        near = (lambda x: np.round(np.array(x) / lat.unit).astype(int).tolist()) if real else lat.i
        out = dict(
            kind='run', limits=limits, per=per, f=f, f3=0, thr=THR, results=[], ok=True, exc='', source=source, csys={},
            same=True, objs=[], others=[], exact=f < 40 and not real, label=4, about=str(seed)
        )
        for r in result.minimization_results:
            good = bool(r.value <= result.gap_threshold)
            out['results'].append(dict(pos=near(r.pos), ok=bool(r.success), val=(THR if good else THR + 1)))
        # what is read here is judged, too
        before = snapshot(obj)
        try:
            random.seed(rng.random())
            res = nf.identify.run(obj, **kwargs)
        except Exception as exc:  # pylint: disable=broad-except
            out.update(ok=False, exc=repr(exc)[:200])
            return [out]
        out['same'] = snapshot(obj) == before
        points = np.array([r.pos for r in result.minimization_results if r.success and r.value <= result.gap_threshold])
        other = nf.identify.run_from_positions(
            points, coordinate_system=csys, feature_size=lat.fl(f), evaluate_line_method=kwargs.get('evaluate_line_method', 'ballistic')
        )
        if real:
            # rounding must not make a difference
            for p in points:
                if np.any(np.abs(csys.distance(p, points) / lat.unit - f) < 4):
                    return []
            rounded = Rounded(lat.unit)
            out['objs'], out['others'] = identrun.describe(rounded, res), identrun.describe(rounded, other)
        else:
            out['objs'], out['others'] = identrun.describe(lat, res.results), identrun.describe(lat, other.results)
        every = [tuple(x['pos']) for x in out['results'] if x['ok'] and x['val'] <= THR]
        if len(set(every)) < len(set(map(tuple, points.tolist()))):
            # positions which differ only by rounding
            return []
        out['f3'] = lat.i(res.feature_size)
        out['csys'] = dict(limits=np.transpose(lat.i(res.coordinate_system.limits)).tolist(), per=bool(res.coordinate_system.periodic))
        return [out]


class Rounded(Lattice):
    def i(self, val, power=1, tol=None):
        return np.round(np.asarray(val, dtype=float) / self.unit).astype(int).tolist()


def batch(seeds):
    return [r for s in seeds for r in observe(s)]
