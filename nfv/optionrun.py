"""Calls of search.run with all combinations of the options for the initial state (C11)."""
import asyncio
import os
import random
import shutil
import tempfile
import warnings

import numpy as np

from . import searchgen
from .searchdrv import World, NOSNAP, core_config, encode, norm_simplex, project_container, project_state, search_kwargs
from .vloop import VirtualLoop


class Stop(Exception):
    """Raised by the gap function of a search which is to be interrupted."""


def go(loop_arg):
    gap, kwargs = loop_arg
    import nodefinder as nf
    loop = VirtualLoop()
    loop.set_exception_handler(lambda *args: None)
    try:
        return loop.run_until_complete(nf.search.run_async(gap, **kwargs))
    finally:
        loop.close()


def observe(seed):
    import nodefinder as nf
    warnings.simplefilter('ignore')
    rng = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix='opt_', dir=os.environ.get('NFV_SCRATCH'))
    old = os.getcwd()
    try:
        os.chdir(tmp)
        spec = searchgen.base(rng, dims=(1, 1, 2, 2, 3))
        spec['doRecheck'], spec['recheck'] = True, 0
        searchgen.add_zeros(rng, spec, cap=4, depth=2)
        if rng.random() < .2:
            # no minimization is successful
            spec['nm'] = dict(maxfev=1)
        world = World(spec)
        lat = world.lat
        dim = world.dim
        gaps = {}

        def earlier(path, stop):
            """A state saved by another search, which is possibly interrupted."""
            calls = [0]

            def gap(pos):
                calls[0] += 1
                if stop is not None and calls[0] > stop:
                    raise Stop
                key = tuple(lat.i(pos))
                gaps[key] = encode(world.value(key))
                return float(world.value(key))
            try:
                go((gap, dict(search_kwargs(world, spec), save_file=path)))
            except Stop:
                pass
            return project_state(lat, nf.io.load(path))

        def stop():
            return rng.choice([None, 0, (dim + 1) * rng.randint(1, 6), rng.randint(1, 30)])

        path = os.path.join(tmp, 'save.hdf5')
        hasfile, hasstate = rng.random() < .6, rng.random() < .45
        opts = dict(load=rng.random() < .6, quiet=rng.random() < .5, hasfile=hasfile, hasstate=hasstate, dims=rng.random() < .85)
        file = earlier(path, stop()) if hasfile else dict(NOSNAP)
        state, initial = dict(NOSNAP), None
        if hasstate:
            other = os.path.join(tmp, 'other.hdf5')
            state = earlier(other, stop())
            initial = nf.io.load(other)
            os.remove(other)
        force = rng.random() < .4
        # the settings of the call itself
        new = dict(spec, hasStencil=False, zeros=[], special=[])
        if rng.random() < .5:
            new['nm'] = dict(maxfev=1) if rng.random() < .3 else dict(xtol='inf', ftol='inf')
        if rng.random() < .5:
            new['thr'] = rng.choice([0, 1, 3, 40, 10])
        if rng.random() < .4:
            new['feature'] = 3 * rng.randint(1, 20)
        if rng.random() < .4:
            for _ in range(30):
                alt = searchgen.base(rng, dims=(dim, ))
                new['mesh'], new['limits'], new['per'], new['intmesh'] = alt['mesh'], alt['limits'], alt['per'], alt['intmesh']
                break
        now = World(dict(new, vseed=rng.random()))
        high = 1000
        count = [0]

        def gap(pos):
            count[0] += 1
            key = tuple(lat.i(pos))
            gaps[key] = high
            return float(high)

        kwargs = search_kwargs(now, new)
        kwargs.update(save_file=path, load=opts['load'], load_quiet=opts['quiet'], initial_state=initial, force_initial_mesh=force)
        if not opts['dims']:
            kwargs['initial_mesh_size'] = tuple(rng.choice([
                list(new['mesh']) + [2], list(new['mesh'])[:-1] or [1, 1], list(new['mesh']) * 2
            ]))
        for key, default in (('load', False), ('load_quiet', True), ('initial_state', None), ('force_initial_mesh', False)):
            if kwargs[key] == default and rng.random() < .5:
                del kwargs[key]
        before = open(path, 'rb').read() if hasfile else None
        evt = dict(
            e='option', proc=1, rel=[], started=[], o=opts, force=force, file=file, state=state, new=[], snap=dict(NOSNAP), params={}, filesame=True
        )
        try:
            res = go((gap, kwargs))
            evt['outcome'] = 'ok'
        except Exception as exc:  # pylint: disable=broad-except
            evt['outcome'] = 'ValueError' if isinstance(exc, ValueError) else type(exc).__name__
        evt['evals'] = count[0]
        if evt['outcome'] != 'ok':
            after = open(path, 'rb').read() if os.path.exists(path) else None
            evt['filesame'] = after == before
        else:
            rlist, refd = project_container(lat, res)
            snap = project_state(lat, nf.io.load(path))
            left = sorted(repr(norm_simplex(r['s'])) for d in (file if opts['load'] else state, ) for r in d.get('res', ()))
            news = []
            for r in rlist:
                key = repr(norm_simplex(r['s']))
                if key in left:
                    left.remove(key)
                else:
                    news.append(r['s'])
            evt.update(new=news, snap=dict(snap, res=rlist, refd=refd))
            csys = res.coordinate_system
            evt['params'] = dict(
                limits=[lat.i(np.asarray(csys.limits)[:, 0]), lat.i(np.asarray(csys.limits)[:, 1])], per=bool(csys.periodic),
                thr=encode(res.gap_threshold), cut3=lat.i(3 * res.dist_cutoff)
            )
        # the thresholds of different calls apply to the values of earlier ones, too
        return dict(c=[core_config(new)], gap=[[list(k), v] for k, v in sorted(gaps.items())], ev=[evt], about=str(seed))
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
