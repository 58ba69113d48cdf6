"""
Runs searches whose file operations are counted, and which are killed or get an
error at chosen file operations. Executed as a program of its own, with the
library built from native/shim.c preloaded:   crashserver.py shim.so in.json out.json
"""
import asyncio
import ctypes
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SHIM = None
ERRNOS = [5, 28, 28, 13, 122]


def load_shim(path):
    global SHIM
    SHIM = ctypes.CDLL(path)
    SHIM.nfv_config.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    SHIM.nfv_names.restype = ctypes.c_char_p
    SHIM.nfv_count.restype = ctypes.c_long


def other_tmp(scratch):
    """A temporary directory on a file system of its own, if there is one."""
    try:
        if os.stat('/dev/shm').st_dev != os.stat(scratch).st_dev:
            return tempfile.mkdtemp(prefix='nfv_', dir='/dev/shm')
    except OSError:
        pass
    return tempfile.mkdtemp(prefix='tmp_', dir=scratch)


def scenario(seed):
    from nfv import searchgen
    rng = random.Random(seed)
    for num in range(1000):
        spec = searchgen.base(random.Random('{}-{}'.format(seed, num)), dims=(1, 1, 2))
        total = 1
        for m in spec['mesh']:
            total *= m
        if total <= 5 and (total > 1 or rng.random() < .3):
            break
    searchgen.add_zeros(rng, spec, cap=rng.choice([0, 1, 2, 3]), depth=2)
    spec['doRecheck'], spec['recheck'] = True, 0
    spec['about'] = str(seed)
    return spec


def run_child(spec, pdir, tmp, how, delay, mode, at, err, persist, pipe, out, seed):
    """In a forked process: runs the search, reports how it ended."""
    import nodefinder as nf
    from nfv.searchdrv import World, search_kwargs
    from nfv.vloop import VirtualLoop
    rng = random.Random(seed)
    os.chdir(pdir)
    tempfile.tempdir = None
    os.environ['TMPDIR'] = tmp
    world = World(spec)
    kwargs = search_kwargs(world, spec)
    kind = rng.choice(['abs', 'abs', 'rel', 'rel', 'dot', 'path'])
    save = dict(
        abs=os.path.join(pdir, 'save.hdf5'), rel='save.hdf5', dot=os.path.join('.', 'save.hdf5'), path=__import__('pathlib').Path(pdir) / 'save.hdf5'
    )[kind]
    kwargs['save_file'] = save
    kwargs['save_delay'] = delay
    if how == 'load':
        kwargs['load'] = True
    elif how == 'state':
        kwargs['initial_state'] = nf.io.load(os.path.join(pdir, 'save.hdf5'))

    is_async = rng.random() < .5

    def gap(pos):
        key = world.lat.i(pos)
        os.write(pipe, (json.dumps(list(key)) + '\n').encode())
        return float(world.value(tuple(key)))

    async def gap_async(pos):
        await asyncio.sleep(0)
        return gap(pos)

    loop = VirtualLoop()
    loop.set_exception_handler(lambda *args: None)
    SHIM.nfv_config(pdir.encode(), tmp.encode(), mode, at, err, persist)
    try:
        loop.run_until_complete(nf.search.run_async(gap_async if is_async else gap, **kwargs))
        res = dict(raised=False, exc='')
    except BaseException as exc:  # pylint: disable=broad-except
        res = dict(raised=True, exc=repr(exc)[:200])
    res.update(count=SHIM.nfv_count(), hits=SHIM.nfv_hits())
    res['names'] = SHIM.nfv_names().decode()[:res['count']]
    SHIM.nfv_config(b'', b'', 0, -1, 0, 0)
    os.write(out, json.dumps(res).encode())


class Bench:
    def __init__(self, seed):
        self.seed = seed
        self.rng = random.Random(seed + '-bench')
        self.scratch = tempfile.mkdtemp(prefix='crash_', dir=os.environ['NFV_SCRATCH'])
        self.tmps = []
        self.spec = scenario(seed)
        self.delay = self.rng.choice([0., 0., 0., .01, .5])
        self.base = None
        self.how = 'fresh'

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        for tmp in self.tmps:
            shutil.rmtree(tmp, ignore_errors=True)

    def attempt(self, mode, at=-1, err=0, persist=0):
        """One run in a directory of its own; returns what is left of it."""
        pdir = tempfile.mkdtemp(prefix='d_', dir=self.scratch)
        tmp = other_tmp(self.scratch)
        self.tmps.append(tmp)
        if self.base:
            shutil.copy(self.base, os.path.join(pdir, 'save.hdf5'))
        # files, so that nobody has to empty a pipe
        evals, pipe = tempfile.mkstemp(dir=self.scratch)[::-1], None
        rep = tempfile.mkstemp(dir=self.scratch)[::-1]
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.alarm(60)
                run_child(self.spec, pdir, tmp, self.how, self.delay, mode, at, err, persist, evals[1], rep[1], self.seed)
                code = 0
            except BaseException:  # pylint: disable=broad-except
                os.write(rep[1], traceback.format_exc().encode())
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        os.close(evals[1])
        os.close(rep[1])
        with open(evals[0]) as fobj:
            seen = [json.loads(line) for line in fobj if line.endswith('\n')]
        with open(rep[0]) as fobj:
            report = fobj.read()
        os.remove(evals[0])
        os.remove(rep[0])
        code = os.waitstatus_to_exitcode(status)
        if code == 77:
            report = None
        elif code == 0:
            report = json.loads(report)
        elif code == -signal.SIGALRM:
            raise TimeoutError('search does not end')
        else:
            raise RuntimeError('child {}: {}'.format(code, report))
        left = sorted(f for f in os.listdir(pdir) if f != 'save.hdf5') + sorted(os.listdir(tmp))
        return pdir, seen, report, left, tmp

    def look(self, pdir):
        import nodefinder as nf
        from nfv.searchdrv import project_state, World, NOSNAP
        path = os.path.join(pdir, 'save.hdf5')
        if not os.path.lexists(path):
            return 'missing', dict(NOSNAP)
        try:
            state = nf.io.load(path)
            return 'state', project_state(World(self.spec).lat, state)
        except BaseException as exc:  # pylint: disable=broad-except
            return 'unreadable: ' + repr(exc)[:100], dict(NOSNAP)

    def done(self, pdir, tmp):
        shutil.rmtree(pdir, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)

    def prepare(self):
        """Possibly start from an existing file: of an interrupted or a finished search."""
        kind = self.rng.random()
        if kind < .5:
            return dict(none=True)
        pdir, _, report, _, tmp = self.attempt(1)
        if kind < .85 and report['count'] > 8:
            # the state at some time in between
            renames = [i for i, c in enumerate(report['names']) if c == 'r']
            at = self.rng.choice(renames) + 1 if renames else report['count'] // 2
            self.done(pdir, tmp)
            pdir, _, _, _, tmp = self.attempt(2, at)
        keep = os.path.join(self.scratch, 'base.hdf5')
        src = os.path.join(pdir, 'save.hdf5')
        if os.path.exists(src):
            os.rename(src, keep)
            self.base = keep
        self.done(pdir, tmp)
        if self.base is None:
            return dict(none=True)
        self.how = self.rng.choice(['load', 'load', 'state', 'fresh'])
        self.seed += '-again'
        pdir = tempfile.mkdtemp(dir=self.scratch)
        shutil.copy(self.base, os.path.join(pdir, 'save.hdf5'))
        file, snap = self.look(pdir)
        shutil.rmtree(pdir)
        if file != 'state':
            # which is for the actual runs to find out
            self.base, self.how = None, 'fresh'
            return dict(none=True)
        return snap

    def points(self, names, num):
        """Where to strike: the operations around renames etc., and a sample of the others."""
        total = len(names)
        special = [i for i, c in enumerate(names) if c in 'roults']
        near = sorted({j for i in special for j in (i, i + 1, i - 1) if 0 <= j < total})
        if len(near) > num // 2:
            near = self.rng.sample(near, num // 2)
        rest = [i for i in range(total) if i not in near]
        return sorted(set(near) | set(self.rng.sample(rest, min(len(rest), num - len(near)))))


def observe(item):
    kind, seed, num = item
    from nfv.searchdrv import World, core_config, encode
    warnings.simplefilter('ignore')
    bench = Bench(seed)
    try:
        loaded = bench.prepare()
        had = not loaded['none']
        spec = bench.spec
        pdir, seen, report, left, tmp = bench.attempt(1)
        file, snap = bench.look(pdir)
        bench.done(pdir, tmp)
        names = report['names']
        world = World(spec)
        gap = {tuple(k): encode(world.value(tuple(k))) for k in seen}
        resumed = bench.how != 'fresh'
        start = dict(
            e='start', kind='load' if resumed else 'fresh', force=False, proc=1, loaded=loaded if resumed else dict(none=True),
            tags='', rel=[], started=[], snap=dict(none=True)
        )

        def event(name, seen, file, snap, **kwargs):
            return dict(
                e=name, proc=1, rel=[], started=[], evals=sorted(map(list, {tuple(k) for k in seen})), file=file.split(':')[0], detail=file,
                snap=snap, had=had, resumed=resumed, **kwargs
            )
        events = [start]
        initial = dict(loaded) if had else None
        if kind == 'crash':
            for k in bench.points(names, num):
                cut = bench.rng.random() < .5
                pdir, seen, rep, left, tmp = bench.attempt(2, k, err=int(cut))
                if rep is not None:
                    raise RuntimeError('operations not reproducible')
                f_k, s_k = bench.look(pdir)
                events.append(event('torn', seen, f_k, s_k, at=k, op=names[k], before=initial or dict(none=True)))
                bench.done(pdir, tmp)
            events.append(event('whole', seen, file, snap, raised=report['raised'], exc=report['exc'], before=initial or dict(none=True)))
        else:
            for k in bench.points(names, num):
                pdir, _, rep, _, tmp = bench.attempt(2, k)
                f_0, s_0 = bench.look(pdir)
                bench.done(pdir, tmp)
                persist = bench.rng.random() < .5
                pdir, seen, rep, left, tmp = bench.attempt(3, k, err=bench.rng.choice(ERRNOS), persist=int(persist))
                f_k, s_k = bench.look(pdir)
                same = f_k == f_0 and sorted(map(repr, s_k.items())) == sorted(map(repr, s_0.items()))
                events.append(event(
                    'failsave', seen, f_k, s_k, at=k, op=names[k], persist=persist, raised=rep['raised'], exc=rep['exc'], hits=rep['hits'], same=same,
                    prev=s_0, left=left, before=initial or dict(none=True)
                ))
                bench.done(pdir, tmp)
        return dict(c=[core_config(spec)], gap=[[list(k), v] for k, v in sorted(gap.items())], ev=events, about=str(item), names=names, how=bench.how)
    finally:
        bench.close()


def main():
    sys.path.insert(0, ROOT)
    from nfv import common
    sys.path.insert(0, common.REPO)
    load_shim(sys.argv[1])
    import nodefinder  # noqa
    items = [tuple(x) for x in json.load(open(sys.argv[2]))]
    res = common.pmap(observe, items, limit=150, deadline=time.time() + float(sys.argv[4]))
    with open(sys.argv[3], 'w') as fobj:
        json.dump(res, fobj)


if __name__ == '__main__':
    main()
