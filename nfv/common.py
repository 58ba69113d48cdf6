"""
Infrastructure shared by all checks: environment, worker pool, TLC runs,
verdict collection and evidence files.
"""
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NFV_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
PYTHON = '/opt/venv/bin/python'
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """Something in the machinery itself failed: no verdict."""


def child_env(scratch):
    env = dict(os.environ)
    env.update(
        HOME='/root', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
        PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), MPLBACKEND='Agg',
        MPLCONFIGDIR='/opt/mplconfig' if os.path.isdir('/opt/mplconfig')
        else os.path.join(scratch, 'mpl'),
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', NFV_SCRATCH=scratch,
    )
    return env


# ---------------------------------------------------------------------------
# worker pool with hard per-item time limits
# ---------------------------------------------------------------------------
def _worker(conn, func):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('NFV_DEBUG'):
        os.dup2(devnull, 2)
    while True:
        try:
            item = conn.recv()
        except EOFError:
            os._exit(0)
        if item is None:
            os._exit(0)
        try:
            res = ('ok', func(item))
        except BaseException:  # pylint: disable=broad-except
            res = ('error', traceback.format_exc())
        try:
            conn.send(res)
        except BaseException:  # pylint: disable=broad-except
            conn.send(('error', traceback.format_exc()))


def pmap(func, items, *, limit=60., nproc=None, deadline=None):
    """
    Apply func to all items in forked worker processes. Returns a list of
    (kind, value), kind being 'ok', 'error' (harness exception), 'hang' (killed
    after ``limit`` seconds), 'died' or 'skipped' (overall deadline passed).
    """
    items = list(items)
    results = [None] * len(items)
    nproc = min(nproc or NCPU, max(1, len(items)))
    ctx = mp.get_context('fork')
    workers = {}

    def spawn():
        here, there = ctx.Pipe()
        proc = ctx.Process(target=_worker, args=(there, func), daemon=True)
        proc.start()
        there.close()
        workers[here] = [proc, None, None]
        return here

    todo = list(range(len(items)))[::-1]

    def assign(conn):
        while todo:
            idx = todo.pop()
            if deadline is not None and time.time() > deadline:
                results[idx] = ('skipped', None)
                continue
            workers[conn][1:] = [idx, time.time() + limit]
            conn.send(items[idx])
            return
        workers[conn][1:] = [None, None]

    for _ in range(nproc):
        assign(spawn())
    while any(w[1] is not None for w in workers.values()):
        ready = mpc.wait([c for c, w in workers.items() if w[1] is not None], timeout=0.2)
        for conn in ready:
            proc, idx, _ = workers[conn]
            try:
                results[idx] = conn.recv()
                assign(conn)
            except (EOFError, OSError):
                proc.join(1)
                results[idx] = ('died', proc.exitcode)
                del workers[conn]
                assign(spawn())
        now = time.time()
        for conn, (proc, idx, end) in list(workers.items()):
            if idx is not None and now > end:
                proc.kill()
                proc.join()
                results[idx] = ('hang', None)
                del workers[conn]
                assign(spawn())
    for conn, (proc, _, _) in workers.items():
        try:
            conn.send(None)
        except OSError:
            pass
        proc.join(2)
        if proc.is_alive():
            proc.kill()
    return results


# ---------------------------------------------------------------------------
# TLC
# ---------------------------------------------------------------------------
class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        mats = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
        self.generated, self.distinct = (
            tuple(int(x.replace(',', '')) for x in mats[-1]) if mats else (0, 0)
        )
        self.bad = []
        self.info = []
        for line in out.splitlines():
            line = line.strip().strip('"')
            if line.startswith('BAD|'):
                self.bad.append(line.split('|')[1:])
            elif line.startswith('INFO|'):
                self.info.append(line.split('|')[1:])

    @property
    def ok(self):
        return self.rc == 0 and 'No error has been found' in self.out


def run_tlc(module, cfg, scratch, *, env=None, workers=None, timeout=600, args=(), mem='4g', coverage=False):
    """Run TLC on spec/<module>.tla with the configuration file (path or text)."""
    work = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
    for name in os.listdir(SPEC):
        if name.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, name), work)
    if '\n' in cfg:
        cfg_path = os.path.join(work, 'run.cfg')
        with open(cfg_path, 'w') as fobj:
            fobj.write(cfg)
    else:
        cfg_path = os.path.join(SPEC, cfg)
    cmd = [
        'java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xss64m', '-Xmx' + mem, '-cp', TLA_JARS,
        'tlc2.TLC', '-workers', str(workers or NCPU), '-metadir',
        os.path.join(work, 'states'), '-noGenerateSpecTE', '-config', cfg_path, *args, module
    ]
    start = time.time()
    full_env = dict(os.environ)
    full_env.update(env or {})
    try:
        proc = subprocess.run(
            cmd, cwd=work, env=full_env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, timeout=timeout
        )
        out, rc = proc.stdout.decode('utf-8', 'replace'), proc.returncode
    except subprocess.TimeoutExpired as exc:
        out, rc = (exc.stdout or b'').decode('utf-8', 'replace'), -1
    res = TlcResult(out, rc, time.time() - start)
    shutil.rmtree(work, ignore_errors=True)
    return res


# ---------------------------------------------------------------------------
# check context
# ---------------------------------------------------------------------------
class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.thorough = tier == 'thorough'
        self.rng = random.Random('{}-{}'.format(prop, seed))
        self.start = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.violations = {}
        self.mc_runs = []
        # check finishes generating work after this many seconds
        self.budget = float(os.environ.get('NFV_BUDGET', 2400 if self.thorough else 100))

    @property
    def deadline(self):
        return self.start + self.budget

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def count(self, key, num=1):
        self.extra[key] = self.extra.get(key, 0) + num

    # -- model checking of the design ------------------------------------
    def model_check(self, module, cfg, *, min_states=1, timeout=None, expect_ok=True, **kwargs):
        res = run_tlc(module, cfg, self.scratch, timeout=timeout or self.pick(300, 3000), **kwargs)
        if expect_ok and (not res.ok or res.distinct < min_states):
            raise MachineryError(
                'model checking {} failed (rc {}, {} states)\n{}'.format(module, res.rc, res.distinct, res.out[-6000:])
            )
        self.states += res.distinct
        self.transitions += res.generated
        self.mc_runs.append(dict(
            module=module, distinct=res.distinct, generated=res.generated, wall_s=round(res.wall, 1)
        ))
        return res

    # -- conformance ------------------------------------------------------
    def judge(self, module, records, *, cfg=None, timeout=None, mem='8g', env=None, only=True, traces=None):
        """
        Let TLC evaluate the monitor ``module`` on the records (written as
        ndjson), and return the list of verdicts (record index, clause, rest).
        """
        if not records:
            return []
        path = os.path.join(self.scratch, 'trace_{}_{}.ndjson'.format(module, len(self.mc_runs)))
        with open(path, 'w') as fobj:
            for rec in records:
                fobj.write(json.dumps(rec) + '\n')
        full = {'TRACE': path}
        full.update(env or {})
        res = run_tlc(
            module, cfg or module + '.cfg', self.scratch, env=full, mem=mem,
            timeout=timeout or self.pick(600, 3000)
        )
        if not res.ok and ('Evaluating invariant' in res.out or 'Overflow' in res.out):
            # values which the specification does not even consider
            if len(records) > 1:
                half = len(records) // 2
                return self.judge(
                    module, records[:half], cfg=cfg, timeout=timeout, mem=mem, env=env, only=only
                ) + self.judge(module, records[half:], cfg=cfg, timeout=timeout, mem=mem, env=env, only=only)
            if time.time() > self.start + 700:
                raise MachineryError('monitor {}: too many records which can not be judged'.format(module))
            self.violation('unexpected_values', records[0], res.out[-1500:])
            return []
        if not res.ok:
            raise MachineryError('monitor {} failed (rc {})\n{}'.format(module, res.rc, res.out[-6000:]))
        self.states += res.distinct
        self.transitions += res.generated
        self.traces += len(records) if traces is None else traces
        self.mc_runs.append(dict(
            module=module, records=len(records), distinct=res.distinct,
            generated=res.generated, wall_s=round(res.wall, 1)
        ))
        for item in res.info:
            self.count('info_' + item[0], int(item[1]) if len(item) > 1 else 1)
        done = []
        for item in res.bad:
            # BAD|<props, comma separated>|<clause>|<record index>|<rest>
            props, clause, idx = item[0].split(','), item[1], int(item[2])
            rest = '|'.join(item[3:])
            done.append((idx, clause, rest, props))
            if only and self.prop not in props:
                self.count('verdicts_for_other_properties')
                continue
            self.violation(clause, records[idx - 1], rest)
        os.remove(path)
        return done

    def collect(self, results, items=None):
        """
        Results of pmap: exceptions raised by the code under test and hangs are
        violations, failures of the harness are machinery errors.
        """
        res = []
        for num, (kind, val) in enumerate(results):
            item = items[num] if items is not None else num
            if kind == 'ok':
                res.append(val)
            elif kind == 'skipped':
                self.count('skipped_for_time')
            elif kind == 'hang':
                self.violation('hang', item, 'no result within the time limit')
            elif kind == 'error' and os.path.join(REPO, 'nodefinder') in val:
                self.violation('exception', item, val.strip().splitlines()[-1] + '\n' + val)
            else:
                raise MachineryError('worker {}: {}\nitem {}'.format(kind, val, str(item)[:500]))
        return res

    def violation(self, clause, data, detail=''):
        self.violations.setdefault(clause, []).append((detail, data))

    # -- end ----------------------------------------------------------------
    def finish(self, level='model_checking'):
        known = load_known(self.prop)
        rep_dir = os.path.join(ROOT, 'replay')
        fresh = 0
        for clause, items in sorted(self.violations.items()):
            if clause in known:
                print('KNOWN-FINDING: property={} {}'.format(self.prop, known[clause]))
                continue
            os.makedirs(rep_dir, exist_ok=True)
            path = os.path.join(rep_dir, '{}-{}.json'.format(self.prop, re.sub(r'\W+', '_', clause)[:60]))
            with open(path, 'w') as fobj:
                json.dump(dict(
                    property=self.prop, clause=clause, seed=self.seed, tier=self.tier, count=len(items),
                    cases=[dict(detail=d, data=x) for d, x in items[:5]]
                ), fobj, default=str)
            print('{}: {} case(s), e.g. {}'.format(clause, len(items), str(items[0][0])[:300]))
            print('VIOLATION property={} replay={}'.format(self.prop, path))
            fresh += 1
        cov = dict(
            states=self.states, transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            samples=shrink(self.samples) or ['none'], tlc_runs=self.mc_runs[:40], **self.extra
        )
        evidence = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
            assumptions=self.assumptions, wall_s=round(time.time() - self.start, 2), violations=fresh
        )
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as fobj:
            json.dump(evidence, fobj, indent=1, default=str)
        return 1 if fresh else 0


def shrink(samples):
    res = []
    for smp in samples:
        text = json.dumps(smp, default=str)
        res.append(smp if len(text) < 4000 else text[:4000])
    return res


def load_known(prop):
    """known_findings.txt: lines 'finding: property=<id> key=<clause> <what fails>'."""
    res = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            mat = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if mat and mat.group(1) == prop:
                res[mat.group(2)] = mat.group(3)
    return res
