"""Shared parts of C06 and C10: file operations at which the process dies, or which fail."""
import json
import os
import subprocess
import time

from .common import PYTHON, ROOT, MachineryError


def run(ctx, kind, num, points):
    ctx.model_check('SaveProtocol', 'SaveProtocol.cfg', min_states=200)
    text = open(os.path.join(ROOT, 'spec', 'SaveProtocol.cfg')).read()
    for broken in ('inplace', 'remove', 'early'):
        res = ctx.model_check('SaveProtocol', text.replace('"replace"', '"{}"'.format(broken)), expect_ok=False)
        if 'is violated' not in res.out:
            raise MachineryError('the specification accepts the broken protocol ' + broken)
    shim = os.path.join(ctx.scratch, 'shim.so')
    proc = subprocess.run(
        ['gcc', '-shared', '-fPIC', '-O1', '-o', shim, os.path.join(ROOT, 'nfv', 'native', 'shim.c'), '-ldl'], stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT
    )
    if proc.returncode:
        raise MachineryError('shim: ' + proc.stdout.decode())
    items = [(kind, '{}-{}-{}'.format(ctx.prop, ctx.seed, i), points) for i in range(num)]
    inp, out = os.path.join(ctx.scratch, 'items.json'), os.path.join(ctx.scratch, 'out.json')
    with open(inp, 'w') as fobj:
        json.dump(items, fobj)
    left = ctx.deadline - time.time()
    proc = subprocess.run(
        [PYTHON, os.path.join(ROOT, 'nfv', 'crashserver.py'), shim, inp, out, str(left)],
        env=dict(os.environ, LD_PRELOAD=shim), stdout=subprocess.PIPE, stderr=subprocess.STDOUT
    )
    if proc.returncode:
        raise MachineryError('crash server: ' + proc.stdout.decode()[-2000:])
    with open(out) as fobj:
        recs = ctx.collect([tuple(x) for x in json.load(fobj)], items)
    for rec in recs:
        ctx.count('searches')
        ctx.count('file_operations', len(rec['names']))
        ctx.count('start_' + rec['how'])
        for evt in rec['ev'][1:]:
            ctx.count('events_{}_{}'.format(evt['e'], evt.get('op', '')))
    for rec in recs[:2]:
        ctx.sample(rec)
    for start in range(0, len(recs), 2000):
        ctx.judge('SearchTrace', recs[start:start + 2000])
    ctx.assumptions += [
        'the process dies or fails at the file operations (open for writing, write, truncate, sync, close, link, rename, unlink) it issues through libc',
        'what was written before the process died is on the disk (no power failure)',
    ]
