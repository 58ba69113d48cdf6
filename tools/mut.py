#!/opt/venv/bin/python
"""
Mutation bench: mut.py FILE.json [name ...].  The file lists mutants as
[name, path below /repo, old text, new text, [checks]].  Each is applied to a copy of
/repo, and the checks are run against the copy.  Not used by any check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = json.load(open(sys.argv[1]))
names = sys.argv[2:]
for name, path, old, new, checks in muts:
    if names and name not in names:
        continue
    tmp = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        dst = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', dst, ignore=shutil.ignore_patterns('.git', 'examples', 'tests'))
        full = os.path.join(dst, path)
        text = open(full).read()
        if text.count(old) < 1:
            print(name, 'DOES NOT APPLY')
            continue
        open(full, 'w').write(text.replace(old, new, 1))
        for check in checks:
            env = dict(os.environ, NFV_REPO=dst)
            env.pop('NFV_SCRATCH', None)
            start = time.time()
            proc = subprocess.run([os.path.join(ROOT, 'check.py'), check], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = proc.stdout.decode()
            clauses = [l.split(':')[0] for l in out.splitlines() if 'case(s)' in l]
            print('{:28s} {} rc={} {:.0f}s {}'.format(name, check, proc.returncode, time.time() - start, clauses or out[-300:]), flush=True)
    finally:
        shutil.rmtree(tmp)
