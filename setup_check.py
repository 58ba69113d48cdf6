#!/opt/venv/bin/python
"""Nothing has to be built ahead: checks that the tools and the specifications are usable."""
import os
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nfv import common  # noqa

with tempfile.TemporaryDirectory() as tmp:
    code = 0
    mods = sorted(f for f in os.listdir(common.SPEC) if f.endswith('.tla'))
    for mod in mods:
        proc = subprocess.run(
            ['java', '-cp', common.TLA_JARS, 'tla2sany.SANY', mod], cwd=common.SPEC, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, env=dict(os.environ, TMPDIR=tmp, JAVA_TOOL_OPTIONS='-Djava.io.tmpdir=' + tmp)
        )
        out = proc.stdout.decode()
        if proc.returncode or 'Fatal errors' in out or '*** Errors' in out:
            print(mod, out)
            code = 1
    proc = subprocess.run(
        [common.PYTHON, '-c', 'import sys; sys.path.insert(0, "{}"); import nodefinder'.format(common.REPO)],
        env=common.child_env(tmp)
    )
    code = code or proc.returncode
    print('setup ok' if code == 0 else 'setup failed')
sys.exit(code)
