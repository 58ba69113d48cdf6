#!/opt/venv/bin/python
"""
Entry point of all checks:  check.py <property id> [--tier quick|thorough] [--seed N]
Tier and seed default to VERIF_TIER and VERIF_SEED.
"""
import argparse
import importlib
import os
import shutil
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from nfv import common  # noqa


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    args = parser.parse_args()
    if not os.environ.get('NFV_SCRATCH'):
        # start again in a clean environment, with a scratch directory of our own
        scratch = tempfile.mkdtemp(prefix='nfv_')
        try:
            import subprocess
            proc = subprocess.run(
                [common.PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env=common.child_env(scratch)
            )
            code = proc.returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(code)
    scratch = os.environ['NFV_SCRATCH']
    sys.path.insert(0, common.REPO)
    ctx = common.Ctx(args.prop, args.tier, args.seed, scratch)
    try:
        mod = importlib.import_module('nfv.checks.' + args.prop.lower())
        mod.run(ctx)
        code = ctx.finish()
    except common.MachineryError as exc:
        print('MACHINERY ERROR', exc)
        code = 2
        if ctx.violations:
            code = ctx.finish()
    except BaseException:
        traceback.print_exc()
        code = 2
        if ctx.violations:
            code = ctx.finish()
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
