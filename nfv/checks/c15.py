"""C15: minimization stops and reports its status as specified."""
from ..nmcheck import grid_options, run as run_nm


def run(ctx):
    run_nm(ctx, 'single', ctx.pick(2600, 40000), limits=ctx.pick(120, 2500), grid=grid_options)
