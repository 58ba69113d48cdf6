"""C14: minimization steps follow the Nelder-Mead rules."""
from ..nmcheck import grid_steps, run as run_nm


def run(ctx):
    run_nm(ctx, 'mixed', ctx.pick(3000, 40000), grid=grid_steps)
