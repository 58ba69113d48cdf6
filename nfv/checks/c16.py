"""C16: the fake potential only affects where minimizations go."""
from ..nmcheck import grid_fake
from ..nmcheck import run as run_nm


def run(ctx):
    run_nm(ctx, 'fake', ctx.pick(2500, 40000), grid=grid_fake, limit=ctx.pick(200, 2000))
