"""C24: the position of a nodal point is the periodic average of its cluster."""
from ..identrun import run_check


def run(ctx):
    ctx.model_check('MCIdentify', ctx.pick('MCIdentify.cfg', 'MCIdentify_deep.cfg'), min_states=10000)
    run_check(ctx, ctx.pick(700, 8000))
