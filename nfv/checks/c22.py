"""C22: the reported dimension is consistent with the geometry."""
from ..identrun import run_check


def run(ctx):
    ctx.model_check('MCIdentify', ctx.pick('MCIdentify_1d.cfg', 'MCIdentify_1d_deep.cfg'), min_states=10000)
    run_check(ctx, ctx.pick(400, 6000))
