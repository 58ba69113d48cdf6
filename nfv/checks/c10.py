"""C10: a failing save leaves no damage."""
from .. import savecheck


def run(ctx):
    savecheck.run(ctx, 'fail', ctx.pick(120, 2500), ctx.pick(14, 40))
