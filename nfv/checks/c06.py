"""C06: the save file is complete at every crash point."""
from .. import savecheck


def run(ctx):
    savecheck.run(ctx, 'crash', ctx.pick(120, 2500), ctx.pick(24, 60))
