"""C10: every training run of the real NCP model is a run of the reference model
(mc/ref.py) from the starting point observed in it."""
from mc import traj


def cases(tier):
    return traj.cases('NCP', tier)


def run(case, ctx):
    traj.run('NCP', case, ctx)
