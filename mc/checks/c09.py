"""C09: every training run of the real CP model is a run of the reference model
(mc/ref.py) from the starting point observed in it."""
from mc import traj


def cases(tier):
    return traj.cases('CP', tier)


def run(case, ctx):
    traj.run('CP', case, ctx)
