"""C11: every training run of the real NTUCKER model is a run of the reference model
(mc/ref.py) from the starting point observed in it."""
from mc import traj


def cases(tier):
    return traj.cases('NTUCKER', tier)


def run(case, ctx):
    traj.run('NTUCKER', case, ctx)
