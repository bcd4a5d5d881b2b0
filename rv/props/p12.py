"""The momentum timeline in lock step with a reference model of who is busy when."""
from random import Random

from rv import tline

RULE = ('random sequences of queries and placements of works and chains, with parents and lags, several contractors and '
        'kinds; non-trivial: some work had to wait for workers; distinct by the history of placements')


def cases(tier, seed):
    r = Random(f'P12-{seed}')
    return [dict(seed=r.getrandbits(40)) for _ in range(12000 if tier == 'quick' else 200000)]


def run(case, obs):
    tline.drive(case, obs, momentum=True)
