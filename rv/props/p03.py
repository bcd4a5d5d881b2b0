"""Capacity: at every moment the people of one kind in use of a contractor do not exceed what it has."""
from rv import oracle, sched

RULE = ('contention-heavy work graphs x every scheduler; sweep over all start/finish moments of the schedule; '
        'non-trivial: some contractor and kind reaches exactly its full capacity at some moment; distinct by schedule')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 25
    ps = ['tight', 'tight', 'plain', 'dense', 'chains', 'edge', 'special', 'specteam', 'specpart', 'spectime', 'specind',
          'specmix', 'lags']
    return (sched.mk_cases(seed, 'P03', 750 * k, ps + ['big'], sched.HEURISTICS, est=('default', 'default', 'slow', 'zero', 'stochastic')) +
            sched.mk_cases(seed, 'P03g', 170 * k, ps, sched.GENETIC))


def run(case, obs):
    pr, est, start, res = sched.run(case, obs)
    for s in res:
        v, moments, full = oracle.capacity(s, pr.wg, pr.contractors)
        obs.extend(v)
        obs.event('moments', moments)
        obs.event('moments-at-full-capacity', full)
        if full:
            obs.nontrivial(sched.signature(s))
        obs.sample({'moments': moments, 'at_full_capacity': full, 'alg': case['alg']})
