"""Durations: a work lasts as long as the estimator in use says for the team it was given (or as the spec assigns)."""
from rv import oracle, sched

RULE = ('random works x every scheduler x three estimators (default, count-insensitive, zero-time); non-trivial: a staffed '
        'work of positive duration; distinct by schedule content')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 25
    ps = ['plain', 'dense', 'chains', 'edge', 'special', 'specteam', 'specpart', 'spectime', 'specmix', 'lags']
    return (sched.mk_cases(seed, 'P05', 700 * k, ps + ['big'], sched.HEURISTICS, est=('default', 'slow', 'zero')) +
            sched.mk_cases(seed, 'P05g', 180 * k, ps, sched.GENETIC, est=('default', 'slow', 'zero')))


def run(case, obs):
    pr, est, start, res = sched.run(case, obs)
    for s in res:
        obs.extend(oracle.durations(s, pr.wg, est, pr.spec_plan))
        n = sum(1 for w in s.works if w.workers and oracle.tv(w.finish_time) > oracle.tv(w.start_time))
        obs.event('timed-works', n)
        obs.event('works-with-assigned-time', sum('time' in e for e in pr.spec_plan.values()))
        if n:
            obs.nontrivial(sched.signature(s))
        obs.sample({'timed': n, 'est': case['est'], 'alg': case['alg']})
