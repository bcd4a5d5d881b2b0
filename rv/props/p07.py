"""The user's spec is obeyed: allowed contractors, whole and partial teams, assigned time, resource independence."""
from rv import oracle, sched

RULE = ('random specs that some contractor can honour (contractor sets, full and partial teams, assigned times, '
        'independence, mixed) x every scheduler; non-trivial: at least one spec entry; distinct by schedule content')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 25
    ps = ['spec', 'specteam', 'specpart', 'spectime', 'specind', 'specmix']
    return (sched.mk_cases(seed, 'P07', 700 * k, ps, sched.HEURISTICS, est=('default', 'slow', 'stochastic')) +
            sched.mk_cases(seed, 'P07g', 200 * k, ps, sched.GENETIC))


def run(case, obs):
    pr, est, start, res = sched.run(case, obs)
    for s in res:
        obs.extend(oracle.spec_obeyed(s, pr.wg, pr.spec_plan))
        for e in pr.spec_plan.values():
            for key in e:
                obs.event('spec:' + key)
        if pr.spec_plan:
            obs.nontrivial(sched.signature(s))
        obs.sample({'spec': dict(list(pr.spec_plan.items())[:3]), 'alg': case['alg']})
