"""Teams: the right kinds, in the required bounds, all of one contractor, which is the one named and has the people."""
from rv import oracle, sched

RULE = ('random requirements, bounds and contractors (kinds in any order, missing kinds, exactly enough people) x every '
        'scheduler; non-trivial: a work with at least two kinds is staffed; distinct by schedule content')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 25
    ps = ['plain', 'dense', 'chains', 'edge', 'special', 'special', 'spec', 'specteam', 'specpart', 'tight', 'specmix', 'specfree']
    return (sched.mk_cases(seed, 'P04', 700 * k, ps + ['big'], sched.HEURISTICS, est=('default', 'slow')) +
            sched.mk_cases(seed, 'P04g', 180 * k, ps, sched.GENETIC))


def run(case, obs):
    pr, est, start, res = sched.run(case, obs)
    for s in res:
        obs.extend(oracle.teams(s, pr.wg, pr.contractors))
        teams = [w for w in s.works if len(w.workers) > 1]
        obs.event('teams', sum(1 for w in s.works if w.workers))
        if teams:
            obs.nontrivial(sched.signature(s))
            w = teams[0]
            obs.sample({'work': w.id, 'contractor': w.contractor_id, 'team': {x.name: int(x.count) for x in w.workers}})
