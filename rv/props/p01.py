"""Completeness: every work exactly once with a finite interval."""
from rv import oracle, sched

RULE = ('random work graphs, contractors and specs from 16 feature profiles x every scheduler, plus generated synthetic '
        'projects; non-trivial: the schedule has at least one real (staffed) work; distinct by schedule content')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 25
    return (sched.mk_cases(seed, 'P01', 700 * k, list(sched.PROFILES), sched.HEURISTICS, est=('default', 'slow', 'zero', 'stochastic')) +
            sched.mk_cases(seed, 'P01g', 160 * k, [p for p in sched.PROFILES if p != 'big'], sched.GENETIC))


def run(case, obs):
    pr, est, start, res = sched.run(case, obs)
    for s in res:
        obs.extend(oracle.completeness(s, pr.wg))
        works = list(s.works)
        last = max((oracle.tv(w.finish_time) for w in works), default=0)
        obs.check(oracle.tv(s.execution_time) == last, 'execution-time-is-not-last-finish',
                  lambda: f'{s.execution_time} != {last}')
        d = s.to_schedule_work_dict
        obs.check(set(d) == {n.id for n in pr.wg.nodes}, 'dict-view-differs-from-works')
        if any(w.workers for w in works):
            obs.nontrivial(sched.signature(s))
        obs.sample({'works': len(works), 'finish': last, 'alg': case['alg']})
