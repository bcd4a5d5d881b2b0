"""Precedence: no work starts before its predecessors are done, plus the lag; nothing before the project's start."""
from rv import oracle, sched

RULE = ('random work graphs (chains, integer and fractional lags, priorities, all spec kinds) x every scheduler; '
        'non-trivial: at least one edge between staffed works is observed; distinct by schedule content')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 25
    ps = ['dense', 'lags', 'flags', 'chains', 'prio', 'edge', 'special', 'spectime', 'specind', 'specmix', 'specteam']
    return (sched.mk_cases(seed, 'P02', 700 * k, ps + ['big'], sched.HEURISTICS, est=('default', 'default', 'slow', 'zero', 'stochastic')) +
            sched.mk_cases(seed, 'P02g', 170 * k, ps, sched.GENETIC))


def run(case, obs):
    pr, est, start, res = sched.run(case, obs)
    edges = [(e.start.id, n.id, e.lag) for n in pr.wg.nodes for e in n.edges_to]
    for s in res:
        sw = oracle.sw_map(s)
        obs.extend(oracle.precedence(s, pr.wg))
        obs.extend(oracle.shifted(s, start))
        obs.event('edges', len(edges))
        tight = 0
        for a, b, lag in edges:
            if a in sw and b in sw and sw[a].workers and sw[b].workers:
                if oracle.tv(sw[b].start_time) == oracle.tv(sw[a].finish_time) + int(lag):
                    tight += 1
        obs.event('edges-at-their-bound', tight)
        if tight:
            obs.nontrivial(sched.signature(s))
        obs.sample({'edges': len(edges), 'at_bound': tight, 'alg': case['alg']})
