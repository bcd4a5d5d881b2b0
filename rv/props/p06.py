"""Inseparable chains: stages in order, by the same team of the same contractor, which is held from first to last."""
from rv import oracle, sched

RULE = ('work graphs with many inseparable chains whose inner stages have their own external predecessors, x every '
        'scheduler; non-trivial: a chain of at least two staffed stages; distinct by schedule content')


def cases(tier, seed):
    k = 3 if tier == 'quick' else 25
    ps = ['chains', 'chains', 'prio', 'edge', 'special', 'specteam', 'spectime', 'specmix', 'big']
    return (sched.mk_cases(seed, 'P06', 700 * k, ps, sched.HEURISTICS, est=('default', 'slow', 'zero', 'stochastic')) +
            sched.mk_cases(seed, 'P06g', 170 * k, ps[:-1], sched.GENETIC))


def run(case, obs):
    pr, est, start, res = sched.run(case, obs)
    for s in res:
        obs.extend(oracle.chains_ok(s, pr.wg))
        obs.extend([v for v in oracle.teams(s, pr.wg, pr.contractors) if v[0] == 'chain-team-differs'])
        # the team stays with the chain: capacity with the chain's whole span counted
        obs.extend([('chain-team-not-held', d) for _, d in oracle.capacity(s, pr.wg, pr.contractors)[0]])
        _, chains = oracle.chain_map(pr.wg)
        long = [c for c in chains.values() if len(c) > 1]
        sw = oracle.sw_map(s)
        gaps = sum(1 for c in long for a, b in zip(c, c[1:])
                   if a in sw and b in sw and oracle.tv(sw[b].start_time) > oracle.tv(sw[a].finish_time))
        obs.event('chains', len(long))
        obs.event('chains-with-gaps', gaps)
        if any(sw[c[0]].workers for c in long if c[0] in sw):
            obs.nontrivial(sched.signature(s))
        obs.sample({'chains': [len(c) for c in long][:8], 'gaps': gaps, 'alg': case['alg']})
