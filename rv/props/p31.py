"""Resource metrics and fitness values are the quantities their names say, computed on the schedule itself."""
from random import Random

from rv import gen, oracle, sched
from rv.oracle import tv

from sampo.scheduler.genetic.operators import (DeadlineCostFitness, DeadlineResourcesFitness, SumOfResourcesFitness,
                                               SumOfResourcesPeaksFitness, TimeAndResourcesFitness, TimeFitness,
                                               TimeWithResourcesFitness)
from sampo.schemas.time import Time, TIME_INF
from sampo.utilities.resource_usage import (get_resources_peak_usage, get_total_resources_usage, resources_costs_sum,
                                            resources_peaks_sum, resources_sum)

RULE = ('schedules of randomised schedulers with priced workers; usage at every moment, peaks, totals, costs and all fitness '
        'functions for subsets of kinds against an independent sweep; non-trivial: some works overlap; distinct by schedule')
PROFILES = ['plain', 'dense', 'chains', 'edge', 'special', 'tight', 'lags']
ALGS = ['heft', 'heftb', 'topo', 'lft', 'heft_avg']


def cases(tier, seed):
    return sched.mk_cases(seed, 'P31', 1800 if tier == 'quick' else 25000, PROFILES, ALGS)


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-6 * max(1, abs(float(b)))


def run(case, obs):
    r = Random(case['seed'] ^ 7)
    pr, est, start, _ = sched.build(case)
    price = {}
    for c in pr.contractors:
        for k, w in c.workers.items():
            w.cost_one_unit = r.choice([1.0, 3.5, 20.0, 0.0])
            price[(c.id, k)] = w.cost_one_unit
    sch = sched.make_scheduler(case['alg'], r.randint(0, 10 ** 6), est)
    s = sch.schedule(pr.wg, pr.contractors, pr.spec, start_time=start)[0]
    items = [(x.name, x.contractor_id, int(x.count), tv(w.start_time), tv(w.finish_time)) for w in s.works for x in w.workers]
    kinds = sorted({i[0] for i in items})
    moments = sorted({t for w in s.works for t in (tv(w.start_time), tv(w.finish_time))})
    end = max(moments)
    for names in (None, kinds, r.sample(kinds, r.randint(0, len(kinds))), ['astronaut']):
        own = [i for i in items if names is None or i[0] in names]
        level = {k: [sum(c for n, _, c, a, b in own if n == k and a <= t < b) for t in moments] for k in {i[0] for i in own}}
        obs.event('moments', len(moments) * len(level))
        arg = r.choice([list, tuple, set, iter])(names) if names is not None else None
        use = get_total_resources_usage(s, arg)
        obs.check({k: [int(x) for x in v] for k, v in use.items() if any(v)} == {k: v for k, v in level.items() if any(v)},
                  'usage', lambda: f'{dict(use)} {level}')
        peaks = {k: max(v) for k, v in level.items()}
        got = get_resources_peak_usage(s, names)
        obs.check({k: int(v) for k, v in got.items() if v} == {k: v for k, v in peaks.items() if v}, 'peaks', lambda: f'{got} {peaks}')
        p = sum(peaks.values())
        total = sum(c * (b - a) for _, _, c, a, b in own)
        cost = sum(price[(o, n)] * c * (b - a) for n, o, c, a, b in own)
        obs.check(resources_peaks_sum(s, names) == p, 'peaks-sum')
        obs.check(resources_sum(s, names) == total, 'resources-sum', f'{resources_sum(s, names)} {total}')
        obs.check(close(resources_costs_sum(s, names), cost), 'costs-sum')
        dl = r.choice([1, max(1, end), max(1, end // 2), end * 2 + 1])
        pen = max(1.0, end / dl)
        want = [(TimeFitness(), (end,)), (SumOfResourcesPeaksFitness(names), (p,)), (SumOfResourcesFitness(names), (total,)),
                (TimeWithResourcesFitness(names), (end + p,)), (DeadlineResourcesFitness(Time(dl), names), (p * pen,)),
                (DeadlineCostFitness(Time(dl), names), (cost * pen,)), (TimeAndResourcesFitness(names), (end, p))]
        for f, v in want:
            seen = []
            g = f.evaluate('chromosome', lambda c: seen.append(c) or s)
            obs.check(len(g) == len(v) and all(close(a, b) for a, b in zip(g, v)), f'fitness:{type(f).__name__}', f'{g} {v}')
            obs.check(seen == ['chromosome'], f'evaluations:{type(f).__name__}')
            bad = f.evaluate('chromosome', lambda c: None)
            obs.check(len(bad) == len(v) and all(b == TIME_INF for b in bad), f'fitness-of-invalid:{type(f).__name__}')
        obs.event('fitness-values', len(want))
    obs.state(sched.signature(s))
    if any(a[0] == b[0] and a[3] < b[4] and b[3] < a[4] for i, a in enumerate(items) for b in items[:i]):
        obs.nontrivial(sched.signature(s))
    obs.sample({'finish': end, 'kinds': kinds})
