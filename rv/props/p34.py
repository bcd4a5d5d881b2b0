"""Local optimization: reordering keeps the order of dependencies, rescheduling keeps the plan valid."""
from random import Random

from rv import gen, oracle, sched
from rv.oracle import tv

from sampo.pipeline import SchedulingPipeline
from sampo.pipeline.lag_optimization import LagOptimizationStrategy as Lag
from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
from sampo.scheduler.utils.local_optimization import ParallelizeScheduleLocalOptimizer, SwapOrderLocalOptimizer
from sampo.schemas.time import Time

RULE = ('random orders of random projects and areas of them: swapped orders against the dependencies; pipelines with local '
        'optimization before and after scheduling: all guarantees of a plan; non-trivial: works were swapped or rescheduled '
        'plans; distinct by order or schedule')
ALGS = ['heft', 'heftb', 'topo', 'heft_avg', 'rtopo', 'lft', 'gen_ser', 'gen_par']
PROFILES = ['plain', 'dense', 'lags', 'chains', 'tight', 'prio', 'special', 'spec', 'specteam', 'spectime', 'specind', 'edge']


def cases(tier, seed):
    r = Random(f'P34-{seed}')
    k = 2 if tier == 'quick' else 20
    out = [dict(kind='order', seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)]) for i in range(600 * k)]
    for i in range(360 * k):
        out.append(dict(kind='pipe', seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)],
                        alg=ALGS[(i // len(PROFILES)) % len(ALGS)], where=['before', 'after', 'both'][r.randrange(3)]))
    return out


def area(r, n):
    a = r.randint(0, n)
    b = r.randint(a, n)
    return r.choice([range(0, n), range(0, n // 2), range(a, b), range(n // 3, n)])


def random_order(r, wg):
    left = {n.id: len({p.id for p in n.parents}) for n in wg.nodes}
    ready = [n for n in wg.nodes if not left[n.id]]
    out = []
    while ready:
        n = ready.pop(r.randrange(len(ready)))
        out.append(n)
        for c in {c.id: c for c in n.children}.values():
            left[c.id] -= 1
            if not left[c.id]:
                ready.append(c)
    return out


def run(case, obs):
    pr, est, start, r = sched.build(case)
    if case['kind'] == 'order':
        for order in (random_order(r, pr.wg), [n for n in random_order(r, pr.wg) if not n.is_inseparable_son()]):
            was = [n.id for n in order]
            rng = area(r, len(order))
            res = SwapOrderLocalOptimizer().optimize(list(order), rng)
            now = [n.id for n in res]
            obs.check(sorted(now) == sorted(was), 'order-lost-works')
            obs.check(all(a == b for i, (a, b) in enumerate(zip(was, now)) if i not in rng), 'swapped-out-of-area')
            pos = {i: k for k, i in enumerate(now)}
            ok = all(pos[p.id] < pos[n.id] for n in res for p in n.parents if p.id in pos)
            obs.check(ok, 'order-breaks-dependencies', lambda: f'{was} {now} {rng}')
            obs.event('orders')
            obs.event('swapped', now != was)
            obs.state(now)
            obs.nontrivial(now, str(rng))
        return
    sch = sched.make_scheduler(case['alg'], r.randint(0, 10 ** 6), est, gens=1, pop=5)
    p = SchedulingPipeline.create().wg(pr.wg).contractors(pr.contractors).spec(pr.spec).time_shift(start).work_estimator(est) \
        .lag_optimize(Lag.FALSE)
    n = pr.wg.vertex_count
    if case['where'] != 'after':
        for _ in range(r.randint(1, 2)):
            p = p.optimize_local(SwapOrderLocalOptimizer(), area(r, n))
    q = p.schedule(sch)
    was = [sched.signature(x.raw_schedule) for x in q.finish()]
    if case['where'] != 'before':
        for _ in range(r.choice([1, 1, 2])):
            tl = r.choice([JustInTimeTimeline, MomentumTimeline])
            q = q.optimize_local(ParallelizeScheduleLocalOptimizer(tl), area(r, n // 2))
            obs.event(tl.__name__)
    for old, project in zip(was, q.finish()):
        obs.event('replanned', old != sched.signature(project.raw_schedule))
        s, wg = project.raw_schedule, project.raw_wg
        for name in ('completeness', 'precedence', 'chains_ok'):
            obs.extend(getattr(oracle, name)(s, wg))
        obs.extend(oracle.shifted(s, start))
        obs.extend(oracle.capacity(s, wg, pr.contractors)[0])
        fixed = {k for k, e in pr.spec_plan.items() if 'team' in e or 'part' in e}
        obs.extend([v for v in oracle.teams(s, wg, pr.contractors)
                    if not (v[0] == 'team-count-out-of-bounds' and v[1].split(':')[0] in fixed)])
        obs.extend(oracle.durations(s, wg, est, pr.spec_plan))
        obs.extend(oracle.spec_obeyed(s, wg, pr.spec_plan))
        obs.check(True, '')
        obs.event('plans')
        obs.event(f'where:{case["where"]}')
        obs.state(sched.signature(s))
        obs.nontrivial(sched.signature(s))
        obs.sample({'where': case['where'], 'time': tv(s.execution_time)})
