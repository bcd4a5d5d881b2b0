"""Work time estimates follow the team, its productivity and the requirements."""
import math
from fractions import Fraction
from random import Random

from rv import gen
from rv.oracle import tv

from sampo.schemas.interval import IntervalGaussian, IntervalUniform
from sampo.schemas.requirements import WorkerReq
from sampo.schemas.resources import Worker, WorkerProductivityMode
from sampo.schemas.time import Time, TIME_INF
from sampo.schemas.time_estimator import DefaultWorkEstimator
from sampo.schemas.works import WorkUnit

RULE = ('random works, teams, productivities (by kind, by contractor) and modes: estimates against exact rational arithmetic, '
        'growth with volume and shrinkage with the team, reproducibility of random productivities; non-trivial: a finite '
        'non-zero estimate; distinct by work and team')


def cases(tier, seed):
    r = Random(f'P36-{seed}')
    return [dict(seed=r.getrandbits(40)) for _ in range(40000 if tier == 'quick' else 600000)]


def speed(n, m):
    n, m = Fraction(n), Fraction(m)
    return (-2 * n ** 3 + 3 * n ** 2 + (6 * m ** 2 - 1) * n) / (6 * m ** 2) * n


def run(case, obs):
    r = Random(case['seed'])
    kinds = r.sample(gen.KINDS, r.randint(1, 5))
    reqs = []
    for k in kinds:
        lo = r.choice([0, 1, 1, r.randint(1, 30)])
        reqs.append(WorkerReq(k, Time(r.choice([0, r.randint(1, 200), r.randint(1, 20000)])), lo, max(1, lo + r.randint(0, 30))))
    wu = WorkUnit('w', 'w', reqs)
    est = DefaultWorkEstimator(Random(case['seed'] & 0xffff))
    prod = {k: Fraction(1) for k in kinds}
    owner = r.choice(['c1', 'c2'])
    for k in kinds:
        if r.random() < .3:
            v = r.choice([.5, 2, 1.25, 4])
            est.set_worker_productivity(r.choice([IntervalGaussian(v, .1, v / 2, v * 2)]), k)
            prod[k] = Fraction(v)
        if r.random() < .3:
            v = r.choice([.5, 2, 1.25, 4])
            who = r.choice(['c1', 'c2'])
            est.set_worker_productivity(IntervalGaussian(v, .1, v / 2, v * 2), k, who)
            if who == owner:
                prod[k] = Fraction(v)
    team = {q.kind: r.randint(q.min_count, q.max_count) for q in reqs}
    if r.random() < .25:
        k = r.choice(kinds)
        q = next(q for q in reqs if q.kind == k)
        if r.random() < .5:
            team[k] = max(0, q.min_count - 1)
        else:
            team.pop(k)

    def crew(t):
        ws = [Worker(k, k, c, contractor_id=owner) for k, c in t.items()]
        r.shuffle(ws)
        return ws

    def want(t, q):
        return math.ceil(Fraction(tv(q.volume)) / (prod[q.kind] * speed(t[q.kind], q.max_count)))

    def expected(t):
        if not t:
            return 0, True
        res, exact = 0, True
        for q in reqs:
            if q.min_count == 0:
                continue
            if t.get(q.kind, 0) < q.min_count:
                return TIME_INF, True
            x = Fraction(tv(q.volume)) / (prod[q.kind] * speed(t[q.kind], q.max_count))
            if 0 < abs(x - round(x)) < Fraction(1, 10 ** 9) or (x == int(x) and x):
                exact = False   # on the edge of rounding: one unit of freedom
            res = max(res, math.ceil(x))
        return res, exact

    v, exact = expected(team)
    got = tv(est.estimate_time(wu, crew(team)))
    obs.check(got == v or (not exact and abs(got - v) <= 1), 'estimate', f'{got} {v} {reqs} {team}')
    obs.check(tv(est.estimate_time(wu, crew(team))) == got, 'estimate-depends-on-the-call')
    obs.check(tv(est.estimate_time(wu, [])) == 0, 'estimate-without-team')
    obs.check(tv(est.estimate_time(WorkUnit('e', 'e'), crew(team))) == 0, 'estimate-without-requirements')
    if 0 < v < TIME_INF:
        obs.nontrivial(reqs, team)
        more = dict(team)
        k = r.choice(list(team))
        q = next(q for q in reqs if q.kind == k)
        more[k] = r.randint(team[k], max(team[k], q.max_count))
        obs.check(tv(est.estimate_time(wu, crew(more))) <= got, 'slower-with-more-people', f'{team} {more}')
        i = r.randrange(len(reqs))
        big = [WorkerReq(q.kind, q.volume * 2 if j == i else q.volume, q.min_count, q.max_count) for j, q in enumerate(reqs)]
        obs.check(tv(est.estimate_time(WorkUnit('w', 'w', big), crew(team))) >= got, 'faster-with-more-work')
        extra = crew(team) + [Worker('x', 'astronaut', 5, contractor_id=owner)]
        obs.check(tv(est.estimate_time(wu, extra)) == got, 'people-not-needed-change-the-estimate')
        # random productivity: within the borders of the interval, and the same for the same generator
        a, b = sorted(r.choice([(.5, 1.), (1., 3.), (.25, .25), (2., 8.)]))
        shape = r.choice([lambda: IntervalUniform(a, b), lambda: IntervalGaussian((a + b) / 2, (b - a), a, b)])
        runs = []
        for _ in range(2):
            e = DefaultWorkEstimator(Random(case['seed']))
            for k in kinds:
                e.set_worker_productivity(shape(), k)
            e.set_productivity_mode(WorkerProductivityMode.Stochastic)
            ws = [Worker(k, k, c, contractor_id=owner) for k, c in sorted(team.items())]
            runs.append([tv(e.estimate_time(wu, ws)) for _ in range(4)])
        obs.check(runs[0] == runs[1], 'random-estimates-not-reproducible', f'{runs}')
        lim = {}
        for p in (a, b):
            prod.update({k: Fraction(p) for k in kinds})
            lim[p] = expected(team)[0]
        obs.check(all(lim[b] - 1 <= t <= lim[a] + 1 for t in runs[0]), 'random-estimate-out-of-borders', f'{runs} {lim}')
        e = DefaultWorkEstimator(Random(case['seed']))
        e.set_productivity_mode(WorkerProductivityMode.Stochastic)
        t = tv(e.estimate_time(wu, crew(team)))
        obs.check(t < TIME_INF, 'default-random-productivity-never-finishes')
        e.set_productivity_mode(WorkerProductivityMode.Static)
        prod.update({k: Fraction(1) for k in kinds})
        obs.check(abs(tv(e.estimate_time(wu, crew(team))) - expected(team)[0]) <= 1, 'static-after-random')
        obs.event('random-estimates', 9)
    obs.event('estimates')
    obs.state(team, reqs)
    # requirements found for a volume can be met
    vol = r.choice([1, 3.5, 20])
    names = r.choice([None, r.sample(gen.KINDS, 2)])
    found = est.find_work_resources({'granular_name': 'x', 'measurement': 'y'}, vol, names)
    obs.check([q.kind for q in found] == (names or gen.KINDS), 'found-kinds', f'{found}')
    obs.check(all(0 <= q.min_count <= q.max_count and tv(q.volume) >= 0 for q in found), 'found-counts')
