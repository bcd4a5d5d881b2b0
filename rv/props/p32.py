"""Resource optimizers stay within the borders; every work goes to the contractor that finishes it first."""
import copy
from random import Random

import numpy as np

from rv import oracle, sched
from rv.oracle import tv

from sampo.scheduler.heft import HEFTBetweenScheduler, HEFTScheduler
from sampo.scheduler.resource.average_req import AverageReqResourceOptimizer
from sampo.scheduler.resource.coordinate_descent import CoordinateDescentResourceOptimizer
from sampo.scheduler.resource.full_scan import FullScanResourceOptimizer
from sampo.scheduler.resource.identity import IdentityResourceOptimizer
from sampo.scheduler.timeline import JustInTimeTimeline, MomentumTimeline
from sampo.scheduler.topological.base import RandomizedTopologicalScheduler, TopologicalScheduler
from sampo.scheduler.utils import get_worker_contractor_pool
from sampo.scheduler.utils.multi_contractor import get_worker_borders, run_contractor_search
from sampo.scheduler.utils.time_computaion import calculate_working_time_cascade
from sampo.schemas.contractor import Contractor
from sampo.schemas.exceptions import NoSufficientContractorError
from sampo.schemas.requirements import WorkerReq
from sampo.schemas.resources import Worker
from sampo.schemas.schedule_spec import WorkSpec
from sampo.schemas.time import Time
from sampo.utilities.base_opt import coordinate_descent, dichotomy_float, dichotomy_int

RULE = ('optimizers of teams on random borders, masks and time functions with every team they ask about recorded; contractor searches on '
        'random answers; plans replayed decision by decision against every other contractor; non-trivial: a choice was made; distinct by it')
PROFILES = ['plain', 'dense', 'lags', 'chains', 'prio', 'tight', 'special', 'spec', 'specteam', 'specpart', 'specmix', 'edge', 'spectime', 'specind']
ALGS = ['heft', 'heftb', 'heft_avg', 'heftb_avg', 'heft_cd', 'topo', 'rtopo']


def cases(tier, seed):
    r = Random(f'P32-{seed}')
    k = 5 if tier == 'quick' else 50
    out = []
    for kind, n in (('opt', 1600), ('search', 700), ('line', 500), ('borders', 300), ('replay', 700)):
        for i in range(n * k):
            out.append(dict(kind=kind, seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)], alg=ALGS[(i // 3) % len(ALGS)],
                            est=r.choice(['default', 'slow', 'zero'])))
    return out


def run(case, obs):
    globals()[f'run_{case["kind"]}'](Random(case['seed']), case, obs)
    obs.event(f'kind:{case["kind"]}')


def functions(r, n):
    """A named time of a team."""
    w = [r.randint(1, 9) for _ in range(n)]
    c = [r.randint(0, 20) for _ in range(n)]
    seed = r.random()
    return {'falling': lambda t: 10 ** 6 - sum(a * int(x) for a, x in zip(w, t)),
            'rising': lambda t: sum(a * int(x) for a, x in zip(w, t)),
            'slowest': lambda t: max((a * 1000 // max(1, int(x)) for a, x in zip(w, t)), default=0),
            'valley': lambda t: sum(a * (int(x) - m) ** 2 + (1 if x > m else 0) for a, x, m in zip(w, t, c)),
            'flat': lambda t: 7,
            'wild': lambda t: int(Random(f'{seed}{[int(x) for x in t]}').random() * 1000)}


def run_opt(r, case, obs):
    n = r.choice([0, 1, 1, 2, 3, 6])
    down = np.array([r.choice([0, 0, 1, r.randint(0, 30)]) for _ in range(n)], dtype=int)
    up = down + np.array([r.choice([0, 1, 2, 3, r.randint(0, 60)]) for _ in range(n)], dtype=int)
    mask = np.array([r.random() < .6 for _ in range(n)], dtype=bool) if r.random() < .5 else None
    team = [Worker(str(i), f'k{i}', r.randint(int(d), int(u))) for i, (d, u) in enumerate(zip(down, up))]
    given = [w.count for w in team]
    free = [mask is None or bool(mask[i]) for i in range(n)]
    name, f = r.choice(sorted(functions(r, n).items(), key=lambda x: x[0]))
    k = r.choice([1, 1.02, 4 / 3, 2, 3.7, 10000])
    kind, opt = r.choice([('average', AverageReqResourceOptimizer(k)), ('descent', CoordinateDescentResourceOptimizer(dichotomy_int)),
                          ('scan', FullScanResourceOptimizer()), ('identity', IdentityResourceOptimizer())])
    asked = []

    def finish(t):
        c = [w.count for w in t]
        asked.append([int(x) for x in c])
        obs.check(all(x == int(x) for x in c), f'{kind}:part-of-a-worker')
        obs.check(list(map(id, t)) == list(map(id, team)), f'{kind}:asks-about-another-team')
        for i, x in enumerate(c):
            if free[i]:
                obs.check(down[i] <= x <= up[i], f'{kind}:asks-beyond-borders', lambda: f'{name} {down} {up} {c}')
            else:
                obs.check(x == given[i], f'{kind}:asks-with-given-count-changed', lambda: f'{given} {mask} {c}')
        return Time(f(c))

    pics = down.tolist(), up.tolist(), None if mask is None else mask.tolist()
    opt.optimize_resources({}, team, mask, down, up, finish)
    obs.check((down.tolist(), up.tolist(), None if mask is None else mask.tolist()) == pics, f'{kind}:borders-changed')
    got = [int(w.count) for w in team]
    for i, x in enumerate(got):
        if free[i]:
            obs.check(down[i] <= x <= up[i], f'{kind}:beyond-borders', lambda: f'{name} {down} {up} {got}')
        else:
            obs.check(x == given[i], f'{kind}:given-count-changed', lambda: f'{given} {mask} {got}')
    if kind == 'average':
        want = [int(d) + int((int(u) - int(d)) / k) if fr else g for d, u, fr, g in zip(down, up, free, given)]
        obs.check(got == want, 'average:another-part-of-the-range', lambda: f'{k} {down} {up} {got} {want}')
    elif kind == 'identity':
        obs.check(got == given, 'identity:changes')
    elif name == 'falling':
        obs.check(all(x >= u - 1 for x, u, fr in zip(got, up, free) if fr), f'{kind}:misses-that-more-is-faster', lambda: f'{down} {up} {got}')
    elif kind == 'descent' and name == 'valley':
        best = [min(range(int(d), int(u) + 1), key=lambda x: functions_valley(f, i, x, n)) for i, (d, u) in enumerate(zip(down, up))]
        obs.check(all(abs(x - b) <= 1 for x, b, fr in zip(got, best, free) if fr), 'descent:far-from-the-best',
                  lambda: f'{down} {up} {got} {best}')
    elif kind == 'descent' and name == 'rising':
        obs.check(all(x <= d + 1 for x, d, fr in zip(got, down, free) if fr), 'descent:misses-that-less-is-faster', lambda: f'{down} {up} {got}')
    obs.event(f'opt:{kind}:{name}')
    obs.event('teams-asked', len(asked))
    obs.nontrivial(kind, name, pics, got)


def functions_valley(f, i, x, n):
    t = [0] * n
    t[i] = x
    return f(t)


def run_line(r, case, obs):
    """Searches along a line."""
    d = r.randint(0, 50)
    u = d + r.choice([0, 1, 2, 3, r.randint(0, 200)])
    m = r.randint(d - 5, u + 5)
    a, b = r.randint(1, 5), r.randint(1, 5)
    seen = []

    def f(x):
        seen.append(x)
        return (m - x) * a if x < m else (x - m) * b

    got = dichotomy_int(d, u, f)
    best = min(max(m, d), u)
    obs.check(got == int(got) and d <= got <= u and all(d <= x <= u for x in seen), 'line:beyond-borders', lambda: f'{d} {u} {got} {seen}')
    obs.check(abs(got - best) <= 1, 'line:far-from-the-best', lambda: f'{d} {u} {m} {got}')
    obs.check(len(seen) <= 4 * max(1, (u - d + 1).bit_length()), 'line:asks-too-much', lambda: f'{d} {u}: {len(seen)}')
    x0, x1 = float(d), float(u)
    m = r.uniform(d - 1, u + 1)
    eps = r.choice([1e-6, 1e-3, .1])
    got = dichotomy_float(x0, x1, lambda x: abs(x - m), eps)
    obs.check(x0 <= got <= x1 and abs(got - min(max(m, x0), x1)) <= 2 * eps, 'line:real-far-from-the-best', lambda: f'{d} {u} {m} {eps} {got}')
    n = r.randint(1, 4)
    down = np.array([r.randint(0, 9) for _ in range(n)])
    up = down + np.array([r.randint(0, 9) for _ in range(n)])
    mask = np.array([r.random() < .5 for _ in range(n)]) if r.random() < .5 else None
    asked = []
    full = lambda lo, hi, g: min(range(lo, hi + 1), key=lambda x: (g(x), x))  # noqa: an exact search along each axis
    w = [r.randint(0, 9) for _ in range(n)]

    def fit(v):
        asked.append(v.tolist())
        return sum((int(x) - c) ** 2 for x, c in zip(v, w))

    got = coordinate_descent(down, up, full, fit, mask)
    want = [min(max(c, int(lo)), int(hi)) if mask is None or mask[i] else int(lo) for i, (c, lo, hi) in enumerate(zip(w, down, up))]
    obs.check(got.tolist() == want, 'line:descent-misses-the-best', lambda: f'{down} {up} {mask} {w}: {got}')
    obs.nontrivial('line', d, u, m, want)


def run_search(r, case, obs):
    n = r.randint(1, 6)
    cs = [Contractor(id=f'c{i}', name='', workers={f'k{j}': Worker(f'{i}-{j}', f'k{j}', r.randint(0, 4), contractor_id=f'c{i}')
                                                    for j in range(r.randint(1, 2))}, equipments={}) for i in range(n)]
    allowed = set(r.sample([c.id for c in cs], r.randint(1, n))) if r.random() < .5 else set()
    spec = WorkSpec(contractors=set(allowed))
    ans = {c.id: (Time(r.randint(0, 5)), Time.inf() if r.random() < .3 else Time(r.randint(6, 9)), [Worker(c.id, 'k0', 1)]) for c in cs}
    calls = []

    def runner(c):
        calls.append(c.id)
        return ans[c.id]

    able = [c for c in cs if (not allowed or c.id in allowed) and not ans[c.id][1].is_inf()]
    try:
        st, ft, c, team = run_contractor_search(cs, spec, runner)
    except NoSufficientContractorError:
        obs.check(not able, 'search:refused-though-able')
        obs.event('search:refused')
        return
    obs.check(all(not allowed or x in allowed for x in calls), 'search:asks-a-forbidden-contractor')
    if not able:
        return obs.violate('search:chosen-though-unable', c.id)
    size = lambda x: sum(w.count for w in x.workers.values())  # noqa
    best = min((tv(ans[x.id][1]), size(x)) for x in able)
    obs.check(c in able, 'search:unable-or-forbidden')
    obs.check((tv(ft), size(c)) == best, 'search:not-the-best', lambda: f'{c.id} {ans}')
    obs.check((st, ft, team) == ans[c.id], 'search:answer-of-another')
    obs.nontrivial('search', sorted((k, tv(v[1])) for k, v in ans.items()), sorted(allowed), c.id)


def run_borders(r, case, obs):
    kinds = [f'k{i}' for i in range(4)]
    cs = [Contractor(id=f'c{i}', name='', workers={k: Worker(f'{i}-{k}', k, r.randint(0, 6), contractor_id=f'c{i}') for k in kinds
                                                    if i == 0 or r.random() < .7}, equipments={}) for i in range(r.randint(1, 4))]
    pool = get_worker_contractor_pool(cs)
    reqs = []
    for k in r.sample(kinds, r.randint(0, 4)):
        lo = r.randint(0, 5)
        reqs.append(WorkerReq(k, Time(10), lo, lo + r.randint(0, 4)))
    for c in cs:
        lo, hi, ws = get_worker_borders(pool, c, reqs)
        able = all(q.kind in c.workers and c.workers[q.kind].count >= q.min_count for q in reqs)
        if not able:
            obs.check(len(ws) == 0 and len(lo) == 0 and len(hi) == 0, 'borders:of-the-unable')
            continue
        obs.check(list(map(int, lo)) == [q.min_count for q in reqs], 'borders:least')
        obs.check(list(map(int, hi)) == [min(q.max_count, c.workers[q.kind].count) for q in reqs], 'borders:most')
        obs.check([(w.name, w.contractor_id, w.count) for w in ws] == [(q.kind, c.id, c.workers[q.kind].count) for q in reqs], 'borders:workers')
        obs.nontrivial('borders', [(q.kind, q.min_count, q.max_count) for q in reqs], c.id, list(map(int, hi)))


def teams_of(opt, node, spec, c, pool, ft):
    """The team the optimizer gives this contractor, by the documented rules."""
    reqs = node.work_unit.worker_reqs
    lo, hi, ws = get_worker_borders(pool, c, reqs)
    if len(ws) != len(reqs):
        return None
    ws = [w.copy() for w in ws]
    given = spec.assigned_workers
    if any(given.get(w.name, 0) > w.count for w in ws):
        return None
    if len(given) == len(reqs):
        for w in ws:
            w.count = given[w.name]
        return ws
    mask = None
    if given:
        for w in ws:
            w.count = given.get(w.name, 0) or w.count
        mask = np.array([given.get(w.name, 0) == 0 for w in ws])
    opt.optimize_resources(pool, ws, mask, lo, hi, ft)
    return ws


def run_replay(r, case, obs):
    """A plan decision by decision."""
    pr, est, start, r = sched.build(case)
    alg = case['alg']
    k = r.choice([1, 4 / 3, 2, 8, 100])
    opt = {'heft': FullScanResourceOptimizer, 'heftb': FullScanResourceOptimizer, 'topo': AverageReqResourceOptimizer, 'rtopo': AverageReqResourceOptimizer,
           'heft_cd': lambda: CoordinateDescentResourceOptimizer(dichotomy_int)}.get(alg, lambda: AverageReqResourceOptimizer(k))
    if alg == 'topo':
        s = TopologicalScheduler(work_estimator=est)
    elif alg == 'rtopo':
        s = RandomizedTopologicalScheduler(est, r.randint(0, 999))
    else:
        s = (HEFTBetweenScheduler if alg.startswith('heftb') else HEFTScheduler)(resource_optimizer=opt(), work_estimator=est)
    schedule, _, _, order = s.schedule_with_cache(pr.wg, pr.contractors, pr.spec, assigned_parent_time=start)[0]
    pool = get_worker_contractor_pool(pr.contractors)
    jit = alg.startswith('heft') and not alg.startswith('heftb')
    line = (JustInTimeTimeline if jit else MomentumTimeline)(pool, land())
    sw = oracle.sw_map(schedule)
    done = {}
    by_id = {c.id: c for c in pr.contractors}
    size = lambda c: sum(w.count for w in c.workers.values())  # noqa
    choices = 0
    for i, node in enumerate(order):
        spec = pr.spec.get_work_spec(node.id)
        got = sw[node.id]
        if i in (0, len(order) - 1):
            # the start and the end of the project belong to nobody in particular
            w = [x.copy() for x in got.workers]
            st = start if i == 0 else max(tv(x.finish_time) for x in done.values())
            line.schedule(node, done, w, by_id.get(got.contractor_id, pr.contractors[0]), spec, Time(tv(st)), spec.assigned_time, start, est)
            continue

        def ask(team):
            return line.find_min_start_time_with_additional(node, team, done, spec, None, start, est)

        def ft(team):
            if jit:
                return line.find_min_start_time(node, team, done, spec, start, est) + calculate_working_time_cascade(node, team, est)
            if alg.startswith('heftb'):
                return ask(team)[1]
            return Time(0)

        offers = {}
        for c in pr.contractors:
            if spec.contractors and c.id not in spec.contractors:
                continue
            team = teams_of(opt(), node, spec, c, pool, ft)
            if team is not None and all(0 <= int(w.count) <= c.workers[w.name].count for w in team):
                st, end, _ = ask(team)
                if not end.is_inf():
                    offers[c.id] = (tv(end), size(c), tv(st), sorted((w.name, int(w.count)) for w in team), team)
        cid = got.contractor_id if node.work_unit.worker_reqs else None
        if cid is None:
            # nobody works: only the time is decided
            best = min(offers.values(), key=lambda x: x[:2])
            cid = next(c for c, v in offers.items() if v is best)
            obs.event('nobody-works')
        elif cid not in offers:
            return obs.violate('replay:contractor-that-can-not', f'{alg} {node.id}: {cid} not in {sorted(offers)}')
        else:
            best = min(v[:2] for v in offers.values())
            mine = offers[cid]
            obs.check(mine[0] == best[0], 'replay:another-contractor-finishes-earlier', lambda: f'{alg} {node.id}: {cid} of {offers}')
            obs.check(mine[0] != best[0] or mine[1] == best[1], 'replay:equally-early-smaller-contractor-left', lambda: f'{alg} {node.id}: {cid} of {offers}')
            obs.check(sorted((w.name, int(w.count)) for w in got.workers) == mine[3], 'replay:another-team', lambda: f'{alg} {node.id}: {got.workers} {mine}')
            choices += len(offers) > 1
            obs.event('decisions')
        st, _, ex = ask(offers[cid][4])
        line.schedule(node, done, [w.copy() for w in offers[cid][4]], by_id[cid], spec, st, spec.assigned_time, start, est)
        if tv(done[node].start_time) != tv(got.start_time) or tv(done[node].finish_time) != tv(got.finish_time):
            return obs.violate('replay:another-time', f'{alg} {node.id}: {got.start_time} {got.finish_time}, by hand {done[node].start_time} {done[node].finish_time}')
    obs.event(f'replay:{alg}')
    if choices:
        obs.nontrivial(alg, sched.signature(schedule))


def land():
    from sampo.schemas.landscape import LandscapeConfiguration
    return LandscapeConfiguration()
