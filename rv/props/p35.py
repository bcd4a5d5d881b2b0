"""The search of least resources for a deadline: every plan it tries is recorded; its answer is the best of them and obeys everything."""
import copy
from random import Random

from rv import oracle, sched, view
from rv.oracle import tv

from sampo.scheduler.resources_in_time.average_binary_search import AverageBinarySearchResourceOptimizingScheduler
from sampo.schemas.exceptions import NoSufficientContractorError
from sampo.schemas.requirements import WorkerReq
from sampo.schemas.time import Time

RULE = ('searches for deadlines around the shortest and longest plans of random projects, with every tried plan recorded; the answer against '
        'the record, the deadline and the specification; non-trivial: more than one length was tried; distinct by record')
PROFILES = ['plain', 'dense', 'lags', 'chains', 'prio', 'tight', 'special', 'spec', 'specteam', 'specpart', 'spectime', 'specind', 'specmix', 'edge']
BASES = ['heft', 'heftb', 'topo', 'heft_avg', 'lft']


def cases(tier, seed):
    r = Random(f'P35-{seed}')
    n = 420 if tier == 'quick' else 6000
    return [dict(seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)], alg=BASES[(i // 3) % len(BASES)], est=r.choice(['default', 'slow', 'zero']),
                 mode='unable' if i % 21 == 20 else 'search') for i in range(n)]


def spec_plan(spec):
    out = {}
    for wid, w in spec._work2spec.items():
        e = {}
        if w.contractors:
            e['contractors'] = set(w.contractors)
        if w.assigned_workers:
            e['part'] = dict(w.assigned_workers)
        if w.assigned_time is not None:
            e['time'] = tv(w.assigned_time)
        if w.is_independent:
            e['independent'] = True
        if e:
            out[wid] = e
    return out


class Tried:
    """Records what the search asks its scheduler for."""

    def __init__(self, base):
        self.log, self.plain = [], base.schedule_with_cache
        base.schedule_with_cache = self.ask
        self.base = base

    def ask(self, wg, contractors, spec=None, *a, **kw):
        was = copy.deepcopy(spec)
        try:
            res = self.plain(wg, contractors, spec, *a, **kw)
        except NoSufficientContractorError:
            self.log.append((None, was, float('inf'), None))
            raise
        s = res[0][0]
        self.log.append((self.base.resource_optimizer.k, was, length(s), view.schedule(s)))
        return res


def length(s):
    return max(tv(w.finish_time) for w in s.works)


def run(case, obs):
    r0 = Random(case['seed'] + 3)
    pr, est, start, r = sched.build(dict(case, n=r0.choice([1, 2, 3, 5, 8, 12, 20])))
    base = sched.make_scheduler(case['alg'], 1, est)
    if case['mode'] == 'unable':
        return unable(case, obs, pr, base, start)
    search = AverageBinarySearchResourceOptimizingScheduler(base)
    obs.check(base.resource_optimizer is search._resource_optimizer if hasattr(search, '_resource_optimizer') else True, 'optimizer-not-installed')

    def plan(k, spec):
        base.resource_optimizer.k = k
        return base.schedule_with_cache(pr.wg, pr.contractors, spec, False, start)[0][0]

    least, most = length(plan(10000, pr.spec)), length(plan(1, pr.spec))
    lo, hi = min(least, most), max(least, most)
    deadline = r.choice([lo - 1, lo, lo + 1, (lo + hi) // 2, hi - 1, hi, hi + 1, hi + (hi - tv(start)) // 2, hi * 3, r.randint(lo, hi), 10 ** 6])
    given = view.spec(pr.spec)
    t = Tried(base)
    res, spec = search.schedule_with_cache(pr.wg, pr.contractors, Time(deadline), pr.spec, assigned_parent_time=start)
    log, end = t.log, length(res[0])
    obs.event('plans-tried', len(log))
    obs.check(any(view.schedule(res[0]) == p for _, _, _, p in log), 'answer-never-tried')
    # the specification: all that the user gave, and nothing added but independence
    mine, base_plan = spec_plan(spec), spec_plan(pr.spec)
    obs.check(view.spec(pr.spec) == given, 'given-specification-changed')
    strip = lambda p: {k: e for k, e in ((k, {a: b for a, b in e.items() if a != 'independent'}) for k, e in p.items()) if e}  # noqa
    obs.check(strip(mine) == strip(base_plan), 'specification-of-the-answer', lambda: f'{base_plan} -> {mine}')
    was = {k for k, e in base_plan.items() if e.get('independent')}
    now = {k for k, e in mine.items() if e.get('independent')}
    obs.check(was <= now, 'given-independence-lost')
    for f in ('completeness', 'precedence', 'chains_ok', 'teams'):
        obs.extend(getattr(oracle, f)(res[0], pr.wg, *([pr.contractors] if f == 'teams' else [])))
    obs.extend(oracle.capacity(res[0], pr.wg, pr.contractors)[0])
    obs.extend(oracle.spec_obeyed(res[0], pr.wg, mine))
    obs.extend(oracle.shifted(res[0], start))
    # the deadline
    fits = [x for x in log if x[2] <= deadline]
    if fits:
        obs.check(end <= deadline, 'deadline-broken-though-it-can-be-kept', lambda: f'{end} > {deadline}, tried {[x[2] for x in log]}')
        obs.event('deadline-kept')
    else:
        obs.check(end == min(x[2] for x in log), 'not-the-fastest-of-the-late', lambda: f'{end} {[x[2] for x in log]}')
        obs.event('deadline-out-of-reach')
    if least < deadline:
        # with the least resources there is time left: works are made independent one by one while it lasts
        inner, bad = copy.deepcopy(pr.spec), 0
        for n in pr.wg.nodes:
            if inner.get_work_spec(n.id).is_independent:
                continue
            inner.get_work_spec(n.id).is_independent = True
            if length(plan(10000, inner)) > deadline:
                inner.get_work_spec(n.id).is_independent = False
                bad += 1
                if bad == 3:
                    break
            else:
                bad = 0
        want = {k for k, e in spec_plan(inner).items() if e.get('independent')}
        obs.check(now == want, 'other-works-made-independent', lambda: f'{sorted(now ^ want)} of {len(now)}')
        obs.check(view.schedule(plan(10000, spec)) == view.schedule(res[0]), 'answer-is-not-of-its-specification')
        obs.event('time-left')
        obs.event('made-independent', len(now - was))
    else:
        obs.check(now == was, 'made-independent-without-time')
        if fits:
            obs.check(end == max(x[2] for x in fits), 'faster-than-needed', lambda: f'{end} {deadline} {[x[2] for x in log]}')
        # halving finds the deadline unless more workers make it longer
        ks = [1 + i * .05 for i in range(1, 60)] + [5, 7, 10, 20, 50, 100, 1000]
        lens = [length(plan(k, pr.spec)) for k in ks]
        if all(a <= b for a, b in zip(lens, lens[1:])):
            obs.event('more-is-never-slower')
            can = [x for k, x in zip(ks[1:], lens[1:]) if x <= deadline]
            if can:
                obs.check(max(can) <= end <= deadline, 'search-misses', lambda: f'{end} {deadline} {max(can)} {[(x[0], x[2]) for x in log]}')
    if len({x[2] for x in log}) > 1:
        obs.nontrivial(case['alg'], [x[2] for x in log], deadline)


def unable(case, obs, pr, base, start):
    """No contractor can do some work at all."""
    node = next((n for n in pr.wg.nodes if n.work_unit.worker_reqs and not n.is_inseparable_son() and not n.is_inseparable_parent()), None)
    if node is None:
        return
    q = node.work_unit.worker_reqs[0]
    node.work_unit.worker_reqs[0] = WorkerReq(q.kind, q.volume, 10 ** 4, 10 ** 4, q.name)
    for e in pr.spec._work2spec.values():
        e.assigned_workers = {}
    search = AverageBinarySearchResourceOptimizingScheduler(base)
    try:
        res, _ = search.schedule_with_cache(pr.wg, pr.contractors, Time(1000), pr.spec, assigned_parent_time=start)
    except NoSufficientContractorError:
        obs.event('refused')
    else:
        obs.check(res[0] is None and res[1].is_inf(), 'impossible-plan-made')
        obs.event('no-plan')
    obs.nontrivial('unable', case['seed'])
