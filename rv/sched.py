"""The scheduling workload shared by the properties of the schedulers: project + scheduler + start, from one seed."""
from __future__ import annotations

import hashlib
from random import Random

from rv import gen, oracle
from rv.runner import Skip

from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
from sampo.scheduler.genetic import GeneticScheduler
from sampo.scheduler.heft import HEFTScheduler, HEFTBetweenScheduler
from sampo.scheduler.lft.base import LFTScheduler, RandomizedLFTScheduler
from sampo.scheduler.resource.average_req import AverageReqResourceOptimizer
from sampo.scheduler.resource.full_scan import FullScanResourceOptimizer
from sampo.scheduler.resources_in_time.average_binary_search import AverageBinarySearchResourceOptimizingScheduler
from sampo.scheduler.topological.base import TopologicalScheduler, RandomizedTopologicalScheduler
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.resources import Worker
from sampo.schemas.schedule_spec import ScheduleSpec
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator, WorkerProductivityMode, WorkTimeEstimator

HEURISTICS = ['heft', 'heftb', 'heft_scan', 'heft_avg', 'heftb_avg', 'topo', 'rtopo', 'lft', 'rlft']
GENETIC = ['gen_par', 'gen_ser', 'gen_par_res', 'gen_ser_res', 'gen_par_multi', 'gen_lft', 'gen_deadline']


class SlowEstimator(DefaultWorkEstimator):
    """A user's own estimator: counts of workers do not help, volume and kind do."""

    def estimate_time(self, work_unit, worker_list):
        if not work_unit.worker_reqs:
            return Time(0)
        base = sum((len(r.kind) * int(r.volume)) % 13 for r in work_unit.worker_reqs)
        team = sum(int(w.count) for w in worker_list)
        return Time(base + 1 + (7 if team % 2 else 0))


class ZeroEstimator(DefaultWorkEstimator):
    """Instantaneous works for even volumes."""

    def estimate_time(self, work_unit, worker_list):
        t = super().estimate_time(work_unit, worker_list)
        if t.is_inf() or any(int(r.volume) % 2 for r in work_unit.worker_reqs):
            return t
        return Time(0)


def stochastic():
    """Estimates the same work anew each time it is asked."""
    e = DefaultWorkEstimator(Random(7))
    e.set_productivity_mode(WorkerProductivityMode.Stochastic)
    return e


ESTIMATORS = {'default': DefaultWorkEstimator, 'slow': SlowEstimator, 'zero': ZeroEstimator, 'stochastic': stochastic}


def make_scheduler(name: str, seed: int, estimator, gens: int = 2, pop: int = 8):
    r = Random(seed)
    kw = dict(work_estimator=estimator)

    def genetic(**k):
        # options are given to the constructor or set afterwards
        later = {}
        if r.random() < .5:
            later = {o: k.pop(o) for o in ('optimize_resources', 'is_multiobjective', 'only_lft_initialization') if o in k}
        weights = r.choice([None, None, [r.randint(1, 5) for _ in range(7)]])
        s = GeneticScheduler(number_of_generation=gens, size_of_population=pop, rand=Random(r.randint(0, 10 ** 6)),
                             mutate_order=r.choice([None, .2, .6]), mutate_resources=r.choice([None, .2, .6]),
                             **k, **kw)
        for o, v in later.items():
            getattr(s, 'set_' + o)(v)
        if weights:
            s.set_weights(weights)
        return s

    if name == 'heft':
        return HEFTScheduler(**kw)
    if name == 'heftb':
        return HEFTBetweenScheduler(**kw)
    if name == 'heft_scan':
        return HEFTScheduler(resource_optimizer=FullScanResourceOptimizer(), **kw)
    if name == 'heft_avg':
        return HEFTScheduler(resource_optimizer=AverageReqResourceOptimizer(r.choice([1, 4 / 3, 2, 8, 100])), **kw)
    if name == 'heftb_avg':
        return HEFTBetweenScheduler(resource_optimizer=AverageReqResourceOptimizer(r.choice([1, 4 / 3, 2, 8, 100])), **kw)
    if name == 'topo':
        return TopologicalScheduler(**kw)
    if name == 'rtopo':
        return RandomizedTopologicalScheduler(estimator, r.randint(0, 10 ** 6))
    if name == 'lft':
        return LFTScheduler(**kw)
    if name == 'rlft':
        return RandomizedLFTScheduler(rand=Random(r.randint(0, 10 ** 6)), **kw)
    if name == 'gen_par':
        return genetic(sgs_type=SGS.Parallel)
    if name == 'gen_ser':
        return genetic(sgs_type=SGS.Serial)
    if name == 'gen_par_res':
        return genetic(sgs_type=SGS.Parallel, optimize_resources=True)
    if name == 'gen_ser_res':
        return genetic(sgs_type=SGS.Serial, optimize_resources=True)
    if name == 'gen_par_multi':
        from sampo.scheduler.genetic.operators import TimeAndResourcesFitness
        return genetic(sgs_type=SGS.Parallel, optimize_resources=True, is_multiobjective=True,
                       fitness_constructor=TimeAndResourcesFitness(), fitness_weights=(-1, -1))
    if name == 'gen_lft':
        return genetic(sgs_type=SGS.Serial, only_lft_initialization=True)
    if name == 'gen_deadline':
        from sampo.scheduler.genetic.operators import SumOfResourcesPeaksFitness
        s = genetic(sgs_type=r.choice([SGS.Parallel, SGS.Serial]), fitness_constructor=SumOfResourcesPeaksFitness())
        s.set_deadline(Time(r.choice([1, 60, 300, 5000])))
        return s
    raise KeyError(name)


PROFILES = {
    'plain': {},
    'dense': dict(works=dict(density=.8, max_count=6), n=(6, 25)),
    'lags': dict(works=dict(lags='int')),
    'flags': dict(works=dict(lags='float')),
    'chains': dict(works=dict(chains=.4, lags='int')),
    'prio': dict(works=dict(priorities=True, chains=.2)),
    'edge': dict(works=dict(min_zero=True, no_req=.15, zero_vol=.2, chains=.2, services=.15)),
    'tight': dict(works=dict(kinds=2, shape='wide', max_count=8), contractors=dict(n=1, tight=1.0), n=(6, 25)),
    'special': dict(works=dict(chains=.2, lags='int'), contractors=dict(specialised=True, n=4)),
    'spec': dict(works=dict(chains=.2), contractors=dict(n=3), spec=dict(contractors=.5)),
    'specteam': dict(works=dict(chains=.2), spec=dict(full_team=.4, free=.3)),
    'specpart': dict(works=dict(chains=.2), spec=dict(part_team=.5, free=.3)),
    'specfree': dict(works=dict(chains=.2), contractors=dict(n=3), spec=dict(full_team=.4, part_team=.3, contractors=.2, free=.8)),
    'spectime': dict(works=dict(chains=.2, lags='int'), spec=dict(time=.4)),
    'specind': dict(works=dict(chains=.2, shape='wide'), spec=dict(independent=.3)),
    'specmix': dict(works=dict(chains=.2, lags='int', priorities=True),
                    spec=dict(contractors=.3, full_team=.2, part_team=.2, time=.2, independent=.15, free=.4)),
    'big': dict(works=dict(chains=.1, lags='int'), n=(40, 90)),
}


def build(case: dict):
    """case: {seed, profile, est?} -> (project, estimator, start, rng)"""
    r = Random(case['seed'])
    prof = PROFILES[case['profile']]
    lo, hi = prof.get('n', (1, 22))
    n = case.get('n') or (r.choice([1, 2, 3]) if lo == 1 and r.random() < .15 else r.randint(max(lo, 2), hi))
    works = gen.rand_works(r, n, **prof.get('works', {}))
    pr = gen.Project(works)
    pr.wg = gen.build_wg(works, r)
    pr.contractors = gen.rand_contractors(r, works, **prof.get('contractors', {}))
    gen.rand_spec(r, pr, **prof.get('spec', {}))
    start = Time(r.choice([0, 0, 0, 7, 100, 5000]))
    pr.start = start
    est = ESTIMATORS[case.get('est', 'default')]()
    return pr, est, start, r


def run(case: dict, obs=None):
    """Runs the scheduler of the case; returns (project, estimator, start, [schedule, ...])."""
    pr, est, start, r = build(case)
    sch = make_scheduler(case['alg'], r.randint(0, 10 ** 9), est, gens=case.get('gens', 2), pop=case.get('pop', 8))
    res = sch.schedule(pr.wg, pr.contractors, pr.spec, start_time=start,
                       validate=case.get('validate', False))
    if obs is not None:
        obs.event('schedules', len(res))
        obs.event(f'alg:{case["alg"]}')
        obs.event(f'profile:{case["profile"]}')
        obs.event('works', sum(1 for s in res for _ in s.works))
        obs.check(len(res) >= 1, 'no-schedule-returned')
        for s in res:
            obs.state(signature(s))
    return pr, est, start, res


def signature(schedule):
    return hashlib.blake2b(repr(sorted(
        (w.id, oracle.tv(w.start_time), oracle.tv(w.finish_time), str(w.contractor_id),
         sorted((x.name, int(x.count), x.contractor_id) for x in w.workers)) for w in schedule.works)).encode(),
        digest_size=8).hexdigest()


def mk_cases(seed: int, tag: str, count: int, profiles: list[str], algs: list[str], est=('default',), **extra):
    """`count` cases cycling through every (profile, algorithm) pair, each with its own seed."""
    r = Random(f'{tag}-{seed}')
    pairs = [(p, a) for p in profiles for a in algs]
    out = []
    while len(out) < count:
        r.shuffle(pairs)
        for p, a in pairs[:count - len(out)]:
            out.append(dict(kind='sched', seed=r.getrandbits(40), profile=p, alg=a, est=r.choice(list(est)), **extra))
    return out
