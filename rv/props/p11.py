"""The same project and seed give the same plans: run after run, in any process, whatever the order sets happen to have there."""
import hashlib
import json
import os
import random
import subprocess
import sys
from random import Random

import numpy as np

from rv import env, gen, land, oracle, sched, view

from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
from sampo.backend.default import DefaultComputationalBackend
from sampo.backend.multiproc import MultiprocessingComputationalBackend
from sampo.base import SAMPO
from sampo.pipeline import SchedulingPipeline
from sampo.pipeline.lag_optimization import LagOptimizationStrategy as Lag
from sampo.scheduler.genetic.base import GeneticScheduler
from sampo.scheduler.genetic.operators import SumOfResourcesFitness, SumOfResourcesPeaksFitness, TimeFitness, TimeWithResourcesFitness
from sampo.scheduler.resources_in_time.average_binary_search import AverageBinarySearchResourceOptimizingScheduler
from sampo.scheduler.timeline import JustInTimeTimeline
from sampo.scheduler.utils.local_optimization import ParallelizeScheduleLocalOptimizer, SwapOrderLocalOptimizer
from sampo.schemas.exceptions import NotEnoughMaterialsInDepots
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.schedule import order_nodes_by_start_time
from sampo.schemas.schedule_spec import ScheduleSpec
from sampo.schemas.time import Time
from sampo.schemas.zones import ZoneConfiguration

RULE = ('plans of random projects by every scheduler, pipeline, optimizer and population under fixed seeds, made twice here and once in '
        'each of two other processes that hash strings differently; non-trivial: a plan was compared across processes; distinct by plan')
PROFILES = ['plain', 'dense', 'lags', 'chains', 'prio', 'edge', 'tight', 'special', 'spec', 'specteam', 'specpart', 'spectime', 'specind', 'specmix']
KINDS = ['sched', 'sched', 'sched', 'genetic', 'genetic', 'supply', 'pipeline', 'deadline', 'population', 'order']
CPU_LIMIT = 300
PROBE = '''
import sys, json
sys.path[:0] = [{verif!r}]
from rv import env
env.setup()
from rv.props import p11
print(json.dumps([p11.probe(i) for i in json.loads(sys.stdin.read())]))
'''


def cases(tier, seed):
    r = Random(f'P11-{seed}')
    n, size = (32, 24) if tier == 'quick' else (160, 60)
    out = []
    for i in range(n):
        items = []
        for j in range(size):
            kind = KINDS[(i + j) % len(KINDS)]
            algs = sched.GENETIC if kind == 'genetic' else sched.HEURISTICS
            items.append(dict(kind=kind, seed=r.getrandbits(40), profile=r.choice(PROFILES), alg=r.choice(algs), est=r.choice(['default', 'slow', 'zero'])))
        out.append(dict(items=items, hashes=[r.randint(1, 10 ** 6) for _ in range(2)], seed=i))
    if tier != 'quick':
        for i in range(6):
            out.append(dict(items=[dict(kind='multi', seed=r.getrandbits(40), profile=r.choice(PROFILES), est='default', alg='gen_par')
                                   for _ in range(2)], hashes=[r.randint(1, 10 ** 6)], seed=i))
    return out


def plan(s):
    return sorted(view.schedule(s))


def probe(item):
    """Everything one call of the API answers, as text that depends on nothing of this process."""
    return json.loads(json.dumps(globals()[f'probe_{item["kind"]}'](item), default=str))


def setup(item, n=None):
    pr, est, start, r = sched.build(dict(item, n=n) if n else item)
    return pr, est, start, r


def probe_sched(item):
    pr, est, start, r = setup(item)
    s = sched.make_scheduler(item['alg'], r.randint(0, 10 ** 9), est)
    # twice with one object: its random generator goes on, in the same way everywhere
    return [plan(x) for _ in range(2) for x in s.schedule(pr.wg, pr.contractors, pr.spec, start_time=start)]


def probe_genetic(item):
    pr, est, start, r = setup(item, n=Random(item['seed']).randint(1, 10))
    s = sched.make_scheduler(item['alg'], r.randint(0, 10 ** 9), est, gens=2, pop=6)
    return [plan(x) for x in s.schedule(pr.wg, pr.contractors, pr.spec, start_time=start)]


def probe_multi(item):
    pr, est, start, r = setup(item, n=6)
    SAMPO.backend = MultiprocessingComputationalBackend(2)
    try:
        SAMPO.backend.set_rand(Random(r.randint(0, 999))) if hasattr(SAMPO.backend, 'set_rand') else None
        s = sched.make_scheduler(item['alg'], r.randint(0, 10 ** 9), est, gens=1, pop=4)
        return [plan(x) for x in s.schedule(pr.wg, pr.contractors, pr.spec, start_time=start)]
    finally:
        SAMPO.backend = DefaultComputationalBackend()


def probe_supply(item):
    r = Random(item['seed'])
    works = gen.rand_works(r, r.randint(2, 9), chains=r.choice([0, .3]), lags=r.choice(['none', 'int']))
    materials = r.random() < .6
    for x in works:
        if not x.service and materials and x.chain_prev is None:
            x.materials = {m: r.randint(1, 40) for m in ('m1', 'm2') if r.random() < .6}
        if not x.service and not materials:
            x.zones = {z: r.randint(1, 2) for z in ('z1', 'z2') if r.random() < .6}
    if not materials:
        for x in works:
            if x.chain_prev is not None:
                x.zones = dict(works[x.chain_prev].zones)
    wg = gen.build_wg(works, r)
    cs = gen.rand_contractors(r, works)
    if materials:
        config = land.material_net(r, works, wg, scarce=r.random() < .3).config
    else:
        c = r.choice([0, 5, 40])
        config = LandscapeConfiguration(zone_config=ZoneConfiguration(start_statuses={'z1': r.randint(0, 2), 'z2': 1},
                                                                      time_costs=np.array([[0, c, c], [0, 0, c], [0, c, 0]])))
    s = sched.make_scheduler(item['alg'], r.randint(0, 10 ** 9), sched.ESTIMATORS['default']())
    try:
        return [plan(x) for x in s.schedule(wg, cs, landscape=config)]
    except NotEnoughMaterialsInDepots:
        return 'refused'


def probe_pipeline(item):
    pr, est, start, r = setup(item)
    lag = r.choice(['TRUE', 'FALSE', 'AUTO', None])
    opt, par = r.random() < .5, r.random() < .5
    p = SchedulingPipeline.create().wg(pr.wg).contractors(pr.contractors).time_shift(start)
    if not lag:
        p = p.spec(pr.spec)
    else:
        p = p.lag_optimize(Lag[lag])
    if opt:
        p = p.optimize_local(SwapOrderLocalOptimizer(), range(0, 10))
    p = p.schedule(sched.make_scheduler(item['alg'], r.randint(0, 10 ** 9), est))
    if par and not pr.spec_plan:
        p = p.optimize_local(ParallelizeScheduleLocalOptimizer(JustInTimeTimeline), range(0, 10))
    return [[plan(x.schedule), sorted(n.id for n in x.raw_wg.nodes), [n.id for n in x.critical_path()] if not (par or pr.spec_plan) else None]
            for x in p.finish()]


def probe_deadline(item):
    pr, est, start, r = setup(item, n=Random(item['seed']).randint(1, 10))
    base = sched.make_scheduler(r.choice(['heft', 'heftb', 'topo', 'lft']), 1, est)
    s = AverageBinarySearchResourceOptimizingScheduler(base)
    (x, t, _, order), spec = s.schedule_with_cache(pr.wg, pr.contractors, Time(r.choice([1, 30, 100, 1000, 10 ** 5])), assigned_parent_time=start)
    return [plan(x), oracle.tv(t), [n.id for n in order], view.spec(spec)]


def probe_population(item):
    pr, est, start, r = setup(item, n=Random(item['seed']).randint(1, 9))
    fit = r.choice([TimeFitness(), SumOfResourcesFitness(), SumOfResourcesPeaksFitness(), TimeWithResourcesFitness()])

    def genetic(s):
        return GeneticScheduler(number_of_generation=2, size_of_population=5, rand=Random(s), work_estimator=est, fitness_constructor=fit,
                                sgs_type=r.choice([SGS.Parallel, SGS.Serial]), optimize_resources=r.random() < .5, mutate_order=.5, mutate_resources=.5)

    from sampo.scheduler.genetic.schedule_builder import create_toolbox
    init = GeneticScheduler.generate_first_population(pr.wg, pr.contractors, spec=pr.spec, work_estimator=est)
    tb = create_toolbox(wg=pr.wg, contractors=pr.contractors, selection_size=5, mutate_order=.3, mutate_resources=.3, mutate_zones=.3,
                        init_schedules=init, rand=Random(item['seed']), spec=pr.spec, work_estimator=est, verbose=False,
                        only_lft_initialization=r.random() < .3)
    pop = tb.population(5)
    show = lambda c: [np.asarray(c[0]).tolist(), c[1].tolist(), np.asarray(c[2]).tolist(), view.spec(c[3])]  # noqa
    before = [show(c) for c in pop]
    new = genetic(r.randint(0, 999)).upgrade_pop(pr.wg, pr.contractors, pop, pr.spec, assigned_parent_time=start)
    return [before, [show(c) for c in new]]


def probe_order(item):
    pr, est, start, r = setup(item)
    s = sched.make_scheduler(item['alg'], r.randint(0, 10 ** 9), est)
    x = s.schedule(pr.wg, pr.contractors, pr.spec, start_time=start)[0]
    return [plan(x), order_nodes_by_start_time(list(x.works), pr.wg), [w.id for w in x.works], x.full_schedule_df['task_id'].tolist()]


def run(case, obs):
    here = [probe(i) for i in case['items']]
    # what others leave in the common generators is nobody's business
    random.seed(case['seed'] + 1)
    np.random.seed(case['seed'] + 1)
    for i, a in zip(case['items'], here):
        compare(obs, 'again', i, a, probe(i))
    for hs in case['hashes']:
        e = dict(os.environ, PYTHONHASHSEED=str(hs))
        p = subprocess.run([sys.executable, '-c', PROBE.format(verif=env.VERIF)], input=json.dumps(case['items']), env=e,
                           capture_output=True, text=True, timeout=600)
        if p.returncode:
            # the same calls have just worked in this process
            obs.violate('process:crash', p.stderr[-800:])
            continue
        obs.event('processes')
        for i, a, b in zip(case['items'], here, json.loads(p.stdout.strip().splitlines()[-1])):
            compare(obs, 'process', i, a, b)


def compare(obs, where, item, a, b):
    what = item['alg'] if item['kind'] in ('sched', 'genetic') else item['kind']
    obs.check(a == b, f'{where}:{what}-differs', lambda: f'{item}: {diff(a, b)}')
    obs.event(f'{where}:{item["kind"]}')
    obs.nontrivial(hashlib.blake2b(json.dumps(a).encode(), digest_size=8).hexdigest())


def diff(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f'{path}/{i}')
    return f'{path}: {str(a)[:200]} -> {str(b)[:200]}'
