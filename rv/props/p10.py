"""Inputs are left as given, and one call leaves nothing behind for another."""
import copy
from random import Random

from rv import gen, land, oracle, sched, view
from rv.runner import Skip

import numpy as np

from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
from sampo.pipeline import SchedulingPipeline
from sampo.pipeline.lag_optimization import LagOptimizationStrategy as Lag
from sampo.scheduler.genetic.base import GeneticScheduler
from sampo.scheduler.genetic.operators import (DeadlineCostFitness, DeadlineResourcesFitness, SumOfResourcesPeaksFitness, TimeFitness)
from sampo.scheduler.genetic.schedule_builder import create_toolbox
from sampo.scheduler.resources_in_time.average_binary_search import AverageBinarySearchResourceOptimizingScheduler
from sampo.scheduler.utils.local_optimization import ParallelizeScheduleLocalOptimizer, SwapOrderLocalOptimizer
from sampo.scheduler.timeline import JustInTimeTimeline
from sampo.schemas.exceptions import NotEnoughMaterialsInDepots, NoSufficientContractorError
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.resources import Worker
from sampo.schemas.schedule_spec import ScheduleSpec
from sampo.schemas.time import Time
from sampo.schemas.zones import ZoneConfiguration
from sampo.utilities.resource_usage import resources_costs_sum, resources_peaks_sum, resources_sum
from sampo.utilities.validation import validate_schedule

RULE = ('random projects (with specifications, materials, zones) through every scheduler and public tool, twice and between other '
        'projects: pictures of all inputs, of everything shared by all callers and of earlier answers before and after; '
        'non-trivial: a plan was made; distinct by schedule')
SAME = ['heft', 'heftb', 'heft_scan', 'heft_avg', 'heftb_avg', 'topo', 'lft']
OTHER = ['rtopo', 'rlft', 'gen_par', 'gen_ser', 'gen_par_res', 'gen_deadline', 'gen_lft']
PROFILES = ['plain', 'lags', 'chains', 'prio', 'edge', 'special', 'spec', 'specteam', 'specpart', 'spectime', 'specind', 'specmix']


def cases(tier, seed):
    r = Random(f'P10-{seed}')
    k = 1 if tier == 'quick' else 12
    out = []
    for kind, n in (('sched', 520), ('supply', 140), ('pipeline', 160), ('population', 60), ('deadline', 40), ('tools', 200)):
        for i in range(n * k):
            alg = r.choice(SAME) if r.random() < (.8 if kind == 'sched' else .7) else r.choice(OTHER)
            out.append(dict(kind=kind, seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)], alg=alg))
    return out


class Watch:
    """Pictures of what must not change."""

    def __init__(self, obs, pr, land_config=None, extra=None):
        self.obs, self.pr, self.land, self.extra = obs, pr, land_config, extra or {}
        self.wg, self.contractors, self.spec = pr.wg, pr.contractors, pr.spec
        self.was = self.look()
        self.shared = view.shared_state()

    def look(self):
        out = {'graph': view.graph(self.wg), 'contractors': view.contractors(self.contractors), 'specification': view.spec(self.spec)}
        out['contractors-objects'] = [[id(c)] + sorted((k, id(w)) for k, w in c.workers.items()) for c in self.contractors]
        out['graph-objects'] = [[id(n), id(n.work_unit)] for n in self.wg.nodes]
        if self.land is not None:
            out['landscape'] = view.landscape(self.land)
        for k, f in self.extra.items():
            out[k] = f()
        return out

    def check(self, where):
        now = self.look()
        for k, v in self.was.items():
            self.obs.check(now[k] == v, f'{where}:{k}-changed', lambda: diff(v, now[k]))
        shared = view.shared_state()
        for k, v in self.shared.items():
            self.obs.check(k not in shared or same(v, shared[k]), f'{where}:shared-by-all-callers-changed', lambda: f'{k}: {diff(v, shared[k])}')
        self.obs.event('pictures')


def same(a, b):
    """Equal, except that an object may have got attributes it had not had (lazily computed ones)."""
    if isinstance(a, list) and isinstance(b, list):
        if a[:1] and isinstance(a[0], str) and a[0] not in ('dict', 'list', 'tuple', 'set', 'arr') and a[0] == (b[0] if b else None):
            have = {x[0]: x[1] for x in b[1:] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str)}
            mine = [x for x in a[1:] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str)]
            if len(mine) == len(a) - 1:
                return all(x[0] in have and same(x[1], have[x[0]]) for x in mine)
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def diff(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f'{path}/{i}')
    return f'{path}: {str(a)[:200]} -> {str(b)[:200]}'


def run(case, obs):
    globals()[f'run_{case["kind"]}'](case, obs)
    obs.event(f'kind:{case["kind"]}')


def scheduler(case, r, est):
    return sched.make_scheduler(case['alg'], r.randint(0, 10 ** 9), est, gens=1, pop=4)


def run_sched(case, obs):
    pr, est, start, r = sched.build(case)
    sch = scheduler(case, r, est)
    w = Watch(obs, pr, extra={'start': lambda: oracle.tv(start)})
    kw = dict(start_time=start)
    if r.random() < .5 or pr.spec_plan:
        kw['spec'] = pr.spec
    plain = not pr.spec_plan and r.random() < .3
    if plain:
        kw['validate'] = True
    try:
        first = sch.schedule(pr.wg, pr.contractors, **kw)
    finally:
        w.check('schedule')
    pics = [view.schedule(s) for s in first]
    obs.nontrivial(case['alg'], pics)
    owned = {id(x): c.id for c in pr.contractors for x in c.workers.values()}
    for s in first:
        for sw in s.works:
            obs.check(not any(id(x) in owned for x in sw.workers), 'schedule:team-is-the-contractors-own-record', sw.id)
    # another project, by another user of the same scheduler, then the first one again
    other = sched.build(dict(case, seed=case['seed'] + 1, profile=r.choice(PROFILES)))[0]
    w2 = Watch(obs, other)
    sch.schedule(other.wg, other.contractors, other.spec)
    w2.check('schedule')
    w.check('schedule-of-another-project')
    again = sch.schedule(pr.wg, pr.contractors, **kw)
    w.check('schedule-again')
    obs.check([view.schedule(s) for s in first] == pics, 'earlier-answer-changed')
    if case['alg'] in SAME:
        obs.check([view.schedule(s) for s in again] == pics, 'answer-depends-on-earlier-calls',
                  lambda: diff(pics, [view.schedule(s) for s in again]))
        fresh = scheduler(case, Random(1), sched.ESTIMATORS[case.get('est', 'default')]()) if case['alg'] in ('heft', 'heftb', 'topo', 'lft') else None
        if fresh is not None:
            obs.check([view.schedule(s) for s in fresh.schedule(pr.wg, pr.contractors, **kw)] == pics, 'answer-depends-on-the-scheduler-object')
        # the names of works and contractors are as the user has them: an equal copy gives an equal plan
        if r.random() < .4:
            cs = copy.deepcopy(pr.contractors)
            obs.check([view.schedule(s) for s in sch.schedule(pr.wg, cs, **kw)] == pics, 'equal-contractors-give-another-plan')
    # the answer belongs to the caller
    for s in again:
        for sw in s.works:
            for x in sw.workers:
                x._count = 777
            sw.start_end_time = (Time(0), Time(1))
    w.check('change-of-the-answer')


def run_supply(case, obs):
    """With materials on roads and zones."""
    r = Random(case['seed'])
    works = gen.rand_works(r, r.randint(2, 9), chains=r.choice([0, .3]), lags=r.choice(['none', 'int']))
    materials = r.random() < .6
    for x in works:
        if not x.service and materials and x.chain_prev is None:
            x.materials = {m: r.randint(1, 40) for m in ('m1', 'm2') if r.random() < .6}
        if not x.service and not materials:
            x.zones = {z: r.randint(1, 2) for z in ('z1', 'z2') if r.random() < .6}
    if not materials:
        for x in works:
            if x.chain_prev is not None:
                x.zones = dict(works[x.chain_prev].zones)
    pr = gen.Project(works)
    pr.wg = gen.build_wg(works, r)
    pr.contractors = gen.rand_contractors(r, works)
    pr.spec = ScheduleSpec()
    if materials:
        config = land.material_net(r, works, pr.wg).config
    else:
        c = r.choice([0, 5, 40])
        config = LandscapeConfiguration(zone_config=ZoneConfiguration(start_statuses={'z1': r.randint(0, 2), 'z2': 1},
                                                                      time_costs=np.array([[0, c, c], [0, 0, c], [0, c, 0]])))
    sch = scheduler(case, r, sched.ESTIMATORS['default']())
    w = Watch(obs, pr, config)
    try:
        first = sch.schedule(pr.wg, pr.contractors, landscape=config)
    except NotEnoughMaterialsInDepots:
        w.check('refusal')
        obs.event('refused')
        return
    w.check('supply')
    pics = [view.schedule(s) for s in first]
    again = sch.schedule(pr.wg, pr.contractors, landscape=config)
    w.check('supply-again')
    obs.check([view.schedule(s) for s in first] == pics, 'earlier-answer-changed')
    if case['alg'] in SAME:
        obs.check([view.schedule(s) for s in again] == pics, 'answer-depends-on-earlier-calls', lambda: diff(pics, [view.schedule(s) for s in again]))
    obs.event('supply:materials' if materials else 'supply:zones')
    obs.nontrivial('supply', pics)


def run_pipeline(case, obs):
    pr, est, start, r = sched.build(case)
    if pr.spec_plan and r.random() < .5:
        pr.spec, pr.spec_plan = ScheduleSpec(), {}
    # the pipeline spreads priorities over the graph: done beforehand, nothing is left to spread
    SchedulingPipeline.create().wg(pr.wg).contractors(pr.contractors).schedule(sched.make_scheduler('topo', 1, est)).finish()
    w = Watch(obs, pr)
    lag = r.choice(['TRUE', 'FALSE', 'AUTO', None])

    def go(sch, opt):
        p = SchedulingPipeline.create().wg(pr.wg).contractors(pr.contractors).spec(pr.spec).time_shift(start)
        if lag:
            p = p.lag_optimize(Lag[lag])
        if opt:
            p = p.optimize_local(SwapOrderLocalOptimizer(), range(0, 10))
        p = p.schedule(sch)
        if opt and not pr.spec_plan:
            p = p.optimize_local(ParallelizeScheduleLocalOptimizer(JustInTimeTimeline), range(0, 10))
        return p.finish()

    opt = r.random() < .4
    sch = scheduler(case, r, est)
    first = go(sch, opt)
    w.check('pipeline')
    pics = [view.schedule(p.schedule) for p in first]
    again = go(sch, opt)
    w.check('pipeline-again')
    obs.check([view.schedule(p.schedule) for p in first] == pics, 'earlier-answer-changed')
    if case['alg'] in SAME and not lag:
        # splitting gives random ids to the parts
        obs.check([view.schedule(p.schedule) for p in again] == pics, 'answer-depends-on-earlier-calls')
    obs.nontrivial('pipeline', pics)
    for p in first:
        obs.check(p.wg is pr.wg, 'pipeline:project-of-another-graph')


def chrom(c):
    return [x.tolist() if hasattr(x, 'tolist') else view.deep(x) for x in c[:3]] + [view.spec(c[3]), view.deep(c[4])]


def run_population(case, obs):
    pr, est, start, r = sched.build(dict(case, n=r0(case)))

    def genetic():
        return GeneticScheduler(number_of_generation=2, size_of_population=5, rand=Random(r.randint(0, 999)), work_estimator=est,
                                sgs_type=r.choice([SGS.Parallel, SGS.Serial]), optimize_resources=r.random() < .5,
                                mutate_order=.5, mutate_resources=.5)

    w = Watch(obs, pr)
    init = GeneticScheduler.generate_first_population(pr.wg, pr.contractors, spec=pr.spec, work_estimator=est)
    w.check('first-population')
    tb = create_toolbox(wg=pr.wg, contractors=pr.contractors, selection_size=5, mutate_order=.3, mutate_resources=.3, mutate_zones=.3,
                        init_schedules=init, rand=Random(case['seed']), spec=pr.spec, work_estimator=est, verbose=False,
                        only_lft_initialization=r.random() < .2)
    pop = tb.population(5)
    w.check('population')
    given = [chrom(c) for c in pop]
    count = len(pop)
    new = genetic().upgrade_pop(pr.wg, pr.contractors, pop, pr.spec, assigned_parent_time=start)
    w.check('upgrade-given')
    obs.check(len(pop) == count and [chrom(c) for c in pop] == given, 'upgrade:given-population-changed')
    obs.nontrivial('population', given, [chrom(c) for c in new])
    sch = genetic()
    init = sch.schedule_with_cache(pr.wg, pr.contractors, pr.spec, assigned_parent_time=start)
    w.check('with-cache')
    obs.event('populations')


def r0(case):
    return Random(case['seed'] + 7).randint(1, 9)


def run_deadline(case, obs):
    pr, est, start, r = sched.build(dict(case, n=r0(case)))
    w = Watch(obs, pr)
    base = sched.make_scheduler(r.choice(['heft', 'heftb', 'topo', 'lft']), 1, est)
    deadline = Time(r.choice([1, 30, 100, 1000, 10 ** 5]))
    was = oracle.tv(deadline)
    s = AverageBinarySearchResourceOptimizingScheduler(base)
    kw = {} if r.random() < .3 and not pr.spec_plan else dict(spec=pr.spec)
    try:
        first, spec = s.schedule_with_cache(pr.wg, pr.contractors, deadline, assigned_parent_time=start, **kw)
    finally:
        w.check('deadline-search')
    obs.check(oracle.tv(deadline) == was, 'deadline-search:deadline-changed')
    pics = view.schedule(first[0])
    second, spec2 = s.schedule_with_cache(pr.wg, pr.contractors, deadline, assigned_parent_time=start, **kw)
    w.check('deadline-search-again')
    obs.check(view.schedule(second[0]) == pics and view.spec(spec) == view.spec(spec2), 'answer-depends-on-earlier-calls')
    obs.check(spec is not pr.spec, 'deadline-search:same-specification')
    obs.nontrivial('deadline', pics)


def run_tools(case, obs):
    """What only looks at a plan changes neither the plan nor the project."""
    pr, est, start, r = sched.build(case)
    s = scheduler(case, r, est).schedule(pr.wg, pr.contractors, pr.spec, start_time=start)[0]
    pic = view.schedule(s)
    w = Watch(obs, pr, extra={'schedule': lambda: view.schedule(s), 'table': lambda: s.pure_schedule_df.astype(str).values.tolist()})
    tools = {'validate': lambda: validate_schedule(s, pr.wg, pr.contractors, pr.spec),
             'costs': lambda: resources_costs_sum(s), 'peaks': lambda: resources_peaks_sum(s), 'sum': lambda: resources_sum(s),
             'full-table': lambda: s.full_schedule_df, 'pure-table': lambda: s.pure_schedule_df,
             'offset': lambda: s.merged_stages_datetime_df(r.choice(['2024-01-01', '2020-02-29'])),
             'time': lambda: s.execution_time, 'frame': lambda: pr.wg.to_frame(),
             'unite': lambda: s.unite_stages(),
             'dict': lambda: s.to_schedule_work_dict, 'save': lambda: s._serialize(),
             'graph-save': lambda: pr.wg._serialize(),
             'copy': lambda: copy.deepcopy(pr.wg), 'copy-schedule': lambda: copy.deepcopy(s)}
    for name in r.sample(sorted(tools), 8):
        tools[name]()
        w.check(f'tool:{name}')
        obs.event(f'tool:{name}')
    obs.nontrivial('tools', pic)
