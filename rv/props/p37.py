"""Hybrid schedulers: populations made of plans decode to them, cycles never lose the best, the plan is that of the best individual."""
from random import Random

from rv import oracle, sched, view
from rv.oracle import tv
from rv.props.p17 import frozen
from rv.props.p19 import FITNESS, Recorder, value

from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
from sampo.base import SAMPO
from sampo.hybrid.cycle import CycleHybridScheduler
from sampo.hybrid.population import GeneticPopulationScheduler, HeuristicPopulationScheduler, PopulationScheduler
from sampo.scheduler.genetic import GeneticScheduler
from sampo.scheduler.genetic import operators as ops
from sampo.scheduler.genetic.schedule_builder import create_toolbox
from sampo.scheduler.genetic.utils import prepare_optimized_data_structures
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.schedule import Schedule
from sampo.schemas.time import Time

RULE = ('runs of hybrid schedulers started from plans, from nothing or from a ready population, with everything evaluated and every population '
        'passed on recorded; non-trivial: several values were evaluated; distinct by record')
PROFILES = ['plain', 'dense', 'lags', 'chains', 'prio', 'tight', 'special', 'spec', 'specteam', 'specpart', 'spectime', 'specmix', 'edge']
HEUR = ['heft', 'heftb', 'topo', 'lft', 'rlft', 'rtopo', 'heft_avg', 'gen_par']


def cases(tier, seed):
    r = Random(f'P37-{seed}')
    k = 1 if tier == 'quick' else 14
    out = []
    for kind, n in (('population', 160), ('cycle', 180)):
        for i in range(n * k):
            out.append(dict(kind=kind, seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)], est='default',
                            start=['heuristic', 'heuristic', 'genetic', 'ready'][i % 4], sgs=r.choice(['Parallel', 'Serial']),
                            fit=r.choice(['time', 'time', 'time', 'peaks', 'sum', 'timeres', 'bi']), plateau=r.choice([1, 1, 2, 3])))
    return out


def run(case, obs):
    pr, est, start, r = sched.build(dict(case, n=Random(case['seed'] + 5).randint(1, 10)))
    rec = Recorder()
    old, SAMPO.backend = SAMPO.backend, rec
    try:
        globals()[f'run_{case["kind"]}'](case, obs, pr, est, start, r, rec)
    finally:
        SAMPO.backend = old
    obs.event(f'kind:{case["kind"]}')


def toolbox(pr, start, sgs):
    return create_toolbox(wg=pr.wg, contractors=pr.contractors, spec=pr.spec, assigned_parent_time=start, sgs_type=SGS(sgs), verbose=False)


def run_population(case, obs, pr, est, start, r, rec):
    """Plans of heuristics as a population."""
    names = [r.choice(HEUR) for _ in range(r.randint(1, 4))]
    schs = [sched.make_scheduler(n, r.randint(0, 10 ** 6), est, gens=1, pop=4) for n in names]
    plans = []
    for s in schs:
        def wrap(*a, f=s.schedule_with_cache, **kw):
            res = f(*a, **kw)
            plans.extend((x[0], [n.id for n in x[3]]) for x in res)
            return res
        s.schedule_with_cache = wrap
    pics = view.graph(pr.wg), view.contractors(pr.contractors), view.spec(pr.spec)
    pop = HeuristicPopulationScheduler(schs).schedule([], pr.wg, pr.contractors, pr.spec, start)
    obs.check((view.graph(pr.wg), view.contractors(pr.contractors), view.spec(pr.spec)) == pics, 'population:inputs-changed')
    obs.check(len(pop) == len(plans), 'population:not-one-of-each-plan', f'{len(pop)} of {len(plans)}')
    tb = toolbox(pr, start, case['sgs'])
    index2node = prepare_optimized_data_structures(pr.wg, pr.contractors, LandscapeConfiguration(), pr.spec)[1]
    for ind, (plan, order) in zip(pop, plans):
        obs.check(tb.validate(ind), 'population:invalid')
        works = tb.chromosome_to_schedule(ind)[0]
        got = [index2node[int(i)].id for i in ind[0]]
        s = Schedule.from_scheduled_works(works.values(), pr.wg)
        obs.check(got == order, 'population:another-order', lambda: f'{names}')
        a, b = oracle.sw_map(plan), oracle.sw_map(s)
        for n in pr.wg.nodes:
            if n.work_unit.worker_reqs:
                x, y = ([a[n.id].contractor_id, sorted((w.name, int(w.count)) for w in a[n.id].workers)],
                        [b[n.id].contractor_id, sorted((w.name, int(w.count)) for w in b[n.id].workers)])
                obs.check(x == y, 'population:another-team', lambda: f'{names} {n.id}: {x} {y}')
        judge(obs, s, pr, start)
    obs.event('plans', len(plans))
    obs.nontrivial('population', names, [sched.signature(p) for p, _ in plans])


def judge(obs, s, pr, start):
    for f in ('completeness', 'precedence', 'chains_ok'):
        obs.extend(getattr(oracle, f)(s, pr.wg))
    obs.extend(oracle.capacity(s, pr.wg, pr.contractors)[0])
    obs.extend(oracle.shifted(s, start))
    obs.extend(oracle.spec_obeyed(s, pr.wg, pr.spec_plan))


class Ready(PopulationScheduler):
    """A user's own start."""

    def __init__(self, pop):
        self.pop = pop

    def schedule(self, initial_population, wg, contractors, spec=None, assigned_parent_time=Time(0), landscape=None):
        return list(self.pop)


class Spy(PopulationScheduler):
    def __init__(self, inner, log, name):
        self.inner, self.log, self.name = inner, log, name

    def schedule(self, initial_population, *a, **kw):
        res = self.inner.schedule(initial_population, *a, **kw)
        self.log.append((self.name, [frozen(c) for c in initial_population], [frozen(c) for c in res], a, kw))
        return res


def run_cycle(case, obs, pr, est, start, r, rec):
    name = case['fit']
    cls, weights = FITNESS[name]
    if name == 'bi':  # compared by time, then by resources
        weights = (-1, -1)
    fit = cls()
    size = r.choice([2, 4, 7])

    def genetic():
        return GeneticPopulationScheduler(GeneticScheduler(
            number_of_generation=r.choice([1, 2, 3]), size_of_population=size, rand=Random(r.randint(0, 10 ** 6)), work_estimator=est,
            mutate_order=r.choice([.1, .6]), mutate_resources=r.choice([.1, .6]), sgs_type=SGS(case['sgs']), fitness_constructor=cls(),
            fitness_weights=weights, optimize_resources=r.random() < .3))

    if case['start'] == 'heuristic':
        first = HeuristicPopulationScheduler([sched.make_scheduler(r.choice(HEUR[:-1]), r.randint(0, 99), est) for _ in range(r.randint(1, 5))])
    elif case['start'] == 'genetic':
        first = genetic()
    else:
        init = GeneticScheduler.generate_first_population(pr.wg, pr.contractors, spec=pr.spec, work_estimator=est)
        tb = create_toolbox(wg=pr.wg, contractors=pr.contractors, selection_size=size, init_schedules=init, rand=Random(case['seed']),
                            spec=pr.spec, work_estimator=est, verbose=False, fitness_weights=weights)
        first = Ready(tb.population(size))
    passed = []
    n = r.randint(1, 2)
    cyc = CycleHybridScheduler(Spy(first, passed, 'start'), [Spy(genetic(), passed, 'cycle') for _ in range(n)], fit, case['plateau'])
    pics = view.graph(pr.wg), view.contractors(pr.contractors), view.spec(pr.spec)
    s = cyc.schedule(pr.wg, pr.contractors, pr.spec, start, sgs_type=SGS(case['sgs']))
    obs.check((view.graph(pr.wg), view.contractors(pr.contractors), view.spec(pr.spec)) == pics, 'cycle:inputs-changed')
    judge(obs, s, pr, start)
    known = {}
    for _, cs, vs in rec.log:
        for c, v in zip(cs, vs):
            known.setdefault(c, set()).add(v)
    last = passed[-1][2]
    obs.check(all(c in known for c in last), 'cycle:never-evaluated')
    mixed = case['sgs'] == 'Serial' and case['start'] != 'genetic'  # the start is measured before the genetic algorithm tells its scheme
    got = tuple(float(x) for x in value_of(name, s))
    # the plan is that of the best of the last population
    vals = [min(known[c]) for c in last if c in known]
    if not mixed:
        obs.check(all(len(v) == 1 for v in known.values()), 'cycle:value-depends-on-history')
        obs.check(got == min(vals), 'cycle:plan-of-another-individual', lambda: f'{got} {sorted(vals)[:3]}')
    else:
        obs.check(any(got in known[c] for c in last), 'cycle:plan-of-nobody', lambda: f'{got} {sorted(vals)[:3]}')
    # what is passed from one to another
    obs.check(passed[0][0] == 'start' and passed[0][1] == [], 'cycle:start-is-not-first')
    for (_, _, a, _, _), (_, b, _, _, _) in zip(passed, passed[1:]):
        obs.check(a == b, 'cycle:population-lost-on-the-way')
    obs.check((len(passed) - 1) % n == 0, 'cycle:round-cut')
    # elitism, and the rule to stop
    if not mixed and name != 'bi':
        best = [min(min(known[c]) for c in passed[0][2])]
        for i in range(1, len(passed), n):
            best.append(min(min(known[c]) for c in passed[i + n - 1][2]))
        obs.check(all(x >= y for x, y in zip(best, best[1:])), 'cycle:best-lost', lambda: f'{best}')
        every = min(min(v) for v in known.values())
        obs.check(got == every, 'cycle:better-one-seen', lambda: f'{got} {every}')
        idle = 0
        for i, (a, b) in enumerate(zip(best, best[1:])):
            obs.check(idle < case['plateau'], 'cycle:does-not-stop', lambda: f'{best} {case["plateau"]}')
            idle = idle + 1 if a == b else 0
        obs.check(idle == case['plateau'], 'cycle:stops-early', lambda: f'{best} {case["plateau"]}')
        obs.event('rounds', len(best) - 1)
    for _, _, _, a, kw in passed:
        obs.check(any(x is pr.wg for x in a) and any(x is pr.spec for x in list(a) + list(kw.values())), 'cycle:parameters-lost')
        obs.check(any(isinstance(x, Time) and tv(x) == tv(start) for x in list(a) + list(kw.values())), 'cycle:start-time-lost')
    obs.event(f'start:{case["start"]}')
    if len(set().union(*known.values())) > 1:
        obs.nontrivial('cycle', sorted(set().union(*known.values())), got)


def value_of(name, s):
    return value(name, s)
