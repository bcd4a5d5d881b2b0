"""The genetic algorithm: everything it evaluates is recorded; its answer is the best it has seen, under the deadline if any."""
from random import Random

from rv import oracle, sched
from rv.oracle import tv
from rv.props.p17 import frozen

from sampo.api.genetic_api import FitnessFunction, ScheduleGenerationScheme as SGS
from sampo.backend.default import DefaultComputationalBackend
from sampo.base import SAMPO
from sampo.scheduler.genetic import GeneticScheduler
from sampo.scheduler.genetic import operators as ops
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator

RULE = ('runs of the genetic algorithm on random projects with every evaluated chromosome and its value recorded; the answer '
        'compared with the record; non-trivial: runs whose record has several values; distinct by record')
PROFILES = ['plain', 'dense', 'lags', 'chains', 'prio', 'tight', 'special', 'spec', 'specteam', 'specmix']
INF = 2_000_000_000


class Odd(FitnessFunction):
    """A user's function to be maximized: as many workers of the first work as possible."""

    def evaluate(self, chromosome, evaluator):
        s = evaluator(chromosome)
        if s is None:
            return (-1,)
        return (sum(int(x.count) for w in s.works for x in w.workers),)


FITNESS = {
    'time': (ops.TimeFitness, (-1,)), 'peaks': (ops.SumOfResourcesPeaksFitness, (-1,)), 'sum': (ops.SumOfResourcesFitness, (-1,)),
    'timeres': (ops.TimeWithResourcesFitness, (-1,)), 'odd': (Odd, (1,)), 'bi': (ops.TimeAndResourcesFitness, (-1, -1)),
    'lex': (ops.TimeAndResourcesFitness, (-1, -1)),
}


class Flat(DefaultWorkEstimator):
    """Teams of any size need the same time, so that many plans end exactly at the deadline."""

    def estimate_time(self, work_unit, worker_list):
        t = super().estimate_time(work_unit, worker_list)
        return t if t.is_inf() or not worker_list else Time(5)


class Recorder(DefaultComputationalBackend):
    def __init__(self):
        super().__init__()
        self.log = []       # (fitness class, [chromosome], [value])
        self.pops = []
        self.probe, self.deadline, self.late = None, None, []

    def compute_chromosomes(self, fitness, chromosomes):
        res = super().compute_chromosomes(fitness, chromosomes)
        if self.probe is not None:
            if type(fitness) is type(self.probe):
                self.late.append(None)  # the stage that looks for resources has begun
            elif self.late:
                # children of this stage that meet the deadline: whatever becomes of them, they were tried
                good = [c for c, v in zip(chromosomes, res) if v[0] <= self.deadline]
                self.late += [tuple(float(x) for x in v) for v in super().compute_chromosomes(self.probe, good)]
        self.log.append((fitness, [frozen(c) for c in chromosomes], [tuple(float(x) for x in v) for v in res]))
        return res

    def generate_first_population(self, size_population):
        res = super().generate_first_population(size_population)
        self.pops.append(len(res))
        return res


def cases(tier, seed):
    r = Random(f'P19-{seed}')
    k = 1 if tier == 'quick' else 14
    modes = ['single', 'deadline'] * 4 + ['multi', 'upgrade', 'plateau', 'lex']
    return [dict(seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)], mode=modes[(i // 3) % len(modes)],
                 gens=r.choice([0, 1, 2, 3, 5]), pop=r.choice([2, 3, 8, 13]), sgs=r.choice(['Serial', 'Parallel']),
                 fit=r.choice(['time', 'time', 'peaks', 'sum', 'timeres', 'odd'])) for i in range(420 * k)]


def value(name, s):
    """The documented value of a schedule, recomputed."""
    works = list(s.works)
    end = max((tv(w.finish_time) for w in works), default=0)
    if name == 'time':
        return (end,)
    if name == 'odd':
        return (sum(int(x.count) for w in works for x in w.workers),)
    total, peaks = 0, {}
    ev = {}
    for w in works:
        a, b = tv(w.start_time), tv(w.finish_time)
        for x in w.workers:
            total += int(x.count) * (b - a)
            d = ev.setdefault(x.name, {})
            d[a] = d.get(a, 0) + int(x.count)
            d[b] = d.get(b, 0) - int(x.count)
    if name == 'sum':
        return (total,)
    peak = 0
    for d in ev.values():
        lvl = top = 0
        for t in sorted(d):
            lvl += d[t]
            top = max(top, lvl)
        peak += top
    return {'peaks': (peak,), 'timeres': (end + peak,), 'bi': (end, peak), 'lex': (end, peak)}[name]


def run(case, obs):
    pr, est, start, r = sched.build(case)
    mode = case['mode']
    name = {'multi': 'bi', 'lex': 'lex'}.get(mode, case['fit'])
    if mode == 'deadline':
        name = r.choice(['peaks', 'sum', 'odd', 'bi'])
        if r.random() < .5:
            est = Flat()
    cls, weights = FITNESS[name]
    key = lambda v: tuple(x * w for x, w in zip(v, weights))  # the greater the better
    opt = r.random() < .4 and mode != 'deadline'
    mk = lambda **kw: GeneticScheduler(
        number_of_generation=case['gens'], size_of_population=case['pop'], rand=Random(r.randint(0, 10 ** 6)),
        mutate_order=r.choice([.1, .6]), mutate_resources=r.choice([.1, .6]), sgs_type=SGS(case['sgs']), work_estimator=est,
        fitness_constructor=cls(), fitness_weights=weights, optimize_resources=opt, is_multiobjective=mode == 'multi', **kw)
    rec = Recorder()
    old, SAMPO.backend = SAMPO.backend, rec
    try:
        sch = mk(only_lft_initialization=r.random() < .15)
        deadline = None
        if mode == 'deadline':
            base = max(tv(w.finish_time) for w in sched.make_scheduler('lft', 1, est).schedule(pr.wg, pr.contractors, pr.spec)[0].works)
            deadline = int(base * r.choice([.7, .9, 1, 1, 1, 1.2, 1.5, 3])) or 1
            sch.set_deadline(Time(deadline))
            rec.probe, rec.deadline = cls(), deadline
        if mode == 'plateau':
            sch.number_of_generation = 40
            sch.set_max_plateau_steps(r.choice([0, 1, 2]))
            if r.random() < .5:
                sch.set_time_border(0)
        if mode == 'upgrade':
            return upgrade(case, obs, pr, sch, mk, rec, key, start)
        answers = sch.schedule(pr.wg, pr.contractors, pr.spec, start_time=start)
    finally:
        SAMPO.backend = old
    log = rec.log
    obs.event(f'mode:{mode}')
    obs.event('evaluations', sum(len(v) for _, _, v in log))
    obs.check(rec.pops == [case['pop']], 'first-population-size', rec.pops)
    got = [value(name, s) for s in answers]
    obs.check(len(answers) >= 1, 'no-answer')
    for f, cs, vs in log:
        obs.check(len(cs) == len(vs), 'evaluation-count')
        obs.check(not any(INF in v or -1 in v for v in vs), 'invalid-chromosome-evaluated', vs)
    # equal chromosomes have equal values
    seen = {}
    for f, cs, vs in log:
        for c, v in zip(cs, vs):
            k = (type(f).__name__, c)
            obs.check(seen.setdefault(k, v) == v, 'value-depends-on-history', f'{seen[k]} != {v}')
    if mode in ('single', 'plateau', 'lex'):
        vals = [v for _, _, vs in log for v in vs]
        best = max(vals, key=key)
        obs.check(all(key(g) == key(best) for g in got[:1]), 'not-the-best-seen', lambda: f'{got} while {best} was evaluated')
        steps = len(log) - 1
        if mode == 'plateau':
            obs.check(sch._time_border is None or steps == 0, 'time-border-ignored', steps)
            # count of steps without improvement after which the algorithm stops
            top, idle = max(log[0][2], key=key), 0
            for i, (_, _, vs) in enumerate(log[1:]):
                obs.check(idle < sch._max_plateau_steps, 'plateau-ignored', f'step {i}')
                new = max([top, *vs], key=key)
                idle = idle + 1 if key(new) == key(top) else 0
                top = new
            obs.check(sch._time_border is not None or steps == 40 or idle >= sch._max_plateau_steps, 'stopped-early', f'{steps} {idle}')
        else:
            obs.check(steps <= case['gens'], 'generations-exceeded', f'{steps} > {case["gens"]}')
            obs.check(steps == case['gens'] or case['pop'] < 2, 'generations-missed', f'{steps} < {case["gens"]}')
    if mode == 'multi':
        vals = [v for _, _, vs in log for v in vs]
        front = {v for v in vals if not any(w != v and all(a <= b for a, b in zip(w, v)) for w in vals)}
        mine = {tuple(map(float, g)) for g in got}
        obs.check(mine <= set(vals), 'answer-never-evaluated', lambda: f'{mine}')
        obs.check(mine <= front or not mine <= set(vals), 'dominated-answer', lambda: f'{mine} {front}')
        obs.check(front <= mine, 'front-incomplete', lambda: f'{mine} {front}')
        obs.check(len(got) == len(mine), 'repeated-answers')
        obs.event('fronts-compared')
        obs.event('front-points', len(front))
    if mode == 'deadline':
        first = [vs for f, _, vs in log if type(f) is ops.TimeFitness]  # always the first stage
        times = [v[0] for vs in first for v in vs]
        end = max(tv(w.finish_time) for w in answers[0].works)
        if min(times) <= deadline:
            obs.event('deadline-reached')
            obs.check(all(max(tv(w.finish_time) for w in s.works) <= deadline for s in answers), 'deadline-missed',
                      f'{end} > {deadline}, while {min(times)} was reached')
            vals = [v for f, _, vs in log if type(f) is cls for v in vs]
            late = [v for v in rec.late if v is not None]
            obs.event('children-within-deadline', len(late))
            obs.check(not late or key(got[0]) >= max(map(key, late)), 'better-child-within-deadline-lost',
                      lambda: f'{got[0]} {sorted(late)[:3]}')
            obs.check(key(got[0]) == max(key(v) for v in vals), 'not-the-best-under-deadline', f'{got[0]} {sorted(vals)[:3]}')
        else:
            obs.event('deadline-unreachable')
            obs.check(end == min(times), 'not-the-fastest', f'{end} > {min(times)}')
    for s in answers:
        for check in ('completeness', 'precedence', 'chains_ok'):
            obs.extend(getattr(oracle, check)(s, pr.wg))
        obs.extend(oracle.capacity(s, pr.wg, pr.contractors)[0])
    obs.state([vs for _, _, vs in log])
    if len({v for _, _, vs in log for v in vs}) > 1:
        obs.nontrivial([vs for _, _, vs in log])
    obs.sample({'mode': mode, 'fitness': name, 'answers': got[:3], 'evaluations': [len(v) for _, _, v in log]})


def upgrade(case, obs, pr, sch, mk, rec, key, start):
    """A population given from outside is never spoilt."""
    from sampo.scheduler.genetic.schedule_builder import create_toolbox
    init = GeneticScheduler.generate_first_population(pr.wg, pr.contractors, spec=pr.spec, work_estimator=sch.work_estimator)
    tb = create_toolbox(wg=pr.wg, contractors=pr.contractors, selection_size=case['pop'], mutate_order=.3, mutate_resources=.3,
                        mutate_zones=.3, init_schedules=init, rand=Random(case['seed']), spec=pr.spec,
                        work_estimator=sch.work_estimator, sgs_type=sch.sgs_type, verbose=False)
    pop = tb.population(case['pop'])
    was = [frozen(c) for c in pop]
    new = sch.upgrade_pop(pr.wg, pr.contractors, list(pop), pr.spec, assigned_parent_time=start)
    obs.check([frozen(c) for c in pop] == was, 'given-population-changed')
    obs.check(len(new) == len(pop), 'upgraded-population-size', f'{len(pop)} -> {len(new)}')
    known = {c: v for _, cs, vs in rec.log for c, v in zip(cs, vs)}
    obs.check(all(frozen(c) in known for c in new), 'unknown-chromosome')
    best = max(map(key, known.values()))
    obs.check(max(key(known[frozen(c)]) for c in new if frozen(c) in known) == best, 'population-loses-best')
    # truncation keeps the best of everything seen
    top = sorted((key(v) for _, _, vs in rec.log for v in vs), reverse=True)[:len(new)]
    obs.check(sorted((key(known[frozen(c)]) for c in new if frozen(c) in known), reverse=True) == top, 'selection-drops-better')
    obs.event('mode:upgrade')
    obs.nontrivial([vs for _, _, vs in rec.log])
