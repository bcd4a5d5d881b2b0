"""Computing in several processes changes the time of work only: the same values, valid populations, reproducible answers."""
import signal
from random import Random

from rv import oracle, sched
from rv.oracle import tv
from rv.props.p17 import Space, frozen
from rv.props.p19 import FITNESS, value
from rv.runner import CaseTimeout

from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
from sampo.backend.default import DefaultComputationalBackend
from sampo.backend.multiproc import MultiprocessingComputationalBackend
from sampo.base import SAMPO
from sampo.scheduler.genetic import GeneticScheduler
from sampo.scheduler.genetic.utils import prepare_optimized_data_structures
from sampo.schemas import IntervalGaussian
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator

RULE = ('genetic runs with the multiprocessing backend, every evaluation recorded and repeated by the default one; non-trivial: '
        'several values evaluated; distinct by record')
PROFILES = ['plain', 'dense', 'lags', 'chains', 'prio', 'special', 'spec', 'specteam', 'specmix', 'tight']
WALL = 45
hung = []


def cases(tier, seed):
    r = Random(f'P20-{seed}')
    k = 1 if tier == 'quick' else 12
    return [dict(seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)], n=r.choice([4, 9, 14]), cpus=r.choice([1, 2, 3]),
                 gens=r.choice([0, 1, 2]), pop=r.choice([4, 9, 16, 24]), sgs=r.choice(['Serial', 'Parallel']),
                 fit=r.choice(['time', 'time', 'peaks', 'sum', 'bi']), deadline=r.random() < .2, weights=r.random() < .3,
                 est=r.choice(['default', 'productive'])) for i in range(120 * k)]


class Watch(MultiprocessingComputationalBackend):
    def __init__(self, n):
        super().__init__(n)
        self.log, self.pops = [], []

    def compute_chromosomes(self, fitness, chromosomes):
        res = super().compute_chromosomes(fitness, chromosomes)
        self.log.append((fitness, [frozen(c) for c in chromosomes], [tuple(v) for v in res]))
        ref = DefaultComputationalBackend()
        for k, v in self.__dict__.items():
            if k in ref.__dict__:
                setattr(ref, k, v)
        ref._toolbox = None
        rng = self._rand.getstate() if self._rand else None
        self.pops.append([tuple(v) for v in ref.compute_chromosomes(fitness, chromosomes)])
        if rng:
            self._rand.setstate(rng)
        return res

    def generate_first_population(self, size_population):
        res = super().generate_first_population(size_population)
        self.first = list(res)
        return res


def run(case, obs):
    if len(hung) > 1:
        return obs.event('skipped:hung-before')
    pr, est, start, r = sched.build({k: v for k, v in case.items() if k != 'est'})
    if case['est'] == 'productive':
        est = DefaultWorkEstimator()
        for k in ('driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer'):
            est.set_worker_productivity(IntervalGaussian(r.choice([.3, .5, 2.0]), .1, 0, 9), k)
            c = r.choice(pr.contractors).id
            est.set_worker_productivity(IntervalGaussian(r.choice([.3, .7, 3.0]), .1, 0, 9), k, c)
    cls, weights = FITNESS[case['fit']]
    seed, opt, mut, init_w = r.randint(0, 10 ** 6), r.random() < .3, r.choice([.1, .5]), [r.randint(1, 4) for _ in range(7)]
    dl = r.choice([1, 100, 1000, 10 ** 5])

    def alarm(*_):
        hung.append(case['seed'])
        raise CaseTimeout()

    def go(backend, project, estimator, spec, contractors):
        s = GeneticScheduler(number_of_generation=case['gens'], size_of_population=case['pop'], rand=Random(seed),
                             mutate_order=mut, mutate_resources=mut, sgs_type=SGS(case['sgs']), work_estimator=estimator,
                             fitness_constructor=cls(), fitness_weights=weights, optimize_resources=opt,
                             weights=list(init_w) if case['weights'] else None, is_multiobjective=case['fit'] == 'bi')
        if case['deadline']:
            s.set_deadline(Time(dl))
        old, SAMPO.backend = SAMPO.backend, backend
        signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, WALL)
        try:
            return s.schedule(project, contractors, spec, start_time=start)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            SAMPO.backend = old
            if isinstance(backend, MultiprocessingComputationalBackend) and backend._pool is not None:
                backend._pool.terminate()
                backend._pool.join()

    b = Watch(case['cpus'])
    answers = go(b, pr.wg, est, pr.spec, pr.contractors)
    obs.event(f'processes:{case["cpus"]}')
    obs.event('evaluations', sum(len(v) for _, _, v in b.log))
    (_, index2node, _, _, kinds, _, _, cons, *_) = prepare_optimized_data_structures(pr.wg, pr.contractors, LandscapeConfiguration(),
                                                                                    pr.spec)
    if not case['deadline']:  # resource search under a deadline puts teams to the specification
        sp = Space(pr, index2node, kinds, cons)
        for ind in b.first:
            for m, d in sp.errors(ind):
                obs.violate('population:' + m, d)
    obs.check(len(b.first) == case['pop'], 'population-size', f'{len(b.first)} != {case["pop"]}')
    for (f, cs, vs), ref in zip(b.log, b.pops):
        obs.check(vs == ref, 'values-differ', lambda: f'{type(f).__name__}: {vs} {ref}')
        obs.check(not any(2_000_000_000 in v for v in vs), 'invalid-chromosome', vs)
    best = value('bi' if case['fit'] == 'bi' else case['fit'], answers[0])
    if not case['deadline'] or opt:
        vals = [v for _, _, vs in b.log for v in vs]
        obs.check(tuple(map(float, best)) == min(tuple(map(float, v)) for v in vals), 'not-the-best-seen', lambda: f'{best} {vals}')
    for s in answers:
        for check in ('completeness', 'precedence', 'chains_ok'):
            obs.extend(getattr(oracle, check)(s, pr.wg))
        obs.extend(oracle.capacity(s, pr.wg, pr.contractors)[0])
        if not case['deadline']:
            obs.extend(oracle.spec_obeyed(s, pr.wg, pr.spec_plan))
            obs.extend(oracle.durations(s, pr.wg, est, pr.spec_plan))
    if case['seed'] % 2:
        # another number of processes, the same answer; a backend that has served another project before, too
        other = Watch({1: 2, 2: 1, 3: 1}[case['cpus']])
        pr2, est2, _, _ = sched.build(dict(seed=case['seed'] ^ 3, profile='plain', n=5))
        if case['seed'] % 4 == 1:
            go(other, pr2.wg, est2, pr2.spec, pr2.contractors)
            other.log.clear()
        again = go(other, pr.wg, est, pr.spec, pr.contractors)
        obs.check([(vs, cs) for _, cs, vs in other.log] == [(vs, cs) for _, cs, vs in b.log], 'depends-on-processes')
        obs.check([sched.signature(s) for s in again] == [sched.signature(s) for s in answers], 'answer-depends-on-processes')
        obs.event('repeated')
    obs.state([vs for _, _, vs in b.log])
    if len({v for _, _, vs in b.log for v in vs}) > 1:
        obs.nontrivial([vs for _, _, vs in b.log])
    obs.sample({'processes': case['cpus'], 'evaluations': [len(v) for _, _, v in b.log], 'answer': best})
