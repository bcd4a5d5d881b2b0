"""Feasibility: a schedule is refused exactly when some work has no contractor that is able (and allowed) to perform it."""
from random import Random

from rv import gen, oracle, sched

from sampo.pipeline import SchedulingPipeline
from sampo.schemas.exceptions import NoSufficientContractorError
from sampo.schemas.resources import Worker
from sampo.schemas.contractor import Contractor
from sampo.schemas.schedule_spec import ScheduleSpec

RULE = ('random projects with contractors that may lack kinds or people, and specifications that may allow only unable '
        'contractors x every scheduler; non-trivial: refused, or accepted though some contractor is unable to perform some '
        'work; distinct by project, contractors and scheduler')
ALGS = sched.HEURISTICS + ['gen_par', 'gen_ser', 'gen_lft', 'gen_par_res', 'gen_par_multi']


def cases(tier, seed):
    r = Random(f'P09-{seed}')
    k = 2 if tier == 'quick' else 20
    return [dict(seed=r.getrandbits(40), alg=ALGS[i % len(ALGS)]) for i in range(1000 * k)]


def run(case, obs):
    r = Random(case['seed'])
    works = gen.rand_works(r, r.randint(1, 14), chains=r.choice([0, .3]), kinds=r.randint(1, 3), min_zero=r.random() < .2,
                           services=.1)
    pr = gen.Project(works)
    pr.wg = gen.build_wg(works, r)
    kinds = {k: max([w.reqs[k][1] for w in works if k in w.reqs], default=1) for w in works for k in w.reqs}
    n = r.randint(1, 4)
    generous = r.random()
    for_each = []
    for c in range(n):
        ws = {}
        for k, top in kinds.items():
            x = r.random()
            if x < .12 * (1 - generous):
                continue
            ws[k] = Worker(f'{c}{k}', k, max(0, top + r.choice([0, 0, 1, 5, -1 if x < .4 else 0])))
        for_each.append(Contractor(f'c{c}', f'c{c}', workers=ws))
    spec = ScheduleSpec()
    allowed = {}
    if r.random() < .5:
        for w in works:
            if w.chain_prev is None and r.random() < .3:
                ids = {c.id for c in r.sample(for_each, r.randint(1, n))}
                spec.assign_contractors(w.id, set(ids))
                allowed[w.id] = ids
    fixed = {}
    if r.random() < .4:
        for w in works:
            if w.chain_prev is None and w.reqs and r.random() < .3:
                team = {k: r.randint(max(lo, 1), max(lo, hi, 1)) for k, (_, lo, hi) in w.reqs.items() if max(lo, 1) <= hi}
                if r.random() < .3:
                    team = dict(r.sample(sorted(team.items()), r.randint(0, len(team))))
                if team:
                    spec.assign_workers_dict(w.id, dict(team))
                    fixed[w.id] = team
        if fixed:
            obs.event('with-fixed-counts')
    head = lambda i: i if works[i].chain_prev is None else head(works[i].chain_prev)

    def options(i, w):
        ids = allowed.get(works[head(i)].id)
        team = fixed.get(works[head(i)].id, {})
        return [c for c in for_each if (ids is None or c.id in ids) and gen.able(c, w) and
                all(c.workers[k].count >= n for k, n in team.items())]

    # stages of a chain have the same requirements, so the chain is able when a stage is
    bad = [w.id for i, w in enumerate(works) if w.reqs and not options(i, w)]
    some_unable = any(not gen.able(c, w) for c in for_each for w in works if w.reqs)
    sch = sched.make_scheduler(case['alg'], r.randint(0, 10 ** 6), sched.ESTIMATORS['default'](), gens=1, pop=4)
    try:
        res = sch.schedule(pr.wg, for_each, spec)
        refused = False
    except NoSufficientContractorError:
        refused = True
    obs.event('refused' if refused else 'accepted')
    if bad and not refused:
        obs.violate('schedule-of-an-impossible-project', f'no contractor for {bad[:3]}')
    if refused and not bad:
        obs.violate('possible-project-refused', f'{case["alg"]}')
    if not refused and not bad:
        for s in res:
            obs.extend(oracle.completeness(s, pr.wg))
            for w in s.works:
                i = next((i for i, x in enumerate(works) if x.id == w.id), None)
                if i is not None and works[i].reqs:
                    obs.check(str(w.contractor_id) in [c.id for c in options(i, works[i])], 'given-to-an-unable-contractor')
    if r.random() < .3 and not allowed and not fixed:
        # the pipeline refuses before scheduling
        try:
            SchedulingPipeline.create().wg(pr.wg).contractors(for_each).schedule(
                sched.make_scheduler('topo', 1, sched.ESTIMATORS['default']()))
            obs.check(not bad, 'pipeline-accepts-an-impossible-project')
        except NoSufficientContractorError:
            obs.check(bool(bad), 'pipeline-refuses-a-possible-project')
        obs.event('pipelines')
    if refused or some_unable:
        obs.nontrivial([(w.id, w.reqs, fixed.get(w.id)) for w in works], [[(k, x.count) for k, x in c.workers.items()] for c in for_each], case['alg'])
    obs.sample({'impossible': bad[:3], 'refused': refused, 'contractors': n})
