"""Start shift and several projects on one timeline."""
from random import Random

from rv import gen, oracle, sched
from rv.oracle import tv

from sampo.schemas.time import Time

RULE = ('(a) one project scheduled from zero and from a later start must give the same schedule, shifted; (b) two to four '
        'projects scheduled one after another onto one timeline, each with its own start; non-trivial: (a) the shift is '
        'not zero, (b) works of different projects compete (overlap in time); distinct by schedule content')
SHIFT = ['heft', 'heftb', 'heft_scan', 'heft_avg', 'topo', 'lft']
SHARE = ['heft', 'heftb', 'heft_avg', 'heftb_avg', 'topo', 'rtopo', 'lft', 'rlft', 'gen_par', 'gen_ser']
PROFILES = ['plain', 'lags', 'chains', 'prio', 'edge', 'tight', 'special', 'specteam', 'spectime', 'specind', 'specmix']


def cases(tier, seed):
    r = Random(f'P08-{seed}')
    k = 1 if tier == 'quick' else 10
    out = []
    for i in range(500 * k):
        out.append(dict(kind='shift', seed=r.getrandbits(40), alg=SHIFT[i % len(SHIFT)], profile=r.choice(PROFILES)))
    for i in range(500 * k):
        out.append(dict(kind='share', seed=r.getrandbits(40), alg=SHARE[i % len(SHARE)]))
    return out


def run(case, obs):
    (shift if case['kind'] == 'shift' else share)(case, obs)


def shift(case, obs):
    by = Random(case['seed']).choice([1, 13, 100, 4321])
    views = []
    for start in (0, by):
        pr, est, _, r = sched.build(case)
        sch = sched.make_scheduler(case['alg'], r.randint(0, 10 ** 9), est)
        (s, st, tl, order), *_ = sch.schedule_with_cache(pr.wg, pr.contractors, pr.spec, assigned_parent_time=Time(start))
        obs.extend(oracle.shifted(s, Time(start)))
        obs.extend(oracle.precedence(s, pr.wg))
        obs.check(tv(st) >= start, 'returned-start-before-the-start', f'{st} {start}')
        # the two service works have random ids: they are seen through the others
        real = {n.id for n in pr.wg.nodes} - {pr.wg.start.id, pr.wg.finish.id}
        views.append(sorted((w.id, tv(w.start_time) - start, tv(w.finish_time) - start, str(w.contractor_id),
                             sorted((x.name, int(x.count)) for x in w.workers)) for w in s.works if w.id in real))
        obs.state(sched.signature(s))
    obs.check(views[0] == views[1], 'schedule-depends-on-the-start',
              lambda: str([(a, b) for a, b in zip(*views) if a != b][:3]))
    obs.event('shifted')
    obs.nontrivial(views[0], by)


def share(case, obs):
    r = Random(case['seed'])
    works_all, projects = [], []
    for p in range(r.randint(2, 4)):
        works = gen.rand_works(r, r.randint(1, 12), kinds=2, chains=r.choice([0, .3]), lags=r.choice(['none', 'int']))
        for w in works:
            w.id = f'p{p}-{w.id}'
        projects.append(works)
        works_all += works
    contractors = gen.rand_contractors(r, works_all, tight=.6)
    timeline = None
    scheds = []
    per = []
    for works in projects:
        wg = gen.build_wg(works, r)
        start = Time(r.choice([0, 0, 20, 100]))
        sch = sched.make_scheduler(case['alg'], r.randint(0, 10 ** 9), sched.ESTIMATORS['default']())
        (s, st, timeline, order), *_ = sch.schedule_with_cache(wg, contractors, assigned_parent_time=start,
                                                               timeline=timeline)
        obs.extend(oracle.completeness(s, wg))
        obs.extend(oracle.precedence(s, wg))
        obs.extend(oracle.shifted(s, start))
        obs.extend(oracle.durations(s, wg, sched.ESTIMATORS['default'](), {}))
        per.append((wg, s))
    # everything together, chains hold their teams
    total = []
    spans = []
    for wg, s in per:
        iv = oracle.intervals(s, wg)
        total += iv
        spans.append((min((x[3] for x in iv), default=0), max((x[4] for x in iv), default=0)))
    v, moments, full = oracle.capacity_of(total, contractors)
    obs.extend([('together:' + m, d) for m, d in v])
    obs.event('projects', len(per))
    obs.event('moments', moments)
    obs.event('moments-at-full-capacity', full)
    if any(a[0] < b[1] and b[0] < a[1] for i, a in enumerate(spans) for b in spans[:i]):
        obs.nontrivial([sched.signature(s) for _, s in per])
    obs.state([sched.signature(s) for _, s in per])
