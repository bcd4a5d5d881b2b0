"""The validator accepts the schedules that can be executed and refuses corrupted ones."""
import copy
from random import Random

from rv import oracle, sched
from rv.oracle import tv

from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
from sampo.scheduler.utils import get_worker_contractor_pool
from sampo.schemas.contractor import Contractor
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.resources import Worker
from sampo.schemas.schedule import Schedule
from sampo.schemas.time import Time
from sampo.utilities.validation import validate_schedule

RULE = ('valid schedules of randomised schedulers, each corrupted in one of eleven ways that an independent oracle confirms, and schedulers told to validate with a timeline that forgets works; '
        'non-trivial: a corruption was confirmed and judged; distinct by schedule and corruption')
PROFILES = ['plain', 'dense', 'lags', 'chains', 'special', 'spec', 'specteam', 'tight', 'specmix']
ALGS = ['heft', 'heftb', 'topo', 'lft', 'heft_avg', 'rtopo']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    out = sched.mk_cases(seed, 'P25', 3000 * k, PROFILES, ALGS)
    return out + sched.mk_cases(seed, 'P25asked', 420 * k, ['tight', 'plain', 'dense'], list(TIMELINES), asked=True)


class ForgetfulJIT(JustInTimeTimeline):
    def update_timeline(self, *args, **kwargs):
        pass


class ForgetfulMomentum(MomentumTimeline):
    def update_timeline(self, *args, **kwargs):
        pass


# which timeline each scheduler accepts from its caller
TIMELINES = {'heft': ForgetfulJIT, 'heftb': ForgetfulMomentum, 'topo': ForgetfulMomentum, 'lft': ForgetfulMomentum,
             'rlft': ForgetfulMomentum, 'gen_par': ForgetfulJIT, 'gen_ser': ForgetfulMomentum}


def asked(case, obs):
    """A scheduler that is told to validate its answer refuses the one that a caller's timeline spoils."""
    pr, est, start, _ = sched.build(case)

    def plan(validate):
        tl = TIMELINES[case['alg']](get_worker_contractor_pool(pr.contractors), LandscapeConfiguration())
        sch = sched.make_scheduler(case['alg'], case['seed'] & 0xffff, est)
        return [x[0] for x in sch.schedule_with_cache(pr.wg, pr.contractors, pr.spec, validate, start, tl)]

    bad = any(oracle.capacity(s, pr.wg, pr.contractors)[0] for s in plan(False))
    obs.event('asked:spoiled' if bad else 'asked:fine')
    try:
        plan(True)
        refused = False
    except AssertionError:
        refused = True
    obs.check(refused == bad, 'asked:spoiled-schedule-returned' if bad else 'asked:valid-schedule-refused')
    if bad:
        obs.nontrivial(case['seed'], case['alg'])


def rejects(works, pr, contractors=None):
    try:
        validate_schedule(Schedule.from_scheduled_works(works), pr.wg, pr.contractors if contractors is None else contractors, pr.spec)
    except (AssertionError, KeyError, IndexError, ValueError):
        return True
    return False


def run(case, obs):
    if case.get('asked'):
        return asked(case, obs)
    pr, est, start, res = sched.run(case, obs)
    s = res[0]
    bad = oracle.completeness(s, pr.wg) + oracle.precedence(s, pr.wg) + oracle.capacity(s, pr.wg, pr.contractors)[0] + \
        oracle.teams(s, pr.wg, pr.contractors) + oracle.spec_obeyed(s, pr.wg, pr.spec_plan)
    if bad:
        obs.event('schedules-not-valid-to-begin-with')   # judged by P01-P07
        return
    before = sched.signature(s)
    obs.check(not rejects(list(s.works), pr), 'valid-schedule-refused')
    try:
        validate_schedule(s, pr.wg, pr.contractors, pr.spec)
    except AssertionError as e:
        obs.violate('valid-schedule-refused', e)
    obs.check(sched.signature(s) == before, 'schedule-changed-by-validation')
    r = Random(case['seed'] ^ 0x51)
    done = []
    for name, f in CORRUPT.items():
        ws = [copy.copy(w) for w in s.works]
        for w in ws:
            w.workers = [copy.copy(x) for x in w.workers]
        out = f(r, ws, pr)
        if out is None:
            continue
        obs.event(f'corrupted:{name}')
        done.append(name)
        obs.check(rejects(out[0], pr, out[1] if len(out) > 1 else None), f'accepted:{name}')
    if done:
        obs.nontrivial(before, done)
    obs.sample({'works': len(s.works), 'corruptions': done})


def pick(r, items):
    items = list(items)
    return r.choice(items) if items else None


def drop(r, ws, pr):
    w = r.choice(ws)
    return [x for x in ws if x is not w],


def early(r, ws, pr):
    by = {w.id: w for w in ws}
    c = pick(r, [(n, p) for n in pr.wg.nodes for p in n.parents if by[p.id].duration > 0 and by[p.id].finish_time > 0])
    if c is None:
        return None
    n, p = c
    w = by[n.id]
    d = w.duration
    at = by[p.id].finish_time - r.randint(1, tv(by[p.id].duration))
    w.start_end_time = (at, at + d)
    return ws,


def lag(r, ws, pr):
    by = {w.id: w for w in ws}
    c = pick(r, [(n, e) for n in pr.wg.nodes for e in n.edges_to if e.type.value == 'FS' and int(e.lag) > 0])
    if c is None:
        return None
    n, e = c
    w, d = by[n.id], by[n.id].duration
    at = by[e.start.id].finish_time + r.randrange(int(e.lag))
    # its children may start earlier than it finishes now only if it finished even earlier before
    w.start_end_time = (at, at + d)
    return ws,


def backwards(r, ws, pr):
    w = pick(r, [w for w in ws if w.duration > 0])
    if w is None:
        return None
    w.start_end_time = (w.finish_time, w.start_time)
    return ws,


def contractor(r, ws, pr):
    w = pick(r, [w for w in ws if pr.spec_plan.get(w.id, {}).get('contractors')])
    if w is None:
        return None
    other = pick(r, [c for c in pr.contractors if c.id not in pr.spec_plan[w.id]['contractors']])
    if other is None:
        return None
    w.contractor_id = other.id
    return ws,


def service(r, ws, pr):
    w = next(w for w in ws if w.id == pr.wg.finish.id)
    w.finish_time = w.finish_time + r.randint(1, 9)
    return ws,


def few(r, ws, pr):
    c = pick(r, [(w, x, q) for w in ws for x in w.workers for q in pr.wg[w.id].work_unit.worker_reqs
                 if q.kind == x.name and q.min_count > 0])
    if c is None:
        return None
    w, x, q = c
    x.count = r.randint(0, q.min_count - 1)
    return ws,


def many(r, ws, pr):
    c = pick(r, [(w, x, q) for w in ws for x in w.workers for q in pr.wg[w.id].work_unit.worker_reqs if q.kind == x.name])
    if c is None:
        return None
    w, x, q = c
    x.count = q.max_count + r.randint(1, 3)
    # there are plenty of people: only the bound of the requirement is broken
    cs = [Contractor(id=k.id, name=k.name, workers={n: Worker(v.id, n, v.count + 1000) for n, v in k.workers.items()},
                     equipments={}) for k in pr.contractors]
    return ws, cs


def foreign(r, ws, pr):
    w = pick(r, [w for w in ws if w.workers])
    if w is None:
        return None
    w.workers = w.workers + [Worker('x', 'astronaut', 1, contractor_id=w.contractor_id)]
    return ws,


def missing(r, ws, pr):
    w = pick(r, [w for w in ws if any(q.min_count > 0 for q in pr.wg[w.id].work_unit.worker_reqs)])
    if w is None:
        return None
    kind = r.choice([q.kind for q in pr.wg[w.id].work_unit.worker_reqs if q.min_count > 0])
    w.workers = [x for x in w.workers if x.name != kind]
    return ws,


def overused(r, ws, pr):
    """Takes people away from a contractor until its peak is one too many."""
    items = [(w.contractor_id, x.name, int(x.count), tv(w.start_time), tv(w.finish_time), w.id)
             for w in ws for x in w.workers if w.duration > 0 and x.count]
    peaks = {k: max(l for _, l in line) for k, line in oracle.usage_sweep(items).items()}
    k = pick(r, peaks)
    if k is None:
        return None
    cs = [Contractor(id=c.id, name=c.name, workers={n: Worker(v.id, n, peaks[k] - 1 if (c.id, n) == k else v.count)
                                                    for n, v in c.workers.items()}, equipments={}) for c in pr.contractors]
    return ws, cs


def stranger(r, ws, pr):
    w = pick(r, [w for w in ws if w.workers and w.duration > 0])
    if w is None:
        return None
    return ws, [c for c in pr.contractors if c.id != w.contractor_id]


CORRUPT = dict(drop=drop, early=early, lag=lag, backwards=backwards, contractor=contractor, service=service, few=few, many=many,
               foreign=foreign, missing=missing, overused=overused, stranger=stranger)
