"""Online reference models of the two resource timelines, driven in lock step with the real ones."""
from __future__ import annotations

from random import Random

from rv import oracle

from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
from sampo.scheduler.utils import get_worker_contractor_pool
from sampo.schemas.contractor import Contractor
from sampo.schemas.graph import EdgeType, GraphNode
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.requirements import WorkerReq
from sampo.schemas.resources import Worker
from sampo.schemas.schedule_spec import WorkSpec
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator
from sampo.schemas.works import WorkUnit


class GivenTimes(DefaultWorkEstimator):
    """Every work lasts its volume, whatever the team."""

    def estimate_time(self, work_unit, worker_list):
        return Time(int(work_unit.volume))


class Profile:
    """Usage of one kind of one contractor: the set of busy intervals."""

    def __init__(self, capacity):
        self.capacity = capacity
        self.busy = []  # start, finish, count

    def free(self, a, b):
        """The least number of free workers over [a, b)."""
        points = [a] + [s for s, _, _ in self.busy if a < s < b]
        return self.capacity - max(sum(c for s, f, c in self.busy if s <= p < f) for p in points)

    def ends(self):
        return [f for _, f, _ in self.busy]

    def starts(self):
        return [s for s, _, _ in self.busy]


class Releases:
    """When each of the workers of one kind of one contractor is free for good."""

    def __init__(self, capacity):
        self.at = [0] * capacity

    def earliest(self, count):
        return sorted(self.at)[count - 1] if count else 0

    def take(self, count, finish):
        self.at.sort()
        self.at = self.at[count:] + [finish] * count


def drive(case, obs, momentum: bool):
    r = Random(case['seed'])
    kinds = ['a', 'b', 'c'][:r.randint(1, 3)]
    n_con = r.randint(1, 3)
    caps = [{k: r.randint(1, r.choice([2, 6, 15])) for k in kinds} for _ in range(n_con)]
    contractors = [Contractor(f'c{i}', f'c{i}', workers={k: Worker(f'{i}{k}', k, c, contractor_id=f'c{i}')
                                                         for k, c in cap.items()}) for i, cap in enumerate(caps)]
    pool = get_worker_contractor_pool(contractors)
    land = LandscapeConfiguration()
    tl = (MomentumTimeline if momentum else JustInTimeTimeline)(pool, land)
    est = GivenTimes()
    node2swork = {}
    start = r.choice([0, 0, 5, 1000])
    zero = GraphNode(WorkUnit('start', 'start', is_service_unit=True), [])
    tl.schedule(zero, node2swork, [], contractors[0], WorkSpec(), Time(start), None, Time(start), est)
    model = [{k: (Profile(c) if momentum else Releases(c)) for k, c in cap.items()} for cap in caps]
    last = 0
    hist = []
    indep = r.random() < .4
    for i in range(r.randint(2, 30)):
        ci = r.randrange(n_con)
        reqs = r.sample(kinds, r.randint(1, len(kinds)))
        stages = r.choice([1, 1, 1, 2, 3])
        durs = [r.choice([0, 1, 2, r.randint(1, 12), r.randint(1, 60)]) for _ in range(stages)]
        parents = [n for n in r.sample(list(node2swork), min(len(node2swork), r.randint(1, 3))) if n is not zero] \
            if r.random() < .5 else []
        parents = [n for n in parents if not n.inseparable_son]
        lags = {n: r.choice([0, 0, 1, 9]) for n in parents}
        node = None
        for j, d in enumerate(durs):
            wu = WorkUnit(f'{i}-{j}', f'{i}-{j}', worker_reqs=[WorkerReq(k, Time(1), 1, 99) for k in reqs], volume=d)
            edges = [(p, lags[p], EdgeType.FinishStart) for p in parents] if j == 0 else \
                [(node, 0, EdgeType.InseparableFinishStart)]
            if j == 0:
                head = node = GraphNode(wu, edges + [(zero, 0, EdgeType.FinishStart)])
            else:
                node = GraphNode(wu, edges)
        team = [pool[k][f'c{ci}'].copy().with_count(r.randint(1, caps[ci][k])) for k in reqs]
        want = {w.name: w.count for w in team}
        total = sum(durs)
        floor = max([oracle.tv(node2swork[p].finish_time) + lags[p] for p in parents] + [start])
        parent_time = floor if r.random() < .6 else r.randint(start, max(start, last + 20))
        alone = indep and r.random() < .3
        spec = WorkSpec(is_independent=alone)
        lo = max(floor, parent_time)
        expect = earliest(model[ci], want, lo, total, momentum, alone)
        got = oracle.tv(tl.find_min_start_time(head, team, node2swork, spec, Time(parent_time), est))
        obs.event('queries')
        ctx = lambda: f'{case["seed"]} step {i} team {want} of c{ci} {total} h after {lo}: {got}, model {expect}; {hist[-6:]}'
        if got < expect:
            obs.violate('slot-has-no-free-workers' if got >= lo else 'slot-before-parents', ctx())
        elif got > expect:
            obs.violate('not-the-earliest-slot', ctx())
        if got != expect:
            return
        at = expect
        mode = r.random()
        if mode < .3:
            # the moment query, on promising and hopeless moments
            for t in {expect, max(start, expect - r.randint(1, 5)), expect + r.randint(0, 9), max(lo, start)}:
                if t < lo and momentum:
                    continue
                ok = feasible(model[ci], want, t, total, momentum, alone) and t >= max(floor, 0)
                if total == 0 and momentum:
                    continue
                ans = tl.can_schedule_at_the_moment(head, team, spec, node2swork, Time(t), Time(total))
                obs.event('moment-queries')
                obs.event('moment-yes' if ok else 'moment-no')
                obs.event('moment-alone', alone)
                obs.check(bool(ans) == ok, 'moment-answer-is-wrong' if ok else 'moment-granted-without-workers',
                          lambda: f'at {t} answered {ans}; ' + ctx())
        if mode > .7:
            # start later than needed where the model allows it
            for t in (expect + r.randint(1, 30), expect + r.randint(30, 200)):
                if feasible(model[ci], want, t, total, momentum, alone):
                    at = t
                    break
        explicit = at != expect or r.random() < .5
        ft = tl.schedule(head, node2swork, team, contractors[ci], spec, Time(at) if explicit else None, None,
                         Time(parent_time), est)
        cur = at
        for n in head.get_inseparable_chain_with_self():
            sw = node2swork[n]
            d = int(n.work_unit.volume)
            obs.check((oracle.tv(sw.start_time), oracle.tv(sw.finish_time)) == (cur, cur + d), 'work-not-placed-as-asked',
                      lambda: f'{sw.start_time}..{sw.finish_time} instead of {cur}..{cur + d}; ' + ctx())
            obs.check({w.name: w.count for w in sw.workers} == want and sw.contractor_id == f'c{ci}', 'team-changed')
            cur += d
        obs.check(oracle.tv(ft) == cur, 'wrong-finish-returned', lambda: f'{ft} {cur}')
        for k, c in want.items():
            if momentum:
                if total:
                    model[ci][k].busy.append((at, cur, caps[ci][k] if alone else c))
            else:
                model[ci][k].take(caps[ci][k] if alone else c, cur)
        last = max(last, cur)
        hist.append((f'c{ci}', want, at, cur, alone) if alone else (f'c{ci}', want, at, cur))
        waited = expect > lo
        gap = expect < last and momentum
        obs.event('placed')
        obs.event('had-to-wait', waited)
        obs.event('placed-before-later-works', at < max([h[3] for h in hist[:-1] if h[0] == f'c{ci}'], default=0))
        if waited:
            obs.nontrivial(hist)
    obs.state(hist)
    obs.sample({'history': hist[:5]})


def feasible(model, want, t, total, momentum, alone):
    if momentum:
        if alone and total:
            return all(t >= e for k in want for e in model[k].ends())
        return total == 0 or all(model[k].free(t, t + total) >= c for k, c in want.items())
    return all((max(model[k].at) if alone else model[k].earliest(c)) <= t for k, c in want.items())


def earliest(model, want, lo, total, momentum, alone):
    if not momentum:
        return max([lo] + [max(model[k].at) if alone else model[k].earliest(c) for k, c in want.items()])
    cand = sorted({lo} | {e for k in want for e in model[k].ends() if e > lo})
    return next(t for t in cand if feasible(model, want, t, total, True, alone))
