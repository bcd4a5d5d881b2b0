"""The scheduling pipeline: what was asked for through its options is what the scheduler gets and the user sees."""
import inspect
import os
from random import Random

import pandas as pd

from rv import gen, land, oracle, sched
from rv.oracle import tv
from rv.props import p21
from rv.runner import Skip

from sampo.generator.environment import ContractorGenerationMethod, get_contractor_by_wg
from sampo.pipeline import SchedulingPipeline
from sampo.pipeline.lag_optimization import LagOptimizationStrategy as Lag
from sampo.scheduler.timeline import JustInTimeTimeline
from sampo.scheduler.utils.critical_path import critical_path_graph
from sampo.scheduler.utils.time_computaion import calculate_working_time_cascade, work_priority
from sampo.scheduler.utils.local_optimization import ScheduleLocalOptimizer
from sampo.schemas.contractor import Contractor
from sampo.schemas.resources import Worker
from sampo.schemas.schedule_spec import ScheduleSpec
from sampo.schemas.time import Time
from sampo.structurator.base import graph_restructuring

RULE = ('random projects with links of all kinds through the pipeline with every option (lag optimization, specification, start, '
        'estimator, landscape, validation): the plan against the project as given and against the scheduler called directly on '
        'the restructured graph; non-trivial: some work is split, specified or materials are delivered; distinct by schedule')
ALGS = ['heft', 'heftb', 'topo', 'lft', 'heft_avg', 'rtopo', 'rlft', 'gen_ser', 'gen_par']


class Probe(ScheduleLocalOptimizer):
    """Takes the place of a local optimizer of the schedule and records what it gets to work on."""

    def __init__(self):
        super().__init__(JustInTimeTimeline)
        self.area = range(1, 7)
        self.seen = []

    def optimize(self, *args, **kwargs):
        names = list(inspect.signature(ScheduleLocalOptimizer.optimize).parameters)[1:]
        got = {**dict(zip(names, args)), **kwargs}
        self.seen.append(got)
        return got['scheduled_works']

    def judge(self, obs, got, p, pr, start, net):
        obs.event('local-optimizers-seen')
        heads = {n.id for n in p.raw_wg.nodes if not n.is_inseparable_son()}
        order = [n.id for n in got['node_order']]
        obs.check(sorted(order) == sorted(heads), 'optimizer-gets-another-order', f'{sorted(heads)} {sorted(order)}')
        obs.check({n.id for n in got['scheduled_works']} == {w.id for w in p.raw_schedule.works}, 'optimizer-gets-another-plan')
        obs.check([c.id for c in got['contractors']] == [c.id for c in pr.contractors] and got['area'] == self.area
                  and tv(got['assigned_parent_time']) == tv(start), 'optimizer-gets-other-options')
        if net:
            obs.check(got['landscape_config'] is net.config, 'optimizer-gets-other-options')


def cases(tier, seed):
    r = Random(f'P33-{seed}')
    out = []
    for i in range(480 if tier == 'quick' else 6000):
        out.append(dict(seed=r.getrandbits(40), alg=ALGS[i % 7] if i % 6 else ALGS[7 + i // 6 % 2],
                        lag=['TRUE', 'FALSE', 'AUTO', 'none'][r.randrange(4)], land=r.random() < .15))
    return out


def make(r, opt, plain):
    while True:
        try:
            works = p21.make(r, opt)
        except Skip:
            continue
        if plain:
            for w in works:
                w.parents = [(p, lag, t if t in ('FS', 'IFS') else 'FS') for p, lag, t in w.parents]
                seen = set()
                w.parents = [x for x in w.parents if not (x[0] in seen or seen.add(x[0]))]
        for w in works:
            w.materials, w.zones = {}, {}
        return works


def links_respected(works, st, rows, opt, obs):
    for i, w in enumerate(works):
        s, f = tv(rows[st[i][0][0]].start_time), tv(rows[st[i][-1][0]].finish_time)
        for p, lag, t in w.parents:
            ps, pf = tv(rows[st[p][0][0]].start_time), tv(rows[st[p][-1][0]].finish_time)
            obs.event(f'link:{t}')
            if t in ('FS', 'IFS'):
                obs.check(s >= pf + (lag if t == 'FS' else 0), f'plan-breaks:{t}', f'{s} {pf} {lag}')
            elif t == 'SS':
                obs.check(s >= ps, 'plan-breaks:SS', f'{s} {ps}')
            elif t == 'FF':
                obs.check(f >= pf, 'plan-breaks:FF', f'{f} {pf}')
            else:
                obs.check((s >= pf) if not opt else (s >= ps and f >= pf), 'plan-breaks:FFS', f'{(s, f)} {(ps, pf)}')


def longest_path(wg, length):
    """The greatest total length of works along a way through the dependencies, chains counted as a whole."""
    head, chains = oracle.chain_map(wg)
    size = {h: length(h, ids) for h, ids in chains.items()}
    up = {h: set() for h in chains}
    for n in wg.nodes:
        for e in n.edges_to:
            if head[e.start.id] != head[n.id]:
                up[head[n.id]].add(head[e.start.id])
    best = {}

    def go(h):
        todo = [h]
        while todo:
            x = todo[-1]
            rest = [y for y in up[x] if y not in best]
            if rest:
                todo += rest
                continue
            best[x] = size[x] + max((best[y] for y in up[x]), default=0)
            todo.pop()
        return best[h]

    total = max(go(h) for h in chains)
    return total, size, up, head


def run(case, obs):
    r = Random(case['seed'])
    lag = case['lag']
    materials = case['land']
    opt = {'TRUE': True, 'FALSE': False, 'none': False}.get(lag)
    works = make(r, bool(opt), plain=materials)
    if lag == 'AUTO' and not materials:
        for o in (False, True):
            for i in range(len(works)):
                bs = sorted(p21.boundaries(works, i, o))
                if any(0 < b - a < 1e-9 for a, b in zip(bs, bs[1:])):
                    raise Skip('boundaries equal up to rounding')
    pr = gen.Project(works)
    pr.wg = gen.build_wg(works, r)
    form = r.choice(['list', 'list', 'frame', 'file', 'method'])
    pr.contractors = gen.rand_contractors(r, works, n=r.choice([1, 2, 3]), costs=form == 'list' and r.random() < .3)
    net = None
    if materials:
        for w in works:
            if not w.service and w.chain_prev is None:
                w.materials = {m: r.randint(1, 40) for m in ('m1', 'm2') if r.random() < .6}
        pr.wg = gen.build_wg(works, r)
        net = land.material_net(r, works, pr.wg)
    given_contractors = contractors_as(form, pr, r)
    mix = r.choice([{}, dict(time=.4), dict(independent=.3)]) if form == 'method' else \
        r.choice([{}, dict(contractors=.5), dict(full_team=.4), dict(part_team=.4), dict(time=.4), dict(independent=.3),
                  dict(contractors=.2, full_team=.2, part_team=.2, time=.2)])
    gen.rand_spec(r, pr, **mix)
    start = Time(r.choice([0, 0, 11, 365]))
    est_name = r.choice(['default', 'default', 'slow', 'zero'])
    sseed = r.randint(0, 10 ** 6)

    def scheduler():
        return sched.make_scheduler(case['alg'], sseed, sched.ESTIMATORS[est_name](), gens=1, pop=5)

    pipe = SchedulingPipeline.create().wg(pr.wg).contractors(given_contractors)
    obs.event(f'contractors:{form}')
    opts = [lambda p: p.time_shift(start), lambda p: p.work_estimator(sched.ESTIMATORS[est_name]())]
    if lag != 'none':
        opts.append(lambda p: p.lag_optimize(Lag[lag]))
    if pr.spec_plan or r.random() < .5:
        opts.append(lambda p: p.spec(pr.spec))
    if net:
        opts.append(lambda p: p.landscape(net.config))
    r.shuffle(opts)
    for o in opts:
        pipe = o(pipe)
    given = p21.snapshot(pr.wg)
    validate = r.random() < .3 and not pr.spec_plan
    probe = Probe()
    planned = pipe.schedule(scheduler(), validate=validate)
    if r.random() < .5:
        planned = planned.optimize_local(probe, probe.area)
    projects = planned.finish()
    obs.check(len(projects) >= 1, 'no-project')
    obs.check(p21.snapshot(pr.wg) == given, 'graph-given-changed')

    # the scheduler on its own
    direct = {}
    sch = scheduler()
    for o in ([opt] if lag != 'AUTO' else [False, True]):
        wg = graph_restructuring(pr.wg, use_lag_edge_optimization=o)
        ids = {i: p21.stage_ids(works, i, o) for i in range(len(works))}
        direct[o] = (wg, ids, [x[0] for x in sch.schedule_with_cache(
            wg, pr.contractors, stage_spec(pr, works, ids), assigned_parent_time=start,
            **(dict(landscape=net.config) if net else {}))])
    sigs = {o: [sched.signature(s) for s in x[2]] for o, x in direct.items()}
    got = [sched.signature(p.raw_schedule) for p in projects]
    obs.check(got in list(sigs.values()), f'plan-differs-from-the-scheduler:{lag}', lambda: f'{got} {sigs}')
    if lag == 'AUTO':
        times = {o: min(tv(s.execution_time) for s in x[2]) for o, x in direct.items()}
        mine = min(tv(p.raw_schedule.execution_time) for p in projects)
        obs.check(mine == min(times.values()), 'auto-not-the-best', f'{mine} {times}')
        obs.event('auto:better-with-lags', times[True] < times[False])
        obs.event('auto:better-without', times[True] > times[False])
    for num, p in enumerate(projects):
        obs.event('projects')
        obs.event(f'lag:{lag}')
        rows = {w.id: w for w in p.raw_schedule.works}
        chosen = [o for o, x in direct.items() if {n.id for n in x[0].nodes} == set(rows)]
        if not obs.check(chosen and p.wg is pr.wg and hired(p.contractors) == hired(pr.contractors)
                         and {n.id for n in p.raw_wg.nodes} == set(rows), 'project-incomplete'):
            continue
        o = chosen[0]
        if lag == 'AUTO' and len(chosen) > 1:
            o = next((c for c in chosen if sched.signature(p.raw_schedule) in sigs[c]), o)
        st = direct[o][1]
        if probe.seen:
            probe.judge(obs, probe.seen[num], p, pr, start, net)
        obs.extend(oracle.completeness(p.raw_schedule, p.raw_wg))
        obs.extend(oracle.precedence(p.raw_schedule, p.raw_wg))
        obs.extend(oracle.shifted(p.raw_schedule, start))
        obs.extend(oracle.capacity(p.raw_schedule, p.raw_wg, pr.contractors)[0])
        head = {wid: st[next(i for i, w in enumerate(works) if w.id == wid)][0][0] for wid in pr.spec_plan}
        raw_plan = {head[k]: e for k, e in pr.spec_plan.items()}
        obs.extend(oracle.spec_obeyed(p.raw_schedule, p.raw_wg, raw_plan))
        obs.extend(oracle.durations(p.raw_schedule, p.raw_wg, sched.ESTIMATORS[est_name](), raw_plan))
        links_respected(works, st, rows, o, obs)
        united = {w.id: w for w in p.schedule.works}
        if obs.check(set(united) == {n.id for n in pr.wg.nodes}, 'works-lost'):
            for i, w in enumerate(works):
                part = [rows[x[0]] for x in st[i]]
                obs.check((tv(united[w.id].start_time), tv(united[w.id].finish_time)) ==
                          (min(tv(x.start_time) for x in part), max(tv(x.finish_time) for x in part)), 'united-interval')
        total, size, up, heads = longest_path(p.raw_wg, lambda h, ids: sum(tv(rows[i].finish_time) - tv(rows[i].start_time) for i in ids))
        path = p.critical_path()
        obs.check(all(pr.wg[n.id] is n for n in path), 'critical-path-of-other-works')
        hs = list(dict.fromkeys(heads[n.id] for n in path))
        obs.check(len(hs) == len(path), 'critical-path-repeats', f'{[n.id for n in path]}')
        obs.check(sum(size[h] for h in hs) == total, 'critical-path-not-the-longest', f'{[n.id for n in path]} {total}')
        obs.check(all(a in up[b] for a, b in zip(hs, hs[1:])), 'critical-path-broken', f'{hs}')
        # before anything is planned the path is measured by the works themselves
        est = sched.ESTIMATORS[est_name]()
        total, size, up, heads = longest_path(p.raw_wg, lambda h, ids: work_priority(
            p.raw_wg[h], calculate_working_time_cascade, est))
        hs = [n.id for n in critical_path_graph([n for n in p.raw_wg.nodes if not n.is_inseparable_son()], est)]
        obs.check(all(h in size for h in hs) and abs(sum(size[h] for h in hs + [p.raw_wg.finish.id]) - total) < 1e-6,
                  'critical-path-of-the-graph-not-the-longest', f'{hs} {total}')
        obs.check(all(a in up[b] for a, b in zip(hs, hs[1:])), 'critical-path-of-the-graph-broken', f'{hs}')
        split = sum(len(x) > 1 for x in st.values())
        obs.event('split-works', split)
        obs.event('specified-works', len(pr.spec_plan))
        trips = len(land.deliveries(p.raw_schedule)) if net else 0
        obs.event('deliveries', trips)
        obs.state(sched.signature(p.raw_schedule))
        if split or pr.spec_plan or trips:
            obs.nontrivial(sched.signature(p.raw_schedule), lag)
        obs.sample({'works': len(works), 'split': split, 'lag': lag, 'time': tv(p.schedule.execution_time)})


def hired(contractors):
    return [(c.id, c.name, {k: (w.name, int(w.count), w.contractor_id) for k, w in c.workers.items()}) for c in contractors]


def contractors_as(form, pr, r):
    """The contractors as one may give them to the pipeline; pr.contractors become what they have to be understood as."""
    if form == 'list':
        return pr.contractors
    if form == 'method':
        method, n, scaler = r.choice(list(ContractorGenerationMethod)), r.randint(1, 3), r.choice([1, 1.5, 3])
        pr.contractors = [get_contractor_by_wg(pr.wg, method=method, scaler=scaler, contractor_id=str(i),
                                               contractor_name=f'Contractor {i + 1}') for i in range(n)]
        return method, n, scaler
    kinds = sorted({k for c in pr.contractors for k in c.workers})
    # an empty name of a file is not text
    rows = [{'contractor_id': c.id, 'name': c.name or 'OOO', **{k: c.workers[k].count if k in c.workers else 0 for k in kinds}}
            for c in pr.contractors]
    frame = pd.DataFrame(rows)
    pr.contractors = [Contractor(str(x['contractor_id']), x['name'], workers={k: Worker(k, k, x[k]) for k in kinds}) for x in rows]
    if form == 'frame':
        return frame
    path = os.path.join(os.environ['RV_SCRATCH'], f'contractors-{r.getrandbits(40)}.csv')
    frame.to_csv(path, sep=';', index=False)
    return path


def stage_spec(pr, works, ids):
    spec = ScheduleSpec()
    for i, w in enumerate(works):
        e = pr.spec_plan.get(w.id)
        if not e:
            continue
        for sid, *_ in ids[i]:
            x = spec.get_work_spec(sid)
            x.contractors = set(e.get('contractors', ()))
            x.assigned_workers = dict(e.get('team') or e.get('part') or {})
            x.assigned_time = Time(e['time']) if 'time' in e else None
            x.is_independent = bool(e.get('independent'))
    return spec
