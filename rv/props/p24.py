"""Tables of a schedule: every view shows the same works; united stages keep totals; the validator knows good from bad."""
from ast import literal_eval
from copy import deepcopy
from datetime import datetime, timedelta
from random import Random

from rv import gen, sched
from rv.oracle import tv
from rv.props import p21
from rv.runner import Skip

from sampo.schemas.schedule import Schedule
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.schemas.time import Time
from sampo.structurator.base import graph_restructuring

RULE = ('schedules of randomised schedulers over plain and restructured graphs with costs and rich work models: all tables against '
        'the works, united and dated tables against the stages; non-trivial: some work has stages or costs; distinct by schedule')
ALGS = ['heft', 'heftb', 'topo', 'lft', 'heft_avg', 'gen_ser', 'gen_par']


def cases(tier, seed):
    r = Random(f'P24-{seed}')
    return [dict(seed=r.getrandbits(40), alg=ALGS[i % len(ALGS)] if i % 3 else ALGS[i % 5], stages=i % 4 != 3, opt=bool(i % 2))
            for i in range(330 if tier == 'quick' else 5500)]


def run(case, obs):
    r = Random(case['seed'])
    while True:
        try:
            works = p21.make(r, case['opt'])
            break
        except Skip:
            pass
    for w in works:
        w.materials, w.zones = {}, {}
    wg = gen.build_wg(works, r)
    extra = {}
    for n in wg.nodes:
        if r.random() < .3:
            n.work_unit.model_name[r.choice(['category', 'a', 'zz'])] = r.choice(['x', 'y'])
        extra[n.id] = dict(n.work_unit.model_name)
    if case['stages']:
        target = graph_restructuring(wg, use_lag_edge_optimization=case['opt'])
    else:
        # without restructuring only dependencies that lists of parents know are scheduled
        target = wg
    cs = gen.rand_contractors(r, works, costs=r.random() < .8)
    est = sched.ESTIMATORS['default']()
    sch = sched.make_scheduler(case['alg'], r.randint(0, 10 ** 6), est, gens=1, pop=5)
    start = Time(r.choice([0, 0, 13]))
    s = sch.schedule(target, cs, start_time=start)[0]
    nodes = {n.id: n.work_unit for n in target.nodes}
    rows = table(s, nodes, cs, target, obs)
    st = {i: p21.stage_ids(works, i, case['opt']) if case['stages'] else [(w.id, 0, 1)] for i, w in enumerate(works)}
    united(s, works, wg, st, rows, extra, r, obs)
    obs.state(sched.signature(s))
    if any(len(x) > 1 for x in st.values()):
        obs.event('stages-united', sum(len(x) > 1 for x in st.values()))
        obs.nontrivial(sched.signature(s))
    rebuilt(s, target, r, obs)


def price(workers, cs, duration):
    cost = {(c.id, k): w.cost_one_unit for c in cs for k, w in c.workers.items()}
    return sum(cost[(w.contractor_id, w.name)] * int(w.count) for w in workers) * duration


def table(s, nodes, cs, wg, obs):
    df = s.full_schedule_df
    works = list(s.works)
    names = {c.id: c.name or c.id for c in cs}
    obs.check(list(df.task_id) == [w.id for w in works] and len(works) == len(nodes), 'rows')
    by = s.to_schedule_work_dict
    obs.check(set(by) == set(nodes) and all(by[w.id] is w for w in works), 'work-dict')
    obs.check(tv(s.execution_time) == max(tv(w.finish_time) for w in works), 'execution-time')
    res = {}
    for (_, row), w in zip(df.iterrows(), works):
        obs.event('rows')
        wu = nodes[w.id]
        a, b = tv(w.start_time), tv(w.finish_time)
        obs.check((int(row.start), int(row.finish), int(row.duration)) == (a, b, b - a), 'row-times', f'{row.start} {a}')
        obs.check(row.task_name == wu.display_name and row.volume == wu.volume and w.volume == wu.volume, 'row-names-and-volume')
        obs.check(row.scheduled_work_object is w, 'row-object')
        obs.check(literal_eval(row.workers) == {x.name: int(x.count) for x in w.workers}, 'row-workers')
        obs.check((w.is_service_unit, w.priority, w.display_name) == (wu.is_service_unit, wu.priority, wu.display_name),
                  'work-attributes')
        if w.contractor_id:
            obs.check(row.contractor == names[w.contractor_id], 'row-contractor', f'{row.contractor} {w.contractor_id}')
        want = price(w.workers, cs, b - a)
        obs.check(abs(row.cost - want) < 1e-6 and abs(w.cost - want) < 1e-6, 'row-cost', f'{row.cost} {want}')
        for k, v in wu.model_name.items():
            obs.check(k in df.columns and row[k] == v, 'row-model-entry', lambda: f'{k} {v} {row.get(k)}')
        d = w.to_dict()
        obs.check((d['task_id'], d['start'], d['finish'], d['workers']) ==
                  (w.id, a, b, {x.name: int(x.count) for x in w.workers}), 'work-to-dict')
        res[w.id] = w
    pos = {w.id: i for i, w in enumerate(works)}
    starts = [tv(w.start_time) for w in works]
    obs.check(starts == sorted(starts), 'rows-not-ordered-by-start')
    obs.check(all(pos[p.id] < pos[n.id] for n in wg.nodes for p in n.parents), 'rows-not-in-topological-order')
    pure = s.pure_schedule_df
    obs.check(list(pure.task_id) == [w.id for w in works if not nodes[w.id].is_service_unit], 'pure-rows')
    obs.check('scheduled_work_object' not in pure.columns and 'granular_name' in pure.columns, 'pure-columns')
    return res


def united(s, works, wg, st, rows, extra, r, obs):
    before = s.full_schedule_df.copy(deep=True)
    raw = {i: (w.display_name, dict(w.model_name), w.volume, w.start_end_time, w.cost) for i, w in rows.items()}
    u = s.unite_stages()
    offsets = [datetime(2021, 3, 1), '2022-01-31', datetime(2020, 2, 28, 6, 30)]
    r.shuffle(offsets)
    tables = [(o, s.merged_stages_datetime_df(o)) for o in offsets]
    obs.check(before.drop(columns='scheduled_work_object').equals(
        s.full_schedule_df.drop(columns='scheduled_work_object')), 'schedule-changed-by-uniting')
    obs.check(all((w.display_name, dict(w.model_name), w.volume, w.start_end_time, w.cost) == raw[i] for i, w in rows.items())
              and all(a is b for a, b in zip(before.scheduled_work_object, s.works)), 'works-changed-by-uniting')
    got = {w.id: w for w in u.works}
    frame = {row.task_id: row for _, row in u.full_schedule_df.iterrows()}
    want_ids = {w.id for w in works} | {wg.start.id, wg.finish.id}
    if not obs.check(set(got) == want_ids and len(u.full_schedule_df) == len(want_ids), 'united-rows'):
        return
    dated = [(o, {row.task_id: row for _, row in t.iterrows()}) for o, t in tables]
    for (o, d), (_, t) in zip(dated, tables):
        obs.check(set(d) == want_ids and len(t) == len(want_ids), 'dated-rows')
        obs.check(list(t.start) == sorted(t.start), 'dated-rows-not-ordered')
        obs.check(sorted(t.idx) == list(range(len(t))), 'dated-rows-idx')
    stages = {w.id: [x[0] for x in st[i]] for i, w in enumerate(works)}
    stages[wg.start.id], stages[wg.finish.id] = [wg.start.id], [wg.finish.id]
    for wid in want_ids:
        part = [rows[x] for x in stages[wid]]
        a, b = min(tv(p.start_time) for p in part), max(tv(p.finish_time) for p in part)
        wu = wg[wid].work_unit
        g, row = got[wid], frame[wid]
        cost = sum(p.cost for p in part)
        obs.check((tv(g.start_time), tv(g.finish_time)) == (a, b), 'united-interval', f'{g.start_end_time} {(a, b)}')
        obs.check((int(row.start), int(row.finish), int(row.duration)) == (a, b, b - a), 'united-row-times')
        obs.check(abs(g.cost - cost) < 1e-6 and abs(row.cost - cost) < 1e-6, 'united-cost', f'{g.cost} {row.cost} {cost}')
        obs.check(abs(g.volume - wu.volume) < 1e-6 and abs(row.volume - wu.volume) < 1e-6, 'united-volume')
        obs.check(g.display_name == wu.display_name and row.task_name == wu.display_name, 'united-display-name', g.display_name)
        obs.check(g.model_name == extra[wid] and wu.model_name == extra[wid], 'united-model-name', f'{g.model_name} {extra[wid]}')
        obs.check({x.name: int(x.count) for x in g.workers} == {x.name: int(x.count) for x in part[0].workers}, 'united-workers')
        obs.check(g.contractor_id == part[-1].contractor_id and g.is_service_unit == wu.is_service_unit, 'united-attributes')
        for o, d in dated:
            q = d[wid]
            base = o if isinstance(o, datetime) else datetime.strptime(o, '%Y-%m-%d')
            obs.check(q.start == base + timedelta(days=a) and q.finish == base + timedelta(days=b), 'dated-times',
                      f'{q.start} {q.finish} {base} {a} {b}')
            obs.check(int(q.duration) == b - a, 'dated-duration', f'{q.duration} {a} {b}')
            obs.check(abs(q.cost - cost) < 1e-6 and abs(q.volume - wu.volume) < 1e-6 and q.task_name == wu.display_name,
                      'dated-totals')
    obs.check(tv(u.execution_time) == tv(s.execution_time), 'united-execution-time')
    obs.event('united')


def rebuilt(s, wg, r, obs):
    """A schedule made of given works, in any order, with and without the graph."""
    ws = list(s.works)
    r.shuffle(ws)
    t = Schedule.from_scheduled_works(ws)
    obs.check([w.id for w in t.works] == [w.id for w in ws], 'given-order-changed')
    obs.check(tv(t.execution_time) == max(tv(w.finish_time) for w in ws), 'execution-time-of-given-order')
    t = Schedule.from_scheduled_works(ws, wg)
    starts = [tv(w.start_time) for w in t.works]
    pos = {w.id: i for i, w in enumerate(t.works)}
    obs.check(starts == sorted(starts) and all(pos[p.id] < pos[n.id] for n in wg.nodes for p in n.parents), 'rebuilt-order')
    obs.check(sched.signature(t) == sched.signature(s), 'rebuilt-works')
