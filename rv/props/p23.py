"""Saving and copying: what is loaded back, unpickled or copied is equal to what was saved, and serves as well as it."""
import copy
import json
import os
import pickle
import shutil
import tempfile
from enum import Enum
from random import Random

import dill
import numpy as np
import pandas as pd

from rv import gen, oracle, sched
from rv.props import p21
from rv.runner import Skip

from sampo.pipeline import SchedulingPipeline
from sampo.pipeline.lag_optimization import LagOptimizationStrategy as Lag
from sampo.schemas.contractor import Contractor
from sampo.schemas.graph import WorkGraph
from sampo.schemas.project import ScheduledProject
from sampo.schemas.requirements import ConstructionObjectReq, EquipmentReq, MaterialReq, WorkerReq, ZoneReq
from sampo.schemas.resources import ConstructionObject, Equipment, Material, Worker
from sampo.schemas.schedule import Schedule
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.schemas.serializable import AutoJSONSerializable, JSONSerializable, StrSerializable
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit
from sampo.schemas.zones import ZoneTransition
from sampo.scheduler.utils import get_worker_contractor_pool
from sampo.structurator.base import graph_restructuring
from sampo.utilities.serializers import custom_serializer

RULE = ('random graphs, restructured graphs, contractors, schedules, projects and small objects through strings, files, dictionaries '
        'read twice, pickle, dill and copies, twice in a row; compared field by field, and scheduled again; non-trivial: a graph '
        'with requirements, or a schedule with staffed works, came back; distinct by content')
TEXT = ['', 'plain', 'Работа №1 «б»', 'quote " and \\ and \n line', "it's", '名前', 'a,b;c\tend', '{"json": [1]}', 'nan', 'null']
# fields documented not to be saved
NOT_SAVED = {'Worker': {'productivity'}, 'ScheduledWork': {'equipments', 'materials', 'object', 'work_unit'},
             'ScheduledProject': {'raw_schedule', 'raw_wg'}}


def cases(tier, seed):
    r = Random(f'P23-{seed}')
    k = 1 if tier == 'quick' else 14
    out = []
    for kind, n in (('graph', 320), ('contractor', 160), ('schedule', 240), ('project', 120), ('small', 240), ('custom', 160)):
        out += [dict(kind=kind, seed=r.getrandbits(40)) for _ in range(n * k)]
    return out


def plain(x):
    """A value that is equal for equal objects; keeps the types apart where a user would notice."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, Time):
        return 'time', int(x.value)
    if isinstance(x, Enum):
        return 'enum', x.name
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return 'nan' if x != x else float(x)
    if isinstance(x, dict):
        return 'dict', sorted(((plain(k), plain(v)) for k, v in x.items()), key=repr)
    if isinstance(x, np.ndarray):
        return 'array', x.shape, [plain(v) for v in x.ravel().tolist()]
    if isinstance(x, (list, tuple)):
        return 'seq', [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return 'set', sorted((plain(v) for v in x), key=repr)
    if isinstance(x, pd.DataFrame):
        return 'frame', [str(c) for c in x.columns], [[plain(v) for v in row] for row in x.itertuples(index=False, name=None)]
    if isinstance(x, WorkGraph):
        return graph(x)
    if isinstance(x, Schedule):
        return plan(x)
    skip = NOT_SAVED.get(type(x).__name__, ())
    return type(x).__name__, sorted((k, plain(v)) for k, v in vars(x).items() if k not in skip)


def graph(wg):
    return ('graph', wg.start.id, wg.finish.id, wg.vertex_count, sorted(wg.dict_nodes),
            [(n.id, plain({k: v for k, v in vars(n.work_unit).items() if k != 'name'}),
              [(e.start.id, plain(e.lag), e.type.value) for e in n.edges_to],
              sorted((e.finish.id, repr(plain(e.lag)), e.type.value) for e in n.edges_from),
              [p.id for p in n.parents], sorted(c.id for c in n.children),
              n.inseparable_son and n.inseparable_son.id, n.inseparable_parent and n.inseparable_parent.id)
             for n in sorted(wg.nodes, key=lambda n: n.id)])


def matrix(wg):
    ids = [n.id for n in wg.nodes]
    m = wg.adj_matrix.tocoo()
    return sorted((ids[i], ids[j], float(v)) for i, j, v in zip(m.row, m.col, m.data))


def ordered(wg):
    place = {n.id: i for i, n in enumerate(wg.nodes)}
    return all(place[e.start.id] < place[n.id] for n in wg.nodes for e in n.edges_to)


def plan(s):
    df = s.full_schedule_df
    cols = [c for c in df.columns if c not in ('idx', 'scheduled_work_object')]
    return 'plan', plain(df[cols]), [plain(w) for w in s.works], plain(s.execution_time)


def own_nodes(wg):
    """The ends of the links are the very nodes of the graph."""
    mine = {id(n) for n in wg.nodes}
    return all(id(e.start) in mine and id(e.finish) in mine for n in wg.nodes for e in (*n.edges_to, *n.edges_from)) and \
        all(wg[n.id] is n for n in wg.nodes)


def ways(x, tmp, obs, r):
    """(name, what came back) for every way to save or copy x."""
    cls = type(x)
    text = x.dumps()
    obs.check(text == x.dumps(), 'two-saves-differ', cls.__name__)
    yield 'string', cls.loads(text)
    name = r.choice(['file', 'Имя файла', 'a.b', 'with space'])
    x.dump(tmp, name)
    obs.check(os.path.exists(os.path.join(tmp, name + '.json')), 'file-not-where-asked', name)
    yield 'file', cls.loadf(tmp, name)
    yield 'load', cls.load(tmp, name)
    d = json.loads(text)
    keep = copy.deepcopy(d)
    first = cls.loadd(d)
    obs.check(d == keep, 'representation-changed-by-loading', cls.__name__)
    yield 'dictionary', first
    yield 'dictionary-again', cls.loadd(d)
    yield 'twice', cls.loads(cls.loads(text).dumps())
    for way, f in (('pickle', lambda: pickle.loads(pickle.dumps(x))), ('dill', lambda: dill.loads(dill.dumps(x))),
                   ('deepcopy', lambda: copy.deepcopy(x))):
        yield way, f()


def same(x, tmp, obs, r, extra=None):
    want = plain(x)
    res = []
    for way, y in ways(x, tmp, obs, r):
        obs.event(f'way:{way}')
        if not obs.check(type(y) is type(x), f'another-type:{way}', f'{type(y)} {type(x)}'):
            continue
        got = plain(y)
        obs.check(got == want, f'{type(x).__name__}-differs:{way}', lambda: diff(want, got))
        if extra:
            extra(way, y)
        res.append((way, y))
    obs.check(plain(x) == want, f'{type(x).__name__}-changed-by-saving')
    return res


def diff(a, b, path=''):
    if type(a) is type(b) and isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {len(a)} {len(b)} items: {a} {b}'[:400]
        for i, (p, q) in enumerate(zip(a, b)):
            if p != q:
                return diff(p, q, f'{path}/{i}')
    return f'{path}: {a!r} {b!r}'[:400]


def rich_graph(r):
    while True:
        try:
            works = p21.make(r, r.random() < .5)
            break
        except Skip:
            pass
    wg = gen.build_wg(works, r if r.random() < .5 else None)
    for n in wg.nodes:
        u = n.work_unit
        if r.random() < .4:
            u.equipment_reqs = [EquipmentReq(r.choice(['crane', 'Кран']), r.randint(0, 5), r.choice([None, 'e']))]
            u.object_reqs = [ConstructionObjectReq('road', r.randint(0, 5)), ConstructionObjectReq('power', 1, 'p')]
        u.description = r.choice(TEXT)
        if r.random() < .5:
            u.display_name = r.choice(TEXT)
        if r.random() < .5:
            u.model_name.update(depth=r.choice([1, 2.5, None, True, 'x']), tags=['a', 'b'])
        if r.random() < .2:
            u.priority = np.int64(u.priority)
    return works, wg


def run(case, obs):
    r = Random(case['seed'])
    tmp = tempfile.mkdtemp(prefix='rv-p23-')
    try:
        globals()[f'run_{case["kind"]}'](case, r, tmp, obs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    obs.event(f'kind:{case["kind"]}')


def run_graph(case, r, tmp, obs):
    works, wg = rich_graph(r)
    if r.random() < .4:
        wg = graph_restructuring(wg, use_lag_edge_optimization=r.random() < .5)
    order = [n.id for n in wg.nodes]

    def extra(way, y):
        obs.check(own_nodes(y), f'nodes-of-another-graph:{way}')
        obs.check(not {id(n) for n in y.nodes} & {id(n) for n in wg.nodes}, f'nodes-shared:{way}')
        obs.check(matrix(y) == matrix(wg), f'adjacency-matrix-differs:{way}')
        obs.check(ordered(y), f'nodes-out-of-order:{way}')

    res = same(wg, tmp, obs, r, extra)
    # the copies live on when the other ones are gone, and a change of one is no change of another
    way, y = r.choice(res)
    want = plain(wg)
    del res
    obs.check(plain(y) == want, f'copy-lost-with-others:{way}')
    if way in ('string', 'file', 'load', 'dictionary', 'twice', 'pickle', 'deepcopy'):
        n = y[r.choice(order)]
        n.work_unit.model_name['granular_name'] = 'renamed'
        n.work_unit.worker_reqs.append(WorkerReq('driver', Time(5), 1, 2))
        obs.check(plain(wg) == want, f'copy-shares-state:{way}')
    if any(n.work_unit.worker_reqs for n in wg.nodes):
        obs.nontrivial([n.id for n in wg.nodes], want)
    frame(wg, obs)
    obs.state(order)


def frame(wg, obs):
    """The table of works tells the works and the links."""
    for full in (False, True):
        df = wg.to_frame(save_req=full)
        rows = {row['activity_id']: row for row in df.to_dict('records')}
        real = [n for n in wg.nodes if n not in (wg.start, wg.finish)]
        obs.check(list(df.activity_id) == [n.id for n in real], 'frame-lists-other-works')
        for n in real:
            u, row = n.work_unit, rows[n.id]
            obs.check((row['activity_name'], row['granular_name'], row['measurement'], row['volume'], row['priority']) ==
                      (u.display_name, u.model_name['granular_name'], u.model_name['measurement'], u.volume, u.priority),
                      'frame-tells-another-work', lambda: f'{row}')
            links = [(p, float(lag), t) for p, lag, t in
                     zip(row['predecessor_ids'].split(','), row['lags'].split(','), row['connection_types'].split(',')) if p]
            obs.check(links == [(e.start.id, float(e.lag), e.type.value) for e in n.edges_to if e.start is not wg.start],
                      'frame-tells-other-links', lambda: f'{row}')
            if full:
                obs.check((row['min_req'], row['max_req'], row['req_volume']) ==
                          tuple({q.kind: int(v) for q, v in ((q, getattr(q, a)) for q in u.worker_reqs)}
                                for a in ('min_count', 'max_count', 'volume')), 'frame-tells-other-requirements', lambda: f'{row}')
        obs.event('frames')


def make_contractors(r, works):
    cs = gen.rand_contractors(r, works, costs=True)
    for c in cs:
        if r.random() < .4:
            c.equipments = {k: Equipment(f'e-{k}', k, r.randint(0, 9), c.id) for k in r.sample(['crane', 'Кран', 'van'], 2)}
        if r.random() < .3:
            c.name = r.choice(TEXT)
    return cs


def run_contractor(case, r, tmp, obs):
    works = gen.rand_works(r, r.randint(1, 8))
    wg = gen.build_wg(works, r)
    cs = make_contractors(r, works)
    sets = {}
    for c in cs:
        for way, y in same(c, tmp, obs, r):
            sets.setdefault(way, []).append(y)
            obs.check(list(y.workers) == list(c.workers), f'kinds-reordered:{way}')
            for k, w in y.workers.items():
                obs.check(w.copy().count == c.workers[k].count and w.get_cost() == c.workers[k].get_cost() and
                          w.get_agent_id() == c.workers[k].get_agent_id(), f'worker-serves-differently:{way}')
    # plans with the loaded contractors are the plans with the original ones
    seed = r.getrandbits(30)
    alg = r.choice(['heft', 'heftb', 'topo', 'lft'])

    def schedule(contractors):
        s = sched.make_scheduler(alg, seed, sched.DefaultWorkEstimator()).schedule(wg, contractors)[0]
        return sched.signature(s), [plain(w.cost) for w in s.works]

    want = schedule(cs)
    for way, ys in sets.items():
        obs.check(schedule(ys) == want, f'contractors-serve-differently:{way}')
        pool = get_worker_contractor_pool(ys)
        obs.check({k: {c: w.count for c, w in d.items()} for k, d in pool.items()} ==
                  {k: {c: w.count for c, w in d.items()} for k, d in get_worker_contractor_pool(cs).items()}, f'pool-differs:{way}')
    obs.nontrivial(want, [plain(c) for c in cs])


def run_schedule(case, r, tmp, obs):
    works = gen.rand_works(r, r.randint(1, 14), chains=r.choice([0, .3]), lags='int', priorities=r.random() < .3)
    wg = gen.build_wg(works, r)
    cs = make_contractors(r, works)
    alg = r.choice(['heft', 'heftb', 'topo', 'lft', 'heft_avg'])
    s = sched.make_scheduler(alg, r.getrandbits(30), sched.DefaultWorkEstimator()).schedule(wg, cs, start_time=Time(r.choice([0, 9])))[0]
    for w in s.works:
        if r.random() < .3:
            w.zones_pre = [ZoneTransition('z', r.randint(0, 2), r.randint(0, 2), w.start_time, w.start_time)]
            w.zones_post = [ZoneTransition(r.choice(TEXT), 1, 2, w.finish_time, w.finish_time + 4)]
    if r.random() < .5:
        s = s.unite_stages()

    def extra(way, y):
        obs.check({k: sched.tv(v.start_time) if hasattr(sched, 'tv') else oracle.tv(v.start_time)
                   for k, v in y.to_schedule_work_dict.items()} ==
                  {k: oracle.tv(v.start_time) for k, v in s.to_schedule_work_dict.items()}, f'dict-view-differs:{way}')
        obs.check(plain(y.pure_schedule_df.drop(columns='idx')) == plain(s.pure_schedule_df.drop(columns='idx'))
                  if any(not w.is_service_unit for w in s.works) else True, f'pure-view-differs:{way}')
        obs.check(plan(y.unite_stages()) == united, f'united-differs:{way}')

    united = plan(s.unite_stages())
    same(s, tmp, obs, r, extra)
    w = r.choice(list(s.works))
    same(w, tmp, obs, r)
    if any(x.workers for x in s.works):
        obs.nontrivial(sched.signature(s), plain(s.works.iloc[0]))
    obs.state(sched.signature(s))


def run_project(case, r, tmp, obs):
    works = gen.rand_works(r, r.randint(1, 10), chains=r.choice([0, .3]), edge_mix=r.choice([(), ('SS', 'FF'), ('FFS',)]))
    wg = gen.build_wg(works, r)
    cs = make_contractors(r, works)
    p = SchedulingPipeline.create().wg(wg).contractors(cs).lag_optimize(r.choice([Lag.TRUE, Lag.FALSE])) \
        .schedule(sched.make_scheduler(r.choice(['heft', 'heftb', 'topo']), 1, sched.DefaultWorkEstimator())).finish()[0]
    text = p.dumps()
    p.dump(tmp, 'project')
    want = plain(p)
    for way, y in (('string', ScheduledProject.loads(text)), ('file', ScheduledProject.load(tmp, 'project')),
                   ('twice', ScheduledProject.loads(ScheduledProject.loads(text).dumps()))):
        obs.event(f'way:{way}')
        got = plain(y)
        obs.check(got == want, f'ScheduledProject-differs:{way}', lambda: diff(want, got))
        obs.check(own_nodes(y.wg), f'nodes-of-another-graph:{way}')
    obs.check(plain(p) == want, 'ScheduledProject-changed-by-saving')
    obs.nontrivial(sched.signature(p.schedule))


def run_small(case, r, tmp, obs):
    t = lambda: Time(r.choice([0, 1, -3, r.randint(0, 10 ** 6), 10 ** 10]))
    num = lambda: r.choice([0, 1, r.randint(0, 10 ** 9), np.int64(7), np.int32(3)])
    name = lambda: r.choice(TEXT)
    for x in (t(), WorkerReq(name(), t(), num(), num(), name()), MaterialReq(name(), num(), name()), ZoneReq(name(), num()),
              EquipmentReq(name(), num(), None), ConstructionObjectReq(name(), num()), Worker(name(), name(), num(), name()),
              Material(name(), name(), num(), r.choice([1, 2.5])), Equipment(name(), name(), num(), name()),
              ConstructionObject(name(), name(), num()), ZoneTransition(name(), num(), num(), t(), t()),
              WorkUnit(name(), {'granular_name': name(), 'measurement': name(), 'k': r.choice([None, 1, [1, 'a']])},
                       [WorkerReq(name(), t())], [EquipmentReq(name(), num())], [MaterialReq(name(), num())],
                       [ConstructionObjectReq(name(), num())], [ZoneReq(name(), num(), name())], name(), name(), num(),
                       r.random() < .5, r.random() * 100, name())):
        same(x, tmp, obs, r)
        obs.nontrivial(plain(x))


class Part(AutoJSONSerializable['Part']):
    def __init__(self, a, b):
        self.a, self.b = a, b


class Whole(AutoJSONSerializable['Whole']):
    """A user's class with fields of all kinds that are promised to be saved on their own."""
    ignored_fields = ['secret']

    def __init__(self, r):
        self.flag = r.random() < .5
        self.none = None
        self.number = r.choice([0, -1, 10 ** 15])
        self.real = r.choice([0.0, -1.5, 1e300, 0.1])
        self.text = r.choice(TEXT)
        self.list = [r.choice([1, 'x', None, True, [2]]) for _ in range(r.randint(0, 4))]
        self.dict = {r.choice(['a', 'б', '_']): r.choice([1, [1], {'q': None}]) for _ in range(r.randint(0, 3))}
        self.array = np.array([[r.random() for _ in range(3)] for _ in range(r.randint(1, 3))])
        self.ints = np.array([r.randint(-5, 5) for _ in range(r.randint(1, 4))])
        self.frame = pd.DataFrame({c: [r.choice([1.5, 2.0, -7.25]) for _ in range(3)] for c in r.sample(['a', 'b', 'с'], 2)})
        self.words = pd.DataFrame({'w': [r.choice(['x', 'a,b', 'q"q', 'я']) for _ in range(3)], 'n': [1, 2, 3]})
        self.i32, self.i64 = np.int32(r.randint(0, 9)), np.int64(r.randint(0, 10 ** 12))
        self.part = Part(Part(1, Time(r.randint(0, 9))), r.choice(TEXT))
        self.time = Time(r.randint(0, 99))
        self.code = r.random()
        self.tag = complex(r.randint(0, 9), 1)
        self.secret = object()

    @custom_serializer('code')
    def save_code(self, value):
        return {'code': repr(value)}

    @classmethod
    @custom_serializer('code', deserializer=True)
    def load_code(cls, value):
        return float(value['code'])

    @custom_serializer(complex)
    def save_complex(self, value):
        return [value.real, value.imag]

    @classmethod
    @custom_serializer(complex, deserializer=True)
    def load_complex(cls, value):
        return complex(*value)


class Line(StrSerializable['Line']):
    def __init__(self, text):
        self.text = text

    def _serialize(self):
        return self.text[::-1]

    @classmethod
    def _deserialize(cls, s):
        return cls(s[::-1])


class Pair(JSONSerializable['Pair']):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def _serialize(self):
        return {'b': self.b, 'a': self.a}

    @classmethod
    def _deserialize(cls, d):
        return cls(d['a'], d['b'])


NOT_SAVED['Whole'] = {'secret', 'tag'}


def run_custom(case, r, tmp, obs):
    x = Whole(r)
    keep = x.secret
    for way, y in (('string', Whole.loads(x.dumps())), ('twice', Whole.loads(Whole.loads(x.dumps()).dumps()))):
        obs.event(f'way:{way}')
        obs.check(plain(y) == plain(x), f'Whole-differs:{way}', lambda: diff(plain(x), plain(y)))
        obs.check(y.tag == x.tag and type(y.tag) is complex, f'own-serializer-of-a-type:{way}')
        obs.check(y.secret is None and x.secret is keep, f'ignored-field:{way}')
        obs.check(type(y.i32) is np.int32 and type(y.i64) is np.int64 and type(y.part.a) is Part and type(y.time) is Time,
                  f'type-lost:{way}')
    text = r.choice(TEXT).replace('\n', ' ')
    Line(text).dump(tmp, 'line')
    obs.check(Line.load(tmp, 'line').text == text, 'text-differs', text)
    p = Pair(r.choice(TEXT), {'x': [1, None]})
    p.dump(tmp, 'pair')
    q = Pair.load(tmp, 'pair')
    obs.check((q.a, q.b) == (p.a, p.b), 'pair-differs')
    # an object that cannot be saved is refused rather than saved wrong
    bad = Part(1, {1, 2})
    try:
        bad.dumps()
        obs.violate('unsavable-saved')
    except (ValueError, TypeError):
        obs.event('refused')
    obs.nontrivial(plain(x))
