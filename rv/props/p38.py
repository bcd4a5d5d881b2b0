"""Structure estimation: sub works come as the generator says, after their parents and before the end, and nothing else changes."""
import math
from collections import Counter, defaultdict
from random import Random

import numpy as np

from rv import gen, oracle, sched, view
from rv.oracle import tv

from sampo.generator.environment import ContractorGenerationMethod, get_contractor_by_wg
from sampo.pipeline import SchedulingPipeline
from sampo.pipeline.preparation import PreparationPipeline
from sampo.scheduler.heft import HEFTScheduler
from sampo.scheduler.topological.base import TopologicalScheduler
from sampo.schemas.contractor import Contractor
from sampo.schemas.interval import IntervalGaussian, IntervalUniform
from sampo.schemas.requirements import WorkerReq, ZoneReq
from sampo.schemas.resources import Worker
from sampo.schemas.structure_estimator import DefaultStructureEstimator, DefaultStructureGenerationEstimator, StructureGenerationEstimator
from sampo.schemas.time import Time
from sampo.schemas.time_estimator import DefaultWorkEstimator

RULE = ('restructurings of graphs by structure estimators with default and own generators, planned afterwards, directly and while preparing a project; '
        'non-trivial: works were added; distinct by the shape of what was added')
PROFILES = ['plain', 'dense', 'lags', 'chains', 'edge', 'special', 'prio', 'big']
KINDS = ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']


def cases(tier, seed):
    r = Random(f'P38-{seed}')
    k = 2 if tier == 'quick' else 25
    out = []
    for kind, n in (('restruct', 420), ('prepare', 60), ('rates', 24)):
        for i in range(n * k):
            out.append(dict(kind=kind, seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)], est='default'))
    return out


def run(case, obs):
    globals()[f'run_{case["kind"]}'](case, obs)
    obs.event(f'kind:{case["kind"]}')


class Own(StructureGenerationEstimator):
    """A user's own generator: by id, with volumes of its own."""

    def __init__(self, table, volume):
        self.table, self.volume = table, volume

    def generate_probabilities(self, parent):
        return self.table.get(parent.id, {})

    def get_volume(self, parent, target):
        return self.volume(parent.id, target)


class Edgy(Random):
    """Draws its border often."""

    def random(self):
        x = super().random()
        return 0.0 if x < .3 else x


class Team(DefaultWorkEstimator):
    """Requirements that tell the name and the volume they were asked for."""

    def find_work_resources(self, model_name, work_volume, resource_name=None):
        n = sum(map(ord, str(model_name)))
        kinds = sorted({KINDS[n % 6], KINDS[(n // 6) % 6]})
        return [WorkerReq(kind=k, volume=Time(math.ceil(work_volume) + i), min_count=1 + (n + i) % 2, max_count=2 + (n + i) % 3)
                for i, k in enumerate(kinds)]


class Full(Team):
    """Of all kinds, as preparation drops requirements of kinds its estimator never names."""

    def find_work_resources(self, model_name, work_volume, resource_name=None):
        n = sum(map(ord, str(model_name)))
        return [WorkerReq(kind=k, volume=Time(math.ceil(work_volume) + i), min_count=1 + (n + i) % 2, max_count=2 + (n + i) % 3)
                for i, k in enumerate(KINDS)]


def table(r, works, key):
    """{key of a work: {name of a sub work: probability}}, and what of it concerns which work."""
    names = ['sub ' + chr(97 + i) for i in range(r.randint(1, 5))] + r.choice([[], ['крыша'], [works[0].name]])
    out = {}
    for w in works:
        if r.random() < .6:
            out.setdefault(key(w), {x: r.choice([0, 0.0, 1, 1.0, .5, .1, .9, 2]) for x in r.sample(names, r.randint(0, len(names)))})
    if r.random() < .3:
        out['nobody'] = {'sub z': 1.0}
    return out


def default_generator(r, rand, tab):
    g = DefaultStructureGenerationEstimator(rand)
    mode = r.choice(['all', 'each', 'mixed'])
    given = {p: dict(c) for p, c in tab.items()}
    if mode == 'all':
        assert_chain(g, g.set_probabilities(given))
    else:
        if mode == 'mixed':
            g.set_probabilities({p: dict(list(c.items())[:1]) for p, c in list(given.items())[:len(given) // 2]})
        for p, c in given.items():
            for x, q in c.items():
                assert_chain(g, g.set_probability(p, x, q))
    return g, mode


def assert_chain(a, b):
    if a is not b:
        raise AssertionError('setters do not answer the estimator itself')


def setup(case):
    """Project, how to make an estimator (the same each time), the probabilities by work and the allowed volumes."""
    pr, est, start, r = sched.build(case)
    works = [w for w in pr.works if not w.service]
    for n in pr.wg.nodes:
        if not n.work_unit.is_service_unit and r.random() < .3:
            n.work_unit.zone_reqs = [ZoneReq(f'z{i}', r.randint(0, 2)) for i in range(r.randint(1, 2))]
    own = r.random() < .35 or not works
    names = {n.id: n.work_unit.name for n in pr.wg.nodes}
    key = (lambda w: w.id) if own else (lambda w: names[w.id])
    tab = table(r, works, key) if works else {}
    probs = {w.id: tab.get(key(w), {}) for w in works}
    lo, hi = r.choice([(1, 1), (1, 4), (.5, 9), (3, 30)])
    seed, setting = r.getrandbits(30), r.getrandbits(30)
    vol = r.choice(['default', 'uniform', 'gauss'])
    team = r.random() < .7
    edgy = r.random() < .15

    def make():
        q, rand = Random(setting), (Edgy if edgy else Random)(seed)
        if own:
            g = Own(tab, lambda p, t: lo + (sum(map(ord, p + t)) % 100) * (hi - lo) / 100)
        else:
            g, _ = default_generator(q, rand, tab)
            if vol == 'uniform':
                assert_chain(g, g.set_volume_interval(IntervalUniform(lo, hi, rand=rand)))
            elif vol == 'gauss':
                assert_chain(g, g.set_volume_interval(IntervalGaussian((lo + hi) / 2, (hi - lo) / 4, lo, hi, rand=rand)))
        se = DefaultStructureEstimator(g, rand)
        if team:
            assert_chain(se, se.set_work_estimator(Team()))
        asked = []
        f = g.get_volume
        g.get_volume = lambda p, t: asked.append((p.id, t, f(p, t))) or asked[-1][2]
        return se, asked
    bounds = (lo, hi) if own or vol != 'default' else (.1, 10)
    return pr, start, r, make, probs, bounds, team, own


def subs_of(wg, old_ids):
    return [n for n in wg.nodes if n.id not in old_ids]


def judge(obs, old, wg, probs, bounds, team, asked=None, same_ids=True):
    """`old`: picture of the given graph. Answers the added works, as (parent, name, volume, requirements)."""
    was = {n[0]: n for n in old[3]}
    subs = subs_of(wg, was)
    sub_ids = {s.id for s in subs}
    obs.check(wg.start.id == old[0] and wg.finish.id == old[1], 'ends-changed', f'{wg.start.id} {wg.finish.id} instead of {old[:2]}')
    obs.check(wg.vertex_count == len(was) + len(subs) == len(wg.nodes), 'count-of-vertices', f'{wg.vertex_count}, {len(was)} + {len(subs)}')
    got = {n.id: n for n in wg.nodes}
    obs.check(len(got) == len(wg.nodes), 'repeated-node', 'two nodes of one id')
    for i, n in was.items():
        if i not in got:
            obs.violate('work-lost', f'{i}')
            continue
        u = view.unit(got[i].work_unit)
        obs.check(u == n[1], 'work-changed', f'{i}: {u} instead of {n[1]}')
        e = [[e.start.id, e.type.value, repr(e.lag)] for e in got[i].edges_to if e.start.id not in sub_ids]
        obs.check(sorted(e) == sorted(n[2]), 'links-changed', f'{i}: {e} instead of {n[2]}')
        for e in got[i].edges_to:
            if e.start.id in sub_ids:
                obs.check(i == wg.finish.id and e.type.value == 'FS' and e.lag == 0, 'sub-work-before-work', f'{e.start.id} -> {i} {e.type} {e.lag}')
    by_parent = defaultdict(Counter)
    shape = []
    for s in subs:
        u = s.work_unit
        par = [(e.start.id, e.type.value, e.lag) for e in s.edges_to]
        chi = [(e.finish.id, e.type.value, e.lag) for e in s.edges_from]
        obs.check(len(par) == 1 and par[0][1:] == ('FS', 0) and par[0][0] in was, 'sub-work-not-after-one-parent', f'{par}')
        obs.check(chi == [(wg.finish.id, 'FS', 0)], 'sub-work-not-before-end', f'{chi}')
        if not par or par[0][0] not in was:
            continue
        p = par[0][0]
        name = u.model_name.get('granular_name')
        obs.check(u.display_name == name and not u.is_service_unit and u.model_name.get('measurement'), 'sub-work-named', f'{u.model_name} {u.display_name}')
        by_parent[p][name] += 1
        obs.check(bounds[0] - 1e-9 <= u.volume <= bounds[1] + 1e-9, 'volume-outside', f'{u.volume} not in {bounds}')
        obs.check(not was[p][1][8], 'sub-work-of-service', f'{p}')
        obs.check([[q.kind, q.required_status, q.name] for q in u.zone_reqs] == was[p][1][13], 'zones-of-parent', f'{u.zone_reqs} instead of {was[p][1][13]}')
        if team:
            want = [(q.kind, tv(q.volume), q.min_count, q.max_count) for q in Team().find_work_resources(name, u.volume)]
            obs.check([(q.kind, tv(q.volume), q.min_count, q.max_count) for q in u.worker_reqs] == want, 'requirements-of-sub-work',
                      f'{name} {u.volume}: {u.worker_reqs} instead of {want}')
        else:
            obs.check(sorted(q.kind for q in u.worker_reqs) == sorted(KINDS), 'requirements-of-sub-work', f'{u.worker_reqs}')
        shape.append((p, name, u.volume, tuple((q.kind, tv(q.volume), q.min_count, q.max_count) for q in u.worker_reqs)))
    if asked is not None:
        obs.check(not Counter((p, x, v) for p, x, v, _ in shape) - Counter(asked), 'volume-not-asked', f'asked {asked[:4]}, got {[s[:3] for s in shape][:4]}')
    zones = [id(n.work_unit.zone_reqs) for n in wg.nodes]
    obs.check(len(zones) == len(set(zones)), 'zones-shared', 'requirements to zones are shared by works')
    if probs is not None:
        for p in was:
            for x, c in by_parent[p].items():
                obs.check(c == 1, 'sub-work-twice', f'{p} {x} {c}')
                obs.check(probs.get(p, {}).get(x, 0) > 0, 'impossible-sub-work', f'{x} after {p}: {probs.get(p)}')
            for x, q in probs.get(p, {}).items():
                if q >= 1:
                    obs.check(by_parent[p][x] == 1, 'certain-sub-work-missing', f'{x} after {p}')
    return sorted(shape)


def run_restruct(case, obs):
    pr, start, r, make, probs, bounds, team, own = setup(case)
    old = view.graph(pr.wg)
    runs = []
    for i in range(2):
        se, asked = make()
        np.random.seed(case['seed'] % 2 ** 32)
        wg = se.restruct(pr.wg)
        obs.check(view.graph(pr.wg) == old, 'given-graph-changed', f'run {i}')
        runs.append(judge(obs, old, wg, probs, bounds, team, asked))
    obs.check(runs[0] == runs[1], 'seed-not-kept', f'{runs[0][:3]} then {runs[1][:3]}')
    obs.event('own-generator' if own else 'default-generator')
    # changes of the answer stay there
    node = r.choice(wg.nodes)
    node.work_unit.zone_reqs.append(ZoneReq('later', 1))
    node.work_unit.worker_reqs.append(WorkerReq('later', Time(1), 1, 1))
    node.work_unit.model_name['later'] = 1
    obs.check(view.graph(pr.wg) == old, 'given-graph-shared', 'changing the answer changes what was given')
    node.work_unit.zone_reqs.pop()
    node.work_unit.worker_reqs.pop()
    del node.work_unit.model_name['later']
    if runs[1]:
        obs.nontrivial('restruct', tuple(s[:2] for s in runs[1]), len(pr.wg.nodes))
        obs.state(tuple(s[:2] for s in runs[1])[:12])
        for n in wg.nodes:
            n.work_unit.zone_reqs.clear()
        plan(obs, wg, old, pr, r)


def plan(obs, wg, old, pr, r):
    """The new graph can be planned, sub works take their place in it."""
    need = Counter()
    for n in wg.nodes:
        for q in n.work_unit.worker_reqs:
            need[q.kind] = max(need[q.kind], q.min_count, 1)
    team = {k: Worker(f'w{k}', k, c + r.randint(0, 3), 'all') for k, c in need.items()}
    if any(n.work_unit.priority != 1 for n in wg.nodes):
        return
    cs = [Contractor('all', 'all', team, {})]
    est = DefaultWorkEstimator()
    for k in team:
        if k not in KINDS:
            est.set_worker_productivity(IntervalUniform(1, 1), k) if k in est._productivity else est._productivity.setdefault(k, dict(est._productivity['driver']))
    s = r.choice([HEFTScheduler, TopologicalScheduler])(work_estimator=est).schedule(wg, cs)[0]
    for m, d in oracle.completeness(s, wg) + oracle.precedence(s, wg) + oracle.capacity(s, pr.wg, cs)[0]:
        obs.violate(f'plan:{m}', d)
    sw = oracle.sw_map(s)
    for n in subs_of(wg, {x[0] for x in old[3]}):
        p = n.edges_to[0].start.id
        obs.check(tv(sw[n.id].start_time) >= tv(sw[p].finish_time), 'plan:sub-work-early', f'{n.id} at {sw[n.id].start_time}, parent {sw[p].finish_time}')
        obs.check(tv(sw[n.id].finish_time) <= tv(sw[wg.finish.id].start_time), 'plan:end-before-sub-work', f'{n.id}')
    obs.event('planned')


def run_prepare(case, obs):
    """A structure estimator given to the preparation is used by both ways to finish it."""
    r = Random(case['seed'])
    works = gen.rand_works(r, r.randint(2, 10))
    wg = gen.build_wg(works, r)
    names = {n.work_unit.name for n in wg.nodes if not n.work_unit.is_service_unit}
    obs.check(all(n.work_unit.name == n.work_unit.model_name['granular_name'] for n in wg.nodes), 'work-not-named', f'{[n.work_unit.name for n in wg.nodes][:3]}')
    tab = {x: {'sub ' + y: r.choice([0, 1, 1, .5]) for y in r.sample('abc', r.randint(1, 3))} for x in sorted(names)}
    seed, how = r.getrandbits(30), r.choice(['graph', 'frame', 'argument'])
    method = r.choice(list(ContractorGenerationMethod))
    own = [Contractor('x', 'x', {k: Worker(k, k, 50, 'x') for k in KINDS}, {})]
    for both in (False, True):
        rand = Random(seed)
        g = DefaultStructureGenerationEstimator(rand).set_probabilities({p: dict(c) for p, c in tab.items()})
        se = DefaultStructureEstimator(g, rand).set_work_estimator(Full())
        src = wg.to_frame(save_req=True) if how == 'frame' else wg
        given = r.choice([None, 'own'])
        num = r.randint(1, 3)
        p = PreparationPipeline(wg=src) if how == 'argument' else PreparationPipeline().wg(src)
        p.work_estimator(Full()).structure_estimator(se).contractors(own if given else (method, num, r.choice([1, 2])))
        if both:
            out, cs = p.build_wg_and_contractors()
        else:
            out = p.build_wg()
        found = defaultdict(Counter)
        ids = {n.id for n in wg.nodes}
        for n in out.nodes:
            if n.work_unit.model_name['granular_name'].startswith('sub '):
                q = [e.start.work_unit.display_name for e in n.edges_to]
                obs.check(len(q) == 1, 'sub-work-not-after-one-parent', f'{q}')
                found[q[0]][n.work_unit.display_name] += 1
        # works without requirements are read as service works
        count = Counter(n.work_unit.display_name for n in wg.nodes if any(q.min_count > 0 for q in n.work_unit.worker_reqs))
        for x, c in tab.items():
            for y, q in c.items():
                if q in (0, 1):
                    obs.check(found[x][y] == (count[x] if q else 0), 'prepared-without-sub-works' if q else 'impossible-sub-work',
                              f'{"both" if both else "graph"}: {y} after {x}: {found[x][y]} of {count[x]}')
            obs.check(set(found[x]) <= set(c), 'impossible-sub-work', f'{x}: {found[x]}')
        if both:
            obs.check(len(cs) == (1 if given else num), 'contractors-given', f'{len(cs)}')
            if given:
                obs.check(cs[0] is own[0] or cs[0].id == 'x', 'contractors-given', f'{cs[0].id}')
            else:
                most = get_contractor_by_wg(out, method=method)
                for c in cs:
                    for k, w in most.workers.items():
                        obs.check(k in c.workers and c.workers[k].count >= w.count, 'contractor-not-for-sub-works', f'{k}: {c.workers.get(k)} of {w.count}')
    obs.nontrivial('prepare', how, str(method), sorted(names))


def run_rates(case, obs):
    """Over many tries, sub works come as often as told, independently of one another."""
    r = Random(case['seed'])
    works = [w for w in gen.rand_works(r, r.randint(3, 8), shape='wide')]
    wg = gen.build_wg(works, r)
    prob = {'sub ' + x: r.choice([.05, .2, .5, .8, .95]) for x in 'abcd'[:r.randint(2, 4)]}
    rand = Random(r.getrandbits(30))
    g = DefaultStructureGenerationEstimator(rand)
    for n in wg.nodes:
        if not n.work_unit.is_service_unit:
            for x, q in prob.items():
                g.set_probability(parent=n.work_unit.name, child=x, probability=q)
    se = DefaultStructureEstimator(g, rand).set_work_estimator(Team())
    old_ids = {n.id for n in wg.nodes}
    real = [n.id for n in wg.nodes if not n.work_unit.is_service_unit]
    if not real:
        return
    tries = 60
    hits, pairs, seen = Counter(), Counter(), set()
    for _ in range(tries):
        out = se.restruct(wg)
        got = defaultdict(set)
        for n in subs_of(out, old_ids):
            got[n.edges_to[0].start.id].add(n.work_unit.display_name)
            seen.add(n.id)
        for p in real:
            for x in got[p]:
                hits[x] += 1
            for x in prob:
                for y in prob:
                    if x < y and x in got[p] and y in got[p]:
                        pairs[x, y] += 1
    n = tries * len(real)
    obs.check(len(seen) == sum(hits.values()), 'ids-repeat', 'sub works of different tries share ids')
    for x, q in prob.items():
        obs.check(abs(hits[x] - n * q) <= bound(n), 'rate', f'{x}: {hits[x]} of {n} with probability {q}')
    for (x, y), c in list(pairs.items()) + [((x, y), 0) for x in prob for y in prob if x < y and (x, y) not in pairs]:
        obs.check(abs(c - n * prob[x] * prob[y]) <= bound(n), 'dependent', f'{x} and {y}: {c} of {n}')
    obs.nontrivial('rates', sorted(prob.items()), n)


def bound(n):
    """Hoeffding: passed by chance once in 10 ** 9."""
    return math.sqrt(n * math.log(2e9) / 2) + 1
