"""Generation: synthetic graphs, contractors, materials and landscapes keep the borders asked for and repeat under a seed."""
import hashlib
import json
import os
import subprocess
import sys
from collections import Counter, defaultdict
from random import Random
from types import SimpleNamespace

from rv import env, gen, land, oracle
from rv.runner import Skip

from sampo.generator import SyntheticGraphType
from sampo.generator.base import SimpleSynthetic
from sampo.generator.config.gen_counts import WORKER_PROPORTIONS
from sampo.generator.environment import (ContractorGenerationMethod, get_contractor, get_contractor_by_wg,
                                         get_contractor_with_equal_proportions)
from sampo.generator.environment.landscape import setup_landscape
from sampo.generator.pipeline.extension import extend_names, extend_resources
from sampo.scheduler.heft.base import HEFTBetweenScheduler, HEFTScheduler
from sampo.scheduler.topological.base import TopologicalScheduler
from sampo.schemas.schedule import Schedule
from sampo.utilities.sampler import Sampler
from sampo.utilities.sampler.types import MinMax
from sampo.utilities.validation import validate_schedule

RULE = ('the generators called over random seeds and borders (small, general, sequential and parallel graphs, extended names and '
        'resources, contractors of packs and by graph, materials, landscapes, samplers) and again under the same seed, in this process '
        'and in processes of other hash seeds; non-trivial: a generated object; distinct by content')
CPU_LIMIT = 200.0
MODES = [SyntheticGraphType.GENERAL, SyntheticGraphType.SEQUENTIAL, SyntheticGraphType.PARALLEL]


def cases(tier, seed):
    r = Random(f'P28-{seed}')
    k = 1 if tier == 'quick' else 12
    out = []
    for kind, n in (('small', 160), ('graph', 320), ('advanced', 40), ('contractor', 240), ('capable', 40), ('materials', 80),
                    ('landscape', 48), ('setup', 80), ('sampler', 160), ('hashseed', 8)):
        out += [dict(kind=kind, seed=r.getrandbits(40)) for _ in range(n * k)]
    # scheduling over twenty vehicles at each depot is slow
    out += [dict(kind='built', seed=r.getrandbits(40)) for _ in range(6 if tier == 'quick' else 60)]
    return out


def run(case, obs):
    r = Random(case['seed'])
    globals()[f'run_{case["kind"]}'](r, obs)
    obs.event(f'kind:{case["kind"]}')


# ------------------------------------------------------------------------------------------------ pictures of what was made

def wu_view(u):
    return [u.id, u.name, u.display_name, sorted((k, str(v)) for k, v in u.model_name.items()), u.group, repr(float(u.volume)),
            [[q.kind, oracle.tv(q.volume), q.min_count, q.max_count, q.name] for q in u.worker_reqs],
            [[q.kind, q.count, q.name] for q in u.material_reqs], bool(u.is_service_unit)]


def wg_view(wg):
    """Everything but the order the nodes happen to be listed in."""
    return [wg.start.id, wg.finish.id,
            sorted([n.id, wu_view(n.work_unit), sorted([e.start.id, e.type.value, repr(e.lag)] for e in n.edges_to)] for n in wg.nodes)]


def con_view(c):
    return [c.id, c.name, [[k, w.id, w.name, w.count, w.contractor_id] for k, w in c.workers.items()]]


def land_view(config):
    """By names: the ids of a landscape are random by design."""
    nodes = sorted([n.name, sorted(n.resource_storage_unit.capacity.items()), sorted(w.id for w in n.works),
                    sorted([e.finish.name, e.weight, e.bandwidth] for e in n.roads)] for n in config.lg.nodes)
    hold = sorted([h.name, h.node.name, [[v.name, sorted((m.name, m.count) for m in v.capacity)] for v in h.vehicles]]
                  for h in config.holders)
    return [nodes, hold]


def digest(v):
    return hashlib.blake2b(json.dumps(v).encode(), digest_size=10).hexdigest()


def rand_of(r, seed):
    """The documented ways to seed a generator."""
    return SimpleSynthetic(seed) if r.random() < .5 else SimpleSynthetic(Random(seed))


# ------------------------------------------------------------------------------------------------------------ common oracles

def check_graph(wg, obs, tag):
    nodes = wg.nodes
    ids = [n.id for n in nodes]
    obs.check(len(set(ids)) == len(ids), f'{tag}:repeated-id')
    obs.check(wg.vertex_count == len(nodes), f'{tag}:vertex-count', lambda: f'{wg.vertex_count} {len(nodes)}')
    inside = set(ids)
    for n in nodes:
        for e in n.edges_to:
            obs.check(e.finish is n and e.start.id in inside, f'{tag}:edge-out-of-graph')
        if n is not wg.start:
            obs.check(len(n.edges_to) > 0, f'{tag}:node-without-predecessors', n.id)
        if n is not wg.finish:
            obs.check(len(n.edges_from) > 0, f'{tag}:node-without-successors', n.id)
    # Kahn, over the raw edges
    deg = {n.id: len(n.edges_to) for n in nodes}
    ready = [n for n in nodes if not deg[n.id]]
    obs.check([n.id for n in ready] == [wg.start.id], f'{tag}:start')
    seen = 0
    while ready:
        n = ready.pop()
        seen += 1
        for e in n.edges_from:
            deg[e.finish.id] -= 1
            if not deg[e.finish.id]:
                ready.append(e.finish)
    obs.check(seen == len(nodes), f'{tag}:cycle')
    for n in nodes:
        u = n.work_unit
        if u.is_service_unit:
            obs.check(not u.worker_reqs, f'{tag}:service-with-workers', u.name)
            continue
        obs.check(u.worker_reqs, f'{tag}:work-without-workers', u.name)
        obs.check(u.volume >= 0, f'{tag}:volume', u.volume)
        kinds = [q.kind for q in u.worker_reqs]
        obs.check(len(set(kinds)) == len(kinds), f'{tag}:repeated-kind', u.name)
        for q in u.worker_reqs:
            obs.check(1 <= q.min_count <= q.max_count and oracle.tv(q.volume) >= 0, f'{tag}:requirement', q)
    obs.nontrivial(tag, wg_view(wg))
    obs.state(tag, len(nodes))


def real(wg):
    return [n for n in wg.nodes if not n.work_unit.is_service_unit]


def handing(wg):
    return [n for n in real(wg) if n.work_unit.model_name['granular_name'] == 'cluster handing']


def reach(node):
    """All the descendants over the raw edges."""
    out, todo = set(), [node]
    while todo:
        for e in todo.pop().edges_from:
            if e.finish.id not in out:
                out.add(e.finish.id)
                todo.append(e.finish)
    return out


# --------------------------------------------------------------------------------------------------------------------- cases

def run_small(r, obs):
    seed = r.getrandbits(30)
    name = r.choice(['C1', 'C1', 'north', 'Куст 7'])
    wg = rand_of(r, seed).small_work_graph(name)
    check_graph(wg, obs, 'small')
    obs.check(30 <= len(wg.nodes) <= 50, 'small:size', lambda: len(wg.nodes))
    obs.check(len(handing(wg)) == 1, 'small:clusters')
    for n in real(wg):
        obs.check(n.work_unit.group.split(':')[0] == name, 'small:cluster-name', n.work_unit.group)
    obs.check(wg_view(rand_of(r, seed).small_work_graph(name)) == wg_view(wg), 'small:not-repeated-under-seed')
    s = rand_of(r, seed)
    a, b = s.small_work_graph(), s.small_work_graph()
    obs.check({n.id for n in a.nodes}.isdisjoint({n.id for n in b.nodes}), 'small:ids-of-two-graphs')


def ask(r):
    mode = r.choice(MODES)
    t = r.random()
    if t < .4:
        return dict(mode=mode, bottom_border=r.choice([1, 20, 48, 49, 50, 100, r.randint(1, 400)]))
    if t < .75:
        return dict(mode=mode, top_border=r.choice([50, 51, 60, 100, r.randint(50, 400)]))
    return dict(mode=mode, cluster_counts=r.randint(1, 8))


def run_graph(r, obs):
    seed = r.getrandbits(30)
    a = ask(r)
    wg = rand_of(r, seed).work_graph(**a)
    check_graph(wg, obs, 'graph')
    works = real(wg)
    hand = handing(wg)
    names = {n.work_unit.group.split(':')[0] for n in works}
    if 'bottom_border' in a:
        obs.check(len(works) >= a['bottom_border'], 'graph:fewer-than-bottom-border', lambda: f'{len(works)} {a}')
    if 'top_border' in a:
        obs.check(len(works) <= a['top_border'], 'graph:more-than-top-border', lambda: f'{len(works)} {a}')
    if 'cluster_counts' in a:
        obs.check(len(hand) >= a['cluster_counts'], 'graph:fewer-clusters', lambda: f'{len(hand)} {a}')
    obs.check(names == {f'C{i + 1}' for i in range(len(names))}, 'graph:names-of-clusters', names)
    by = {c: [n for n in hand if n.work_unit.group.split(':')[0] == c] for c in names}
    obs.check(all(1 <= len(v) <= 2 for v in by.values()), 'graph:cluster-without-end', lambda: {k: len(v) for k, v in by.items()})
    # the way clusters follow one another
    order = sorted(by, key=lambda c: int(c[1:]))
    desc = {c: set.union(*(reach(n) for n in by[c])) | {n.id for n in by[c]} for c in order}
    if a['mode'] is SyntheticGraphType.SEQUENTIAL:
        for x, y in zip(order, order[1:]):
            obs.check(all(n.id in desc[x] for n in by[y]), 'graph:sequence-broken', f'{x} {y}')
    if a['mode'] is SyntheticGraphType.PARALLEL:
        for x in order[1:]:
            obs.check(all(n.id in desc[order[0]] for n in by[x]), 'graph:parallel-without-root', x)
            for y in order[1:]:
                obs.check(x == y or not any(n.id in desc[x] for n in by[y]), 'graph:parallel-after-another', f'{x} {y}')
    obs.check(wg_view(rand_of(r, seed).work_graph(**a)) == wg_view(wg), 'graph:not-repeated-under-seed')
    obs.event('clusters', len(hand))
    obs.event(f'mode:{a["mode"].value}')


def kinds_of(wg):
    return {q.kind for n in wg.nodes for q in n.work_unit.worker_reqs}


def names_of(wg):
    return {n.work_unit.model_name['granular_name'] for n in real(wg)}


def structure(wg):
    return sorted([n.id, n.work_unit.group, repr(float(n.work_unit.volume)),
                   [[oracle.tv(q.volume), q.min_count, q.max_count, q.name] for q in n.work_unit.worker_reqs],
                   sorted([e.start.id, e.type.value, repr(e.lag)] for e in n.edges_to)] for n in wg.nodes)


def run_advanced(r, obs):
    seed = r.getrandbits(30)
    top = r.choice([50, 60, 90, r.randint(50, 200)])
    nu, nr = r.choice([1, 15, 30, 60, 100, 17]), r.choice([1, 6, 7, 12, 13, 30, 50])
    made = rand_of(r, seed).advanced_work_graph(top, nu, nr)
    check_graph(made, obs, 'advanced')
    obs.check(len(real(made)) <= top, 'advanced:more-than-top-border', lambda: f'{len(real(made))} {top}')
    obs.check(wg_view(rand_of(r, seed).advanced_work_graph(top, nu, nr)) == wg_view(made), 'advanced:not-repeated-under-seed')
    # step by step from a graph at hand
    wg = rand_of(r, seed).work_graph(top_border=top)
    for grow, uniq, n, tag in ((extend_names, names_of, nu, 'names'), (extend_resources, kinds_of, nr, 'resources')):
        before, had = wg_view(wg), uniq(wg)
        out = grow(n, wg, Random(seed))
        obs.check(wg_view(wg) == before, f'advanced:{tag}:given-graph-changed')
        got = uniq(out)
        if n <= len(had):
            obs.check(wg_view(out) == before, f'advanced:{tag}:changed-needlessly')
        else:
            obs.check(len(got) <= n, f'advanced:{tag}:too-many', lambda: f'{len(got)} {n}')
            # each name is used by many works, so with as few variants of each nearly all must show up
            obs.check(len(got) >= len(had), f'advanced:{tag}:fewer-than-before', lambda: f'{len(got)} {len(had)}')
            obs.event(f'advanced:{tag}:extended')
        for a, b in zip(sorted(wg.nodes, key=lambda x: x.id), sorted(out.nodes, key=lambda x: x.id)):
            if tag == 'names':
                x, y = a.work_unit, b.work_unit
                obs.check(y.model_name['granular_name'].startswith(x.model_name['granular_name']), 'advanced:name-of-another-work')
                obs.check(y.display_name == y.model_name['granular_name'], 'advanced:name-shown-is-another')
                obs.check(x.is_service_unit == y.is_service_unit and (not x.is_service_unit or x.model_name == y.model_name),
                          'advanced:service-renamed')
                obs.check([q.kind for q in a.work_unit.worker_reqs] == [q.kind for q in b.work_unit.worker_reqs],
                          'advanced:names:kinds-changed')
            else:
                obs.check(all(y.kind.startswith(x.kind) for x, y in zip(a.work_unit.worker_reqs, b.work_unit.worker_reqs)),
                          'advanced:kind-of-another-resource')
                obs.check(a.work_unit.model_name == b.work_unit.model_name, 'advanced:resources:names-changed')
        obs.check(structure(out) == structure(wg), f'advanced:{tag}:structure-changed')
        wg = out


def check_contractor(c, obs, tag):
    for k, w in c.workers.items():
        obs.check(k == w.name, f'{tag}:worker-under-other-name', f'{k} {w.name}')
        obs.check(w.contractor_id == c.id, f'{tag}:worker-of-other-contractor')
    ids = [w.id for w in c.workers.values()]
    obs.check(len(set(ids)) == len(ids), f'{tag}:repeated-worker-id')
    obs.nontrivial(tag, [[k, w.count] for k, w in c.workers.items()])


def run_contractor(r, obs):
    seed = r.getrandbits(30)
    t = r.random()
    if t < .6:
        props = r.choice([WORKER_PROPORTIONS, {'a': 1}, {f'k{i}': r.randint(1, 9) for i in range(r.randint(1, 6))}])
        pack = r.choice([1, 2, 5, 10, 40, r.randint(1, 60), round(r.uniform(1, 20), 2)])
        sigma = r.choice([0, .1, .1, .5, 2])
        some = r.sample(sorted(props), r.randint(1, len(props))) if r.random() < .4 else None
        cid, cname = r.choice([(None, None), ('own', 'Own name')])
        before = dict(props)
        made = get_contractor(pack, sigma, props, some, Random(seed), cid, cname)
        check_contractor(made, obs, 'contractor')
        obs.check(set(made.workers) == set(some or props), 'contractor:kinds', lambda: f'{set(made.workers)} {some}')
        for k, w in made.workers.items():
            obs.check(isinstance(w.count, int) and props[k] <= w.count <= props[k] * pack, 'contractor:count-out-of-pack',
                      lambda: f'{k}: {w.count} not in {props[k]}..{props[k] * pack}')
            if sigma == 0:
                obs.check(abs(w.count - props[k] * pack) < 1, 'contractor:count-without-scatter', lambda: f'{w.count} {props[k] * pack}')
        obs.check(cid is None or (made.id, made.name) == (cid, cname), 'contractor:own-id')
        obs.check(dict(props) == before, 'contractor:proportions-changed')
        again = get_contractor(pack, sigma, props, some, Random(seed), cid, cname)
        obs.check(con_view(again) == con_view(made), 'contractor:not-repeated-under-seed')
        a, b = (rand_of(r, seed).contractor(pack) for _ in range(2))
        check_contractor(a, obs, 'contractor')
        obs.check(con_view(a) == con_view(b), 'contractor:not-repeated-under-seed')
        two = SimpleSynthetic(seed)
        obs.check(two.contractor(pack).id != two.contractor(pack).id, 'contractor:same-id')
    else:
        n = r.randint(1, 6)
        each = [r.randint(1, 30) for _ in range(n)] if r.random() < .6 else r.randint(1, 30)
        got = get_contractor_with_equal_proportions(each, n)
        obs.check(len(got) == n and len({c.id for c in got}) == n, 'contractor:number', lambda: f'{len(got)} {n}')
        for i, c in enumerate(got):
            check_contractor(c, obs, 'contractor')
            m = each if isinstance(each, int) else each[i]
            for k, w in c.workers.items():
                obs.check(WORKER_PROPORTIONS[k] <= w.count <= WORKER_PROPORTIONS[k] * m, 'contractor:count-out-of-pack')
        obs.check(len({w.id for c in got for w in c.workers.values()}) == sum(len(c.workers) for c in got), 'contractor:repeated-worker-id')


def run_capable(r, obs):
    """A contractor made for a graph is able to do it."""
    if r.random() < .5:
        wg = SimpleSynthetic(r.getrandbits(30)).small_work_graph()
    else:
        works = gen.rand_works(r, r.randint(1, 14), density=r.choice([.1, .4]), lags=r.choice(['none', 'frac']))
        wg = gen.build_wg(works, r)
    method = r.choice(list(ContractorGenerationMethod))
    scaler = r.choice([1, 1, 1.5, 2, 3, round(r.uniform(1, 5), 2)])
    before = wg_view(wg)
    try:
        get_contractor_by_wg(wg, r.choice([0, .5, .99]), method)
        obs.violate('capable:scaler-below-one-taken')
    except ValueError:
        obs.event('capable:refused')
    c = get_contractor_by_wg(wg, scaler, method, 'cid', 'cname')
    check_contractor(c, obs, 'capable')
    obs.check((c.id, c.name) == ('cid', 'cname'), 'capable:own-id')
    need = defaultdict(int)
    top = defaultdict(int)
    for n in wg.nodes:
        for q in n.work_unit.worker_reqs:
            need[q.kind] = max(need[q.kind], q.min_count)
            top[q.kind] = max(top[q.kind], {ContractorGenerationMethod.MIN: q.min_count, ContractorGenerationMethod.MAX: q.max_count,
                                            ContractorGenerationMethod.AVG: (q.min_count + q.max_count) // 2}[method])
    obs.check(set(c.workers) == set(need), 'capable:kinds', lambda: f'{set(c.workers)} {set(need)}')
    for k, w in c.workers.items():
        obs.check(w.count >= need[k], 'capable:cannot-do-the-graph', lambda: f'{k}: {w.count} < {need[k]}')
        obs.check(int(top[k] * scaler) <= w.count <= -(-top[k] * scaler // 1), 'capable:count', lambda: f'{k}: {w.count}, {top[k]} x {scaler} by {method}')
    obs.check(wg_view(wg) == before, 'capable:graph-changed')
    if len(wg.nodes) < 60:
        schedule = r.choice([HEFTScheduler, HEFTBetweenScheduler, TopologicalScheduler])().schedule(wg, [c])[0]
        obs.extend(oracle.completeness(schedule, wg))
        obs.extend(oracle.capacity(schedule, wg, [c])[0])
        validate_schedule(schedule, wg, [c])
        obs.event('capable:scheduled')


def run_materials(r, obs):
    seed = r.getrandbits(30)
    s = rand_of(r, seed)
    wg = s.small_work_graph()
    plain = wg_view(wg)
    kw = {}
    names = ['stone', 'brick', 'sand', 'rubble', 'concrete', 'metal']
    lo, hi = 2, 6
    if r.random() < .7:
        names = r.sample(['glass', 'sand', 'oak', 'pipe', 'steel', 'мел', 'tar', 'clay'], r.randint(1, 8))
        kw['materials_name'] = list(names)
        lo, hi = len(names) // 2, len(names)
        if r.random() < .5:
            lo = kw['bottom_border'] = r.randint(0, len(names))
        if r.random() < .5:
            hi = kw['top_border'] = r.randint(lo, len(names))
    if 'materials_name' in kw and r.random() < .2:
        kw[r.choice(['bottom_border', 'top_border'])] = len(names) + r.randint(1, 3)
        try:
            s.set_materials_for_wg(wg, **kw)
            obs.violate('materials:border-out-of-names-taken', kw)
        except ValueError:
            obs.event('materials:refused')
        obs.check(wg_view(wg) == plain, 'materials:changed-though-refused')
        return
    given = list(names)
    out = s.set_materials_for_wg(wg, **kw)
    obs.check('materials_name' not in kw or kw['materials_name'] == given, 'materials:names-changed')
    seen = Counter()
    for n in out.nodes:
        reqs = n.work_unit.material_reqs
        if n.work_unit.is_service_unit:
            obs.check(not reqs, 'materials:of-service-work')
            continue
        kinds = [q.kind for q in reqs]
        seen[len(kinds)] += 1
        obs.check(len(set(kinds)) == len(kinds), 'materials:repeated-kind', kinds)
        obs.check(set(kinds) <= set(names), 'materials:unknown-kind', kinds)
        obs.check(lo <= len(kinds) <= hi, 'materials:number-of-kinds', lambda: f'{len(kinds)} not in {lo}..{hi}')
        obs.check(all(q.count > 0 and q.kind == q.name for q in reqs), 'materials:count')
        got = n.work_unit.need_materials()
        obs.check(Counter((m.name, m.count) for m in got) == Counter((q.kind, q.count) for q in reqs), 'materials:need')
    strip = wg_view(out)
    for node in strip[2]:
        node[1][7] = []
    obs.check(strip == plain, 'materials:something-else-changed')
    obs.check(len(seen) > 1 or lo == hi or len(real(wg)) < 20, 'materials:number-never-varies', lambda: f'{seen} in {lo}..{hi}')
    s2 = rand_of(r, seed)
    obs.check(wg_view(s2.set_materials_for_wg(s2.small_work_graph(), **kw)) == wg_view(out), 'materials:not-repeated-under-seed')
    obs.nontrivial('materials', wg_view(out))


def check_landscape(config, obs, tag):
    lg = config.lg
    ids = [n.id for n in lg.nodes]
    obs.check(len(set(ids)) == len(ids), f'{tag}:repeated-id')
    obs.check(lg.vertex_count == len(lg.nodes), f'{tag}:vertex-count')
    for n in lg.nodes:
        obs.check(sorted(x.id for x in n.neighbours) == sorted(e.finish.id for e in n.roads), f'{tag}:neighbours', n.name)
        for e in n.roads:
            obs.check(e.start is n and e.weight > 0 and e.bandwidth > 0, f'{tag}:road')
            obs.check(any(b.finish is n and (b.id, b.weight, b.bandwidth) == (e.id, e.weight, e.bandwidth) for b in e.finish.roads),
                      f'{tag}:road-one-way')
    seen, todo = {lg.nodes[0].id}, [lg.nodes[0]]
    while todo:
        for x in todo.pop().neighbours:
            if x.id not in seen:
                seen.add(x.id)
                todo.append(x)
    return seen == set(ids)


def run_landscape(r, obs):
    seed = r.getrandbits(30)

    def make():
        s = SimpleSynthetic(seed)
        wg = s.set_materials_for_wg(s.small_work_graph() if seed % 3 else s.work_graph(top_border=60 + seed % 60))
        return wg, s.synthetic_landscape(wg)

    wg, config = make()
    before = wg_view(wg)
    obs.check(check_landscape(config, obs, 'landscape'), 'landscape:not-connected')
    where = Counter(w.id for n in config.lg.nodes for w in n.works)
    place = {w.id: n.name for n in config.lg.nodes for w in n.works}
    head, _ = oracle.chain_map(wg)
    for n in real(wg):
        obs.check(where[n.id] == 1, 'landscape:work-not-on-one-platform', lambda: where[n.id])
        obs.check(place.get(n.id) == place.get(head[n.id]), 'landscape:chain-parted')
    obs.check(set(where) <= {n.id for n in wg.nodes}, 'landscape:unknown-work')
    held = {h.node.name for h in config.holders}
    obs.check(held.isdisjoint(place.values()), 'landscape:work-at-holder')
    obs.check(set(config.works2platform) >= {n for n in real(wg)} if hasattr(config, 'works2platform') else True, 'landscape:works2platform')
    need = Counter()
    for n in wg.nodes:
        for m in n.work_unit.need_materials():
            need[m.name] += m.count
    for h in config.holders:
        cap = h.node.resource_storage_unit.capacity
        for m, c in need.items():
            obs.check(cap.get(m, 0) >= c, 'landscape:holder-short-of-material', lambda: f'{m}: {cap.get(m)} < {c}')
        obs.check(h.vehicles and len({v.id for v in h.vehicles}) == len(h.vehicles), 'landscape:vehicles')
    obs.check(config.holders, 'landscape:no-holders')
    wg2, config2 = make()
    obs.check(land_view(config2) == land_view(config), 'landscape:not-repeated-under-seed')
    obs.nontrivial('landscape', land_view(config))
    obs.check(wg_view(wg) == before, 'landscape:graph-changed')



def run_built(r, obs):
    s = SimpleSynthetic(r.getrandbits(30))
    wg = s.set_materials_for_wg(s.small_work_graph())
    config = s.synthetic_landscape(wg)
    c = get_contractor_by_wg(wg, 1, ContractorGenerationMethod.MAX)
    schedule = HEFTScheduler().schedule(wg, [c], landscape=config)[0]
    obs.extend(oracle.completeness(schedule, wg))
    obs.extend(oracle.precedence(schedule, wg))
    obs.extend(oracle.capacity(schedule, wg, [c])[0])
    net = land.Net()
    ind = {n.id: i for i, n in enumerate(config.lg.nodes)}
    net.nodes = [n.name for n in config.lg.nodes]
    net.edges = [(ind[e.start.id], ind[e.finish.id], e.weight, e.bandwidth) for e in config.lg.edges]
    net.capacity = [n.resource_storage_unit.capacity for n in config.lg.nodes]
    net.holders = [(ind[h.node.id], None) for h in config.holders]
    net.platform_of = {w.id: ind[n.id] for n in config.lg.nodes for w in n.works}
    asked = [SimpleNamespace(id=n.id, service=n.work_unit.is_service_unit,
                             materials={q.kind: q.count for q in n.work_unit.material_reqs}) for n in wg.nodes]
    out, trips = land.material_violations(schedule, asked, net)
    obs.extend(out)
    obs.event('built:trips', sum(map(len, trips.values())))
    obs.event('landscape:scheduled')
    obs.nontrivial('built', land_view(config))


def run_setup(r, obs):
    """A landscape described by dictionaries is built as described."""
    n, h = r.randint(1, 5), r.randint(1, 3)
    mats = r.sample(['stone', 'sand', 'tar', 'oak'], r.randint(1, 4))

    def stock():
        return {m: r.randint(1, 500) for m in r.sample(mats, r.randint(0, len(mats)))}

    platforms = {f'p{i}': stock() for i in range(n)}
    holders = {f'h{i}': [stock(), [(f'v{j}', stock()) for j in range(r.randint(1, 4))]] for i in range(h)}
    names = list(platforms) + list(holders)
    r.shuffle(names)
    roads = defaultdict(list)
    want = []
    for i in range(1, len(names)):
        for j in {r.randrange(i)} | ({r.randrange(i)} if r.random() < .4 else set()):
            a, b = (names[i], names[j]) if r.random() < .5 else (names[j], names[i])
            w, bw = r.choice([r.randint(1, 99), round(r.uniform(1, 9), 2)]), r.randint(1, 60)
            roads[a].append((b, w, bw))
            want.append((frozenset((a, b)), w, bw))
    given = json.dumps([platforms, holders, roads], sort_keys=True)
    config = setup_landscape(platforms, holders, dict(roads))
    obs.check(json.dumps([platforms, holders, roads], sort_keys=True) == given, 'setup:input-changed')
    obs.check(check_landscape(config, obs, 'setup'), 'setup:not-connected')
    by = {x.name: x for x in config.lg.nodes}
    obs.check(set(by) == set(names) and len(config.lg.nodes) == len(names), 'setup:nodes', sorted(by))
    for name, cap in list(platforms.items()) + [(k, v[0]) for k, v in holders.items()]:
        obs.check(by[name].resource_storage_unit.capacity == cap, 'setup:capacity', name)
    obs.check({x.name for x in config.platforms} == set(platforms), 'setup:platforms', lambda: [x.name for x in config.platforms])
    got = Counter((frozenset((e.start.name, e.finish.name)), e.weight, e.bandwidth) for e in config.lg.edges)
    obs.check(got == Counter(want), 'setup:roads', lambda: f'{got} {want}')
    for x in config.holders:
        obs.check(x.node is by[x.name], 'setup:holder-elsewhere')
        obs.check([(v.name, {m.name: m.count for m in v.capacity}) for v in x.vehicles] == [(a, b) for a, b in holders[x.name][1]],
                  'setup:vehicles', x.name)
    obs.check(sorted(x.name for x in config.holders) == sorted(holders), 'setup:holders')
    obs.nontrivial('setup', given)


def run_sampler(r, obs):
    seed = r.getrandbits(30)
    a, b = Sampler(seed), Sampler(seed)
    v0, c0 = r.randint(0, 30), r.randint(1, 30)
    vol, cnt = MinMax(v0, v0 + r.choice([0, 5, 70])), MinMax(c0, c0 + r.choice([0, 5, 70]))
    w0 = r.uniform(.1, 20)
    wv = MinMax(w0, w0 + r.choice([0, 10]))

    def in_borders(reqs):
        kinds = [q.kind for q in reqs]
        obs.check(kinds and len(set(kinds)) == len(kinds) and set(kinds) <= set(WORKER_PROPORTIONS), 'sampler:kinds', kinds)
        for q in reqs:
            obs.check(vol.min <= oracle.tv(q.volume) <= vol.max, 'sampler:volume-out-of-borders', q)
            obs.check(cnt.min <= q.min_count <= q.max_count <= cnt.max, 'sampler:count-out-of-borders', q)

    in_borders(a.worker_reqs(vol, cnt))
    b.worker_reqs(vol, cnt)
    u, u2 = (s.work_unit('dig', group='g', work_volume=wv, req_volume=vol, req_worker_count=cnt) for s in (a, b))
    obs.check(wu_view(u) == wu_view(u2), 'sampler:not-repeated-under-seed')
    in_borders(u.worker_reqs)
    obs.check(wv.min <= u.volume <= wv.max and u.group == 'g' and u.model_name['granular_name'] == 'dig', 'sampler:work')
    k = r.choice([1, .5, 2, .1, 3.7])
    before = wu_view(u)
    like = a.similar_work_unit(u, k, *((r.choice(['bore', {'granular_name': 'bore', 'measurement': 'm'}]), 'wid') if r.random() < .5 else ()))
    obs.check(wu_view(u) == before, 'sampler:exemplar-changed')
    obs.check(like.group == u.group and abs(like.volume - u.volume * k) < 1e-9, 'sampler:similar-volume', lambda: f'{like.volume} {u.volume} {k}')
    obs.check(like.id != u.id and (like.id != 'wid' or like.model_name['granular_name'] == 'bore'), 'sampler:similar-id')
    obs.check([q.kind for q in like.worker_reqs] == [q.kind for q in u.worker_reqs], 'sampler:similar-kinds')
    for x, y in zip(u.worker_reqs, like.worker_reqs):
        obs.check(abs(oracle.tv(y.volume) - oracle.tv(x.volume) * k) <= 1, 'sampler:similar-req-volume', lambda: f'{x} {y} {k}')
        obs.check(y.min_count == x.min_count and y.max_count == max(round(x.max_count * k), x.min_count), 'sampler:similar-counts',
                  lambda: f'{x} {y} {k}')
    n1 = a.graph_node('first', [], work_id='n1', work_volume=wv, req_volume=vol, req_worker_count=cnt)
    n2 = a.similar_graph_node(n1, [(n1, 0, gen.EdgeType.FinishStart)], k)
    in_borders(n1.work_unit.worker_reqs)
    obs.check(n1.id == 'n1' and [e.start.id for e in n2.edges_to] == ['n1'] and n2.id != 'n1', 'sampler:node')
    obs.nontrivial('sampler', before)


PROBE = '''
import sys, json
sys.path[:0] = [{verif!r}]
from rv import env
env.setup()
from rv.props import p28
print(json.dumps([p28.probe(s) for s in json.loads(sys.argv[1])]))
'''


def probe(seed):
    """Digests of what the generators make out of one seed."""
    r = Random(seed)
    s = SimpleSynthetic(seed)
    small = s.set_materials_for_wg(s.small_work_graph())
    out = {'small': digest(wg_view(small)), 'landscape': digest(land_view(s.synthetic_landscape(small)))}
    out['graph'] = digest(wg_view(s.work_graph(**ask(r))))
    out['advanced'] = digest(wg_view(s.advanced_work_graph(100, 40, 13)))
    out['contractor'] = digest(con_view(s.contractor(r.randint(1, 20))))
    t = Sampler(seed)
    out['sampler'] = digest([wu_view(t.work_unit('x')) for _ in range(3)])
    return out


def run_hashseed(r, obs):
    seeds = [r.getrandbits(30) for _ in range(4)]
    here = [probe(s) for s in seeds]
    for hs in r.sample(range(1, 10 ** 6), 2):
        e = dict(os.environ, PYTHONHASHSEED=str(hs))
        p = subprocess.run([sys.executable, '-c', PROBE.format(verif=env.VERIF), json.dumps(seeds)], env=e, capture_output=True, text=True,
                           timeout=300)
        if p.returncode:
            # the same calls have just worked in this process
            obs.violate('hashseed:crash', p.stderr[-500:])
            continue
        there = json.loads(p.stdout.strip().splitlines()[-1])
        for a, b in zip(here, there):
            for k in a:
                obs.check(a[k] == b[k], f'hashseed:{k}-differs')
        obs.event('hashseed:processes')
    obs.nontrivial('hashseed', seeds)
