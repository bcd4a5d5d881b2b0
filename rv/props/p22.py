"""Edits of work graphs change what they were asked to change and nothing else."""
from copy import deepcopy
from random import Random

from rv import gen, sched
from rv.props.p21 import attrs, snapshot

from sampo.schemas.graph import EdgeType
from sampo.schemas.requirements import ConstructionObjectReq, EquipmentReq, WorkerReq
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit
from sampo.structurator.delete_graph_node import delete_graph_node
from sampo.structurator.graph_insertion import graph_in_graph_insertion
from sampo.structurator.insert_wu import insert_work_unit
from sampo.structurator.light_modifications import work_graph_ids_simplification
from sampo.structurator.prepare_wg_copy import prepare_work_graph_copy

RULE = ('random graphs (all kinds of links, chains) under sequences of deletions, insertions, unions, renumberings and copies, each '
        'result compared with an independent model of the edit; non-trivial: the edit touched a chain or a work with several '
        'relatives; distinct by graph and edit')
DEP = ('FS', 'IFS', 'FFS')


def cases(tier, seed):
    r = Random(f'P22-{seed}')
    return [dict(seed=r.getrandbits(40)) for i in range(12000 if tier == 'quick' else 150000)]


def make(r, tag=''):
    works = gen.rand_works(r, r.choice([1, 2, r.randint(3, 16)]), chains=r.choice([0, .4]), lags=r.choice(['none', 'float']),
                           edge_mix=r.choice([(), ('FFS', 'SS', 'FF')]))
    for w in works:
        w.id = tag + w.id
        w.materials = {'brick': r.randint(1, 9)} if r.random() < .2 else {}
        w.zones = {'floor': 1} if r.random() < .2 else {}
    wg = gen.build_wg(works, r)
    for n in wg.nodes:
        u = n.work_unit
        u.description = f'd{n.id}'
        if r.random() < .2:
            u.equipment_reqs = [EquipmentReq('crane', 2, 'crane')]
            u.object_reqs = [ConstructionObjectReq('road', 1, 'road')]
        if r.random() < .2:
            u.model_name['category'] = r.choice('ab')
        u.priority = r.randint(1, 3)
    return works, wg


def links_of(wg, name):
    return sorted((name[e.start.id], name[e.finish.id], e.lag, e.type.value) for n in wg.nodes for e in n.edges_to)


def reach(wg, name):
    """Pairs of works with a way of dependencies from one to the other."""
    res = {}
    for n in wg.nodes:
        res[name[n.id]] = {name[p.id] for p in n.parents}.union(*[res[name[p.id]] for p in n.parents]) if n.parents else set()
    return res


def sound(wg, obs, when):
    ids = [n.id for n in wg.nodes]
    obs.check(len(set(ids)) == len(ids), f'{when}:ids-repeat')
    obs.check(wg.nodes[0] is wg.start and wg.nodes[-1] is wg.finish, f'{when}:ends')
    obs.check(not wg.start.edges_to and not wg.finish.edges_from, f'{when}:links-through-the-ends')
    pos = {i: k for k, i in enumerate(ids)}
    for n in wg.nodes:
        obs.check(all(e.finish is n and e.start is wg[e.start.id] and e in e.start.edges_from for e in n.edges_to)
                  and all(e.start is n and e.finish is wg[e.finish.id] for e in n.edges_from), f'{when}:dangling-links')
        obs.check(all(pos[p.id] < pos[n.id] for p in n.parents), f'{when}:not-topological')
        obs.check([p.id for p in n.parents] == [e.start.id for e in n.edges_to if e.type.value in DEP], f'{when}:stale-parents')
        obs.check([p.id for p in n.children] == [e.finish.id for e in n.edges_from if e.type.value in DEP], f'{when}:stale-children')
        obs.check(n is wg.start or n.parents, f'{when}:no-parents')
        obs.check(n is wg.finish or n.children, f'{when}:no-children')


def same_attrs(a, b, with_id):
    x, y = attrs(a), attrs(b)
    return x == y if with_id else x[1:] == y[1:]


def matched(old, new, change, obs, when, gone=(), new_ids=()):
    """Names of the new graph's nodes in terms of the old graph's ids, found by attributes (descriptions are unique)."""
    by = {n.work_unit.description: n for n in new.nodes}
    name = {}
    for n in old.nodes:
        if n.id in gone:
            obs.check(n.work_unit.description not in by, f'{when}:deleted-work-is-there')
            continue
        m = by.get(n.work_unit.description)
        if not obs.check(m is not None, f'{when}:work-lost'):
            return None
        obs.check(m is not n and m.work_unit is not n.work_unit, f'{when}:node-shared')
        obs.check(same_attrs(n.work_unit, m.work_unit, not change), f'{when}:attributes-changed',
                  lambda: f'{attrs(n.work_unit)} {attrs(m.work_unit)}')
        obs.check((m.id == n.id) != change, f'{when}:ids', f'{m.id} {n.id}')
        obs.check(not any(a is b for k in ('worker_reqs', 'material_reqs', 'zone_reqs', 'equipment_reqs', 'model_name')
                          for a, b in [(getattr(n.work_unit, k), getattr(m.work_unit, k))]), f'{when}:attributes-shared')
        name[m.id] = n.id
    obs.check(len(new.nodes) == len(old.nodes) - len(gone) + len(new_ids), f'{when}:number-of-works')
    return name


def run(case, obs):
    r = Random(case['seed'])
    works, wg = make(r)
    before = deepcopy(snapshot(wg))
    kind = r.choice(['delete', 'delete', 'insert', 'insert', 'union', 'simple', 'copy'])
    change = r.random() < .5
    obs.event(f'edit:{kind}')
    out = globals()[kind](r, works, wg, change, obs)
    obs.check(snapshot(wg) == before, f'{kind}:original-changed')
    if out is not None:
        sound(out, obs, kind)
        if r.random() < .3:
            # edit the result again, and plan it
            sub = kind
            more = [n for n in out.nodes if n not in (out.start, out.finish)]
            if len(more) > 1:
                again = delete_graph_node(out, r.choice(more).id, change_id=False)
                sound(again, obs, f'{sub}+delete')
                obs.event('second-edits')
    obs.state(kind, change, snapshot(wg))


def delete(r, works, wg, change, obs):
    i = r.randrange(len(works))
    gone = [works[j].id for j in gen.chain_of(works, i)]
    if len(gone) == len(works):
        return None
    res = delete_graph_node(wg, works[i].id, change_id=change)
    name = matched(wg, res, change, obs, 'delete', gone)
    if name is None:
        return res
    ident = {n.id: n.id for n in wg.nodes}
    old, new = links_of(wg, ident), links_of(res, name)
    keep = [l for l in old if l[0] not in gone and l[1] not in gone]
    extra = list(new)
    for l in keep:
        if obs.check(l in extra, 'delete:link-lost', f'{l}'):
            extra.remove(l)
    up = {l[0] for l in old if l[1] in gone} - set(gone)
    down = {l[1] for l in old if l[0] in gone} - set(gone)
    obs.check(all(a in up and b in down and t == 'FS' and not lag for a, b, lag, t in extra), 'delete:link-invented', f'{extra}')
    was, now = reach(wg, ident), reach(res, name)
    obs.check(all(was[x] - set(gone) == now[x] for x in now), 'delete:order-of-other-works-changed')
    if len(gone) > 1 or (len(up) > 1 and len(down) > 1):
        obs.nontrivial('delete', snapshot(wg), i)
    return res


def insert(r, works, wg, change, obs):
    n = len(works)
    # the place must not break a chain: between heads, from earlier to later
    cut = r.randint(0, n)
    before = [j for j in range(cut)]
    after = [j for j in range(cut, n) if gen.chain_of(works, j)[0] >= cut]
    before_nodes = [wg[works[j].id] for j in r.sample(before, min(len(before), r.randint(1, 3)))] or [wg.start]
    after_nodes = [wg[works[j].id] for j in r.sample(after, min(len(after), r.randint(1, 3)))] or [wg.finish]
    wu = WorkUnit('new-work', {'granular_name': 'n', 'measurement': 'm'}, [WorkerReq('driver', Time(5), 1, 2)],
                  description='dnew-work', volume=3)
    typed = [r.random() < .5, r.random() < .5]

    def edges(nodes, t):
        return [(x, r.choice([0, 2, 1.5]), r.choice([EdgeType.FinishStart, EdgeType.FinishStart, EdgeType.LagFinishStart]))
                for x in nodes] if t else list(nodes)
    pe, ce = edges(before_nodes, typed[0]), edges(after_nodes, typed[1])
    res = insert_work_unit(wg, wu, pe, ce, change_id=change)
    name = matched(wg, res, change, obs, 'insert', (), [wu.id])
    if name is None or not obs.check(wu.id in res.dict_nodes, 'insert:new-work-lost'):
        return res
    obs.check(res[wu.id].work_unit is wu or same_attrs(res[wu.id].work_unit, wu, True), 'insert:new-work-changed')
    name[wu.id] = wu.id
    want = links_of(wg, {x.id: x.id for x in wg.nodes})
    want += [(x[0].id, wu.id, x[1], x[2].value) if isinstance(x, tuple) else (x.id, wu.id, 0, 'FS') for x in pe]
    want += [(wu.id, x[0].id, x[1], x[2].value) if isinstance(x, tuple) else (wu.id, x.id, 0, 'FS') for x in ce]
    obs.check(links_of(res, name) == sorted(want), 'insert:links', lambda: f'{sorted(set(want) ^ set(links_of(res, name)))}')
    if len(before_nodes) > 1 or len(after_nodes) > 1:
        obs.nontrivial('insert', snapshot(wg), [x.id for x in before_nodes + after_nodes])
    return res


def union(r, works, wg, change, obs):
    works2, slave = make(r, 'x')
    before = deepcopy(snapshot(slave))
    n = len(works)
    a = r.randint(-1, n - 1)
    heads = [j for j in range(a + 1, n) if works[j].chain_prev is None]
    first = wg.start if a < 0 else wg[works[a].id]
    last = wg[works[r.choice(heads)].id] if heads and r.random() < .7 else wg.finish
    res = graph_in_graph_insertion(wg, first, last, slave, change_id=change)
    obs.check(snapshot(slave) == before, 'union:inserted-graph-changed')
    inner = [x.id for x in slave.nodes if x not in (slave.start, slave.finish)]
    name = matched(wg, res, change, obs, 'union', (), inner)
    if name is None:
        return res
    by = {x.work_unit.description: x for x in res.nodes}
    for x in slave.nodes:
        if x.id not in inner:
            continue
        m = by.get(x.work_unit.description)
        if not obs.check(m is not None, 'union:inserted-work-lost'):
            return res
        obs.check(same_attrs(x.work_unit, m.work_unit, not change), 'union:inserted-attributes-changed')
        obs.check((m.id == x.id) != change, 'union:inserted-ids', f'{m.id} {x.id} {change}')
        name[m.id] = x.id
    want = links_of(wg, {x.id: x.id for x in wg.nodes})
    for x in slave.nodes:
        for e in x.edges_to:
            s = first.id if e.start is slave.start else e.start.id
            f = last.id if e.finish is slave.finish else e.finish.id
            want.append((s, f, e.lag, e.type.value))
    obs.check(links_of(res, name) == sorted(want), 'union:links', lambda: f'{sorted(set(want) ^ set(links_of(res, name)))}')
    obs.nontrivial('union', snapshot(wg), before, a)
    return res


def simple(r, works, wg, change, obs):
    off = r.choice([0, 0, 1, 1000])
    res = work_graph_ids_simplification(wg, id_offset=off) if change else \
        work_graph_ids_simplification(wg, id_offset=off, change_id=False)
    by = {x.work_unit.description: x for x in res.nodes}
    if not obs.check(len(by) == len(wg.nodes) == len(res.nodes), 'simple:works-lost'):
        return res
    name = {by[x.work_unit.description].id: x.id for x in wg.nodes}
    obs.check(all(same_attrs(by[x.work_unit.description].work_unit, x.work_unit, False) for x in wg.nodes), 'simple:attributes')
    want = [str(off + k) for k in range(len(wg.nodes))] if change else [x.id for x in wg.nodes]
    obs.check(sorted(x.id for x in res.nodes) == sorted(want), 'simple:ids', lambda: f'{[x.id for x in res.nodes]} {off}')
    obs.check(links_of(res, name) == links_of(wg, {x.id: x.id for x in wg.nodes}), 'simple:links')
    if any(len(w.parents) > 1 for w in works):
        obs.nontrivial('simple', snapshot(wg), off)
    return res


def copy(r, works, wg, change, obs):
    out = r.sample(works, r.randint(0, min(2, len(works) - 1)))
    nodes, ids = prepare_work_graph_copy(wg, [wg[w.id] for w in out], change_id=change)
    gone = {w.id for w in out}
    obs.check(set(ids) == {x.id for x in wg.nodes} - gone, 'copy:mapped-ids')
    obs.check(set(nodes) == set(ids.values()) and all(k == v.id for k, v in nodes.items()), 'copy:nodes')
    obs.check(all((a == b) != change for a, b in ids.items()), 'copy:ids')
    back = {b: a for a, b in ids.items()}
    obs.check(all(same_attrs(wg[a].work_unit, nodes[b].work_unit, not change) for a, b in ids.items()), 'copy:attributes')
    got = sorted((back[e.start.id], back[e.finish.id], e.lag, e.type.value) for x in nodes.values() for e in x.edges_to)
    want = sorted((e.start.id, e.finish.id, e.lag, e.type.value) for x in wg.nodes for e in x.edges_to
                  if e.start.id not in gone and e.finish.id not in gone)
    obs.check(got == want, 'copy:links')
    obs.check(all(e.start is nodes[e.start.id] for x in nodes.values() for e in x.edges_to), 'copy:link-into-the-original')
    if out:
        obs.nontrivial('copy', snapshot(wg), sorted(gone))
    return None
