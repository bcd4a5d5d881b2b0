"""Restructuring turns every link into finish-start links between stages, and loses or invents nothing."""
from copy import deepcopy
from math import ceil
from random import Random

from rv import gen, sched
from rv.oracle import tv
from rv.runner import Skip

from sampo.schemas.graph import EdgeType
from sampo.schemas.requirements import ConstructionObjectReq, EquipmentReq
from sampo.structurator.base import graph_restructuring

RULE = ('random graphs with links of all kinds (several between one pair of works, lags inside and outside of the volume), both '
        'modes; stages and links compared with an independent expansion, amounts summed up, some scheduled and merged; '
        'non-trivial: some work is split; distinct by graph')


def cases(tier, seed):
    r = Random(f'P21-{seed}')
    k = 3 if tier == 'quick' else 40
    out = [dict(kind='shape', seed=r.getrandbits(40), opt=bool(i % 2)) for i in range(1600 * k)]
    out += [dict(kind='plan', seed=r.getrandbits(40), opt=bool(i % 2), alg=['heft', 'heftb', 'topo', 'lft', 'heft_avg'][i % 5])
            for i in range(240 * k)]
    return out


def boundary(lag, volume, into):
    share = lag / volume if 0 < lag <= volume else 0
    return 1 - share if into else share


def make(r, opt):
    n = r.choice([2, 3, r.randint(3, 18), r.randint(3, 18)])
    works = gen.rand_works(r, n, chains=r.choice([0, 0, .3]), lags=r.choice(['none', 'int', 'float']),
                           edge_mix=r.choice([('FFS', 'SS', 'FF'), ('SS',), ('FF',), ('FFS',), ('SS', 'FF')]),
                           priorities=r.random() < .3, density=r.choice([.3, .8]), zero_vol=r.choice([0, 0, .2]))
    for c, w in enumerate(works):
        # the usual pair: starts after the start of and finishes after the finish of the same work
        for p, lag, t in list(w.parents):
            if t == 'SS' and r.random() < .4:
                w.parents.append((p, r.choice([0, 1, round(r.random() * works[p].volume, 2)]), 'FF'))
        if r.random() < .4:
            w.materials = {m: r.randint(0, 30) for m in r.sample(['brick', 'sand', 'pipe'], r.randint(1, 3))}
        if r.random() < .2:
            w.zones = {'floor': r.randint(0, 2)}
    # boundaries that differ by rounding only are not decided
    for c, w in enumerate(works):
        bs = sorted(boundaries(works, c, opt))
        if any(0 < b - a < 1e-9 for a, b in zip(bs, bs[1:])):
            raise Skip('boundaries equal up to rounding')
    return works


def boundaries(works, i, opt):
    """The shares of work i after which one of its stages ends."""
    res = set()
    for c, w in enumerate(works):
        for p, lag, t in w.parents:
            if p == i and (t == 'SS' or (opt and t == 'FFS')):
                res.add(boundary(lag, works[p].volume, False) if opt else 0)
            if c == i and (t == 'FF' or (opt and t == 'FFS')):
                res.add(boundary(lag, works[p].volume, True) if opt else 1)
    return res


def stage_ids(works, i, opt):
    """[(id, share at the start, share at the end)] in order."""
    bs = sorted(boundaries(works, i, opt))
    w = works[i]
    if not bs:
        return [(w.id, 0, 1)]
    edges = [0] + bs + [1]
    return [(w.id if k == len(bs) else f'{w.id}_stage_{k}', edges[k], edges[k + 1]) for k in range(len(bs) + 1)]


def expected_links(works, opt):
    links = set()
    st = [stage_ids(works, i, opt) for i in range(len(works))]

    def ending(i, share):
        return next(s for s in st[i] if s[2] == share)[0]

    def starting(i, share):
        return [s for s in st[i] if s[1] == share][-1][0] if share > 0 or len(boundaries(works, i, opt)) == 0 else \
            st[i][[s[2] for s in st[i]].index(share) + 1][0]

    for c, w in enumerate(works):
        for a, b in zip(st[c], st[c][1:]):
            links.add((a[0], b[0], 0, 'IFS'))
        for p, lag, t in w.parents:
            first, last, plast = st[c][0][0], st[c][-1][0], st[p][-1][0]
            if t == 'IFS':
                links.add((plast, first, 0, 'IFS'))
            elif t == 'FS':
                links.add((plast, first, ceil(lag), 'FS'))
            elif t == 'SS':
                links.add((ending(p, boundary(lag, works[p].volume, False) if opt else 0), first, 0, 'FS'))
            elif t == 'FF':
                b = boundary(lag, works[p].volume, True) if opt else 1
                links.add((plast, starting(c, b) if b < 1 else last, 0, 'FS'))
            elif not opt:
                links.add((plast, first, 0, 'FS'))
            else:
                links.add((ending(p, boundary(lag, works[p].volume, False)), first, 0, 'FS'))
                b = boundary(lag, works[p].volume, True)
                links.add((plast, starting(c, b) if b < 1 else last, 0, 'FS'))
    return links


def attrs(wu):
    return (wu.id, dict(wu.model_name), repr(wu.worker_reqs), repr(wu.equipment_reqs), repr(wu.material_reqs),
            repr(wu.object_reqs), repr(wu.zone_reqs), wu.description, wu.group, wu.priority, wu.is_service_unit, wu.volume,
            wu.display_name)


def snapshot(wg):
    return [(attrs(n.work_unit), [(e.start.id, e.lag, e.type.value) for e in n.edges_to],
             [(e.finish.id, e.lag, e.type.value) for e in n.edges_from]) for n in wg.nodes]


def run(case, obs):
    r = Random(case['seed'])
    opt = case['opt']
    works = make(r, opt)
    wg = gen.build_wg(works, r)
    for n in wg.nodes:
        if n.work_unit.worker_reqs and r.random() < .2:
            n.work_unit.equipment_reqs = [EquipmentReq('crane', r.randint(0, 5), 'crane')]
            n.work_unit.object_reqs = [ConstructionObjectReq('road', r.randint(0, 5), 'road')]
        n.work_unit.description = f'about {n.id}'
    before = deepcopy(snapshot(wg))
    res = graph_restructuring(wg, use_lag_edge_optimization=opt)
    obs.check(snapshot(wg) == before, 'original-graph-changed')
    check_shape(works, wg, res, opt, obs)
    # there is nothing left to do in a restructured graph
    shape = sorted(snapshot(res), key=lambda x: x[0][0])
    again = graph_restructuring(res, use_lag_edge_optimization=r.random() < .5)
    again_shape = sorted(snapshot(again), key=lambda x: x[0][0])
    obs.check([x[0] for x in again_shape] == [x[0] for x in shape] and
              [(sorted(x[1]), sorted(x[2])) for x in again_shape] == [(sorted(x[1]), sorted(x[2])) for x in shape],
              'restructured-graph-changed-by-restructuring')
    split = sum(len(stage_ids(works, i, opt)) > 1 for i in range(len(works)))
    obs.event('split-works', split)
    obs.event('links', sum(len(w.parents) for w in works))
    obs.state(sorted(w.parents for w in works), opt)
    if split:
        obs.nontrivial([(w.volume, w.parents) for w in works], opt)
    obs.sample({'works': len(works), 'nodes': res.vertex_count, 'split': split})
    if case['kind'] == 'plan':
        plan(case, r, works, res, opt, obs)


def check_shape(works, wg, res, opt, obs):
    st = {i: stage_ids(works, i, opt) for i in range(len(works))}
    want = {s[0] for ss in st.values() for s in ss}
    got = [n.id for n in res.nodes]
    if not obs.check(sorted(got) == sorted(want | {wg.start.id, wg.finish.id}), 'stages', lambda: f'{sorted(got)} {sorted(want)}'):
        return
    obs.check(res.start.id == wg.start.id and res.finish.id == wg.finish.id, 'service-nodes')
    obs.check(all(n is not wg[n.id] for n in res.nodes if n.id in wg.dict_nodes), 'nodes-shared-with-the-original')
    links = {(e.start.id, e.finish.id, e.lag, e.type.value) for n in res.nodes for e in n.edges_to}
    obs.check(links == {(e.start.id, e.finish.id, e.lag, e.type.value) for n in res.nodes for e in n.edges_from}, 'link-ends-differ')
    obs.check(all(t in ('FS', 'IFS') for *_, t in links), 'links-other-than-finish-start')
    inner = {k for k in links if k[0] != wg.start.id and k[1] != wg.finish.id}
    exp = expected_links(works, opt)
    obs.check(not exp - inner, 'links-lost', lambda: f'{exp - inner} {[(w.id, w.volume, w.parents) for w in works]}')
    obs.check(not inner - exp, 'links-invented', lambda: f'{inner - exp}')
    obs.check(all(l == 0 and t == 'FS' for a, b, l, t in links - inner), 'service-links')
    for i, w in enumerate(works):
        orig = wg[w.id].work_unit
        units = [res[s[0]].work_unit for s in st[i]]
        obs.check(abs(sum(u.volume for u in units) - orig.volume) < 1e-6, 'volume-not-conserved', w.id)
        for u, (sid, a, b) in zip(units, st[i]):
            obs.check(u.id == sid and abs(u.volume - (b - a) * orig.volume) < 1e-6, 'stage-volume', f'{u.volume} {a} {b}')
        for name, amount in (('worker_reqs', 'volume'), ('equipment_reqs', 'count'), ('material_reqs', 'count'),
                             ('object_reqs', 'count')):
            reqs = getattr(orig, name)
            if not obs.check(all(len(getattr(u, name)) == len(reqs) for u in units), 'requirements-lost', name):
                continue
            for j, q in enumerate(reqs):
                parts = [tv(getattr(getattr(u, name)[j], amount)) for u in units]
                total = tv(getattr(q, amount))
                obs.check(sum(parts) == total, f'amount-not-conserved:{name}', f'{parts} {total}')
                obs.check(all(p >= 0 for p in parts), f'negative-amount:{name}', f'{parts} {total}')
                obs.check(all(abs(p - (b - a) * total) <= len(parts) for p, (_, a, b) in zip(parts, st[i])),
                          f'amount-not-in-proportion:{name}', f'{parts} {total} {st[i]}')
                rest = {k: v for k, v in q.__dict__.items() if k != amount}
                obs.check(all({k: v for k, v in getattr(u, name)[j].__dict__.items() if k != amount} == rest for u in units),
                          f'requirement-changed:{name}')
        names = [u.model_name['granular_name'] for u in units]
        obs.check(len(set(names)) == len(names) and all(x.startswith(w.name) for x in names), 'stage-names', f'{names}')
        obs.check(all(u.model_name['measurement'] == orig.model_name['measurement'] for u in units), 'measurement-lost')
        for k in ('group', 'priority', 'is_service_unit', 'display_name', 'description', 'zone_reqs'):
            obs.check(all(getattr(u, k) == getattr(orig, k) for u in units), f'attribute-lost:{k}')


def plan(case, r, works, res, opt, obs):
    """The links as given, observed on a schedule of the stages merged back to works."""
    cs = gen.rand_contractors(r, works)
    for w in works:
        w.materials = {}
    for n in res.nodes:
        n.work_unit.material_reqs = []
        n.work_unit.zone_reqs = []
    sch = sched.make_scheduler(case['alg'], r.randint(0, 10 ** 6), sched.ESTIMATORS['default']())
    out, *_ = sch.schedule(res, cs)
    rows = {w.id: w for w in out.works}
    merged = {w.id: (tv(w.start_time), tv(w.finish_time)) for w in out.unite_stages().works}
    st = {i: stage_ids(works, i, opt) for i in range(len(works))}
    for i, w in enumerate(works):
        s, f = tv(rows[st[i][0][0]].start_time), tv(rows[st[i][-1][0]].finish_time)
        obs.check(merged.get(w.id) == (s, f), 'merged-interval', f'{merged.get(w.id)} {(s, f)}')
        for p, lag, t in w.parents:
            ps, pf = tv(rows[st[p][0][0]].start_time), tv(rows[st[p][-1][0]].finish_time)
            obs.event(f'link:{t}')
            if t in ('FS', 'IFS'):
                obs.check(s >= pf + (lag if t == 'FS' else 0), f'plan-breaks:{t}', f'{s} {pf} {lag}')
            elif t == 'SS':
                obs.check(s >= ps, 'plan-breaks:SS', f'{s} {ps}')
            elif t == 'FF':
                obs.check(f >= pf, 'plan-breaks:FF', f'{f} {pf}')
            else:
                obs.check((s >= pf) if not opt else (s >= ps and f >= pf), 'plan-breaks:FFS', f'{(s, f)} {(ps, pf)}')
