"""Workload generators. Everything is a pure function of a `random.Random`, so a case is replayed from its seed.

The generators build SAMPO inputs through the public constructors only and keep a private, independent
description of what was asked for (`Project`), which the oracles use instead of asking SAMPO.
"""
from __future__ import annotations

import math
from dataclasses import dataclass, field
from random import Random

import numpy as np

from sampo.schemas.contractor import Contractor
from sampo.schemas.graph import GraphNode, WorkGraph, EdgeType
from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
from sampo.schemas.requirements import WorkerReq, MaterialReq, ZoneReq
from sampo.schemas.resources import Worker, Material
from sampo.schemas.schedule_spec import ScheduleSpec
from sampo.schemas.time import Time
from sampo.schemas.works import WorkUnit
from sampo.schemas.zones import ZoneConfiguration

KINDS = ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']

FS, IFS, FFS, SS, FF = (EdgeType.FinishStart, EdgeType.InseparableFinishStart, EdgeType.LagFinishStart,
                        EdgeType.StartStart, EdgeType.FinishFinish)


@dataclass
class W:
    """What the generator asked for, for one work."""
    id: str
    reqs: dict[str, tuple[int, int, int]]  # kind -> (volume, min, max)
    service: bool = False
    volume: float = 1.0
    priority: int = 1
    materials: dict[str, int] = field(default_factory=dict)
    zones: dict[str, int] = field(default_factory=dict)
    name: str = ''
    group: str = 'main project'
    parents: list[tuple[int, float, str]] = field(default_factory=list)  # (index, lag, edge type value)
    chain_next: int | None = None
    chain_prev: int | None = None


@dataclass
class Project:
    works: list[W]
    wg: WorkGraph = None
    contractors: list[Contractor] = None
    spec: ScheduleSpec = None
    spec_plan: dict = field(default_factory=dict)
    landscape: LandscapeConfiguration = None
    start: Time = None
    tags: set = field(default_factory=set)

    def by_id(self):
        return {w.id: w for w in self.works}


ID_STYLES = ['num', 'w', 'prefix', 'hex', 'pad']


def make_ids(rng: Random, n: int) -> list[str]:
    style = rng.choice(ID_STYLES)
    if style == 'num':
        ids = [str(i) for i in range(1, n + 1)]
    elif style == 'w':
        ids = [f'w{i}' for i in range(n)]
    elif style == 'prefix':
        ids = ['1' + '0' * (i % 5) + str(i) for i in range(n)]
    elif style == 'hex':
        ids = [f'{rng.getrandbits(64):016x}' for _ in range(n)]
    else:
        ids = [f'{i:06d}' for i in range(n)]
    rng.shuffle(ids)
    return ids


def rand_works(rng: Random, n: int, *, density: float = 0.3, lags: str = 'none', chains: float = 0.0,
               services: float = 0.05, kinds: int | None = None, max_count: int = 12, vol: int = 40,
               priorities: bool = False, edge_mix: tuple = (), min_zero: bool = False,
               no_req: float = 0.0, shape: str | None = None, uniform_chain: bool = True,
               zero_vol: float = 0.0) -> list[W]:
    """Random DAG over `n` works; edges always go from a smaller index to a larger one."""
    kinds_all = KINDS[:]
    rng.shuffle(kinds_all)
    kinds_all = kinds_all[:kinds or rng.randint(1, len(KINDS))]
    ids = make_ids(rng, n)
    shape = shape or rng.choice(['random', 'random', 'layers', 'chain', 'wide', 'diamond'])
    works: list[W] = []
    for i in range(n):
        service = rng.random() < services
        reqs = {}
        if not service and rng.random() >= no_req:
            for k in rng.sample(kinds_all, rng.randint(1, min(len(kinds_all), 4))):
                lo = rng.choice([1, 1, 2, rng.randint(1, max_count)])
                if min_zero and rng.random() < 0.15:
                    lo = 0
                hi = max(1, lo + rng.choice([0, 1, rng.randint(0, max_count)]))
                v = 0 if rng.random() < zero_vol else rng.randint(1, vol)
                reqs[k] = (v, lo, hi)
        works.append(W(ids[i], reqs, service, volume=float(rng.choice([1, 10, rng.randint(1, 100), rng.random() * 50 + .5])),
                       name=f'{rng.choice(["dig", "pour", "lay", "weld"])} {rng.randint(0, 9)}',
                       group=rng.choice(['main project', 'north', 'south'])))
    # chains first: consecutive runs of indices, linked IFS
    head_of = list(range(n))
    if chains > 0:
        i = 0
        while i < n - 1:
            if rng.random() < chains:
                ln = rng.randint(2, min(4, n - i))
                for j in range(i + 1, i + ln):
                    prev = works[j - 1]
                    works[j].parents.append((j - 1, 0, 'IFS'))
                    works[j].chain_prev = j - 1
                    prev.chain_next = j
                    head_of[j] = i
                    works[j].service = works[i].service
                    # stages of one work share their team requirements (as produced by restructuring)
                    works[j].reqs = {k: (rng.randint(0 if rng.random() < .1 else 1, vol), lo, hi)
                                     for k, (_, lo, hi) in works[i].reqs.items()}
                    works[j].priority = works[i].priority
                i += ln
            else:
                i += 1

    def lag():
        if lags == 'none':
            return 0
        if lags == 'int':
            return rng.choice([0, 0, 1, 3, rng.randint(0, 20)])
        return rng.choice([0, 2.5, 1.0, rng.randint(0, 20), rng.random() * 10])

    def link(p, c):
        if head_of[p] == head_of[c]:
            return
        if any(q == p for q, _, _ in works[c].parents):
            return
        kind = 'FS'
        if edge_mix and rng.random() < 0.5:
            kind = rng.choice(edge_mix)
        lg = lag()
        if kind in ('FFS', 'SS', 'FF'):
            lg = rng.choice([0, 1, 2.5, round(rng.random() * works[p].volume, 2), works[p].volume, works[p].volume * 2])
        works[c].parents.append((p, lg, kind))

    # external edges; to keep the chain-collapsed graph acyclic, an edge from a later index never enters an
    # earlier chain, which holds because chains are index-contiguous and edges go to larger indices
    for c in range(n):
        lo = head_of[c]
        cand = [p for p in range(lo)]
        if not cand:
            continue
        if shape == 'chain':
            ps = [lo - 1] if rng.random() < .9 else []
        elif shape == 'wide':
            ps = [rng.choice(cand)] if rng.random() < .2 else []
        elif shape == 'layers':
            ps = [p for p in cand[-6:] if rng.random() < density]
        elif shape == 'diamond':
            ps = [cand[0], cand[-1]] if rng.random() < .7 else []
        else:
            ps = [p for p in rng.sample(cand, min(len(cand), 5)) if rng.random() < density]
        for p in ps:
            link(p, c)
    if priorities:
        # monotone along edges (and equal inside a chain), as after check_and_correct_priorities
        levels = rng.randint(2, 4)
        for i in range(n):
            h = head_of[i]
            if h != i:
                works[i].priority = works[h].priority
                continue
            grp = [j for j in range(n) if head_of[j] == i]
            low = max([works[p].priority for j in grp for p, _, _ in works[j].parents if head_of[p] != i], default=1)
            works[i].priority = rng.randint(low, max(low, levels)) if rng.random() < .6 else low
            for j in grp:
                works[j].priority = works[i].priority
    return works


def build_nodes(works: list[W]) -> list[GraphNode]:
    nodes: list[GraphNode] = []
    for w in works:
        wu = WorkUnit(w.id, {'granular_name': w.name, 'measurement': 'unit'},
                      worker_reqs=[WorkerReq(k, Time(v), lo, hi) for k, (v, lo, hi) in w.reqs.items()],
                      material_reqs=[MaterialReq(k, c, k) for k, c in w.materials.items()],
                      zone_reqs=[ZoneReq(k, s, k) for k, s in w.zones.items()],
                      group=w.group, is_service_unit=w.service, volume=w.volume, display_name=w.name,
                      priority=w.priority)
        nodes.append(GraphNode(wu, [(nodes[p], lag, EdgeType(t)) for p, lag, t in w.parents]))
    return nodes


def build_wg(works: list[W], rng: Random | None = None) -> WorkGraph:
    return WorkGraph.from_nodes(build_nodes(works), rand=rng)


def need(works: list[W]) -> dict[str, int]:
    res: dict[str, int] = {}
    for w in works:
        for k, (_, lo, hi) in w.reqs.items():
            res[k] = max(res.get(k, 0), lo)
    return res


def rand_contractors(rng: Random, works: list[W], n: int | None = None, *, tight: float = 0.5,
                     specialised: bool = False, costs: bool = False, shuffle_kinds: bool = True,
                     extra_kinds: bool = True) -> list[Contractor]:
    """At least one contractor is able to perform every work (unless `specialised`, where each work has one)."""
    n = n or rng.choice([1, 1, 2, 2, 3, 4])
    nd = need(works)
    hi = {}
    for w in works:
        for k, (_, lo, h) in w.reqs.items():
            hi[k] = max(hi.get(k, 0), h)
    out = []
    universal = rng.randrange(n)
    style = rng.choice(['num', 'name'])
    for c in range(n):
        ks = list(nd)
        if extra_kinds and rng.random() < .3:
            ks += [k for k in KINDS if k not in ks and rng.random() < .4]
        if shuffle_kinds:
            rng.shuffle(ks)
        workers = {}
        for k in ks:
            base = nd.get(k, 1)
            if c == universal:
                cnt = base if rng.random() < tight else base + rng.randint(0, max(1, hi.get(k, 1)))
            else:
                if specialised and rng.random() < .3:
                    continue
                cnt = max(0, base + rng.randint(-base, max(1, hi.get(k, 1))))
            cost = rng.choice([None, 1.0, 7.5, 20.0]) if costs else None
            workers[k] = Worker(f'{c}-{k}', k, cnt, cost_one_unit=cost)
        cid = str(c) if style == 'num' else f'contractor-{c}'
        out.append(Contractor(id=cid, name=rng.choice(['', f'OOO {c}', 'OOO Berezka']), workers=workers, equipments={}))
    return out


def able(contractor: Contractor, w: W) -> bool:
    return all(k in contractor.workers and contractor.workers[k].count >= lo for k, (_, lo, _) in w.reqs.items())


def chain_heads(works: list[W]) -> list[int]:
    return [i for i, w in enumerate(works) if w.chain_prev is None]


def chain_of(works: list[W], i: int) -> list[int]:
    while works[i].chain_prev is not None:
        i = works[i].chain_prev
    res = [i]
    while works[res[-1]].chain_next is not None:
        res.append(works[res[-1]].chain_next)
    return res


def rand_spec(rng: Random, pr: Project, *, contractors: float = 0.0, full_team: float = 0.0, part_team: float = 0.0,
              time: float = 0.0, independent: float = 0.0, free: float = 0.0) -> None:
    """Fills pr.spec with entries that at least one able contractor can honour; pr.spec_plan remembers them."""
    spec = ScheduleSpec()
    plan: dict[str, dict] = {}

    def key(w):
        # works are named by their ids or given themselves
        return w.id if rng.random() < .5 else pr.wg[w.id].work_unit

    def assign(w, team):
        if rng.random() < .5:
            spec.assign_workers_dict(key(w), team)
        else:
            spec.assign_workers(key(w), [Worker(k, k, c) for k, c in team.items()])

    for h in chain_heads(pr.works):
        w = pr.works[h]
        if w.service:
            continue
        ok = [c for c in pr.contractors if able(c, w)]
        if not ok:
            continue
        chosen = rng.choice(ok)
        entry = {}
        if rng.random() < contractors:
            cs = {chosen.id} | {c.id for c in pr.contractors if rng.random() < .3}
            spec.assign_contractors(key(w), set(cs))
            entry['contractors'] = cs

        def only():
            # usually the contractor that owns the team is named too, otherwise it has to be found
            if not (free and rng.random() < free):
                spec.assign_contractors(key(w), {chosen.id})
                entry['contractors'] = {chosen.id}

        if w.reqs and rng.random() < full_team:
            team = {}
            for k, (_, lo, hi) in w.reqs.items():
                team[k] = rng.randint(max(lo, 1), max(max(lo, 1), min(hi, chosen.workers[k].count)))
            if all(team[k] <= chosen.workers[k].count for k in team):
                only()
                assign(w, team)
                entry['team'] = team
        elif len(w.reqs) > 1 and rng.random() < part_team:
            k = rng.choice(list(w.reqs))
            _, lo, hi = w.reqs[k]
            if min(hi, chosen.workers[k].count) >= max(lo, 1):
                team = {k: rng.randint(max(lo, 1), min(hi, chosen.workers[k].count))}
                only()
                assign(w, team)
                entry['part'] = team
        if rng.random() < time and w.reqs:
            t = rng.randint(1, 30)
            spec.set_exec_time(key(w), Time(t))
            entry['time'] = t
        if rng.random() < independent:
            spec.get_work_spec(w.id).is_independent = True
            entry['independent'] = True
        if entry:
            plan[w.id] = entry
    pr.spec, pr.spec_plan = spec, plan
