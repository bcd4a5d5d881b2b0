"""Landscapes: a random connected road network of platforms and depots, and the oracle of material deliveries."""
from __future__ import annotations

import math
from random import Random

from rv import oracle

from sampo.schemas.landscape import LandscapeConfiguration, ResourceHolder, Vehicle
from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
from sampo.schemas.resources import Material


class Net:
    """What the generator asked for."""

    def __init__(self):
        self.nodes: list[str] = []
        self.edges: list[tuple[int, int, int, int]] = []  # a, b, length, bandwidth
        self.capacity: list[dict[str, int]] = []
        self.holders: list[tuple[int, list[dict[str, int]]]] = []  # node index, capacity of each vehicle
        self.config: LandscapeConfiguration | None = None
        self.land_nodes: list[LandGraphNode] = []
        self.platform_of: dict[str, int] = {}  # work id -> node index

    def dist(self, src: int, usable=lambda e: True) -> list[float]:
        """Shortest lengths from src: Bellman-Ford, independent of SAMPO's routing."""
        d = [math.inf] * len(self.nodes)
        d[src] = 0
        for _ in self.nodes:
            for e in self.edges:
                if usable(e):
                    a, b, w, _ = e
                    d[b] = min(d[b], d[a] + w)
                    d[a] = min(d[a], d[b] + w)
        return d


def rand_net(r: Random, n_nodes: int, extra: float = .3, connected: bool = True, max_len: int = 30, bandwidth=(20, 60)) -> Net:
    net = Net()
    net.nodes = [f'n{i}' for i in range(n_nodes)]
    seen = set()

    def edge(a, b):
        if a != b and (min(a, b), max(a, b)) not in seen:
            seen.add((min(a, b), max(a, b)))
            net.edges.append((a, b, r.randint(1, max_len), r.randint(*bandwidth)))

    for i in range(1, n_nodes):
        if connected or r.random() < .7:
            edge(i, r.randrange(i))
    for i in range(n_nodes):
        # a node without any road is not a part of the network at all
        if not any(i in e[:2] for e in net.edges):
            edge(i, (i + 1) % n_nodes)
        for j in range(i):
            if r.random() < extra:
                edge(i, j)
    r.shuffle(net.edges)
    return net


def realise(r: Random, net: Net, wg=None) -> LandscapeConfiguration:
    if not net.capacity:
        net.capacity = [{} for _ in net.nodes]
    net.land_nodes = []
    own_ids = Random(len(net.edges) + sum(e[2] for e in net.edges)).random() < .8  # else left to the default
    for i, (name, cap) in enumerate(zip(net.nodes, net.capacity)):
        back = [(net.land_nodes[min(a, b)], w, bw) for a, b, w, bw in net.edges if max(a, b) == i]
        early = back and r.random() < .3
        node = LandGraphNode(name=name, resource_storage_unit=ResourceStorageUnit(dict(cap)),
                             **(dict(id=str(r.getrandbits(60))) if own_ids else {}), **(dict(neighbour_nodes=back) if early else {}))
        net.land_nodes.append(node)
        if early:
            continue
        for x, w, bw in back:
            a, b = (node, x) if r.random() < .5 else (x, node)
            a.add_neighbours((b, w, bw) if r.random() < .5 else [(b, w, bw)])
    if wg is not None:
        for n in wg.nodes:
            if n.id in net.platform_of:
                net.land_nodes[net.platform_of[n.id]].add_works(n if r.random() < .5 else [n])
    holders = [ResourceHolder(f'h{i}', net.nodes[i],
                              [Vehicle(f'v{i}-{j}', f'vehicle{j}', [Material(f'{m}', m, c) for m, c in cap.items()])
                               for j, cap in enumerate(vehicles)], net.land_nodes[i])
               for i, vehicles in net.holders]
    order = list(net.land_nodes)
    r.shuffle(order)
    net.config = LandscapeConfiguration(holders, LandGraph(nodes=order))
    return net.config


def material_net(r: Random, works, wg, scarce: bool = False) -> Net:
    """A network that can serve the materials of the works; `scarce` depots may run out."""
    kinds = sorted({m for w in works for m in w.materials})
    n_pl, n_h = r.randint(1, 3), r.randint(1, 2)
    net = rand_net(r, n_pl + n_h, max_len=r.choice([5, 30, 60]), bandwidth=(60, 90))
    idx = list(range(n_pl + n_h))
    r.shuffle(idx)
    pls, hs = idx[:n_pl], idx[n_pl:]
    for w in works:  # the stages of a chain share one platform
        if w.chain_prev is None:
            stages = [w]
            while stages[-1].chain_next is not None:
                stages.append(works[stages[-1].chain_next])
            if any(x.materials for x in stages) or r.random() < .7:
                p = r.choice(pls)
                for x in stages:
                    net.platform_of[x.id] = p
    net.capacity = [{} for _ in net.nodes]
    need = {m: [w.materials[m] for w in works if m in w.materials] for m in kinds}
    for p in pls:
        for m in kinds:
            here = [w.materials.get(m, 0) for w in works if net.platform_of.get(w.id) == p]
            net.capacity[p][m] = max(max(here, default=0), 1) + r.choice([0, 0, 3, 40])
    top = max((net.capacity[p][m] for p in pls for m in kinds), default=1)
    for h in hs:
        for m in kinds:
            full = sum(need[m]) + len(need[m]) * top
            net.capacity[h][m] = r.randint(0, full) if scarce else full * 2
        per = r.randint(max(1, top // 6), max(1, top))
        net.holders.append((h, [{m: per for m in kinds} for _ in range(math.ceil(top / per) + r.randint(0, 8))]))
    realise(r, net, wg)
    return net


def deliveries(schedule):
    """work id -> [(material, count, start, finish, holder name)]"""
    res = {}
    for w in schedule.works:
        for mat, items in w.materials.delivery.items():
            for count, st, fn, holder in items:
                res.setdefault(w.id, []).append((mat, int(count), oracle.tv(st), oracle.tv(fn), str(holder)))
    return res


def material_violations(schedule, works, net: Net, start: int = 0):
    out = []
    sw = oracle.sw_map(schedule)
    dl = deliveries(schedule)
    by_name = {net.nodes[i]: i for i, _ in net.holders}
    need = {w.id: {m: c for m, c in w.materials.items() if c} for w in works if not w.service}
    used = {}
    trips = {}
    for wid, items in dl.items():
        for mat, count, st, fn, holder in items:
            if holder not in by_name:
                out.append(('delivery-from-nowhere', f'{wid} {mat} from {holder}'))
                continue
            if mat not in need.get(wid, {}):
                out.append(('delivery-not-needed', f'{wid} got {count} {mat}'))
            if count <= 0:
                out.append(('delivery-of-nothing', f'{wid} {mat} {count}'))
            if fn > oracle.tv(sw[wid].start_time):
                out.append(('late-delivery', f'{wid} starts {sw[wid].start_time}, {mat} arrives {fn}'))
            h = by_name[holder]
            way = net.dist(h)[net.platform_of[wid]]
            if fn - st < way / 5:  # the speed of every road
                out.append(('faster-than-roads-allow', f'{wid} {mat} {st}..{fn}, shortest way {way}'))
            if st < 0:
                out.append(('delivery-before-start', f'{wid} {mat} leaves at {st}'))
            used[h, mat] = used.get((h, mat), 0) + count
            trips.setdefault(h, {}).setdefault((wid, st, fn), {})[mat] = count
    for (h, mat), c in used.items():
        if c > net.capacity[h].get(mat, 0):
            out.append(('depot-overdrawn', f'{net.nodes[h]} gave {c} {mat} of {net.capacity[h].get(mat, 0)}'))
    # platforms: they start full; deliveries come in, works take out at their start
    for p in sorted(set(net.platform_of.values())):
        evs = {}
        for w in works:
            if net.platform_of.get(w.id) != p or w.id not in sw:
                continue
            for mat, count, st, fn, holder in dl.get(w.id, []):
                evs.setdefault(mat, []).append((fn, 0, count, w.id))
            for mat, c in need.get(w.id, {}).items():
                evs.setdefault(mat, []).append((oracle.tv(sw[w.id].start_time), 1, -c, w.id))
        for mat, es in evs.items():
            stock = net.capacity[p].get(mat, 0)
            for t, _, d, wid in sorted(es):
                stock += d
                if stock < 0:
                    out.append(('platform-out-of-stock', f'{net.nodes[p]} {mat} {stock} at {t} for {wid}'))
                    break
    return out, trips


def vehicle_violations(trips, net: Net):
    """A vehicle is away from its depot until it has brought its goods and come back, by the shortest way at best."""
    out = []
    caps = {i: v for i, v in net.holders}
    for h, tr in trips.items():
        evs = []
        for (wid, st, fn), mats in tr.items():
            v = caps[h][0]
            n = max(math.ceil(c / v[m]) for m, c in mats.items())
            if n > len(caps[h]):
                out.append(('more-vehicles-than-depot-has', f'{wid}: {n} of {len(caps[h])}'))
            back = net.dist(h)[net.platform_of[wid]] / 5  # the speed of every road
            evs += [(st, 1, n), (fn + back, 0, -n)]
        cur = 0
        for t, _, d in sorted(evs):
            cur += d
            if cur > len(caps[h]):
                out.append(('vehicles-in-two-places', f'{net.nodes[h]} uses {cur} of {len(caps[h])} vehicles at {t}'))
                break
    return out
