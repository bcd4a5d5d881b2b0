"""Routing over the landscape: distances, orders of depots and routes against an independent shortest-path computation."""
import math
from random import Random

from rv import gen, land

RULE = ('random road networks (connected or not, parallel ways, equal lengths) with depots, every pair of nodes and random '
        'subsets of available roads; non-trivial: some pair has no direct road or its direct road is not the shortest; '
        'distinct by network')


def cases(tier, seed):
    r = Random(f'P16-{seed}')
    return [dict(seed=r.getrandbits(40)) for _ in range(9000 if tier == 'quick' else 100000)]


def route_end(net, ends, src, route):
    """Walk the roads of the route from src; (end node, length) or None if the roads do not join."""
    cur, total = src, 0
    for rid in route:
        if rid not in ends:
            return None
        a, b, w = ends[rid]
        if cur == a:
            cur = b
        elif cur == b:
            cur = a
        else:
            return None
        total += w
    return cur, total


def run(case, obs):
    r = Random(case['seed'])
    n = r.randint(2, 9)
    net = land.rand_net(r, n, extra=r.choice([0, .15, .4, .8]), connected=r.random() < .7, max_len=r.choice([1, 3, 40]),
                        bandwidth=(1, 5))
    idx = list(range(n))
    r.shuffle(idx)
    net.capacity = [{'m': r.randint(0, 9)} for _ in range(n)]
    for h in idx[:r.randint(1, max(1, n - 1))]:
        net.holders.append((h, [{'m': 5}]))
    works = gen.rand_works(r, r.randint(1, 6), services=0)
    wg = gen.build_wg(works, r)
    plats = [i for i in range(n) if i not in [h for h, _ in net.holders]]
    if plats:
        for w in works:
            net.platform_of[w.id] = r.choice(plats)
    cfg = land.realise(r, net, wg)
    by_node = {id(x): i for i, x in enumerate(net.land_nodes)}
    ends = {}
    for x in net.land_nodes:
        for e in x.roads:
            ends[e.id] = (by_node[id(e.start)], by_node[id(e.finish)], e.weight)
    obs.check(len(ends) == len(net.edges), 'roads-lost', f'{len(ends)} of {len(net.edges)}')
    obs.check(sorted(x.id for x in cfg.roads) == sorted(ends), 'roads-of-configuration')
    for road in cfg.roads:
        obs.check(road.length == ends[road.id][2], 'road-length')
        obs.check(road.overcome_time == math.ceil(road.length / road.speed), 'road-time')
    obs.check(sorted(x.name for x in cfg.platforms) == sorted(net.nodes[i] for i in plats), 'platforms',
              lambda: str([x.name for x in cfg.platforms]))
    obs.check([h.name for h in cfg.holders] == [net.nodes[i] for i, _ in net.holders], 'holders')
    for w in wg.nodes:
        want = net.platform_of.get(w.id)
        got = cfg.works2platform.get(w)
        obs.check((got.name if got is not None else None) == (net.nodes[want] if want is not None else None),
                  'work-on-a-wrong-platform', w.id)
    res = cfg.get_platforms_resources()
    obs.check(res == {net.land_nodes[i].id: net.capacity[i] for i in plats}, 'platform-resources')
    dist = [net.dist(i) for i in range(n)]
    indirect = 0
    for a in range(n):
        hs = [(dist[a][h], net.land_nodes[h].id) for h, _ in net.holders if h != a and dist[a][h] < math.inf]
        got = [(d, i) for d, i in cfg.get_sorted_holders(net.land_nodes[a]) if i != net.land_nodes[a].id]
        obs.check(sorted(got) == sorted(hs), 'distance-of-depots', lambda: f'{sorted(got)} expected {sorted(hs)}')
        obs.check([d for d, _ in got] == sorted(d for d, _ in got), 'order-of-depots')
        for b in range(n):
            if a == b:
                continue
            A, B = net.land_nodes[a], net.land_nodes[b]
            if dist[a][b] < math.inf:
                way = route_end(net, ends, a, cfg.get_route(A, B))
                obs.check(way is not None and way[0] == b, 'route-is-broken', f'{a}->{b}')
                obs.check(way is None or way[1] == dist[a][b], 'route-is-not-shortest', lambda: f'{a}->{b} {way} {dist[a][b]}')
                direct = [w for x, y, w, _ in net.edges if {x, y} == {a, b}]
                indirect += not direct or direct[0] > dist[a][b]
            share = r.choice([0, .5, .8, 1])
            avail = [x for x in cfg.roads if r.random() < share]
            ids = {x.id for x in avail}
            key = {rid: (x, y) for rid, (x, y, _) in ends.items() if rid in ids}
            pairs = {frozenset(v) for v in key.values()}
            d = net.dist(a, lambda e: frozenset(e[:2]) in pairs)[b]
            route = cfg.construct_route(A, B, avail)
            obs.event('routes')
            if d == math.inf:
                obs.event('no-route')
                obs.check(route == [], 'route-without-available-roads', f'{a}->{b} {route}')
            else:
                way = route_end(net, ends, a, route)
                obs.check(set(route) <= ids, 'route-over-unavailable-roads')
                obs.check(way is not None and way[0] == b, 'constructed-route-is-broken', f'{a}->{b} {route}')
                obs.check(way is None or way[1] == d, 'constructed-route-is-not-shortest', lambda: f'{a}->{b} {way} {d}')
    if indirect:
        obs.nontrivial(net.edges, net.holders)
    obs.state(net.edges)
    obs.sample({'edges': net.edges[:6], 'indirect': indirect})
