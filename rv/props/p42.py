"""Supply: what the material timelines promise is what they deliver, and no depot, vehicle, road or platform gives more than it has."""
import math
from random import Random

from rv import gen, land
from rv.oracle import tv

from sampo.scheduler.timeline.hybrid_supply_timeline import HybridSupplyTimeline
from sampo.scheduler.timeline.to_start_supply_timeline import ToStartSupplyTimeline
from sampo.schemas.time import Time

RULE = ('both material timelines driven directly with works in random orders at random moments on tree-like networks with few vehicles and '
        'narrow roads; non-trivial: a delivery is made; distinct by deliveries')
KINDS = ['hybrid', 'start']


def cases(tier, seed):
    r = Random(f'P42-{seed}')
    return [dict(seed=r.getrandbits(40), kind=KINDS[i % 2]) for i in range(1500 if tier == 'quick' else 20000)]


def make(r):
    works = gen.rand_works(r, r.randint(2, 12), services=0, density=.1)
    mats = ['m1', 'm2', 'm3'][:r.randint(1, 3)]
    for w in works:
        for m in mats:
            if r.random() < .6:
                w.materials[m] = r.randint(1, 30)
    wg = gen.build_wg(works, r)
    n_pl, n_h = r.randint(1, 3), r.randint(1, 2)
    net = land.rand_net(r, n_pl + n_h + r.randint(0, 2), extra=0, max_len=r.choice([5, 30, 90]))
    n = len(net.nodes)
    idx = list(range(n))
    r.shuffle(idx)
    pls, hs = idx[:n_pl], idx[n_pl:n_pl + n_h]
    for w in works:
        net.platform_of[w.id] = r.choice(pls)
    for i in range(n):
        net.capacity.append({})
    need = {m: sum(w.materials.get(m, 0) for w in works) for m in mats}
    for p in pls:
        for m in mats:
            top = max([w.materials.get(m, 0) for w in works if net.platform_of[w.id] == p], default=0)
            net.capacity[p][m] = max(top, 1) + r.choice([0, 0, 3, 20])
    most = max(net.capacity[p][m] for p in pls for m in mats)
    for h in hs:
        for m in mats:
            net.capacity[h][m] = need[m] + len(works) * most
        per = r.randint(max(1, most // 4), most)
        net.holders.append((h, [{m: per for m in mats} for _ in range(math.ceil(most / per) * r.choice([1, 1, 2, 3]) + r.choice([0, 1]))]))
    wide = max(math.ceil(most / v[0][mats[0]]) for _, v in net.holders)
    # narrow roads: the biggest delivery may pass, hardly more
    net.edges = [(a, b, w, wide + r.choice([0, 0, 1, 50])) for a, b, w, _ in net.edges]
    land.realise(r, net, wg)
    return works, wg, net


def path(net, a, b):
    """The only way between two nodes of a tree: edges in order."""
    prev = {a: None}
    front = [a]
    while front:
        x = front.pop()
        for i, (u, v, _, _) in enumerate(net.edges):
            for p, q in ((u, v), (v, u)):
                if p == x and q not in prev:
                    prev[q] = (p, i)
                    front.append(q)
    out = []
    while prev[b] is not None:
        b, i = prev[b]
        out.append(i)
    return out[::-1]


def run(case, obs):
    r = Random(case['seed'])
    works, wg, net = make(r)
    t = (HybridSupplyTimeline if case['kind'] == 'hybrid' else ToStartSupplyTimeline)(net.config)
    nodes = [n for n in wg.nodes if n.id in net.platform_of]
    need = {w.id: dict(w.materials) for w in works}
    order = list(nodes)
    r.shuffle(order)
    now = 0
    trips, stock, last = [], {}, {}
    for p in set(net.platform_of.values()):
        stock[p] = dict(net.capacity[p])
        last[p] = {}
    used = {}
    calm = r.random() < .5
    for n in order:
        mats = n.work_unit.need_materials()
        p = net.platform_of[n.id]
        t0 = Time(now if calm else r.choice([0, now, r.randint(0, 150)]))
        at = t.find_min_material_time(n, t0, mats)
        obs.check(tv(at) >= tv(t0), 'promised-earlier-than-asked', f'{at} < {t0}')
        obs.check(tv(t.find_min_material_time(n, t0, mats)) == tv(at), 'asking-changes-the-answer')
        can = t.can_schedule_at_the_moment(n, t0, mats)
        obs.event('possible' if can else 'impossible')
        obs.check(can == (tv(at) == tv(t0)), 'moment-disagrees-with-the-earliest', f'{can}: asked {t0}, earliest {at}')
        obs.check(t.can_schedule_at_the_moment(n, at, mats), 'promised-moment-is-refused', f'{at}')
        at = tv(at)
        if at > tv(t0) + 1:
            sooner = r.randint(tv(t0) + 1, at - 1)
            obs.check(not t.can_schedule_at_the_moment(n, Time(sooner), mats), 'earlier-moment-possible', f'{sooner} of {t0}..{at}')
        if r.random() < .3:  # later than promised: may be possible or not
            late = Time(at + r.randint(1, 20))
            if t.can_schedule_at_the_moment(n, late, mats):
                at = tv(late)
        delivery, done = t.deliver_resources(n, Time(at), mats)
        obs.check(tv(done) == at, 'delivered-not-when-promised', f'{done}, promised {at}')
        done = tv(done)
        got = {m: items for m, items in delivery.delivery.items()}
        trip = set()
        for m, items in got.items():
            for c, a, b, h in items:
                obs.check(m in need[n.id], 'delivered-what-is-not-needed', m)
                obs.check(0 <= tv(a) <= tv(b) <= done, 'late-delivery', f'{a}..{b} for {done}')
                stock[p][m] += int(c)
                trip.add((tv(a), tv(b), str(h)))
                hi = next((i for i, _ in net.holders if net.nodes[i] == str(h)), None)
                obs.check(hi is not None, 'delivery-from-nowhere', str(h))
                used[hi, m] = used.get((hi, m), 0) + int(c)
        for m, c in need[n.id].items():
            stock[p][m] -= c
            obs.check(stock[p][m] >= 0, 'platform-out-of-stock', f'{m} {stock[p][m]}')
            obs.check(done >= last[p].get(m, 0), 'taken-before-what-is-promised', f'{done} < {last[p].get(m)}')
            last[p][m] = done
        obs.check(len(trip) <= 1, 'several-trips', trip)
        for a, b, h in trip:
            trips.append((a, b, next(i for i, _ in net.holders if net.nodes[i] == h), p, {m: sum(int(x[0]) for x in items) for m, items in got.items()}))
        now = max(now, done)
    obs.event('works', len(order))
    obs.event('deliveries', len(trips))
    for (h, m), c in used.items():
        obs.check(c <= net.capacity[h][m], 'depot-overdrawn', f'{c} of {net.capacity[h][m]}')
    evs, roads = {}, {}
    for a, b, h, p, goods in trips:
        v = dict(net.holders)[h]
        k = max(math.ceil(c / v[0][m]) for m, c in goods.items())
        way = path(net, h, p)
        over = [math.ceil(net.edges[i][2] / 5) for i in way]
        obs.check(b - a >= sum(over), 'faster-than-roads-allow', f'{b - a} < {sum(over)}')
        evs.setdefault(h, []).extend([(a, 1, k), (b + sum(over), 0, -k)])
        if b - a == sum(over):  # no stops: where it is at each moment is known
            x = a
            for i, d in zip(way, over):
                roads.setdefault(i, []).extend([(x, 1, k), (x + d, 0, -k)])
                x += d
    for what, e, top in [('vehicles-in-two-places', e, len(dict(net.holders)[h])) for h, e in evs.items()] + \
                        [('road-overloaded', e, net.edges[i][3]) for i, e in roads.items()]:
        cur = 0
        for x, _, d in sorted(e):
            cur += d
            if cur > top:
                obs.violate(what, f'{cur} of {top} at {x}')
                break
        obs.event(what + ':checked')
    obs.check(True, '')
    if trips:
        obs.nontrivial([str(x) for x in trips])
    obs.state([str(x) for x in trips])
