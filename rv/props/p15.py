"""Zones: works that need different statuses of a zone never share it, and the recorded changes explain every status."""
from random import Random

import numpy as np

from rv import gen, oracle, sched
from rv.oracle import tv

from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.zones import ZoneConfiguration

RULE = ('random projects whose works need zones in given statuses, with free and costly changes of status, start and end '
        'statuses x schedulers; non-trivial: a zone is needed in two different statuses; distinct by schedule content')
ALGS = ['heft', 'heftb', 'topo', 'lft', 'rlft', 'heft_avg']


def cases(tier, seed):
    r = Random(f'P15-{seed}')
    k = 2 if tier == 'quick' else 20
    out = []
    for i in range(900 * k):
        out.append(dict(seed=r.getrandbits(40), alg=ALGS[i % len(ALGS)], cost=[0, 0, 5, 40][(i // len(ALGS)) % 4]))
    for i in range(80 * k):
        out.append(dict(seed=r.getrandbits(40), alg=['gen_par', 'gen_ser'][i % 2], cost=[0, 0, 5, 40][(i // 2) % 4]))
    return out


def in_change(schedule, zone, status, moment):
    return any(t.name == zone and t.to_status == status and tv(t.start_time) <= moment < tv(t.end_time)
               for w in schedule.works for t in w.zones_pre)


def run(case, obs):
    r = Random(case['seed'])
    works = gen.rand_works(r, r.randint(2, 14), chains=r.choice([0, 0, .3]), density=r.choice([.1, .3]),
                           services=0.02, priorities=r.random() < .2)
    zs = ['z1', 'z2', 'z3'][:r.randint(1, 3)]
    zero = r.random() < .3
    for w in works:
        if w.service:
            continue
        if w.chain_prev is not None:
            w.zones = dict(works[w.chain_prev].zones)
            continue
        for z in zs:
            if r.random() < .6:
                w.zones[z] = r.randint(0 if zero else 1, 2)
    pr = gen.Project(works)
    pr.wg = gen.build_wg(works, r)
    pr.contractors = gen.rand_contractors(r, works, tight=.2)
    c = case['cost']
    d = r.choice([c, c, 9, 1]) if c else 0  # back from status 2 to status 1
    costs = np.array([[0, c, c], [0, 0, c], [0, d, 0]])
    start = {z: r.randint(0, 2) for z in zs}
    end = {z: r.randint(1, 2) for z in zs if r.random() < .3}
    land = LandscapeConfiguration(zone_config=ZoneConfiguration(start_statuses=dict(start), end_statuses=dict(end),
                                                                time_costs=costs))
    sch = sched.make_scheduler(case['alg'], r.randint(0, 10 ** 6), sched.ESTIMATORS['default'](), gens=1, pop=6)
    res = sch.schedule(pr.wg, pr.contractors, landscape=land)
    for s in res:
        sw = oracle.sw_map(s)
        obs.extend(oracle.completeness(s, pr.wg))
        obs.extend(oracle.precedence(s, pr.wg))
        obs.extend(oracle.capacity(s, pr.wg, pr.contractors)[0])
        both = False
        for z in zs:
            iv = sorted((tv(sw[w.id].start_time), tv(sw[w.id].finish_time), w.zones[z], w.id) for w in works if z in w.zones)
            both |= len({x[2] for x in iv} - {0}) == 2
            for i, b in enumerate(iv):
                for a in iv[:i]:
                    obs.event('pairs')
                    if 0 in (a[2], b[2]) or a[2] == b[2]:
                        continue
                    if a[0] < b[1] and b[0] < a[1]:
                        obs.violate('zone-in-two-statuses', f'{z}: {a} and {b}')
                    elif c and a[1] > a[0] and b[1] > b[0] and b[0] < a[1] + costs[a[2], b[2]]:
                        obs.violate('zone-used-during-status-change' if in_change(s, z, b[2], b[0]) else
                                    'status-changed-too-fast', f'{z}: {a} and {b}, a change takes {costs[a[2], b[2]]}')
        # recorded transitions
        for w in s.works:
            need = {x.id: x.zones for x in works}.get(w.id, end)
            for t in w.zones_pre:
                obs.event('transitions')
                if need.get(t.name) != t.to_status:
                    obs.violate('transition-to-a-status-not-needed', f'{w.id} {t}')
                if t.from_status == t.to_status:
                    obs.violate('transition-without-change', f'{w.id} {t}')
                if tv(t.end_time) > tv(w.start_time):
                    obs.violate('transition-after-the-work-starts', f'{w.id} {t} {t.end_time} {w.start_time}')
                cost = int(costs[t.from_status, t.to_status])
                if tv(t.end_time) - tv(t.start_time) != cost:
                    obs.violate('transition-time', f'{w.id} {t} {t.start_time}..{t.end_time} cost {cost}')
        # nobody works in a zone while its status is changed to another one
        for z in zs:
            trs = [t for w in s.works for t in w.zones_pre + w.zones_post if t.name == z]
            for w in works:
                n = w.zones.get(z)
                a, b = tv(sw[w.id].start_time), tv(sw[w.id].finish_time)
                if n and a < b:
                    for t in trs:
                        if tv(t.start_time) < b and a < tv(t.end_time) and t.start_time != t.end_time:
                            obs.event('transitions-over-works')
                            obs.violate('zone-used-during-status-change' if t.to_status == n else 'status-changed-under-a-work',
                                        f'{z} {t} {t.start_time}..{t.end_time}, {w.id} needs {n} in {a}..{b}')
        early = set()
        for z in zs:
            ws = sorted(((tv(sw[w.id].start_time), tv(sw[w.id].finish_time), w.id) for w in works
                         if z in w.zones and w.chain_prev is None),
                        key=lambda x: (x[0], not any(t.name == z for t in sw[x[2]].zones_pre)))
            st = start[z]
            for i, (a, b, wid) in enumerate(ws):
                n = {x.id: x.zones for x in works}[wid][z]
                tr = [t for t in sw[wid].zones_pre if t.name == z]
                if len(tr) > 1:
                    obs.violate('several-transitions', f'{wid} {z}')
                if not zero and all(x[1] > x[0] for x in ws):
                    if n != st and not tr:
                        obs.violate('zone-used-during-status-change' if in_change(s, z, n, a) else 'status-appears-from-nowhere',
                                    f'{z} is {st}, {wid} needs {n}')
                        early.add(z)
                    if tr and tr[0].from_status != st and z not in early:
                        obs.violate('transition-from-a-wrong-status', f'{z} is {st}, {wid} {tr[0]}')
                    st = n
            if z in end and not zero and z not in early and all(x[1] > x[0] for x in ws) and st != end[z]:
                obs.event('end-transitions')
                last = [t for t in sw[pr.wg.finish.id].zones_pre if t.name == z]
                obs.check([t.to_status for t in last] == [end[z]], 'end-status-not-reached',
                          f'{z} is left {st}, must be {end[z]}: {last}')
        if both:
            obs.nontrivial(sched.signature(s))
        obs.state(sched.signature(s))
        obs.sample({'zones': start, 'cost': c})
