"""Decoding a chromosome: the plan is the chromosome's, is valid within the chromosome's borders, and wastes no time."""
from copy import deepcopy
from random import Random

import numpy as np

from rv import gen, oracle, sched
from rv.oracle import tv
from rv.props.p17 import Space, frozen, spec_of

from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
from sampo.scheduler.genetic.converter import convert_chromosome_to_schedule, convert_schedule_to_chromosome
from sampo.scheduler.genetic.operators import init_toolbox
from sampo.scheduler.genetic.utils import prepare_optimized_data_structures
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.resources import Worker
from sampo.schemas.schedule import Schedule
from sampo.schemas.time import Time

RULE = ('chromosomes built at random from the description of a project - any order of dependencies, any counts, contractors and '
        'borders - and decoded by both schemes of generation; non-trivial: a decoded plan; distinct by plan')
PROFILES = ['plain', 'dense', 'lags', 'flags', 'chains', 'prio', 'tight', 'special', 'spec', 'specteam', 'specpart', 'spectime',
            'specind', 'specmix', 'edge', 'big']
LAND = LandscapeConfiguration()


def cases(tier, seed):
    r = Random(f'P18-{seed}')
    k = 1 if tier == 'quick' else 25
    return [dict(seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)], est=['default', 'default', 'slow', 'zero'][i % 4])
            for i in range(480 * k)]


def chromosome(r, pr, sp):
    """Any valid chromosome."""
    left = {n: set(d) for n, d in sp.deps.items()}
    seq = []
    while left:
        ready = sorted(n for n, d in left.items() if not d)
        low = min((sp.prio[n] or 0) for n in ready if sp.prio[n] is not None) if any(sp.prio[n] is not None for n in ready) else 0
        ready = [n for n in ready if (sp.prio[n] or 0) <= low]
        n = r.choice(ready)
        seq.append(n)
        del left[n]
        for d in left.values():
            d.discard(n)
    res = np.zeros((len(seq), len(sp.kinds) + 1), dtype=int)
    borders = np.zeros((len(sp.cap), len(sp.kinds)), dtype=int)
    low = {}
    for n, i in sp.pos.items():
        lo = {k: sp.bounds(n, k)[0] for k in sp.reqs[n]}
        ok = sorted(c for c in sp.owners(n) if all(k in sp.cap[c] and sp.cap[c][k] >= v for k, v in lo.items()))
        c = r.choice(ok)
        res[i, -1] = sp.cons[c]
        for k, v in lo.items():
            cnt = r.randint(v, min(sp.bounds(n, k)[1], sp.cap[c][k]))
            if r.random() < .3:
                cnt = min(sp.bounds(n, k)[1], sp.cap[c][k])
            res[i, sp.kinds[k]] = cnt
            low[c, k] = max(low.get((c, k), 0), cnt)
    full = r.random() < .4
    for c, ci in sp.cons.items():
        for k, ki in sp.kinds.items():
            cap = sp.cap[c].get(k, 0)
            borders[ci, ki] = cap if full else r.randint(low.get((c, k), 0), cap)
    return (np.array([sp.pos[n] for n in seq]), res, borders, deepcopy(pr.spec), np.zeros((len(seq), 0), dtype=int)), seq


def lengths(pr, sp, est, ch):
    """work -> duration, for the whole projects' works"""
    nodes = {n.id: n for n in pr.wg.nodes}
    head, chains = oracle.chain_map(pr.wg)
    out = {}
    for h, ids in chains.items():
        i = sp.pos[h]
        team = [Worker(str(k), k, int(ch[1][i, ki]), contractor_id=sp.name[int(ch[1][i, -1])])
                for k, ki in sp.kinds.items() if k in sp.reqs[h]]
        for x in ids:
            order = {w.name: w for w in team}
            reqs = nodes[x].work_unit.worker_reqs
            out[x] = tv(est.estimate_time(nodes[x].work_unit, [order[q.kind] for q in reqs])) if reqs else 0
    return out


def usage_ok(items, key, cnt, cap, s, f):
    """Is there room for cnt more during [s, f)?"""
    pts = [s] + [a for a, b, c in items.get(key, ()) if s < a < f]
    return all(cnt + sum(c for a, b, c in items.get(key, ()) if a <= t < b) <= cap for t in pts)


def serial(pr, sp, ch, seq, dur, start):
    """A reference serial scheme for projects without chains: every work at its earliest moment given the ones before it."""
    nodes = {n.id: n for n in pr.wg.nodes}
    st, fin, used = {}, {}, {}
    for n in seq:
        i = sp.pos[n]
        t = start
        for e in nodes[n].edges_to:
            if e.start.id in fin:
                t = max(t, fin[e.start.id] + int(e.lag))
        if sp.reqs[n]:
            team = [((int(ch[1][i, -1]), ki), int(ch[1][i, ki]), int(ch[2][int(ch[1][i, -1]), ki]))
                    for k, ki in sp.kinds.items() if k in sp.reqs[n] and ch[1][i, ki]]
            marks = sorted({t} | {b for key, _, _ in team for _, b, _ in used.get(key, ()) if b > t})
            t = next(m for m in marks if all(usage_ok(used, key, cnt, cap, m, m + dur[n]) for key, cnt, cap in team))
            if dur[n]:
                for key, cnt, _ in team:
                    used.setdefault(key, []).append((t, t + dur[n], cnt))
        st[n], fin[n] = t, t + dur[n]
    return st


def run(case, obs):
    pr, est, start, r = sched.build(case)
    data = prepare_optimized_data_structures(pr.wg, pr.contractors, LAND, pr.spec)
    (pool, index2node, index2zone, work2index, kinds, index2con, pool_idx, cons, borders, node_idx, prios, parents, children,
     res_border, avail) = data
    sp = Space(pr, index2node, kinds, cons)
    obs.check(np.array_equal(borders, np.array([[sp.cap[c].get(k, 0) for k in kinds] for c in cons])), 'borders-not-capacities')
    simple = not any(w.chain_next is not None for w in pr.works)
    head, chains = oracle.chain_map(pr.wg)
    for _ in range(3):
        ch, seq = chromosome(r, pr, sp)
        bad = list(sp.errors(ch))
        assert not bad, bad
        before = frozen(ch)
        caps = [type(c)(id=c.id, name=c.name, equipments={}, workers={k: Worker(w.id, k, int(ch[2][cons[c.id], kinds[k]]),
                contractor_id=c.id) for k, w in c.workers.items()}) for c in pr.contractors]
        dur = lengths(pr, sp, est, ch)
        plans = {}
        for sgs in (SGS.Serial, SGS.Parallel):
            tag = sgs.value.lower() + ':'
            args = dict(worker_pool=pool, index2node=index2node, index2contractor=index2con, index2zone=index2zone,
                        worker_pool_indices=pool_idx, worker_name2index=kinds, contractor2index=cons, landscape=LAND,
                        assigned_parent_time=start, work_estimator=est, sgs_type=sgs)
            works, t0, timeline, order = convert_chromosome_to_schedule(ch, **args)
            s = Schedule.from_scheduled_works(works.values(), pr.wg)
            obs.event(f'decoded:{sgs.value}')
            for name in ('completeness', 'precedence', 'chains_ok'):
                obs.extend(getattr(oracle, name)(s, pr.wg), tag)
            obs.extend(oracle.shifted(s, start), tag)
            obs.extend(oracle.capacity(s, pr.wg, caps)[0], tag + 'borders:')
            obs.extend(oracle.durations(s, pr.wg, est, pr.spec_plan), tag)
            obs.extend(oracle.spec_obeyed(s, pr.wg, pr.spec_plan), tag)
            sw = oracle.sw_map(s)
            first = min((tv(w.start_time) for w in sw.values() if w.workers), default=tv(start))
            obs.check(tv(start) <= tv(t0) <= first, tag + 'start-wrong', f'{t0}: not in [{start}, {first}]')
            for n, i in sp.pos.items():
                got = sorted((w.name, int(w.count)) for w in sw[n].workers)
                want = sorted((k, int(ch[1][i, ki])) for k, ki in kinds.items() if k in sp.reqs[n])
                obs.check(got == want, tag + 'team-not-of-chromosome', lambda: f'{n}: {got} != {want}')
                if sp.reqs[n]:
                    obs.check(sw[n].contractor_id == sp.name[int(ch[1][i, -1])], tag + 'contractor-not-of-chromosome')
            obs.check(sorted(n.id for n in order) == sorted(seq), tag + 'order-lost-works')
            if sgs is SGS.Serial:
                obs.check([n.id for n in order] == seq, tag + 'order-not-of-chromosome')
            else:
                at = [tv(sw[n.id].start_time) for n in order]
                obs.check(at == sorted(at), tag + 'order-not-of-starts', at)
            obs.check(frozen(ch) == before, tag + 'chromosome-changed')
            # decoding once more gives the same plan
            again = Schedule.from_scheduled_works(convert_chromosome_to_schedule(ch, **args)[0].values(), pr.wg)
            obs.check(sched.signature(again) == sched.signature(s), tag + 'decoded-differently')
            # the way back
            back = convert_schedule_to_chromosome(work2index, kinds, cons, borders, s, pr.spec, LAND, order)
            rows = [i for n, i in sp.pos.items() if sp.reqs[n] and ch[1][i, :-1].any()]
            obs.check((back[1][rows] == ch[1][rows]).all() and (back[1][:, :-1] == ch[1][:, :-1]).all(),
                      tag + 'way-back-loses-resources')
            obs.check([int(i) for i in back[0]] == [work2index[n.id] for n in order], tag + 'way-back-loses-order')
            obs.check(spec_of(back) == spec_of(ch), tag + 'way-back-loses-spec')
            obs.check((back[2] == borders).all(), tag + 'way-back-borders')
            plans[sgs] = sw
            obs.state(sched.signature(s))
            obs.nontrivial(sched.signature(s))
            obs.sample({'scheme': sgs.value, 'order': seq[:6], 'time': tv(s.execution_time)})
        if obs.violations:
            return
        timed = {n: tv(w.finish_time) - tv(w.start_time) for n, w in plans[SGS.Serial].items()}
        obs.check(timed == {n: tv(w.finish_time) - tv(w.start_time) for n, w in plans[SGS.Parallel].items()},
                  'schemes-differ-in-durations')
        # workers of works that take no time are never busy
        if any(sp.reqs.get(n) and not t for n, t in timed.items()) or any(e.get('independent') for e in pr.spec_plan.values()):
            continue
        if simple:
            ref = serial(pr, sp, ch, seq, timed, tv(start))
            got = {n: tv(w.start_time) for n, w in plans[SGS.Serial].items()}
            diff = {n: (got[n], ref[n]) for n in ref if got[n] != ref[n]}
            obs.check(not diff, 'serial:not-at-the-earliest', lambda: f'(got, expected) {diff}')
            obs.event('serial-references')
        greedy(obs, pr, sp, ch, seq, plans[SGS.Parallel], chains, head)


def greedy(obs, pr, sp, ch, seq, sw, chains, head):
    """The parallel scheme leaves no work waiting at a moment when a work starts or ends if nothing holds this work."""
    st = {n: tv(sw[n].start_time) for n in sw}
    span = {h: (st[h], tv(sw[ids[-1]].finish_time)) for h, ids in chains.items()}
    # a chain that stops inside itself to wait for other works ends later than the scheme expects: not a moment it looks at
    length = {h: sum(tv(sw[x].finish_time) - tv(sw[x].start_time) for x in ids) for h, ids in chains.items()}
    moments = sorted({t for h, (a, _) in span.items() for t in (a, a + length[h])})
    used = {}
    for h, (a, b) in span.items():
        i = sp.pos[h]
        for k, ki in sp.kinds.items():
            if k in sp.reqs[h] and ch[1][i, ki]:
                used.setdefault((int(ch[1][i, -1]), ki), []).append((a, b, int(ch[1][i, ki]), h))
    nodes = {n.id: n for n in pr.wg.nodes}
    for h, ids in chains.items():
        ready = 0
        for x in ids:
            for e in nodes[x].edges_to:
                if head[e.start.id] != h:
                    ready = max(ready, tv(sw[e.start.id].finish_time) + int(e.lag if x == h else 0))
        i = sp.pos[h]
        team = [((int(ch[1][i, -1]), ki), int(ch[1][i, ki]), int(ch[2][int(ch[1][i, -1]), ki]))
                for k, ki in sp.kinds.items() if k in sp.reqs[h] and ch[1][i, ki]]
        for m in moments:
            if not max(ready, tv(pr.start)) <= m < st[h]:
                continue
            obs.event('waits-examined')
            if all(sum(c for a, b, c, o in used.get(key, ()) if a <= m < b or (a == b == m)) + cnt <= cap
                   for key, cnt, cap in team):
                obs.violate('parallel:waits-for-nothing', f'{h} starts at {st[h]}, could start at {m}')
                break
