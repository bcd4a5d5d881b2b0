"""Independent oracles over finished schedules: they look only at the schedule's works and at the inputs.

Each function returns a list of (mechanism, detail) violations. `mechanism` is a short stable key naming what is
wrong, never the particular numbers of the case.
"""
from __future__ import annotations

from collections import Counter, defaultdict


def tv(t) -> int:
    return int(t.value) if hasattr(t, 'value') else int(t)


def works_of(schedule):
    return list(schedule.works)


def sw_map(schedule):
    return {w.id: w for w in works_of(schedule)}


def chain_map(wg):
    """node id -> id of its inseparable chain's head, computed from the raw edges."""
    nxt = {}
    prv = {}
    for node in wg.nodes:
        for e in node.edges_to:
            if e.type.value == 'IFS':
                prv[node.id] = e.start.id
                nxt[e.start.id] = node.id
    head = {}
    for node in wg.nodes:
        h = node.id
        while h in prv:
            h = prv[h]
        head[node.id] = h
    chains = defaultdict(list)
    for nid, h in head.items():
        if nid == h:
            cur = h
            while cur is not None:
                chains[h].append(cur)
                cur = nxt.get(cur)
    return head, dict(chains)


def completeness(schedule, wg):
    v = []
    want = Counter(n.id for n in wg.nodes)
    got = Counter(w.id for w in works_of(schedule))
    miss = want - got
    extra = got - want
    if miss:
        v.append(('work-missing', f'not scheduled: {sorted(miss)[:5]}'))
    if extra:
        v.append(('work-extra-or-duplicated', f'unexpected entries: {sorted(extra)[:5]}'))
    for w in works_of(schedule):
        s, f = tv(w.start_time), tv(w.finish_time)
        if s < 0 or f < s:
            v.append(('bad-interval', f'{w.id}: [{s}, {f}]'))
        if f >= 2_000_000_000 or s >= 2_000_000_000:
            v.append(('infinite-time', f'{w.id}: [{s}, {f}]'))
    return v


def precedence(schedule, wg):
    v = []
    sw = sw_map(schedule)
    for n in wg.nodes:
        if n.id not in sw:
            continue
        s = tv(sw[n.id].start_time)
        for e in n.edges_to:
            if e.start.id not in sw or e.type.value not in ('FS', 'IFS', 'FFS'):
                continue
            pf = tv(sw[e.start.id].finish_time)
            if s < pf:
                v.append(('starts-before-predecessor-finish', f'{e.start.id}->{n.id} ({e.type.value}): {pf} > {s}'))
            elif s < pf + int(e.lag):
                v.append(('lag-not-respected', f'{e.start.id}->{n.id} ({e.type.value}, lag {e.lag}): {pf} + lag > {s}'))
    return v


def intervals(schedule, wg):
    """(contractor, kind, count, start, finish, id) occupied by every chain, from its first start to its last finish."""
    sw = sw_map(schedule)
    _, chains = chain_map(wg)
    out = []
    for h, ids in chains.items():
        ids = [i for i in ids if i in sw]
        if not ids:
            continue
        s = min(tv(sw[i].start_time) for i in ids)
        f = max(tv(sw[i].finish_time) for i in ids)
        if f <= s:
            continue
        for w in sw[ids[0]].workers:
            if w.count:
                out.append((w.contractor_id, w.name, int(w.count), s, f, h))
    return out


def usage_sweep(items):
    """{(contractor, kind): [(t, level), ...]} for half-open intervals."""
    ev = defaultdict(lambda: defaultdict(int))
    for c, k, cnt, s, f, _ in items:
        ev[(c, k)][s] += cnt
        ev[(c, k)][f] -= cnt
    res = {}
    for key, d in ev.items():
        lvl, line = 0, []
        for t in sorted(d):
            lvl += d[t]
            line.append((t, lvl))
        res[key] = line
    return res


def capacity(schedule, wg, contractors):
    return capacity_of(intervals(schedule, wg), contractors)


def capacity_of(items, contractors):
    v = []
    cap = {(c.id, k): w.count for c in contractors for k, w in c.workers.items()}
    peak_full = 0
    moments = 0
    for key, line in usage_sweep(items).items():
        c = cap.get(key)
        for t, lvl in line:
            moments += 1
            if c is None:
                v.append(('workers-of-nobody', f'{key} used but no contractor owns them'))
                break
            if lvl > c:
                v.append(('capacity-exceeded', f'{key} at {t}: {lvl} > {c}'))
                break
            if lvl == c:
                peak_full += 1
    return v, moments, peak_full


def teams(schedule, wg, contractors):
    v = []
    cids = {c.id: c for c in contractors}
    head, _ = chain_map(wg)
    nodes = {n.id: n for n in wg.nodes}
    sw = sw_map(schedule)
    for w in works_of(schedule):
        n = nodes.get(w.id)
        if n is None:
            continue
        reqs = {r.kind: r for r in n.work_unit.worker_reqs}
        team = [(x.name, int(x.count), x.contractor_id) for x in w.workers]
        if not reqs:
            if any(c for _, c, _ in team):
                v.append(('team-on-workless-work', f'{w.id}: {team}'))
            continue
        names = Counter(k for k, _, _ in team)
        if set(names) != set(reqs) or any(c > 1 for c in names.values()):
            v.append(('team-kinds-wrong', f'{w.id}: needs {sorted(reqs)} got {team}'))
            continue
        for k, cnt, cid in team:
            r = reqs[k]
            if not (r.min_count <= cnt <= r.max_count):
                v.append(('team-count-out-of-bounds', f'{w.id}: {k}={cnt} not in [{r.min_count}, {r.max_count}]'))
        owners = {cid for _, _, cid in team}
        if len(owners) != 1:
            v.append(('team-mixed-contractors', f'{w.id}: {team}'))
        if w.contractor_id not in cids:
            v.append(('unknown-contractor', f'{w.id}: {w.contractor_id!r}'))
        elif owners != {w.contractor_id}:
            v.append(('team-not-of-named-contractor', f'{w.id}: {owners} vs {w.contractor_id}'))
        else:
            c = cids[w.contractor_id]
            for k, cnt, _ in team:
                if k not in c.workers or c.workers[k].count < cnt:
                    v.append(('team-larger-than-contractor', f'{w.id}: {k}={cnt}'))
        h = sw.get(head[w.id])
        if h is not None and h is not w:
            if sorted(team) != sorted((x.name, int(x.count), x.contractor_id) for x in h.workers) \
                    or h.contractor_id != w.contractor_id:
                v.append(('chain-team-differs', f'{h.id} vs {w.id}'))
    return v


def durations(schedule, wg, estimator, spec_plan):
    """Duration equals the estimator's answer for the team that was assigned (or the assigned time, per chain)."""
    v = []
    nodes = {n.id: n for n in wg.nodes}
    head, chains = chain_map(wg)
    sw = sw_map(schedule)
    for w in works_of(schedule):
        n = nodes.get(w.id)
        if n is None:
            continue
        if 'time' in spec_plan.get(head[w.id], {}):
            continue
        want = tv(estimator.estimate_time(n.work_unit, list(w.workers))) if n.work_unit.worker_reqs else 0
        got = tv(w.finish_time) - tv(w.start_time)
        if got != want:
            v.append(('duration-not-estimated' if not n.work_unit.is_service_unit else 'service-duration',
                      f'{w.id}: {got} != {want}'))
    for h, e in spec_plan.items():
        if 'time' in e and h in chains:
            got = sum(tv(sw[i].finish_time) - tv(sw[i].start_time) for i in chains[h] if i in sw)
            if got != e['time']:
                v.append(('assigned-time-ignored', f'{h}: {got} != {e["time"]}'))
            # the time of a chain is shared in proportion to the volumes of its works, up to rounding
            vols = [nodes[i].work_unit.volume for i in chains[h]]
            total = sum(vols)
            for i, x in zip(chains[h], vols):
                want = e['time'] * x / total if total > 0 else e['time'] / len(vols)
                if i in sw and abs(tv(sw[i].finish_time) - tv(sw[i].start_time) - want) > len(vols):
                    v.append(('assigned-time-shared-unevenly', f'{i}: {sw[i].finish_time - sw[i].start_time}, share {want}'))
    return v


def spec_obeyed(schedule, wg, spec_plan):
    v = []
    sw = sw_map(schedule)
    head, chains = chain_map(wg)
    for h, e in spec_plan.items():
        if h not in sw:
            continue
        w = sw[h]
        if e.get('contractors') and w.contractor_id not in e['contractors']:
            v.append(('spec-contractor-ignored', f'{h}: {w.contractor_id} not in {sorted(e["contractors"])}'))
        team = {x.name: int(x.count) for x in w.workers}
        if 'team' in e and team != e['team']:
            v.append(('spec-team-ignored', f'{h}: {team} != {e["team"]}'))
        if 'part' in e:
            for k, c in e['part'].items():
                if team.get(k) != c:
                    v.append(('spec-partial-team-ignored', f'{h}: {k}={team.get(k)} != {c}'))
        if 'time' in e:
            got = sum(tv(sw[i].finish_time) - tv(sw[i].start_time) for i in chains[h] if i in sw)
            if got != e['time']:
                v.append(('spec-time-ignored', f'{h}: {got} != {e["time"]}'))
    # independence: no other work of the same contractor uses the same kinds of workers at the same time
    ints = intervals(schedule, wg)
    for h, e in spec_plan.items():
        if not e.get('independent'):
            continue
        mine = [(c, k, s, f) for c, k, _, s, f, hh in ints if hh == h]
        for c, k, s, f in mine:
            for c2, k2, _, s2, f2, h2 in ints:
                if h2 != h and (c2, k2) == (c, k) and s < f2 and s2 < f:
                    v.append(('spec-independence-ignored', f'{h} shares {c}/{k} with {h2}'))
    return v


def shifted(schedule, start):
    v = []
    st = tv(start)
    for w in works_of(schedule):
        if tv(w.start_time) < st:
            v.append(('starts-before-project-start', f'{w.id}: {tv(w.start_time)} < {st}'))
    return v


def chains_ok(schedule, wg):
    v = []
    sw = sw_map(schedule)
    _, chains = chain_map(wg)
    for h, ids in chains.items():
        for a, b in zip(ids, ids[1:]):
            if a in sw and b in sw and tv(sw[b].start_time) < tv(sw[a].finish_time):
                v.append(('chain-order', f'{a} -> {b}'))
    return v
