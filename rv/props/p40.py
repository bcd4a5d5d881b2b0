"""Measures of a work graph."""
from random import Random

from rv import gen, sched, stubs

import sampo.scheduler  # noqa: F401
stubs.install()

from sampo.scheduler.selection import metrics as M  # noqa: E402
from sampo.schemas.graph import WorkGraph  # noqa: E402

RULE = 'measures of random graphs against their definitions, and of the same graph renamed and reordered; non-trivial: links; distinct by measures'
PROFILES = ['plain', 'dense', 'lags', 'chains', 'edge', 'tight', 'big']


def cases(tier, seed):
    r = Random(f'P40-{seed}')
    return [dict(seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)]) for i in range(1500 if tier == 'quick' else 20000)]


def layers(wg):
    """Sizes of the batches: what is ready to be passed on, without what follows other parts of the batch."""
    out, front = [], {wg.start.id}
    kids = {n.id: {c.id for c in n.children} for n in wg.nodes}
    while front:
        late = set().union(*(kids[x] for x in front))
        now = front - late
        out.append(len(now))
        front = set().union(*(kids[x] for x in now))
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def run(case, obs):
    pr, _, _, r = sched.build(case)
    wg = pr.wg
    n = len(wg.nodes)
    code = M.encode_graph(wg)
    kids = {x.id: [c.id for c in x.children] for x in wg.nodes}
    far = {}
    for x in reversed(wg.nodes):
        far[x.id] = max((far[c] + 1 for c in kids[x.id]), default=0)
    obs.check(close(M.metric_longest_path(wg), far[wg.start.id]), 'longest-path', f'{M.metric_longest_path(wg)} vs {far[wg.start.id]}')
    obs.check(M.metric_vertex_count(wg) == n == len(pr.works) + 2, 'vertex-count')
    vol = sum(w.volume for w in pr.works) + wg.start.work_unit.volume + wg.finish.work_unit.volume
    obs.check(close(M.metric_average_work_per_activity(wg), vol / n), 'average-volume', f'{M.metric_average_work_per_activity(wg)} vs {vol / n}')
    team = sum((lo + hi) / 2 for w in pr.works for _, lo, hi in w.reqs.values())
    obs.check(close(M.metric_average_resource_usage(wg), team / n), 'average-team', f'{M.metric_average_resource_usage(wg)} vs {team / n}')
    obs.check(close(M.metric_relative_max_children(wg), max(map(len, kids.values())) / n), 'most-children')
    pars = max(sum(x.id in [c for c in kids[p.id]] for p in wg.nodes) for x in wg.nodes)
    obs.check(close(M.metric_relative_max_parents(wg), pars / n), 'most-parents', f'{M.metric_relative_max_parents(wg)} vs {pars / n}')
    par = M.metric_graph_parallelism_degree(wg)
    lay = [x / n for x in layers(wg)]
    step = -(-len(lay) // 8)
    want = [sum(lay[i:i + step]) / len(lay[i:i + step]) for i in range(0, len(lay), step)]
    want += [0] * (8 - len(want))
    obs.check(len(par) == 8 and all(close(a, b) for a, b in zip(par, want)), 'parallelism', f'{[round(float(x), 4) for x in par]} vs {[round(x, 4) for x in want]}')
    obs.check(len(code) == 13, 'length-of-code')
    obs.check(all(close(a, b) for a, b in zip(code, [n, vol / n, max(map(len, kids.values())) / n, team / n, far[wg.start.id]] + want)), 'code', f'{code}')
    # the same works under other names in another order
    works = pr.works
    perm = {w.id: f'{r.getrandbits(60):x}' for w in works}
    for w in works:
        w.id = perm[w.id]
    nodes = gen.build_nodes(works)
    r.shuffle(nodes)
    other = WorkGraph.from_nodes(nodes, r)
    again = M.encode_graph(other)
    obs.check(all(close(a, b) for a, b in zip(code, again)), 'depends-on-names', f'{code} vs {again}')
    k = r.randint(1, 9)
    v = r.randrange(k)
    e = M.one_hot_encode(v, k)
    obs.check(len(e) == k and sum(e) == 1 and e[v] == 1 and M.one_hot_decode(e) == v, 'one-hot')
    if n > 3:
        obs.nontrivial(tuple(round(float(x), 6) for x in code))
    obs.event('graphs')
