"""The work graph says what was put into it, before and after edits, for several projects alive at once."""
from random import Random

from rv import gen, sched
from rv.oracle import tv

from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
from sampo.schemas.contractor import Contractor
from sampo.schemas.graph import EdgeType, GraphNode, WorkGraph
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.schemas.time import Time
from sampo.utilities.priority import check_and_correct_priorities

RULE = ('random graphs (all edge kinds, chains, two alive projects with the same ids, links added after first use), every '
        'accessor against the generated description; priorities corrected against a fixpoint, orders of schedulers checked; '
        'non-trivial: the graph has a chain, an added link or a corrected priority; distinct by graph')
DEP = ('FS', 'IFS', 'FFS')


def cases(tier, seed):
    r = Random(f'P30-{seed}')
    k = 10 if tier == 'quick' else 100
    out = [dict(kind='graph', seed=r.getrandbits(40)) for _ in range(900 * k)]
    out += [dict(kind='prio', seed=r.getrandbits(40)) for _ in range(500 * k)]
    out += [dict(kind='order', seed=r.getrandbits(40), alg=sched.HEURISTICS[i % len(sched.HEURISTICS)])
            for i in range(300 * k)]
    out += [dict(kind='deep', seed=r.getrandbits(40), alg='') for i in range(2 * k)]
    return out


def run(case, obs):
    r = Random(case['seed'])
    globals()[case['kind']](r, case, obs)


def check_graph(works, wg, obs, when):
    ids = [w.id for w in works]
    obs.check(sorted(n.id for n in wg.nodes) == sorted(ids + [wg.start.id, wg.finish.id]), f'{when}:nodes-of-the-graph')
    obs.check(wg.vertex_count == len(works) + 2, f'{when}:vertex-count')
    obs.check(wg.nodes[0].id == wg.start.id and wg.nodes[-1].id == wg.finish.id, f'{when}:service-nodes-not-at-the-ends')
    pos = {n.id: i for i, n in enumerate(wg.nodes)}
    kids = {i: [] for i in range(len(works))}
    for i, w in enumerate(works):
        for p, lag, t in w.parents:
            kids[p].append((i, lag, t))
    for i, w in enumerate(works):
        node = wg[w.id]
        obs.event('nodes')
        if not obs.check(node is wg.dict_nodes[w.id] and node.id == w.id and node.work_unit.id == w.id, f'{when}:lookup'):
            continue
        obs.check(node.work_unit.display_name == w.name and [x.kind for x in node.work_unit.worker_reqs] == list(w.reqs),
                  f'{when}:another-work-under-this-id', w.id)
        want = [(works[p].id, lag, t) for p, lag, t in w.parents]
        deps = [x[0] for x in want if x[2] in DEP]
        if not deps:
            want_e = want + [(wg.start.id, 0, 'FS')]
            deps_e = [wg.start.id]
        else:
            want_e, deps_e = want, deps
        got = [(e.start.id, e.lag, e.type.value) for e in node.edges_to]
        # the start node stays a parent of works that got their first parents later
        extra = [g for g in got if g not in want_e]
        obs.check(sorted(x for x in got if x not in extra) == sorted(want_e) and all(g[0] == wg.start.id for g in extra),
                  f'{when}:incoming-edges', f'{got} {want_e}')
        obs.check(all(e.finish is node and e.start is wg[e.start.id] for e in node.edges_to), f'{when}:edge-ends')
        pid = [p.id for p in node.parents if p.id != wg.start.id or p.id in deps_e]
        obs.check(sorted(pid) == sorted(deps_e), f'{when}:parents', f'{pid} {deps_e}')
        obs.check({p.id for p in node.parents_set} == {p.id for p in node.parents}, f'{when}:parents-set')
        ch = [(works[c].id, lag, t) for c, lag, t in kids[i]]
        chd = [c[0] for c in ch if c[2] in DEP]
        got = [(e.finish.id, e.lag, e.type.value) for e in node.edges_from]
        extra = [g for g in got if g not in ch]
        obs.check(sorted(x for x in got if x not in extra) == sorted(ch) and all(g[0] == wg.finish.id for g in extra)
                  and (extra or chd), f'{when}:outgoing-edges', f'{got} {ch}')
        obs.check(sorted(c.id for c in node.children if c.id != wg.finish.id) == sorted(chd), f'{when}:children')
        obs.check({c.id for c in node.children_set} == {c.id for c in node.children}, f'{when}:children-set')
        obs.check(all(pos[p] < pos[w.id] for p, _, _ in want), f'{when}:nodes-not-in-topological-order')
        obs.check([n.id for n in node.neighbors] == [works[p].id for p, _, t in w.parents if t == 'SS'], f'{when}:neighbors')
        # chains
        obs.check(node.is_inseparable_son() == (w.chain_prev is not None), f'{when}:is-inseparable-son', w.id)
        obs.check(node.is_inseparable_parent() == (w.chain_next is not None), f'{when}:is-inseparable-parent', w.id)
        prev, nxt = node.inseparable_parent, node.inseparable_son
        obs.check((prev and prev.id) == (works[w.chain_prev].id if w.chain_prev is not None else None)
                  and (nxt and nxt.id) == (works[w.chain_next].id if w.chain_next is not None else None),
                  f'{when}:chain-neighbours')
        chain = node.get_inseparable_chain()
        if w.chain_prev is None and w.chain_next is not None:
            want_c = [works[j] for j in gen.chain_of(works, i)]
            if obs.check(chain is not None and [n.id for n in chain] == [x.id for x in want_c], f'{when}:chain'):
                obs.check(all(n is wg[n.id] for n in chain), f'{when}:chain-of-another-project')
        else:
            obs.check(chain is None, f'{when}:chain-of-a-work-that-starts-none')
            obs.check([n.id for n in node.get_inseparable_chain_with_self()] == [w.id], f'{when}:chain-with-self')
    # heads
    head = lambda i: gen.chain_of(works, i)[0]
    sid, fid = wg.start.id, wg.finish.id
    heads, par, chi = get_head_nodes_with_connections_mappings(wg)
    want_heads = {works[i].id for i in gen.chain_heads(works)} | {sid, fid}
    obs.check({n.id for n in heads} == want_heads and len(heads) == len(want_heads), f'{when}:head-nodes')
    hp = {n.id: i for i, n in enumerate(heads)}
    wp = {h: set() for h in want_heads}
    for i, w in enumerate(works):
        for p, _, t in w.parents:
            if t in DEP and head(p) != head(i):
                wp[works[head(i)].id].add(works[head(p)].id)
    real = lambda s: set(s) - {sid, fid}
    for i in gen.chain_heads(works):
        h = works[i].id
        obs.check(real(par[h]) == wp[h], f'{when}:head-parents', lambda: f'{par[h]} {wp[h]}')
        obs.check(real(chi[h]) == {x for x in want_heads if h in wp[x]}, f'{when}:head-children')
        obs.check(all(hp[p] < hp[h] for p in par[h]), f'{when}:heads-not-in-topological-order')
        obs.check(h not in par[h] and h not in chi[h], f'{when}:head-is-its-own-relative')


def graph(r, case, obs):
    n = r.choice([1, 2, r.randint(3, 20), r.randint(3, 20)])
    kw = dict(chains=r.choice([0, .4]), lags=r.choice(['none', 'int', 'float']),
              edge_mix=r.choice([(), ('FFS', 'SS', 'FF'), ('SS',)]))
    state = r.getstate()
    works = gen.rand_works(r, n, **kw)
    wg = gen.build_wg(works, Random(case['seed'] % 1000))
    # a twin project under the same ids, of another shape
    other = gen.rand_works(Random(case['seed'] + 1), n, **kw)
    for a, b in zip(other, works):
        a.id = b.id
    wg2 = gen.build_wg(other, Random(case['seed'] % 1000))
    obs.check((wg.start.id, wg.finish.id) == (wg2.start.id, wg2.finish.id), 'service-ids-do-not-follow-the-seed')
    if r.random() < .5:
        check_graph(works, wg, obs, 'fresh')
        check_graph(other, wg2, obs, 'fresh')
    else:
        check_graph(other, wg2, obs, 'fresh')
        check_graph(works, wg, obs, 'fresh')
    # edit after everything has been read (caches are warm)
    added = 0
    for _ in range(r.randint(0, 4)):
        c = r.randrange(n)
        h = gen.chain_of(works, c)[0]
        cand = [p for p in range(h) if p not in [q for q, _, _ in works[c].parents]]
        if not cand:
            continue
        p = r.choice(cand)
        style = r.random()
        if style < .3:
            works[c].parents.append((p, 0, 'FS'))
            wg[works[c].id].add_parents([wg[works[p].id]])
        else:
            tp = r.choice(['FS', 'FFS', 'FF'])
            lag = r.choice([0, 3, 2.5])
            works[c].parents.append((p, lag, tp))
            wg[works[c].id].add_parents([(wg[works[p].id], lag, EdgeType(tp))])
        added += 1
    if r.random() < .4 and n > 1:
        # lengthen or make a chain by an edit
        c = r.randrange(1, n)
        if works[c].chain_prev is None and works[c - 1].chain_next is None and \
                c - 1 not in [q for q, _, _ in works[c].parents]:
            h = gen.chain_of(works, c - 1)[0]
            grp = set(gen.chain_of(works, c)) | set(gen.chain_of(works, c - 1))
            if all(p < h or p in grp for j in gen.chain_of(works, c) for p, _, _ in works[j].parents):
                works[c].parents.append((c - 1, 0, 'IFS'))
                works[c].chain_prev, works[c - 1].chain_next = c - 1, c
                wg[works[c].id].add_parents([(wg[works[c - 1].id], 0, EdgeType.InseparableFinishStart)])
                added += 1
    if added:
        wg.reinit()
        check_graph(works, wg, obs, 'edited')
        check_graph(other, wg2, obs, 'other-after-edit')
    # earliest start by the parents
    node = wg[works[r.randrange(n)].id]
    times, want = {}, [0]
    for e in node.edges_to:
        if r.random() < .8:
            ft = r.randint(0, 50)
            times[e.start] = ScheduledWork(e.start.work_unit, (Time(0), Time(ft)), [], Contractor('c', 'c'))
            want.append(ft + int(e.lag))
    want = want[1:] or [0]
    obs.check(tv(node.min_start_time(times)) == max(want), 'min-start-time', f'{want}')
    if added or any(w.chain_next is not None for w in works):
        obs.nontrivial([(w.id, w.parents) for w in works])
    obs.state([(w.parents) for w in works])
    obs.sample({'works': n, 'added': added})


def prio(r, case, obs):
    n = r.randint(2, 25)
    works = gen.rand_works(r, n, chains=r.choice([0, .3]), density=r.choice([.2, .6]))
    for w in works:
        w.priority = r.randint(1, 5)
    wg = gen.build_wg(works, r)
    kids = {i: set() for i in range(n)}
    for i, w in enumerate(works):
        for p, _, t in w.parents:
            kids[p].add(i)
    want = {}
    for i in reversed(range(n)):
        want[i] = min([works[i].priority] + [want[c] for c in kids[i]])
    # the two service works are part of it: the finish has the maximum, so it changes nothing
    finish = wg.finish.work_unit.priority
    obs.check(finish == max(works[i].priority for i in range(n) if wg.finish in wg[works[i].id].children), 'finish-priority')
    check_and_correct_priorities(wg, verbose=False)
    got = {i: wg[works[i].id].work_unit.priority for i in range(n)}
    obs.check(got == {i: min(want[i], finish) for i in range(n)}, 'corrected-priorities', f'{got} {want}')
    ch = sum(works[i].priority != got[i] for i in range(n))
    obs.event('priorities-corrected', ch)
    if ch:
        obs.nontrivial([(w.priority, w.parents) for w in works])


def deep(r, case, obs):
    """Layers of works with a low priority at the bottom: the number of ways is exponential, the number of works is not."""
    works, prev = [], []
    for layer in range(40):
        cur = []
        for j in range(3):
            works.append(gen.W(f'{layer}-{j}', {'driver': (1, 1, 2)}, priority=5 if layer < 39 else 1, name='x',
                               parents=[(p, 0, 'FS') for p in prev]))
            cur.append(len(works) - 1)
        prev = cur
    wg = gen.build_wg(works, r)
    check_and_correct_priorities(wg, verbose=False)
    obs.check(all(n.work_unit.priority == 1 for n in wg.nodes if n is not wg.start and n is not wg.finish), 'corrected-priorities')
    check_graph(works, wg, obs, 'layers')


CPU_LIMIT = 60.0


def order(r, case, obs):
    works = gen.rand_works(r, r.randint(2, 25), priorities=True, chains=r.choice([0, .3]), services=.05)
    wg = gen.build_wg(works, r)
    cs = gen.rand_contractors(r, works)
    sch = sched.make_scheduler(case['alg'], r.randint(0, 10 ** 6), sched.ESTIMATORS['default']())
    (_, _, _, nodes), *_ = sch.schedule_with_cache(wg, cs)
    heads, par, _ = get_head_nodes_with_connections_mappings(wg)
    obs.check(sorted(n.id for n in nodes) == sorted(n.id for n in heads), 'order-is-not-of-the-heads')
    at = {n.id: i for i, n in enumerate(nodes)}
    obs.check(all(at[p] < at[h] for h in par for p in par[h]), 'order-breaks-dependencies')
    pr = [n.work_unit.priority for n in nodes if n.id != wg.start.id]
    obs.check(pr == sorted(pr), 'order-breaks-priorities', f'{case["alg"]} {pr}')
    obs.event('orders')
    if len(set(pr)) > 1:
        obs.nontrivial([n.id for n in nodes], pr)
