"""Agents plan graphs of blocks: auctions, timelines of agents, graphs of blocks, obstructions."""
import copy
from collections import Counter
from random import Random

from rv import gen, oracle, sched, stubs
from rv.oracle import tv

import sampo.scheduler  # noqa: F401  (first: the packages import each other)
stubs.install()

from sampo.scheduler.multi_agency.block_generator import SyntheticBlockGraphType, generate_block_graph  # noqa: E402
from sampo.scheduler.multi_agency.block_graph import BlockGraph, BlockNode  # noqa: E402
from sampo.scheduler.multi_agency.block_validation import validate_block_schedule  # noqa: E402
from sampo.scheduler.multi_agency.exception import NoSufficientAgents  # noqa: E402
from sampo.scheduler.multi_agency.multi_agency import Agent, Manager, NeuralManager, StochasticManager  # noqa: E402
from sampo.scheduler.utils.obstruction import OneInsertObstruction  # noqa: E402
from sampo.schemas.contractor import Contractor  # noqa: E402
from sampo.schemas.graph import GraphNode  # noqa: E402
from sampo.schemas.resources import Worker  # noqa: E402
from sampo.schemas.time import Time  # noqa: E402
from sampo.schemas.works import WorkUnit  # noqa: E402

RULE = ('graphs of blocks planned by agents, all offers and confirmations recorded; graphs of blocks converted, copied, sorted, generated and '
        'obstructed; non-trivial: blocks with parents, agents who won several blocks; distinct by plan')
ALGS = ['heft', 'heftb', 'topo', 'rtopo', 'lft', 'heft_avg', 'heftb_avg', 'gen_par', 'gen_ser']


def cases(tier, seed):
    r = Random(f'P39-{seed}')
    k = 1 if tier == 'quick' else 12
    out = []
    for kind, n in (('auction', 700), ('graph', 500), ('shape', 60), ('insert', 500)):
        for i in range(n * k):
            out.append(dict(kind=kind, seed=r.getrandbits(40), manager=['plain', 'plain', 'stochastic', 'neural'][i % 4],
                            algs=[r.choice(ALGS[:7] if i % 9 else ALGS) for _ in range(4)]))
    return out


def run(case, obs):
    globals()[f'run_{case["kind"]}'](Random(case['seed']), case, obs)
    obs.event(f'kind:{case["kind"]}')


# ---------------------------------------------------------------------------------------------- blocks

def works_block(r, b, lo=1, hi=9, **kw):
    works = gen.rand_works(r, r.randint(lo, hi), max_count=6, lags=r.choice(['none', 'int']), chains=r.choice([0, .3]), **kw)
    for w in works:
        w.id = f'b{b}-{w.id}'
    return works


def rand_blocks(r, n, empties=.1):
    blocks, all_works = [], []
    for b in range(n):
        works = [] if r.random() < empties else works_block(r, b)
        if works:
            wg = gen.build_wg(works, r)
        else:
            s = GraphNode(WorkUnit(f'b{b}-s', ''), [])
            from sampo.schemas.graph import WorkGraph
            wg = WorkGraph(s, GraphNode(WorkUnit(f'b{b}-f', ''), [s]))
        blocks.append(wg)
        all_works += works
    edges = set()
    density = r.choice([0, .2, .5, 1])
    for i in range(n):
        for j in range(i + 1, n):
            if r.random() < density:
                edges.add((i, j))
    perm = list(range(n))
    r.shuffle(perm)
    bg = BlockGraph.pure([blocks[i] for i in perm])
    nodes = {i: bg.nodes[k] for k, i in enumerate(perm)}
    order = sorted(edges)
    r.shuffle(order)
    for i, j in order:
        BlockGraph.add_edge(nodes[i], nodes[j])
    return bg, {(nodes[i].id, nodes[j].id) for i, j in edges}, all_works


def links_of(nodes):
    return Counter((e.start.id, n.id, e.type.value, float(e.lag or 0)) for n in nodes for e in n.edges_to)


def reach(nodes):
    """id -> ids of everything that comes before it."""
    before = {}

    def of(n):
        st = [(n, 0)]
        while st:
            x, ph = st.pop()
            if x.id in before and not ph:
                continue
            if ph:
                s = set()
                for p in x.parents:
                    s |= before[p.id] | {p.id}
                before[x.id] = s
            else:
                st.append((x, 1))
                st += [(p, 0) for p in x.parents if p.id not in before]
    for n in nodes:
        of(n)
    return before


def closure(pairs):
    nxt = {}
    for a, b in pairs:
        nxt.setdefault(a, set()).add(b)
    out = set()
    for a in list(nxt):
        st, seen = list(nxt[a]), set()
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st += nxt.get(x, ())
        out |= {(a, x) for x in seen}
    return out


# ---------------------------------------------------------------------------------------------- auctions

class Seen:
    """Records what agents are asked for, what they answer and what is confirmed."""

    def __init__(self, agents):
        self.log = []
        for a in agents:
            self.watch(a)

    def watch(self, a):
        offer, confirm = a.offer, a.confirm

        def o(wg, parent_time):
            before = a._timeline
            res = offer(wg, parent_time)
            self.log.append(('offer', a, wg, parent_time, res, before is a._timeline))
            return res

        def c(timeline, start, end):
            self.log.append(('confirm', a, timeline, start, end))
            return confirm(timeline, start, end)
        a.offer, a.confirm = o, c


class Oracle:
    """A network that always answers the same."""

    def __init__(self, algo, team):
        self.algo, self.team = algo, team

    def predict(self, x):
        return [self.team] if self.team is not None else self.algo

    def predict_proba(self, x):
        return [[1.0]]


def rand_agents(r, case, works, n):
    agents = []
    for i in range(n):
        cs = gen.rand_contractors(r, works, r.choice([1, 1, 2]), tight=r.choice([0, .5, 1]), shuffle_kinds=case['manager'] != 'neural')
        cs = [Contractor(id=f'a{i}-{c.id}', name=c.name, workers={k: Worker(w.id, w.name, w.count) for k, w in c.workers.items()}, equipments={})
              for c in cs]
        sch = sched.make_scheduler(case['algs'][i % len(case['algs'])], r.getrandbits(30), sched.ESTIMATORS[r.choice(['default', 'slow'])](), gens=1, pop=4)
        agents.append(Agent(f'agent {i}', sch, cs))
    return agents


def run_auction(r, case, obs):
    bg, edges, works = rand_blocks(r, r.choice([1, 2, 3, 4, 6]))
    if not works:
        return
    n = r.choice([1, 2, 2, 3, 4])
    agents = rand_agents(r, case, works, n)
    seen = Seen(agents)
    neural = case['manager'] == 'neural'
    if neural:
        kinds = {len(a.contractors[0].workers) for a in agents}
        if len(kinds) > 1:  # networks are trained for one list of kinds
            neural, kind = False, 'plain'
        else:
            algos = [a.scheduler for a in agents]
            want = r.randrange(len(algos))
            team = [r.randint(0, 12) for _ in range(kinds.pop())]
            blocks = bg.toposort()
            manager = NeuralManager(agents, Oracle(want, None), Oracle(None, team), algos, blocks, [None] * len(blocks))
            kind = 'neural'
    else:
        kind = case['manager']
    if not neural:
        manager = (StochasticManager if kind == 'stochastic' else Manager)(agents)
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        res = manager.manage_blocks() if neural else manager.manage_blocks(bg)
    obs.event(f'manager:{kind}')
    by_id = {x.id: x for x in bg.nodes}
    obs.check(set(res) == set(by_id), 'blocks-lost-or-invented', f'{len(res)} of {len(by_id)}')
    for a, b in edges:
        obs.check(tv(res[b].start_time) >= tv(res[a].end_time), 'block-before-its-parent', f'{tv(res[b].start_time)} < {tv(res[a].end_time)}')
    for bid, sb in res.items():
        wg = by_id[bid].wg
        obs.check(sb.wg is wg and sb.id == bid, 'other-block')
        for f in (oracle.completeness, oracle.precedence):
            obs.extend([(f'block:{m}', d) for m, d in f(sb.schedule, wg)])
        obs.extend([(f'block:{m}', d) for m, d in oracle.capacity(sb.schedule, wg, sb.agent.contractors)[0]])
        ss = list(sb.schedule.works)
        obs.check(min((tv(w.start_time) for w in ss if w.workers), default=10 ** 12) >= tv(sb.start_time), 'work-before-its-block')
        ready = max((tv(res[a].end_time) for a, b in edges if b == bid), default=0)
        obs.check(min(tv(w.start_time) for w in ss) >= ready, 'work-before-parent-blocks', f'{min(tv(w.start_time) for w in ss)} < {ready}')
        obs.check(max(tv(w.finish_time) for w in ss) == tv(sb.end_time), 'end-of-block', f'{max(tv(w.finish_time) for w in ss)} vs {tv(sb.end_time)}')
        obs.check(tv(sb.duration) == tv(sb.end_time) - tv(sb.start_time), 'duration-of-block')
    # everything an agent does, over all blocks, with its own workers
    moments = 0
    for a in agents:
        mine = [sb for sb in res.values() if sb.agent is a]
        items = [it for sb in mine for it in oracle.intervals(sb.schedule, sb.wg)]
        v, m, full = oracle.capacity_of(items, a.contractors)
        moments += m
        obs.extend([(f'agent:{x}', f'{a.name} ({type(a.scheduler).__name__}), {len(mine)} blocks: {d}') for x, d in v])
        confirmed = [x for x in seen.log if x[0] == 'confirm' and x[1] is a]
        obs.check(len(confirmed) == len(mine), 'confirmations', f'{len(confirmed)} for {len(mine)} blocks')
        obs.check(tv(a.end_time) == (tv(confirmed[-1][4]) if confirmed else 0), 'end-of-agent')
        if confirmed:
            obs.check(a._timeline is confirmed[-1][2], 'timeline-not-kept')
        else:
            obs.check(a._timeline is None, 'timeline-of-nothing')
        if len(mine) > 1:
            obs.nontrivial('several', sched.signature(mine[-1].schedule))
    obs.event('moments', moments)
    check_auctions(r, obs, seen, agents, kind, res)
    if kind == 'neural':
        check_neural(obs, seen, agents, team, type(algos[want]), blocks)
    # the project's own validator
    try:
        validate_block_schedule(bg, res, agents)
    except AssertionError as e:
        obs.violate('validator-rejects-good', f'{e!r:.150}')
    if edges:
        a, b = sorted(edges)[r.randrange(len(edges))]
        bad = dict(res)
        bad[b] = copy.copy(res[b])
        bad[b].start_time = res[a].end_time - 1
        if tv(res[a].end_time) > 0:
            obs.check(rejected(bg, bad, agents), 'validator-takes-bad-order')
        obs.nontrivial('edges', sched.signature(res[b].schedule))
    twice = [Agent('x', agents[0].scheduler, agents[0].contractors)] + agents
    obs.check(rejected(bg, res, twice), 'validator-takes-shared-contractor')
    big = [(sb, w) for sb in res.values() for w in sb.schedule.works if w.workers and tv(w.finish_time) > tv(w.start_time)]
    if big:
        sb, w = r.choice(big)
        k = r.choice(w.workers)
        keep = k.count
        k.count = keep + 1000
        obs.check(rejected(bg, res, agents), 'validator-takes-too-many-workers')
        k.count = keep
    obs.state(*(sched.signature(sb.schedule) for sb in res.values()))


def rejected(bg, res, agents):
    try:
        validate_block_schedule(bg, res, agents)
    except AssertionError:
        return True
    return False


FIXED = ('HEFTScheduler', 'HEFTBetweenScheduler', 'TopologicalScheduler', 'LFTScheduler')


def check_auctions(r, obs, seen, agents, kind, res):
    offers = []
    for rec in seen.log:
        if rec[0] == 'offer':
            obs.check(rec[5], 'offer-changes-agent')
            offers.append(rec)
            continue
        _, a, timeline, start, end = rec
        took = offers[-1]
        obs.check(took[1] is a and took[4][3] is timeline and tv(took[4][0]) == tv(start) and tv(took[4][1]) == tv(end), 'confirmed-what-was-not-offered')
        obs.check(len({id(x[2]) for x in offers}) == 1 and len({tv(x[3]) for x in offers}) == 1, 'asked-about-different-things')
        sb = res[offers[0][2].start.id]
        obs.check(sb.agent is a and tv(sb.start_time) == tv(start) and tv(sb.end_time) == tv(end) and sb.schedule is took[4][2], 'block-is-not-what-was-confirmed')
        if kind != 'neural':
            first = offers[:-1]
            obs.check(Counter(id(x[1]) for x in first) == Counter(id(x) for x in agents), 'not-all-agents-asked')
            if kind == 'plain':
                won = [tv(x[4][1]) for x in first if x[1] is a]
                obs.check(won and won[0] == min(tv(x[4][1]) for x in first), 'not-the-earliest-agent', f'{won} of {[tv(x[4][1]) for x in first]}')
                if type(a.scheduler).__name__ in FIXED:
                    obs.check(won and won[0] == tv(end), 'offer-not-kept', f'{won} became {tv(end)}')
            if len({tv(x[4][1]) for x in first}) > 1:
                obs.nontrivial('contest', kind, tuple(tv(x[4][1]) for x in first))
        offers = []
    obs.check(not offers, 'offers-without-confirmation')


def check_neural(obs, seen, agents, team, algo, blocks):
    ends = {a.name: 0 for a in agents}
    offers = [x for x in seen.log if x[0] == 'offer']
    obs.check([x[2].start.id for x in offers] == [b.id for b in blocks], 'order-of-blocks')
    for x in offers:
        parent = tv(x[3])
        rank = {a.name: (parent <= ends[a.name], not isinstance(a.scheduler, algo)) for a in agents}
        best = min(rank.values())
        err = {a.name: sum((w.count - t) ** 2 for w, t in zip(a.contractors[0].workers.values(), team)) for a in agents if rank[a.name] == best}
        obs.check(x[1].name in err and err[x[1].name] == min(err.values()), 'not-the-agent-the-network-means', f'{x[1].name}: {rank} {err}')
        ends[x[1].name] = tv(x[4][1])


# ---------------------------------------------------------------------------------------------- graphs of blocks

def pairs_of(bg):
    out = Counter((a.id, b.id) for a in bg.nodes for b in a.blocks_to)
    return out, Counter((a.id, b.id) for b in bg.nodes for a in b.blocks_from)


def check_graph(bg, edges, obs, tag):
    to, frm = pairs_of(bg)
    obs.check(to == frm, f'{tag}:links-disagree')
    obs.check(set(to) == set(edges), f'{tag}:links', f'{len(to)} vs {len(edges)}')
    obs.check(all(bg[x.id] is x for x in bg.nodes) and len(bg) == len(bg.nodes), f'{tag}:index')
    order = [x.id for x in bg.toposort()]
    obs.check(Counter(order) == Counter(x.id for x in bg.nodes), f'{tag}:order-lost-blocks')
    place = {x: i for i, x in enumerate(order)}
    for a, b in edges:
        obs.check(place[a] < place[b], f'{tag}:order')


def check_union(bg, edges, obs, tag='union'):
    given = {x.id: (Counter(n.id for n in x.wg.nodes), links_of(x.wg.nodes)) for x in bg.nodes}
    wg = bg.to_work_graph()
    ids = Counter(n.id for n in wg.nodes)
    ours = Counter()
    for x in bg.nodes:
        ours += Counter(n.id for n in x.wg.nodes)
    extra = ids - ours
    obs.check(not ours - ids, f'{tag}:works-lost', f'{list(ours - ids)[:4]}')
    obs.check(set(extra) == {wg.start.id, wg.finish.id} and sum(extra.values()) == 2, f'{tag}:works-invented', f'{list(extra)[:5]}')
    links = links_of(wg.nodes)
    before = reach(wg.nodes)
    for x in bg.nodes:
        obs.check(not links_of(x.wg.nodes) - links, f'{tag}:links-lost')
        obs.check(given[x.id] == (Counter(n.id for n in x.wg.nodes), links_of(x.wg.nodes)), f'{tag}:given-blocks-changed')
    rank = {x.id: x.wg for x in bg.nodes}
    clos = closure(edges)
    for a, b in clos:
        obs.check(rank[a].finish.id in before[rank[b].start.id], f'{tag}:order-of-blocks-lost')
    owner = {n.id: x.id for x in bg.nodes for n in x.wg.nodes}
    for n in wg.nodes:
        if n.id in owner:
            for p in before[n.id]:
                if p in owner and owner[p] != owner[n.id]:
                    obs.check((owner[p], owner[n.id]) in clos, f'{tag}:order-invented', f'{p} -> {n.id}')
    everything = set(ids)
    obs.check(before[wg.finish.id] | {wg.finish.id} == everything, f'{tag}:not-before-the-end')
    obs.check(all(wg.start.id in before[i] for i in everything if i != wg.start.id), f'{tag}:not-after-the-start')
    units = {n.id: n.work_unit for n in wg.nodes}
    for x in bg.nodes:
        for n in x.wg.nodes:
            u, v = n.work_unit, units.get(n.id)
            if v is not None:
                obs.check((u.volume, u.is_service_unit, [(q.kind, q.volume, q.min_count, q.max_count) for q in u.worker_reqs])
                          == (v.volume, v.is_service_unit, [(q.kind, q.volume, q.min_count, q.max_count) for q in v.worker_reqs]), f'{tag}:works-changed')
    return wg


def run_graph(r, case, obs):
    bg, edges, works = rand_blocks(r, r.choice([1, 1, 2, 3, 4, 6, 9]))
    check_graph(bg, edges, obs, 'given')
    c = copy.copy(bg)
    check_graph(c, edges, obs, 'copy')
    obs.check(all(x is not y and x.wg is y.wg for x, y in zip(c.nodes, bg.nodes)), 'copy:not-the-blocks')
    for x in list(c.nodes):
        BlockGraph.add_edge(x, BlockNode(x.wg))
    check_graph(bg, edges, obs, 'copied')
    check_union(bg, edges, obs)
    check_graph(bg, edges, obs, 'after-union')
    obs.check(all(x.is_service() == (len(x.wg.nodes) == 2) for x in bg.nodes), 'service')
    obs.nontrivial(len(bg), tuple(sorted(edges)))
    try:
        Manager([])
        obs.violate('manager-of-nobody')
    except NoSufficientAgents:
        pass


def run_shape(r, case, obs):
    kind = r.choice(list(SyntheticBlockGraphType))
    n = r.choice([1, 2, 3])
    prop = r.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [2, 1, 1]])
    size = r.choice([20, 30, 60])
    queues = [r.randint(1, 3) for _ in range(r.choice([1, 2]))]
    said = []
    prob = r.choice([.1, .5, 1.])

    def make(s):
        asked = []

        def supply(i):
            asked.append(i)
            return (size, None) if r0 else (None, size)
        r0 = s % 2
        bg = generate_block_graph(kind, n, prop, supply, prob, Random(s), queues_num=len(queues), queues_blocks=queues,
                                  queues_edges=[0] * len(queues), logger=said.append)
        return bg, asked, r0
    s = r.getrandbits(30)
    bg, asked, bottom = make(s)
    real = [x for x in bg.nodes if not x.is_service()]
    empty = [x for x in bg.nodes if x.is_service()]
    to, frm = pairs_of(bg)
    edges = set(to)
    check_graph(bg, edges, obs, 'made')
    clos = closure(edges)
    queue = kind is SyntheticBlockGraphType.QUEUES
    obs.check(len(real) == (sum(queues) if queue else n), 'number-of-blocks', f'{len(real)}')
    obs.check(len(empty) == (len(queues) + 1 if queue else 2), 'number-of-empty-blocks', f'{len(empty)}')
    obs.check(len(said) == 1 and isinstance(said[0], str), 'said', f'{said}')
    if bottom:
        obs.check(all(x.wg.vertex_count >= size for x in real), 'block-too-small')
    else:
        obs.check(all(x.wg.vertex_count <= max(size, 60) + 2 for x in real), 'block-too-big', f'{[x.wg.vertex_count for x in real]}')
    starts = [x for x in bg.nodes if not x.blocks_from]
    ends = [x for x in bg.nodes if not x.blocks_to]
    obs.check(len(starts) == 1 and len(ends) == 1 and starts[0].is_service() and ends[0].is_service(), 'ends-of-graph')
    if len(starts) == 1 and len(ends) == 1:
        obs.check(all((starts[0].id, x.id) in clos for x in bg.nodes if x is not starts[0]), 'block-without-start')
    inner = {(a, b) for a, b in edges if not bg[a].is_service() and not bg[b].is_service()}
    if kind is SyntheticBlockGraphType.SEQUENTIAL:
        want = {(x.id, y.id) for x, y in zip(real, real[1:])}
        obs.check(inner == want, 'not-a-sequence', f'{len(inner)} vs {len(want)}')
    elif kind is SyntheticBlockGraphType.PARALLEL:
        obs.check(not inner, 'not-parallel')
    elif queue:
        obs.check(not inner, 'links-inside-queue')
        order = [x for x in bg.nodes]
        groups, cur = [], []
        for x in order:
            if x.is_service():
                groups.append(cur)
                cur = []
            else:
                cur.append(x)
        groups = groups[1:]
        obs.check([len(g) for g in groups] == queues, 'queues', f'{[len(g) for g in groups]} vs {queues}')
        for g, h in zip(groups, groups[1:]):
            obs.check(all((a.id, b.id) in clos for a in g for b in h), 'queues-not-in-order')
    wg = check_union(bg, edges, obs, 'made-union')
    # the same random numbers give the same blocks
    again, _, _ = make(s)
    obs.check([sorted((w.work_unit.name, w.work_unit.volume) for w in x.wg.nodes) for x in again.nodes]
              == [sorted((w.work_unit.name, w.work_unit.volume) for w in x.wg.nodes) for x in bg.nodes], 'not-repeatable')
    obs.nontrivial(kind.name, len(wg.nodes), tuple(sorted(len(x.wg.nodes) for x in bg.nodes)))
    obs.event(f'shape:{kind.name}')


def run_insert(r, case, obs):
    works, ins = works_block(r, 0, 1, 12), works_block(r, 1, 1, 6)
    wg, piece = gen.build_wg(works, r), gen.build_wg(ins, r)
    p = r.choice([0, 1, 1, 1, 1, .5])
    given = {n.id: n.work_unit for n in wg.nodes}
    links, pl = links_of(wg.nodes), links_of(piece.nodes)
    before0 = reach(wg.nodes)
    start, finish = wg.start.id, wg.finish.id
    ob = OneInsertObstruction.from_static_graph(p, Random(r.getrandbits(30)), piece)
    ob.generate(wg)
    ids = Counter(n.id for n in wg.nodes)
    obs.check(all(c == 1 for c in ids.values()), 'insert:work-twice')
    added = set(ids) - set(given)
    obs.check(set(given) <= set(ids), 'insert:work-lost')
    obs.check(all(n.work_unit == given[n.id] for n in wg.nodes if n.id in given), 'insert:work-changed')
    if p == 0:
        obs.check(not added, 'insert:never')
    if p == 1:
        obs.check(bool(added), 'insert:always')
    if added:
        obs.check(added == {n.id for n in piece.nodes}, 'insert:not-the-piece')
        obs.check(not pl - links_of(n for n in wg.nodes), 'insert:piece-changed')
        before = reach(wg.nodes)
        obs.check(not links - links_of(wg.nodes), 'insert:links-lost')
        obs.check(all(before0[i] <= before[i] for i in before0), 'insert:order-lost')
        points = {e.start.id for n in wg.nodes if n.id == piece.start.id for e in n.edges_to}
        after = [n.id for n in wg.nodes if n.id in given and piece.finish.id in before[n.id]]
        obs.check(len(points) == 1 and points <= set(given), 'insert:not-after-one-work', f'{points}')
        obs.check(bool(after), 'insert:nothing-waits-for-it')
        obs.check(before[finish] | {finish} == set(ids), 'insert:not-before-the-end')
        obs.check(wg.start.id == start and wg.finish.id == finish, 'insert:ends-changed')
        obs.nontrivial(len(works), len(ins), tuple(sorted(points)), len(after))
        pos = {n.id: i for i, n in enumerate(wg.nodes)}
        obs.check(all(pos[e.start.id] < pos[n.id] for n in wg.nodes for e in n.edges_to), 'insert:order-of-nodes')
        obs.check(wg.vertex_count == len(wg.nodes), 'insert:count')
        obs.check(not wg.finish.children, 'insert:after-the-end')
    else:
        obs.check(links == links_of(wg.nodes), 'insert:links-changed')
    obs.check({n.id for n in piece.nodes} == {w.id for w in ins} | {piece.start.id, piece.finish.id} and links_of(piece.nodes) == pl, 'insert:given-piece-changed')
