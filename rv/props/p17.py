"""Genetic operators stay inside the space of valid chromosomes, touch nothing else, and do act."""
from random import Random

import numpy as np

from rv import gen, sched

from sampo.api.genetic_api import ScheduleGenerationScheme as SGS
from sampo.scheduler.genetic import GeneticScheduler
from sampo.scheduler.genetic.schedule_builder import create_toolbox
from sampo.scheduler.genetic.utils import prepare_optimized_data_structures
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.zones import ZoneConfiguration, DefaultZoneStatuses

RULE = ('random walks of crossovers and mutations from generated populations of random projects; every chromosome judged '
        'against the generator\'s own description of the project; non-trivial: chromosomes changed by operators; distinct by '
        'chromosome')
PROFILES = ['plain', 'dense', 'lags', 'chains', 'prio', 'tight', 'special', 'spec', 'specteam', 'specpart', 'specmix', 'edge',
            'big', 'spectime']


class Statuses(DefaultZoneStatuses):
    def statuses_available(self) -> int:
        return 4


def cases(tier, seed):
    r = Random(f'P17-{seed}')
    k = 1 if tier == 'quick' else 14
    return [dict(seed=r.getrandbits(40), profile=PROFILES[i % len(PROFILES)], steps=14 if tier == 'quick' else 40)
            for i in range(280 * k)]


class Space:
    """The valid chromosomes of a project, from the generator's description."""

    def __init__(self, pr, index2node, kind2index, contractor2index, zones=0, statuses=1):
        self.pr, self.kinds, self.cons = pr, kind2index, contractor2index
        self.ids = {i: n.id for i, n in index2node.items()}
        self.pos = {n: i for i, n in self.ids.items()}
        by = pr.by_id()
        ids = [w.id for w in pr.works]
        head = {}
        for i, w in enumerate(pr.works):
            head[w.id] = ids[gen.chain_of(pr.works, i)[0]]
        service = [n.id for n in index2node.values() if n.id not in by]  # the added start and finish
        self.start = next(i for i in service if not index2node[self.pos[i]].parents)
        self.finish = next((i for i in service if i != self.start), self.start)
        self.deps = {i: set() for i in self.pos}
        for i, w in enumerate(pr.works):
            for p, _, t in w.parents:
                if t in ('FS', 'IFS', 'FFS') and head[ids[p]] != head[w.id]:
                    self.deps[head[w.id]].add(head[ids[p]])
        for i in self.pos:
            if i in by:
                self.deps[i].add(self.start)
                self.deps[self.finish].add(i)
        self.prio = {i: by[i].priority if i in by else None for i in self.pos}
        self.reqs = {i: by[i].reqs if i in by else {} for i in self.pos}
        self.cap = {c.id: {k: w.count for k, w in c.workers.items()} for c in pr.contractors}
        self.name = {i: c for c, i in contractor2index.items()}
        self.zones, self.statuses = zones, statuses

    def bounds(self, work, kind):
        e = self.pr.spec_plan.get(work, {})
        team = {**e.get('team', {}), **e.get('part', {})}
        if kind in team:
            return team[kind], team[kind]
        return self.reqs[work][kind][1:] if kind in self.reqs[work] else (0, 0)

    def owners(self, work):
        return self.pr.spec_plan.get(work, {}).get('contractors') or set(self.cap)

    def errors(self, ind):
        order, res, borders, spec, zones = ind
        seq = [self.ids.get(int(i)) for i in order]
        if sorted(map(str, seq)) != sorted(self.pos):
            yield 'order-not-permutation', seq
            return
        at = {n: i for i, n in enumerate(seq)}
        for n in seq:
            for p in self.deps[n]:
                if at[p] > at[n]:
                    yield 'order-breaks-dependencies', f'{p} after {n} in {seq}'
        prio = [self.prio[n] for n in seq if self.prio[n] is not None]
        if prio != sorted(prio):
            yield 'order-breaks-priorities', prio
        if res.shape != (len(seq), len(self.kinds) + 1) or borders.shape != (len(self.cap), len(self.kinds)):
            yield 'shape', f'{res.shape} {borders.shape}'
            return
        for c, ci in self.cons.items():
            for k, ki in self.kinds.items():
                if not 0 <= borders[ci, ki] <= self.cap[c].get(k, 0):
                    yield 'border-out-of-capacity', f'{c}/{k}: {borders[ci, ki]} of {self.cap[c].get(k, 0)}'
        for n, i in self.pos.items():
            ci = int(res[i, -1])
            if ci not in self.name:
                yield 'unknown-contractor', f'{n}: {ci}'
                continue
            if self.name[ci] not in self.owners(n):
                yield 'contractor-not-allowed', f'{n}: {self.name[ci]} of {self.owners(n)}'
            for k, ki in self.kinds.items():
                lo, hi = self.bounds(n, k)
                v = int(res[i, ki])
                if not lo <= v <= hi:
                    yield 'count-out-of-requirement', f'{n}/{k}: {v} not in [{lo}, {hi}]'
                if v > borders[ci, ki]:
                    yield 'count-over-border', f'{n}/{k}: {v} > {borders[ci, ki]}'
                if k in self.reqs[n] and k not in self.cap[self.name[ci]]:
                    yield 'contractor-without-workers', f'{n}/{k}: {self.name[ci]}'
        if zones.shape != (len(seq), self.zones) or (zones.size and not ((zones >= 0) & (zones < self.statuses)).all()):
            yield 'zones', f'{zones}'


def spec_of(ind):
    return sorted((k, sorted(v.contractors or ()), sorted((a, int(b)) for a, b in v.assigned_workers.items()),
                   str(v.assigned_time), bool(v.is_independent)) for k, v in ind[3]._work2spec.items()
                  if v.contractors or v.assigned_workers or v.assigned_time is not None or v.is_independent)


def frozen(ind):
    return tuple(map(int, ind[0])), ind[1].tobytes(), ind[2].tobytes(), ind[4].tobytes(), repr(spec_of(ind))


def make(case, zones=False):
    pr, est, start, r = sched.build(case)
    land = LandscapeConfiguration()
    if zones:
        land = LandscapeConfiguration(zone_config=ZoneConfiguration(
            start_statuses={f'z{i}': 1 for i in range(3)}, time_costs=np.ones((4, 4), dtype=int), statuses=Statuses()))
    init = GeneticScheduler.generate_first_population(pr.wg, pr.contractors, land, pr.spec, est)
    rand = Random(r.randrange(10 ** 6))
    size = r.choice([6, 10, 17])
    tb = create_toolbox(wg=pr.wg, contractors=pr.contractors, selection_size=size, mutate_order=r.choice([.1, .5, 1.0]),
                        mutate_resources=r.choice([.1, .5, 1.0]), mutate_zones=r.choice([.1, .5]), init_schedules=init,
                        rand=rand, spec=pr.spec, fitness_weights=(-1,), work_estimator=est, sgs_type=SGS.Serial,
                        landscape=land, only_lft_initialization=r.random() < .2, verbose=False)
    (_, index2node, _, _, kinds, _, _, cons, *_) = prepare_optimized_data_structures(pr.wg, pr.contractors, land, pr.spec)
    return pr, est, r, tb, Space(pr, index2node, kinds, cons, 3 if zones else 0, 4), size


def run(case, obs):
    zones = case['seed'] % 4 == 0
    pr, est, r, tb, sp, size = make(case, zones)

    def judge(ind, who):
        for m, d in sp.errors(ind):
            obs.violate(f'{who}:{m}', d)
        obs.check(tb.validate(ind), f'{who}:rejected-by-own-validation')
        obs.state(frozen(ind)[:3])

    pop = tb.population(size)
    obs.check(len(pop) == size, 'population-size', f'{len(pop)} != {size}')
    pop.append(tb.Individual(tb.generate_chromosome()))
    for ind in pop:
        judge(ind, 'population')
    if obs.violations:
        return
    opt = False
    for step in range(case['steps']):
        a, b = r.sample(range(len(pop)), 2)
        x, y = pop[a], pop[b]
        before = [frozen(i) for i in pop]
        what = r.choice(['mate', 'mate', 'mate_order', 'mate_res', 'mutate', 'mutate_order', 'mutate_res', 'borders', 'both']
                        + ['mate_zones', 'mutate_zones'] * zones)
        opt = opt or r.random() < .3
        use = opt and r.random() < .7  # individuals with other borders may come from another algorithm
        if what.startswith('mate'):
            if what == 'mate':
                kids = tb.mate(x, y, use)
            elif what == 'mate_order':
                kids = tb.mate_order(x, y)
            elif what == 'mate_zones':
                kids = tb.mate_post_zones(x, y)
            else:
                kids = tb.mate_resources(x, y, optimize_resources=use)
            obs.check([frozen(i) for i in pop] == before, f'{what}:parents-changed')
            pair = lambda i: sorted([x[1][i].tolist(), y[1][i].tolist()])
            obs.check(all(sorted([kids[0][1][i].tolist(), kids[1][1][i].tolist()]) == pair(i) for i in range(len(x[1]))),
                      f'{what}:genes-not-exchanged')
            if zones:
                obs.check(all(sorted([kids[0][4][i].tolist(), kids[1][4][i].tolist()])
                              == sorted([x[4][i].tolist(), y[4][i].tolist()]) for i in range(len(x[4]))),
                          f'{what}:zones-not-exchanged')
            if what in ('mate_order', 'mate_zones') or not use and (x[2] == y[2]).all():
                obs.check(all((k[2] == p[2]).all() for k, p in zip(kids, (x, y))), f'{what}:borders-changed')
            # a change of one child must not be seen from the other nor from the parents
            probe = [frozen(i) for i in (*pop, kids[1])]
            first = tb.copy_individual(kids[0])
            tb.mutate(kids[0])
            tb.mutate_resource_borders(kids[0])
            obs.check([frozen(i) for i in (*pop, kids[1])] == probe, f'{what}:individuals-share-genes')
            judge(kids[0], 'mutate-after-' + what)
            kids = [first, kids[1]]
        else:
            kid = tb.copy_individual(x)
            if what in ('mutate', 'both'):
                tb.mutate(kid)
            if what == 'mutate_order':
                tb.mutate_order(kid)
                obs.check((kid[1] == x[1]).all() and (kid[2] == x[2]).all(), 'mutate_order:other-genes-changed')
            if what == 'mutate_res':
                tb.mutate_resources(kid)
                obs.check((kid[0] == x[0]).all() and (kid[2] == x[2]).all(), 'mutate_resources:other-genes-changed')
            if what == 'mutate_zones':
                tb.mutate_post_zones(kid)
                obs.check((kid[0] == x[0]).all() and (kid[1] == x[1]).all(), 'mutate_zones:other-genes-changed')
            if what in ('borders', 'both'):
                was = kid[1].copy()
                tb.mutate_resource_borders(kid)
                obs.check((kid[1] == was).all(), 'mutate_borders:other-genes-changed')
                opt = True
            obs.check([frozen(i) for i in pop] == before, f'{what}:source-changed')
            kids = [kid]
        for k, p in zip(kids, (x, y)):
            judge(k, what)
            obs.check(spec_of(k) == spec_of(p), f'{what}:spec-changed')
            if frozen(k) != frozen(p):
                obs.event(f'{what}:changed')
                obs.nontrivial(frozen(k))
        obs.event(what)
        if obs.violations:
            return
        for k in kids:
            pop[r.randrange(len(pop))] = k
    activity(case, obs, pr, tb, sp, pop, r)
    corrupt(obs, tb, sp, pop, r)


def activity(case, obs, pr, tb, sp, pop, r):
    """The operators move: a mutation with a high probability changes what is free to change and reaches its limits."""
    ind = tb.copy_individual(pop[0])
    seq = [sp.ids[int(i)] for i in ind[0]]
    free = [i for i in range(1, len(seq) - 2)
            if seq[i] not in sp.deps[seq[i + 1]] and sp.prio[seq[i]] == sp.prio[seq[i + 1]]]
    # ends of groups of equal priorities stay where they are
    last = {i for i in range(1, len(seq) - 1) if sp.prio[seq[i]] != sp.prio[seq[i + 1]] or sp.prio[seq[i]] != sp.prio[seq[i - 1]]}
    free = [i for i in free if i not in last and i + 1 not in last]
    if free:
        done = any(not (tb.mutate_order(tb.copy_individual(ind), mutpb=.5)[0] == ind[0]).all() for _ in range(80))
        obs.check(done, 'mutate_order:never-changes', lambda: f'{seq}, free to swap at {free}')
        obs.event('order-mutations-watched')
    other = next((p for p in pop if not (p[0] == ind[0]).all()), None)
    if other is not None:
        d = [i for i in range(len(seq)) if ind[0][i] != other[0][i]]
        prio = [sp.prio[n] for n in seq]
        inner = [i for i in d if 1 < i < len(seq) - 2]
        if len(set(p for p in prio if p is not None)) <= 1 and len(inner) >= 2 and len(seq) >= 12:
            done = False
            for _ in range(400):
                k = tb.mate_order(ind, other)
                if not ((k[0][0] == ind[0]).all() and (k[1][0] == other[0]).all()):
                    done = True
                    break
            obs.check(done, 'mate_order:never-changes', lambda: f'{ind[0]} {other[0]}')
            obs.event('order-crossovers-watched')
    # limits of counts
    wide = []
    for n, i in sp.pos.items():
        for k, ki in sp.kinds.items():
            lo, hi = sp.bounds(n, k)
            hi = min(hi, int(ind[2][int(ind[1][i, -1]), ki]))
            if k in sp.reqs[n] and 1 <= hi - lo <= 4:
                wide.append((i, ki, lo, hi))
    if wide:
        i, ki, lo, hi = r.choice(wide)
        seen = {int(ind[1][i, ki])}
        for _ in range(700):
            cur = tb.mutate_resources(tb.copy_individual(ind), mutpb=1.0)[1]
            if cur[i, -1] == ind[1][i, -1]:
                seen.add(int(cur[i, ki]))
            if {lo, hi} <= seen:
                break
        obs.check({lo, hi} <= seen, 'mutate_resources:limits-unreachable', lambda: f'[{lo}, {hi}] seen {seen}')
        obs.event('limits-watched')
    if len(sp.cap) > 1:
        for n, i in sp.pos.items():
            now = int(ind[1][i, -1])
            if sp.reqs[n] and any(ci != now and c in sp.owners(n) and all(k in sp.cap[c] for k in sp.reqs[n])
                                  and (ind[1][i, :-1] <= ind[2][ci]).all() for c, ci in sp.cons.items()):
                seen = {int(tb.mutate_resources(tb.copy_individual(ind), mutpb=1.0)[1][i, -1]) for _ in range(60)}
                obs.check(seen != {now}, 'mutate_resources:contractor-never-changes')
                obs.event('contractor-mutations-watched')
                break
    used = {}
    for n, i in sp.pos.items():
        for k, ki in sp.kinds.items():
            key = int(ind[1][i, -1]), ki
            used[key] = max(used.get(key, 0), int(ind[1][i, ki]))
    wide = [(c, k, m, sp.cap[sp.name[c]].get(next(n for n, x in sp.kinds.items() if x == k), 0)) for (c, k), m in used.items()]
    wide = [w for w in wide if 1 <= w[3] - w[2] <= 6]
    if wide:
        c, k, lo, hi = r.choice(wide)
        cur = tb.copy_individual(ind)
        seen = set()
        for _ in range(250):
            tb.mutate_resource_borders(cur, mutpb=1.0)
            seen.add(int(cur[2][c, k]))
            if {lo, hi} <= seen:
                break
        obs.check({lo, hi} <= seen, 'mutate_borders:limits-unreachable', lambda: f'[{lo}, {hi}] seen {seen}')
        obs.event('borders-watched')


def corrupt(obs, tb, sp, pop, r):
    """The validation of the algorithm rejects what breaks the dependencies, the specification and the borders."""
    ind = pop[r.randrange(len(pop))]
    bad = []
    seq = [sp.ids[int(i)] for i in ind[0]]
    at = {n: i for i, n in enumerate(seq)}
    pairs = [(p, n) for n in seq for p in sp.deps[n]]
    if pairs:
        p, n = r.choice(pairs)
        k = tb.copy_individual(ind)
        k[0][at[p]], k[0][at[n]] = ind[0][at[n]], ind[0][at[p]]
        bad.append(('dependency', k))
    works = [n for n in seq if sp.reqs[n]]
    if works:
        n = r.choice(works)
        i = sp.pos[n]
        kind = sp.kinds[r.choice(list(sp.reqs[n]))]
        k = tb.copy_individual(ind)
        k[1][i, kind] = k[2][int(k[1][i, -1]), kind] + 1
        bad.append(('count', k))
        k = tb.copy_individual(ind)
        ci = int(k[1][i, -1])
        k[2][ci, kind] = sp.cap[sp.name[ci]].get(next(a for a, b in sp.kinds.items() if b == kind), 0) + 1
        bad.append(('border', k))
    strict = [n for n in works if set(sp.owners(n)) != set(sp.cap)]
    if strict:
        n = r.choice(strict)
        k = tb.copy_individual(ind)
        k[1][sp.pos[n], -1] = sp.cons[r.choice(sorted(set(sp.cap) - set(sp.owners(n))))]
        bad.append(('contractor', k))
    for what, k in bad:
        obs.check(not tb.validate(k), f'validation-accepts:{what}')
        obs.check(tb.evaluate_chromosome(k) is None, f'evaluation-accepts:{what}')
        obs.event(f'rejected:{what}')
