"""Import: files and frames are read as they say, history fills in links, and contractors are read or generated to suit."""
import json
import os
import shutil
import tempfile
from collections import defaultdict
from random import Random

import networkx as nx
import pandas as pd

from rv import gen, oracle, sched

from sampo.generator.environment import ContractorGenerationMethod
from sampo.pipeline import SchedulingPipeline
from sampo.pipeline.preparation import PreparationPipeline
from sampo.scheduler.base import Scheduler
from sampo.schemas.schedule import Schedule
from sampo.schemas.scheduled_work import ScheduledWork
from sampo.schemas.time import Time
from sampo.userinput.parser.csv_parser import CSVParser
from sampo.userinput.parser.general_build import Graph, get_graph_contractors
from sampo.userinput.parser.exception import InputDataException
from sampo.utilities.name_mapper import (DictNameMapper, DummyNameMapper, get_inverse_task_name_mapping,
                                         get_task_name_unique_mapping, read_json)

RULE = ('random projects written as frames and files in every documented layout (names in one column or in two, ids of all styles, '
        'missing optional columns, dangling and cyclic links, history, name mappers, contractors of all sorts) and read back through '
        'the parser and both pipelines; exported graphs read back; non-trivial: a project with links; distinct by content')
HISTORY = ['marker_for_glue', 'work_name', 'first_day', 'last_day', 'upper_works', 'granular_name']
TYPES = ['FS', 'SS', 'FF', 'FFS', 'IFS']
NAMES = ['dig', 'Работа №1', "worker's hut", 'a "quoted" name', 'x, y', 'semi; colon', 'нулевой цикл', '0', '1.5']


def cases(tier, seed):
    r = Random(f'P29-{seed}')
    k = 2 if tier == 'quick' else 20
    out = []
    for kind, n in (('links', 420), ('cycles', 160), ('roundtrip', 160), ('history', 240), ('contractors', 160), ('pipeline', 120),
                    ('names', 60)):
        out += [dict(kind=kind, seed=r.getrandbits(40)) for _ in range(n * k)]
    return out


def run(case, obs):
    r = Random(case['seed'])
    tmp = tempfile.mkdtemp(prefix='rv-p29-')
    try:
        globals()[f'run_{case["kind"]}'](r, tmp, obs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    obs.event(f'kind:{case["kind"]}')


def make_ids(r, n, csv):
    style = r.choice(['int', 'wbs', 'wbs3', 'name', 'mixed', 'pad', 'gap', 'wbs'])
    if style == 'int':
        ids = [str(i + 1) for i in range(n)]
    elif style == 'gap':
        ids = [str(x) for x in r.sample(range(1, 10 ** 6), n)]
    elif style == 'wbs':
        ids = [f'{i // 9 + 1}.{i % 9 + 1}' if i % 9 else str(i // 9 + 1) for i in range(n)]
    elif style == 'wbs3':
        ids = [f'{i // 9 + 1}.{i % 9 + 1}.{r.randint(0, 9)}' for i in range(n)]
    elif style == 'pad':
        ids = [f'{i:04d}' for i in range(n)]
    elif style == 'name':
        ids = [f'work-{i} a' for i in range(n)]
    else:
        ids = [str(i) if r.random() < .5 else f'w{i}' for i in range(n)]
        ids[0] = 'w'   # keeps the column textual
    return style, ids


class Table:
    """A project as a user describes it, and what should be read from it."""

    def __init__(self, r, n, csv, *, kinds=TYPES, cyclic=False, reqs=None, optional=True):
        self.r, self.csv = r, csv
        self.style, self.ids = make_ids(r, n, csv)
        r.shuffle(self.ids)
        unique = r.random() < .5
        self.names = [f'{r.choice(NAMES)} {i}' if unique else r.choice(NAMES[:-2]) for i in range(n)]
        self.granular = [f'G {r.randint(0, 5)}' if r.random() < .7 else x for x in self.names]
        self.measure = [r.choice(['km', 'шт', 'm3']) for _ in range(n)]
        self.volume = [r.choice([0.0, 1.0, float(r.randint(1, 3000)), round(r.random() * 50, 3)]) for _ in range(n)]
        self.with_types, self.with_lags = r.random() < .85, r.random() < .85
        self.links = [[] for _ in range(n)]
        place = list(range(n))
        r.shuffle(place)
        self.place = place
        for c in range(n):
            cand = [p for p in range(n) if p != c and (cyclic and r.random() < .15 or place[p] < place[c])]
            if cyclic and r.random() < .05:
                cand.append(c)
            for p in r.sample(cand, min(len(cand), r.choice([0, 1, 1, 2, 4]))):
                self.links[c].append((self.ids[p], r.choice(kinds) if self.with_types else 'FS',
                                      r.choice([0.0, 1.0, 2.5, float(r.randint(0, 50))]) if self.with_lags else 0.0))
        self.dangling = [r.random() < .1 for _ in range(n)]
        self.optional = {c for c in ('group', 'priority', 'description', 'required_statuses') if optional and r.random() < .5}
        self.group = [r.choice(['north', 'юг', 'main project']) for _ in range(n)]
        self.priority = [place[i] // 3 + 1 for i in range(n)]
        self.description = [r.choice(['text', 'Описание; с точкой', 'a, b']) for _ in range(n)]
        self.statuses = [{z: r.randint(1, 3) for z in r.sample(['road', 'зона', 'camp'], r.randint(0, 2))} for _ in range(n)]
        self.reqs = None
        if r.random() < .6 if reqs is None else reqs:
            self.reqs = [{k: (r.randint(1, 500), lo := r.randint(1, 5), lo + r.randint(0, 9))
                          for k in r.sample(gen.KINDS, r.choice([0, 1, 2, 4]))} for _ in range(n)]
        self.layout = r.choice(['model', 'columns', 'columns'])
        self.mapped = None

    def frame(self):
        r, n = self.r, len(self.ids)
        ids = self.ids
        if not self.csv and self.style in ('int', 'gap') and r.random() < .5:
            ids = [int(i) for i in ids]
        if not self.csv and self.style == 'int' and r.random() < .2:
            ids = list(ids)
        d = {'activity_id': ids, 'activity_name': self.names}
        if self.layout == 'model':
            d['model_name'] = [str({'granular_name': g, 'measurement': m}) for g, m in zip(self.granular, self.measure)]
        else:
            d['granular_name'], d['measurement'] = self.granular, self.measure
        comma = r.random() < .2
        d['volume'] = [str(v).replace('.', ',') if comma else v for v in self.volume]
        pred, types, lags = [], [], []
        for links, dang in zip(self.links, self.dangling):
            links = list(links)
            if dang:
                links.insert(r.randint(0, len(links)), ('no-such-work', 'FS', 0.0))
            pred.append(','.join(p for p, _, _ in links))
            types.append(','.join(t for _, t, _ in links))
            lags.append(','.join((str(int(g)) if g == int(g) and r.random() < .5 else str(g)) for _, _, g in links))
        blank = r.choice(['', None, float('nan')])
        if not self.csv and all(p.isdigit() or not p for p in pred) and r.random() < .3 and self.style in ('int', 'gap'):
            # one predecessor at most: a column of numbers
            pred = [float(p) if p else float('nan') for p in pred]
            d['predecessor_ids'] = pred
        else:
            d['predecessor_ids'] = [p or blank for p in pred]
        if self.with_types:
            d['connection_types'] = [t or blank for t in types]
        if self.with_lags:
            d['lags'] = [t or blank for t in lags]
        for c, v in (('group', self.group), ('priority', self.priority), ('description', self.description)):
            if c in self.optional:
                d[c] = v
        if 'required_statuses' in self.optional:
            d['required_statuses'] = [(s if r.random() < .5 else str(s)) if s else r.choice(['', None, '{}', {}])
                                      for s in self.statuses]
        if self.reqs:
            text = r.random() < .5
            for c, j in (('req_volume', 0), ('min_req', 1), ('max_req', 2)):
                d[c] = [(str({k: v[j] for k, v in q.items()}) if text else {k: v[j] for k, v in q.items()})
                        if q or r.random() < .5 else '' for q in self.reqs]
        cols = list(d)
        if r.random() < .5:
            r.shuffle(cols)
        df = pd.DataFrame({c: d[c] for c in cols})
        if r.random() < .3:
            df['comment'] = 'whatever'
        return df

    def source(self, tmp, sep=';'):
        df = self.frame()
        if not self.csv:
            return df
        path = os.path.join(tmp, 'работы.csv')
        df.to_csv(path, sep=sep, index=False)
        return path

    def expected_links(self):
        return [sorted(x) for x in self.links]


def links_of(node, wg):
    return sorted((e.start.id, e.type.value, float(e.lag)) for e in node.edges_to if e.start is not wg.start)


def check_works(t, wg, obs, links=True):
    inner = [n for n in wg.nodes if n is not wg.start and n is not wg.finish]
    if not obs.check(sorted(n.id for n in inner) == sorted(t.ids), 'other-works-read',
                     lambda: f'{sorted(t.ids)} {sorted(n.id for n in inner)}'):
        return False
    for i, w in enumerate(t.ids):
        u = wg[w].work_unit
        obs.check(u.display_name == t.names[i], 'another-name', lambda: f'{u.display_name!r} {t.names[i]!r}')
        want = {'granular_name': t.granular[i], 'measurement': t.measure[i]}
        obs.check(u.model_name == want, 'another-model-name', lambda: f'{u.model_name} {want}')
        obs.check(float(u.volume) == t.volume[i], 'another-volume', lambda: f'{u.volume} {t.volume[i]}')
        obs.check(u.group == (t.group[i] if 'group' in t.optional else 'main project'), 'another-group', u.group)
        obs.check(int(u.priority) == (t.priority[i] if 'priority' in t.optional else 1), 'another-priority', str(u.priority))
        obs.check((u.description or '') == (t.description[i] if 'description' in t.optional else ''), 'another-description',
                  str(u.description))
        obs.check({z.kind: z.required_status for z in u.zone_reqs} ==
                  (t.statuses[i] if 'required_statuses' in t.optional else {}), 'other-statuses', lambda: f'{u.zone_reqs}')
        if t.reqs is not None:
            got = {q.kind: (int(q.volume), q.min_count, q.max_count) for q in u.worker_reqs}
            obs.check(got == t.reqs[i] and len(got) == len(u.worker_reqs), 'other-requirements', lambda: f'{got} {t.reqs[i]}')
            obs.check(u.is_service_unit == (not t.reqs[i]), 'service-or-not')
        if links:
            got = links_of(wg[w], wg)
            obs.check(got == sorted(t.links[i]), 'other-links', lambda: f'{w}: {got} {sorted(t.links[i])}')
    check_structure(wg, obs)
    return True


def check_structure(wg, obs):
    place = {n.id: i for i, n in enumerate(wg.nodes)}
    obs.check(wg.nodes[0] is wg.start and wg.nodes[-1] is wg.finish and len(place) == len(wg.nodes), 'ends-of-graph')
    obs.check(all(place[e.start.id] < place[n.id] for n in wg.nodes for e in n.edges_to), 'works-out-of-order')


def read(t, src, r, obs, history=None, **modes):
    """Any of the ways to read a project."""
    how = r.choice(['parser', 'preparation', 'scheduling'])
    if how == 'scheduling' and any(ty == 'IFS' for links in t.links for _, ty, _ in links):
        how = 'parser'   # random chains are not to be planned
    obs.event(f'way:{how}')
    keep = src.copy(deep=True) if isinstance(src, pd.DataFrame) else None
    if how == 'parser':
        h = history if history is not None else pd.DataFrame(columns=HISTORY)
        wg = CSVParser.work_graph(CSVParser.read_graph_info(src, h, all_connections=not modes or modes.get('only_given', False),
                                                            change_connections_info=modes.get('fix', False),
                                                            name_mapper=t.mapped), t.mapped)
    elif how == 'preparation':
        p = PreparationPipeline().wg(src)
        if history is not None:
            p.history(history)
        if t.mapped:
            p.name_mapper(t.mapped)
        if modes.get('fix'):
            p.fix_edges_with_history()
        if modes.get('fill'):
            p.fill_edges_with_history()
        wg = p.build_wg()
    else:
        p = SchedulingPipeline.create()
        p.wg(src, sep=';', all_connections=not modes or modes.get('only_given', False), change_connections_info=modes.get('fix', False))
        if history is not None:
            p.history(history)
        if t.mapped:
            p.name_mapper(t.mapped)
        p.contractors([gen.Contractor('0', 'all', {k: gen.Worker(k, k, 10 ** 6, '0') for k in gen.KINDS}, {})])
        wg = p.schedule(NoPlan()).finish()[0].wg
    if keep is not None:
        obs.check(list(src.columns) == list(keep.columns) and src.equals(keep), 'input-frame-changed')
    return wg


class NoPlan(Scheduler):
    """Plans nothing: only the graph of the project is of interest."""

    def __init__(self):
        super().__init__(None)

    def schedule_with_cache(self, wg, *a, **k):
        works = [ScheduledWork(n.work_unit, (Time(0), Time(0)), [], None) for n in wg.nodes]
        return [(Schedule.from_scheduled_works(works, wg), Time(0), None, list(wg.nodes))]


def signature(t):
    return t.names, t.links, t.style, t.layout, sorted(t.optional)


def run_links(r, tmp, obs):
    t = Table(r, r.randint(1, 14), r.random() < .5, kinds=r.choice([['FS'], TYPES, TYPES]))
    if r.random() < .3:
        # the names are translated
        table = {x: f'unique {i}' for i, x in enumerate(dict.fromkeys(t.names)) if r.random() < .8}
        t.mapped = DictNameMapper(table)
        if r.random() < .5:
            path = os.path.join(tmp, 'names.json')
            with open(path, 'w') as f:
                json.dump(table, f)
            t.mapped = read_json(path)
        if t.layout == 'model' and r.random() < .5:
            t.layout = 'bare'
            t.granular = [table.get(x, x) for x in t.names]
    src = source(t, tmp)
    wg = read(t, src, r, obs)
    if not check_works(t, wg, obs):
        return
    obs.event(f'style:{t.style}')
    obs.event('file' if t.csv else 'frame')
    obs.event('links', sum(map(len, t.links)))
    if any(t.links):
        obs.nontrivial(*signature(t))


def source(t, tmp):
    """As Table.source, and the layout with names to be translated."""
    if t.layout != 'bare':
        return t.source(tmp)
    t.layout = 'model'
    df = t.frame()
    t.layout = 'bare'
    df['model_name'] = [str({'measurement': m}) for m in t.measure]
    if not t.csv:
        return df
    path = os.path.join(tmp, 'works.csv')
    df.to_csv(path, sep=';', index=False)
    return path


def reach(links):
    """All works reachable from each work."""
    res = {}

    def go(a):
        seen, stack = set(), [a]
        while stack:
            for b in links.get(stack.pop(), ()):
                if b not in seen:
                    seen.add(b)
                    stack.append(b)
        return seen
    for a in list(links):
        res[a] = go(a)
    return res


def run_cycles(r, tmp, obs):
    t = Table(r, r.randint(2, 10), r.random() < .3, cyclic=True, kinds=r.choice([['FS'], ['FS', 'SS', 'FF', 'FFS']]))
    t.optional.discard('priority')
    wg = read(t, t.source(tmp), r, obs)
    if not check_works(t, wg, obs, links=False):
        return
    after = defaultdict(set)
    for i, w in enumerate(t.ids):
        for p, _, _ in t.links[i]:
            after[p].add(w)
    seen = reach(after)
    cut = 0
    for i, w in enumerate(t.ids):
        given, got = sorted(t.links[i]), links_of(wg[w], wg)
        obs.check(all(x in given for x in got), 'link-made-up', lambda: f'{w}: {got} {given}')
        for x in given:
            if x not in got:
                cut += 1
                obs.check(x[0] in seen.get(w, ()) or x[0] == w, 'link-on-no-cycle-removed', lambda: f'{w}: {x}')
    cyclic = any(w in s for w, s in seen.items())
    obs.check(bool(cut) == cyclic, 'removed-without-need', f'{cut} {cyclic}')
    obs.event('cut', cut)
    if cyclic:
        obs.nontrivial(t.links)
    else:
        obs.event('acyclic')


def run_roundtrip(r, tmp, obs):
    works = gen.rand_works(r, r.randint(1, 14), chains=r.choice([0, .3]), lags='mix', priorities=r.random() < .5,
                           edge_mix=r.choice([(), ('SS', 'FF', 'FFS')]), services=0, no_req=.1, uniform_chain=True)
    for w in works:
        # a requirement for no one is no requirement; works that need no one are service works
        w.reqs = {k: v for k, v in w.reqs.items() if v[1] > 0}
        w.name += f' {w.id}'
        w.volume = float(w.volume)
    wg = gen.build_wg(works, r)
    before = describe(wg)
    way = r.choice(['graph', 'frame', 'file', 'twice'])
    if way == 'graph':
        got = PreparationPipeline(wg=wg).build_wg()
    else:
        df = wg.to_frame(save_req=True)
        if way == 'file':
            path = os.path.join(tmp, 'graph.csv')
            df.to_csv(path, sep=';', index=False, float_format=None)
            df = path
        got = PreparationPipeline().wg(df).build_wg()
        if way == 'twice':
            got = PreparationPipeline().wg(got).build_wg()
    obs.event(f'export:{way}')
    a, b = before, describe(got)
    if way == 'file':
        # reals are read from files with the precision of pandas
        a, b = rounded(a), rounded(b)
    obs.check(set(a) == set(b), 'other-works-exported', lambda: f'{sorted(a)} {sorted(b)}')
    for k in set(a) & set(b):
        obs.check(a[k][0] == b[k][0], 'another-work-exported', lambda: f'{a[k][0]} {b[k][0]}')
        obs.check(a[k][1] == b[k][1], 'other-links-exported', lambda: f'{a[k][1]} {b[k][1]}')
    check_structure(got, obs)
    obs.check(describe(wg) == before, 'graph-changed-by-export')
    obs.nontrivial(before)


def rounded(x):
    if isinstance(x, float):
        return float(f'{x:.12g}')
    if isinstance(x, dict):
        return {k: rounded(v) for k, v in x.items()}
    return type(x)(rounded(v) for v in x) if isinstance(x, (list, tuple)) else x


def describe(wg):
    res = {}
    for n in wg.nodes:
        if n is wg.start or n is wg.finish:
            continue
        u = n.work_unit
        res[n.id] = ((u.display_name, u.model_name['granular_name'], u.model_name['measurement'], float(u.volume), int(u.priority),
                      sorted((q.kind, int(q.volume), q.min_count, q.max_count) for q in u.worker_reqs)), links_of(n, wg))
    return res


DAY0 = pd.Timestamp('2002-01-01')


def day(k):
    return str((DAY0 + pd.Timedelta(days=int(k))).date())


def relation(a, b):
    """How the second of two works lies to the first one: None if it is not clear-cut."""
    (s1, f1), (s2, f2) = a, b
    if s2 >= f1 and s1 < f1 and s2 < f2:
        return 'FS'
    if s1 < s2 < f1 and f2 > f1:
        return 'FFS'
    if s1 < s2 and f2 < f1:
        return 'SS'
    return None


def run_history(r, tmp, obs):
    n = r.randint(2, 8)
    t = Table(r, n, False, kinds=['FS', 'SS', 'FFS'], optional=False)
    t.granular = [f'G{i}' if r.random() < .85 else 'G0' for i in range(n)]
    t.dangling = [False] * n
    t.with_types = t.with_lags = True
    bare = r.random() < .4
    if bare:
        t.links = [[] for _ in range(n)]
    sites = r.randint(1, 4)
    order = list(range(n))
    r.shuffle(order)
    rank = {g: i for i, g in enumerate(dict.fromkeys(t.granular[i] for i in order))}
    kind = {}
    rows, spans = [], defaultdict(list)
    base = {}
    for g in rank:
        base[g] = rank[g] * r.choice([3, 5, 8]) + 1
    length = {g: r.choice([2, 4, 12, 20]) for g in rank}
    for s in range(sites):
        shift = r.randint(0, 300)
        for g in rank:
            if r.random() < .85:
                span = (shift + base[g], shift + base[g] + length[g])
                spans[g].append((s, span))
                rows.append(dict(marker_for_glue=s, work_name=g, first_day=day(span[0]), last_day=day(span[1]),
                                 upper_works=f'site {s}', granular_name=g))
    if r.random() < .3:
        rows.append(dict(marker_for_glue=99, work_name='other', first_day=day(0), last_day=day(9), upper_works='site 0',
                         granular_name='other'))
    r.shuffle(rows)
    history = pd.DataFrame(rows, columns=HISTORY)
    if r.random() < .3:
        history = history.drop(columns='granular_name')
    mode = r.choice(['fill', 'fix'] if bare else ['fill', 'fix', 'fill', 'fix', 'only_given'])
    df = t.frame()
    if bare and r.random() < .5:
        df = df.drop(columns=['predecessor_ids', 'connection_types', 'lags'])
        with_empty = pd.DataFrame(columns=HISTORY)
        try:
            CSVParser.read_graph_info(df, with_empty)
            obs.violate('no-links-and-no-history-accepted')
        except InputDataException:
            obs.event('refused')
    keep_h = history.copy(deep=True)
    src_h = history
    if r.random() < .3:
        src_h = os.path.join(tmp, 'history.csv')
        history.to_csv(src_h, sep=';', index=False)
    wg = read(t, df, r, obs, history=src_h, **{mode: True})
    obs.check(history.equals(keep_h) and list(history.columns) == list(keep_h.columns), 'history-frame-changed')
    if not check_works(t, wg, obs, links=False):
        return
    # what the history tells about each pair of works
    told = {}
    for i in range(n):
        for j in range(n):
            a, b = t.granular[i], t.granular[j]
            if a == b:
                continue
            both = [(x, y) for s, x in spans[a] for q, y in spans[b] if s == q]
            if both:
                kinds = {relation(x, y) for x, y in both}
                told[t.ids[i], t.ids[j]] = kinds.pop() if len(kinds) == 1 else None
    given = {(p, t.ids[i]): (ty, lag) for i in range(n) for p, ty, lag in t.links[i]}
    got = {(p, w): (ty, lag) for w in t.ids for p, ty, lag in links_of(wg[w], wg)}
    if mode == 'only_given':
        obs.event('history-set-aside')
        obs.check(got == given, 'history-not-set-aside', lambda: f'{got} {given}')
        return
    # links kept out by the cycles that they would close with the given and the told ones
    after = defaultdict(set)
    for p, w in (*given, *(k for k, ty in told.items() if ty), *got):
        after[p].add(w)
    for (p, w), ty in told.items():
        if not ty and not told.get((w, p)):
            after[p].add(w)
    seen = reach(after)
    for pair, (ty, lag) in given.items():
        if pair not in got:
            # a link may be found to be doubtful by the history, but only when it is fixed
            obs.check(mode == 'fix' and pair[0] in seen.get(pair[1], ()), f'given-link-lost:{mode}', lambda: f'{pair} {got}')
            continue
        if mode == 'fill' or pair not in told:
            obs.check(got[pair] == (ty, lag), f'given-link-changed:{mode}', lambda: f'{pair} {ty, lag} {got[pair]}')
        elif told[pair]:
            obs.check(got[pair][0] == told[pair], 'link-not-fixed', lambda: f'{pair} {got[pair]} {told[pair]}')
            obs.event('fixed')
    for pair, (ty, lag) in got.items():
        if pair in given:
            continue
        obs.event('added')
        if obs.check(pair in told, 'link-from-nowhere', lambda: f'{pair} {ty} {lag}') and told[pair]:
            obs.check(ty == told[pair], 'link-of-another-type', lambda: f'{pair} {ty} {told[pair]}')
            obs.check(lag == 0 if ty == 'FS' else lag >= 0, 'lag-of-added-link', lambda: f'{pair} {ty} {lag}')
    for (p, w), ty in told.items():
        if ty and (p, w) not in got and (w, p) not in given:
            # only a cycle may keep it out
            obs.check(p in seen.get(w, ()), 'link-not-added', lambda: f'{p, w} {ty} {got}')
    if told:
        obs.nontrivial(t.ids, sorted(told.items(), key=str), mode)


def make_contractor_table(r, csv):
    n = r.randint(1, 4)
    kinds = r.sample(gen.KINDS, r.randint(1, 6))
    counts = [{k: r.randint(0, 60) for k in kinds} for _ in range(n)]
    pad = r.random() < .2
    ids = [f'{i:03d}' for i in range(n)] if pad else [str(i + 1) for i in range(n)] if r.random() < .6 else \
        [f'c-{i}' for i in range(n)]
    names = [str(r.randint(10, 99)) for _ in range(n)] if r.random() < .1 else \
        [r.choice(['Sochi', 'ООО "***"', 'a, b', '42']) for _ in range(n)]
    with_ids = r.random() < .8
    d = {}
    if with_ids:
        d['contractor_id'] = [int(i) for i in ids] if ids[0].isdigit() and not pad and r.random() < .5 else ids
    d['name'] = names
    for k in kinds:
        d[k] = [float(c[k]) if r.random() < .1 else c[k] for c in counts]
    cols = list(d)
    if r.random() < .4:
        r.shuffle(cols)
    return pd.DataFrame({c: d[c] for c in cols}), (ids if with_ids else None), names, counts


def check_contractors(cs, ids, names, counts, obs):
    obs.check(ids is None or [c.id for c in cs] == ids, 'other-contractors', lambda: f'{ids} {[c.id for c in cs]}')
    obs.check(len({c.id for c in cs}) == len(names), 'contractors-share-an-id')
    obs.check([c.name for c in cs] == names, 'other-contractor-names', lambda: f'{names} {[c.name for c in cs]}')
    obs.check([{k: w.count for k, w in c.workers.items()} for c in cs] == counts, 'other-workers',
              lambda: f'{counts} {[c.workers for c in cs]}')
    obs.check(all(w.contractor_id == c.id and w.name == k for c in cs for k, w in c.workers.items()), 'workers-of-another-contractor')


def run_contractors(r, tmp, obs):
    df, ids, names, counts = make_contractor_table(r, True)
    src = df
    if r.random() < .5:
        src = os.path.join(tmp, 'подрядчики.csv')
        df.to_csv(src, sep=';', index=False)
    keep = df.copy(deep=True)
    check_contractors(CSVParser.read_contractors(src), ids, names, counts, obs)
    obs.check(df.equals(keep), 'contractor-frame-changed')
    t = Table(r, r.randint(1, 6), False, kinds=['FS'])
    wg, cs = PreparationPipeline(wg=t.frame(), contractors=src).build_wg_and_contractors()
    check_contractors(cs, ids, names, counts, obs)
    check_works(t, wg, obs)
    # generated ones: as many as asked, each of them able to do every work
    k = r.randint(1, 3)
    method = r.choice([ContractorGenerationMethod.AVG, ContractorGenerationMethod.MAX, ContractorGenerationMethod.MIN])
    p = PreparationPipeline(wg=t.frame())
    if r.random() < .7:
        p.contractors((method, k, r.choice([1, 2.5])))
    else:
        k = 1
    wg, cs = p.build_wg_and_contractors()
    obs.check(len(cs) == k and len({c.id for c in cs}) == k, 'number-of-generated-contractors', f'{len(cs)} {k}')
    for c in cs:
        for n in wg.nodes:
            for q in n.work_unit.worker_reqs:
                obs.check(q.kind in c.workers and c.workers[q.kind].count >= q.min_count, 'generated-contractor-unable',
                          lambda: f'{q} {c.workers}')
    obs.nontrivial(ids, names, counts)


def run_names(r, tmp, obs):
    """Mappings of names, tables of workers and cycles of links as they are written."""
    names = r.sample([x for x in NAMES if not x[0].isdigit()], r.randint(1, 6))
    unique = [f'u-{i}' for i in r.sample(range(99), len(names))]
    path = os.path.join(tmp, 'names.csv')
    df = pd.DataFrame({'comment': ['x'] * len(names), 'unique_task_name': unique, 'task_name': names})
    df.to_csv(path, sep=';', index=False)
    ways = [(get_task_name_unique_mapping(path), dict(zip(names, unique))),
            (get_inverse_task_name_mapping(path), dict(zip(unique, names)))]
    path = os.path.join(tmp, 'names.json')
    with open(path, 'w') as f:
        json.dump(dict(zip(names, unique)), f)
    ways.append((read_json(path), dict(zip(names, unique))))
    ways.append((DummyNameMapper(), {}))
    for m, want in ways:
        for x in names + unique + ['other']:
            obs.check(m[x] == want.get(x, x) and m.get(x) == want.get(x, x), 'name-mapped-wrongly', lambda: f'{x} {m[x]} {want}')
        try:
            m[names[0]] = 'changed'
            obs.violate('mapper-changed-by-its-user')
        except Exception:
            obs.event('mapper-refused')
        obs.check(m[names[0]] == want.get(names[0], names[0]), 'mapper-changed-by-its-user')
    # a table of workers
    kinds = r.sample(gen.KINDS, r.randint(1, 5))
    counts = {k: r.randint(0, 30) for k in kinds}
    path = os.path.join(tmp, 'workers.csv')
    pd.DataFrame({'name': kinds, 'count': [counts[k] for k in kinds]}).to_csv(path, index=False)
    cs, most = get_graph_contractors(path, 'ООО')
    obs.check(len(cs) == 1 and cs[0].name == 'ООО' and most == counts, 'other-workers', f'{cs} {most} {counts}')
    obs.check({k: w.count for k, w in cs[0].workers.items()} == {k: 2 * c for k, c in counts.items()}
              and all(w.contractor_id == cs[0].id and w.name == k for k, w in cs[0].workers.items()), 'other-workers', f'{cs} {counts}')
    # cycles of links: told without losing the rest, and only if there are any
    n = r.randint(1, 7)
    edges = sorted({(r.randrange(n), r.randrange(n)) for _ in range(r.randint(0, 9))})
    weights = {e: r.choice([None, 1, 2, 5]) for e in edges}
    g, plain = Graph(), Graph()
    for u, v in edges:
        g.add_edge(u, v, weights[u, v])
        plain.add_edge(u, v, weights[u, v])
    obs.event('graphs-of-links')
    dg = nx.DiGraph(edges)
    found = g.eliminate_cycles(False)
    obs.check((found is not None) == (bool(edges) and not nx.is_directed_acyclic_graph(dg)), 'cycles-told-wrongly', lambda: f'{edges} {found}')
    for c in found or []:
        obs.event('cycles-told')
        obs.check(len(c) > 1 and c[0] == c[-1] and len(set(c)) == len(c) - 1 and all(e in edges for e in zip(c, c[1:])),
                  'cycle-is-not-one', lambda: f'{edges} {c}')
    obs.check(plain.eliminate_cycles() is None, 'cycles-told-wrongly')
    left = [(u, v) for u, vs in plain.graph.items() for v in vs]
    obs.check(set(left) <= set(edges) and nx.is_directed_acyclic_graph(nx.DiGraph(left)), 'cycle-left', lambda: f'{edges} {left}')
    if bool(edges) and nx.is_directed_acyclic_graph(dg):
        obs.check(sorted(left) == edges, 'link-lost-without-a-cycle', lambda: f'{edges} {left}')
    obs.nontrivial(names, counts, edges)


def run_pipeline(r, tmp, obs):
    """From files to a valid plan."""
    t = Table(r, r.randint(1, 10), r.random() < .6, kinds=r.choice([['FS'], ['FS', 'FFS']]), reqs=True)
    t.optional.discard('required_statuses')
    for i, links in enumerate(t.links):
        # links with lags count by the volumes of works
        t.links[i] = [(p, ty, float(int(lag))) for p, ty, lag in links]
    t.volume = [max(v, 1.0) for v in t.volume]
    cs = pd.DataFrame({'contractor_id': ['1', '2'], 'name': ['a', 'b'],
                       **{k: [r.randint(14, 40), r.randint(1, 40)] for k in r.sample(gen.KINDS, 6)}})
    src, sep = t.source(tmp, sep=r.choice([',', ';'])), None
    if t.csv:
        with open(src, encoding='utf-8') as f:
            head = f.readline()
        sep = ';' if head.count(';') > head.count(',') else ','
    csrc = cs
    if r.random() < .5:
        csrc = os.path.join(tmp, 'c.csv')
        cs.to_csv(csrc, sep=';', index=False)
    p = SchedulingPipeline.create().wg(src, sep=sep or ',', all_connections=r.random() < .5).contractors(csrc)
    project = p.schedule(sched.make_scheduler(r.choice(['heft', 'heftb', 'topo']), 1, sched.DefaultWorkEstimator())).finish()[0]
    done = project.schedule.to_schedule_work_dict
    obs.check(set(t.ids) <= {w.split('_stage_')[0] for w in done}, 'work-not-planned')
    whole = {}
    for k, w in done.items():
        base = k.split('_stage_')[0]
        a, b = whole.get(base, (10 ** 12, -1))
        whole[base] = (min(a, oracle.tv(w.start_time)), max(b, oracle.tv(w.finish_time)))
        for x in w.workers:
            have = {c.id: c for c in project.contractors}[w.contractor_id].workers[x.name].count
            obs.check(x.count <= have, 'team-larger-than-owned', f'{x.count} {have}')
    for i, w in enumerate(t.ids):
        for q, ty, lag in t.links[i]:
            if ty == 'FS':
                obs.check(whole[q][1] + lag <= whole[w][0], 'link-ignored', lambda: f'{q}->{w} {lag} {whole[q]} {whole[w]}')
    obs.nontrivial(sorted(whole.items()))
