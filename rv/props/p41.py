"""Charts show what the plan and the graph hold."""
import os
import re
import shutil
import tempfile
from collections import Counter
from datetime import datetime, timedelta
from random import Random

import numpy as np

from rv import gen, land, oracle, sched
from rv.oracle import tv

import matplotlib
matplotlib.use('Agg')
from matplotlib import patches, pyplot as plt  # noqa: E402

from sampo.schemas.landscape import LandscapeConfiguration  # noqa: E402
from sampo.schemas.project import ScheduledProject  # noqa: E402
from sampo.schemas.zones import ZoneConfiguration  # noqa: E402
from sampo.utilities.visualization import EmploymentFigType, Visualization, VisualizationMode  # noqa: E402
from sampo.utilities.visualization.resources import get_workers_intervals, resource_employment_fig  # noqa: E402
from sampo.utilities.visualization.schedule import schedule_gant_chart_fig  # noqa: E402
from sampo.utilities.visualization.work_graph import collect_jobs, color_from_str, setup_jobs, work_graph_fig  # noqa: E402

RULE = ('plans (with deliveries, zones, late starts) of random projects drawn on every chart, the figures read back; non-trivial: '
        'a chart of more than one work; distinct by plan content')
KINDS = ['plain', 'chains', 'edge', 'lags', 'tight', 'mats', 'zones', 'mats', 'big', 'graph', 'graph', 'graph']
RF = VisualizationMode.ReturnFig


def cases(tier, seed):
    r = Random(f'P41-{seed}')
    return [dict(seed=r.getrandbits(40), kind=KINDS[i % len(KINDS)]) for i in range(180 if tier == 'quick' else 2400)]


def stamp(x):
    return np.datetime64(x, 's').astype(datetime)


def bars(fig):
    """The bars of a timeline: dicts of what is written on each."""
    out = []
    for t in fig.data:
        names = re.findall(r'([^<>=]+)=%\{customdata\[(\d+)\]\}', t.hovertemplate)
        n = len(t.y)
        for i in range(n):
            b = stamp(t.base[i])
            out.append(dict({k: t.customdata[i][int(j)] for k, j in names}, trace=t.name, y=t.y[i], start=b,
                            finish=b + timedelta(milliseconds=float(t.x[i])), text=t.text[i] if t.text is not None else None,
                            hover=t.hovertext[i] if t.hovertext is not None else None,
                            color=t.marker.color[i] if isinstance(t.marker.color, (list, tuple, np.ndarray)) else t.marker.color))
    return out


def make(case, r):
    kind = case['kind']
    if kind in ('mats', 'zones'):
        works = gen.rand_works(r, r.randint(2, 10), lags=r.choice(['none', 'int']))
        pr = gen.Project(works)
        lc = LandscapeConfiguration()
        if kind == 'mats':
            for w in works:
                for m in ('m1', 'm2', 'm3'):
                    if not w.service and r.random() < .6:
                        w.materials[m] = r.randint(1, 40)
            pr.wg = gen.build_wg(works, r)
            lc = land.material_net(r, works, pr.wg).config
        else:
            for w in works:
                for z in ('z1', 'z2'):
                    if not w.service and r.random() < .6:
                        w.zones[z] = r.randint(1, 2)
            pr.wg = gen.build_wg(works, r)
            c = r.choice([0, 5])
            lc = LandscapeConfiguration(zone_config=ZoneConfiguration(
                start_statuses={'z1': r.randint(1, 2), 'z2': 1}, end_statuses={'z1': 2} if r.random() < .5 else {},
                time_costs=np.array([[0, c, c], [0, 0, c], [0, c, 0]])))
        pr.contractors = gen.rand_contractors(r, works)
        start = r.choice([0, 0, 30])
        res = sched.make_scheduler(r.choice(['heft', 'heftb', 'topo']), 1, sched.ESTIMATORS['default']()).schedule(
            pr.wg, pr.contractors, landscape=lc, start_time=sched.Time(start if kind == 'zones' else 0))
        return pr, res[0]
    pr, est, start, _ = sched.build(dict(case, profile=kind if kind != 'graph' else r.choice(['plain', 'dense', 'edge'])))
    return pr, sched.make_scheduler(r.choice(['heft', 'heftb', 'topo', 'lft']), 1, est).schedule(
        pr.wg, pr.contractors, pr.spec, start_time=start)[0]


def gantt(pr, s, df, day0, r, obs):
    mode = r.choice(['contractor', 'priority', 'critical_path'])
    nodes = r.sample(pr.wg.nodes, r.randint(0, len(pr.wg.nodes)))
    fig = schedule_gant_chart_fig(df, RF, critical_path=nodes, color_type=mode)
    got = bars(fig)
    obs.event('bars', len(got))
    obs.event(f'gantt:{mode}')
    works = [b for b in got if b['task_id'] != 'None']
    rest = [b for b in got if b['task_id'] == 'None']
    crit = {n.id for n in nodes}

    def colour(row):
        if mode == 'contractor':
            return str(row.contractor)
        if mode == 'priority':
            return f'Priority {row.scheduled_work_object.priority}'
        return 'Critical path' if row.scheduled_work_object.id in crit else 'Not critical path'

    want = Counter((str(x.task_id), x.task_name, x.start.to_pydatetime(), x.finish.to_pydatetime(), round(float(x.cost), 6),
                    round(float(x.volume), 6), colour(x)) for x in df.itertuples())
    have = Counter((str(b['task_id']), b['hover'], b['start'], b['finish'], round(float(b['cost']), 6), round(float(b['volume']), 6), b['trace'])
                   for b in works)
    obs.check(want == have, 'gantt-works', f'{mode}: missing {list((want - have).items())[:2]}, extra {list((have - want).items())[:2]}')
    row = {str(x.task_id): x.idx for x in df.itertuples()}
    obs.check(all(b['y'] == row[str(b['task_id'])] for b in works), 'gantt-rows')
    at = lambda t: day0 + timedelta(days=tv(t))  # noqa: E731
    want = Counter()
    for x in df.itertuples():
        w = x.scheduled_work_object
        for m, items in w.materials.delivery.items():
            for count, st, fn, holder in items:
                want[('material', x.idx, m, float(count), at(st), at(fn), str(holder))] += 1
        for z in list(w.zones_pre) + list(w.zones_post):
            want[('zone', x.idx, z.name, 0.0, at(z.start_time), at(z.end_time), 'Access cards')] += 1
    have = Counter()
    for b in rest:
        if b['trace'] == 'Access cards':
            have[('zone', b['y'], '', 0.0, b['start'], b['finish'], b['trace'])] += 1
        else:
            have[('material', b['y'], b['task_name_mapped'], float(b['volume']), b['start'], b['finish'], b['trace'])] += 1
    obs.event('deliveries', sum(c for k, c in want.items() if k[0] == 'material'))
    obs.event('zones', sum(c for k, c in want.items() if k[0] == 'zone'))
    want = Counter({(k if k[0] == 'material' else k[:2] + ('',) + k[3:]): 0 for k in want}) + sum(
        (Counter({(k if k[0] == 'material' else k[:2] + ('',) + k[3:]): c}) for k, c in want.items()), Counter())
    obs.check(want == have, 'gantt-deliveries-and-zones', f'missing {list((want - have).items())[:2]}, extra {list((have - want).items())[:2]}')


def days_of(items):
    """(resource, day) -> employed; items: (start, finish, {resource: count})"""
    load = Counter()
    for a, b, team in items:
        for k, c in team.items():
            for d in range(a, b + 1):
                load[k, d] += c
    return +load


def by_days(fig, day0):
    out = Counter()
    for b in bars_of_load(fig):
        d = (b['start'] - day0).days
        out[b['y'], d] += b['n']
        if b['finish'] - b['start'] != timedelta(days=1) or b['start'] != day0 + timedelta(days=d):
            out['not a day', d] += 1
    return out


def bars_of_load(fig):
    out = []
    for t in fig.data:
        for i in range(len(t.y)):
            b = stamp(t.base[i])
            out.append(dict(y=t.y[i], start=b, finish=b + timedelta(milliseconds=float(t.x[i])),
                            n=int(t.text[i]) if t.text is not None else None))
    return out


def diff(a, b):
    return f'missing {list((a - b).items())[:2]}, extra {list((b - a).items())[:2]}'


def load(pr, s, df, day0, obs):
    # every stage apart
    its = [(tv(w.start_time), tv(w.finish_time), Counter({x.name: 0 for x in w.workers}) + sum((Counter({x.name: int(x.count)}) for x in w.workers), Counter()))
           for w in s.works]
    fig = resource_employment_fig(s, EmploymentFigType.DateLabeled, RF, project_start=day0)
    want, have = days_of(its), by_days(fig, day0)
    obs.check(want == have, 'load-by-days', diff(want, have))
    # stages joined
    mer = [(x.start.to_pydatetime(), x.finish.to_pydatetime(), dict(eval(x.workers) if isinstance(x.workers, str) else x.workers)) for x in df.itertuples()]
    first = min(a for a, _, _ in mer)
    first = datetime(first.year, first.month, first.day)
    want = days_of([((a - first).days, (b - first).days, t) for a, b, t in mer])
    have = by_days(resource_employment_fig(df.copy(), EmploymentFigType.DateLabeled, RF), first)
    obs.check(want == have, 'load-by-days-of-table', diff(want, have))
    want = Counter()
    slot = 0
    for x, (_, _, team) in zip(df.itertuples(), mer):
        if team:
            for k, c in team.items():
                if c > 0:
                    want[k, slot, c] += 1
            slot += 1
    have = Counter((b['y'], (b['start'] - first).days, b['n']) for b in bars_of_load(resource_employment_fig(df.copy(), EmploymentFigType.WorkLabeled, RF)))
    obs.check(want == have, 'load-by-works-of-table', diff(want, have))
    order = sorted(s.to_schedule_work_dict.values(), key=lambda w: tv(w.start_time))
    want = Counter((x.name, i, int(x.count)) for i, w in enumerate(order) for x in w.workers if x.count > 0)
    have = Counter((b['y'], (b['start'] - day0).days, b['n'])
                   for b in bars_of_load(resource_employment_fig(s, EmploymentFigType.WorkLabeled, RF, project_start=day0)))
    obs.check(want == have, 'load-by-works', diff(want, have))
    # who is busy between the moments
    usage = Counter()
    for a, b, team in its:
        for k, c in team.items():
            for d in range(a, b):
                usage[k, d] += c
    iv = get_workers_intervals(s)
    have = Counter()
    for name, spans in iv.items():
        spans = sorted((tv(a), tv(b)) for a, b in spans)
        obs.check(all(x[1] <= y[0] for x, y in zip(spans, spans[1:])), 'worker-twice-at-once', f'{name} {spans[:4]}')
        for a, b in spans:
            for d in range(a, b):
                have[name.rsplit('#', 1)[0], d] += 1
    obs.check(+usage == have, 'intervals-of-workers', diff(+usage, have))
    obs.check(all(any((f'{k}#{i}') in iv for k in [n.rsplit('#', 1)[0]]) for n in iv for i in range(int(n.rsplit('#', 1)[1]))), 'numbers-of-workers')
    have = {(k, d) for k, spans in get_workers_intervals(s, True).items() for a, b in spans for d in range(tv(a), tv(b))}
    obs.check({k for k, c in usage.items() if c} == have, 'intervals-of-kinds')
    for t in (EmploymentFigType.Classic, EmploymentFigType.Grouped):
        fig = resource_employment_fig(s, t, RF)
        ax = fig.axes[0]
        drawn = Counter((round(p.get_x()), round(p.get_x() + p.get_width())) for p in ax.patches)
        want = Counter((tv(a), tv(b)) for spans in get_workers_intervals(s, t is EmploymentFigType.Grouped).values() for a, b in spans)
        obs.check(drawn == want, 'bars-of-workers', diff(want, drawn))
        plt.close(fig)


def graph(pr, r, obs, full=False):
    wg = pr.wg
    rank = {}
    for n in wg.nodes:
        rank[n.id] = max((rank[p.id] + 1 for p in n.parents), default=0)
    deep = None if full else r.choice([None, None, 1, 2, 3])
    first = wg.start if full or r.random() < .7 else r.choice(wg.nodes)  # a part of the graph
    if first is not wg.start:
        part = {first.id}
        for n in wg.nodes:
            if any(p.id in part for p in n.parents):
                part.add(n.id)
        rank = {}
        for n in wg.nodes:
            if n.id in part:
                rank[n.id] = max((rank[p.id] + 1 for p in n.parents if p.id in part), default=0)
    near, front = {first.id: 0}, [first]
    while front:
        nxt = []
        for n in front:
            for c in n.children:
                if c.id not in near:
                    near[c.id] = near[n.id] + 1
                    nxt.append(c)
        front = nxt
    shown = {k for k, d in near.items() if deep is None or d < deep}
    jobs, ids, colors = collect_jobs(first, deep)
    obs.check(set(ids) == shown == {j['work_id'] for j in jobs} and len(jobs) == len(shown), 'works-of-chart', f'{len(jobs)} of {len(shown)} deep {deep}')
    if deep is None:
        setup_jobs(first, jobs, ids)
        step = {j['work_id']: round(j['start']) for j in jobs}
        links = [(n.id, c.id) for n in wg.nodes for c in n.children if n.id in rank]
        obs.check(all(step[a] < step[b] for a, b in links), 'child-left-of-parent')
        obs.check(step == rank, 'column-of-work', f'{[(k, step[k], rank[k]) for k in rank if step[k] != rank[k]][:3]}')
        spots = Counter((round(j['start'], 6), round(j['y_position'], 6)) for j in jobs)
        obs.check(max(spots.values()) == 1, 'works-over-each-other', f'{spots.most_common(2)}')
    hide = r.sample(sorted(shown), r.randint(0, 2) if len(shown) > 2 else 0)
    links = [(n.id, c.id) for n in wg.nodes for c in n.children if {n.id, c.id} <= shown - set(hide)]
    black = set(r.sample(links, min(len(links), r.randint(0, 3))))
    dotted = set(r.sample(links, min(len(links), r.randint(0, 3))))
    only = r.random() < .4
    arrows = r.random() < .8
    names = r.random() < .5
    fig = work_graph_fig(wg if first is wg.start else first, (6, 6), fig_dpi=20, max_deep=deep, show_names=names, show_arrows=arrows, hide_node_ids=list(hide), dotted_edges=dotted,
                         black_list_edges=black, show_only_not_dotted=only)
    ax = fig.axes[0]
    rects = [p for p in ax.patches if isinstance(p, patches.Rectangle)]
    obs.check(len(rects) == len(shown) - len(hide), 'boxes', f'{len(rects)} boxes of {len(shown)} works, {len(hide)} hidden')
    want = [e for e in links if e not in black and not (only and e in dotted)] if arrows else []
    obs.check(len(ax.lines) == len(want), 'arrows', f'{len(ax.lines)} arrows of {len(want)} links')
    obs.check(sum(x.get_linestyle() in (':', 'dotted') for x in ax.lines) == sum(e in dotted for e in want), 'dotted-arrows')
    texts = [t.get_text() for t in ax.texts]
    unit = {n.id: n.work_unit for n in wg.nodes}
    obs.check(Counter(texts) == (Counter(f'{k} {unit[k].display_name}' for k in shown - set(hide)) if names else Counter({'': len(rects)})), 'names-on-chart')
    cols = Counter(matplotlib.colors.to_hex(p.get_facecolor()) for p in rects)
    obs.check(cols == Counter(color_from_str(unit[k].group).lower() for k in shown - set(hide)), 'colours-of-groups')
    groups = {unit[k].group for k in shown}
    lab = [t.get_text() for t in ax.get_legend().get_texts()]
    obs.check(len(lab) == len(groups), 'legend', f'{lab} vs {groups}')
    x0, x1 = ax.get_xlim()
    y0, y1 = ax.get_ylim()
    obs.check(all(x0 <= p.get_x() and p.get_x() + p.get_width() <= x1 and y0 <= p.get_y() and p.get_y() + p.get_height() <= y1 for p in rects), 'box-outside-chart')
    plt.close(fig)
    obs.event('graphs')
    obs.event('boxes', len(rects))


def run(case, obs):
    r = Random(case['seed'])
    pr, s = make(case, r)
    obs.state(sched.signature(s))
    if len(pr.works) > 1:
        obs.nontrivial(sched.signature(s))
    if case['kind'] == 'graph':
        graph(pr, r, obs)
        return
    day0 = r.choice([datetime(2020, 1, 1), datetime(2023, 12, 28), datetime(2024, 2, 20)])
    offset = day0.strftime('%Y-%m-%d') if r.random() < .5 else day0
    df = s.merged_stages_datetime_df(offset)
    before = s.full_schedule_df.copy(deep=True)
    gantt(pr, s, df.copy(), day0, r, obs)
    load(pr, s, df, day0, obs)
    graph(pr, r, obs, full=True)
    obs.check(all(s.full_schedule_df[c].tolist() == before[c].tolist() for c in before.columns if c != 'scheduled_work_object'), 'plan-changed-by-charts')
    # the same through the project
    v = Visualization.from_project(ScheduledProject(pr.wg, pr.wg, pr.contractors, s), day0.strftime('%Y-%m-%d')).shape((6, 6))
    figs = v.get_all_figs()
    obs.check(sorted(figs) == ['date_labeled_resource_chart', 'gant_chart', 'wg', 'work_labeled_resource_chart'] and all(f is not None for f in figs.values()), 'all-charts')
    obs.check(len([b for b in bars(figs['gant_chart']) if b['task_id'] != 'None']) == len(df), 'gantt-of-project')
    obs.check(by_days(figs['date_labeled_resource_chart'], min(df.start).to_pydatetime().replace(hour=0)) is not None, '')
    plt.close(figs['wg'])
    obs.check(v.schedule_vis.gant_chart(VisualizationMode.NoFig) is None, 'figure-not-asked-for')
    d = tempfile.mkdtemp(prefix='p41-')
    try:
        f = os.path.join(d, 'load.png')
        obs.check(resource_employment_fig(s, EmploymentFigType.Grouped, VisualizationMode.SaveFig, file_name=f) is None and os.path.getsize(f) > 0, 'figure-not-saved')
    finally:
        shutil.rmtree(d, ignore_errors=True)
        plt.close('all')
