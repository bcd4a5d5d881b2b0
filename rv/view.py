"""Pictures of SAMPO's inputs, to tell whether anything about them has changed."""
from __future__ import annotations

import inspect
import sys
from random import Random

import numpy as np

from rv import oracle

from sampo.schemas.graph import GraphNode, WorkGraph
from sampo.schemas.interval import Interval
from sampo.schemas.landscape import LandscapeConfiguration
from sampo.schemas.schedule_spec import ScheduleSpec, WorkSpec
from sampo.schemas.time import Time

SCALAR = (int, float, str, bool, bytes, type(None), complex)


def unit(u):
    return [u.id, u.name, u.display_name, sorted((str(k), str(v)) for k, v in u.model_name.items()), u.group, u.description,
            repr(float(u.volume)), int(u.priority), bool(u.is_service_unit),
            [[q.kind, oracle.tv(q.volume), q.min_count, q.max_count, q.name] for q in u.worker_reqs],
            [[q.kind, q.count, q.name] for q in u.material_reqs],
            [[q.kind, q.count, q.name] for q in u.equipment_reqs],
            [[q.kind, q.count, q.name] for q in u.object_reqs],
            [[q.kind, q.required_status, q.name] for q in u.zone_reqs]]


def graph(wg):
    return [wg.start.id, wg.finish.id, wg.vertex_count,
            [[n.id, unit(n.work_unit), [[e.start.id, e.type.value, repr(e.lag)] for e in n.edges_to],
              [[e.finish.id, e.type.value, repr(e.lag)] for e in n.edges_from]] for n in wg.nodes]]


def contractors(cs):
    return [[c.id, c.name, [[k, w.id, w.name, int(w.count), w.contractor_id, repr(w.productivity), w.cost_one_unit] for k, w in c.workers.items()],
             [[k, q.id, q.name, q.count] for k, q in c.equipments.items()]] for c in cs]


def spec(s):
    """Reading a missing entry of a spec creates an empty one, which says nothing."""
    return sorted([wid, sorted(w.contractors), sorted((k, int(v)) for k, v in w.assigned_workers.items()),
                   None if w.assigned_time is None else oracle.tv(w.assigned_time), bool(w.is_independent)]
                  for wid, w in s._work2spec.items() if w != WorkSpec())


def landscape(c):
    out = [sorted(map(str, c.zone_config.start_statuses.items())), np.asarray(c.zone_config.time_costs).tolist()]
    if c.lg is not None:
        out.append([[n.id, n.name, dict(n.resource_storage_unit.capacity), [w.id for w in n.works],
                     [[e.id, e.finish.id, e.weight, e.bandwidth] for e in n.roads]] for n in c.lg.nodes])
        out.append([[h.id, h.name, h.node.id, [[v.id, v.name, [[m.id, m.name, m.count] for m in v.capacity]] for v in h.vehicles]]
                    for h in c.holders])
        out.append(sorted((w.id, p.id) for w, p in c.works2platform.items()))
    return out


def schedule(s):
    return [[w.id, oracle.tv(w.start_time), oracle.tv(w.finish_time), str(w.contractor_id),
             [[x.name, int(x.count), str(x.contractor_id)] for x in w.workers],
             sorted((m, [[int(n), oracle.tv(a), oracle.tv(b), str(h)] for n, a, b, h in d]) for m, d in w.materials.delivery.items()),
             [[z.name, oracle.tv(z.start_time), oracle.tv(z.end_time), z.to_status] for z in w.zones_pre],
             [[z.name, oracle.tv(z.start_time), oracle.tv(z.end_time), z.to_status] for z in w.zones_post]] for w in s.works]


def deep(o, seen=None, depth=0):
    """Of anything: by value, without following what has been met."""
    seen = set() if seen is None else seen
    if isinstance(o, bool) or isinstance(o, SCALAR):
        return repr(o)
    if isinstance(o, np.generic):
        return repr(o.item())
    if isinstance(o, Time):
        return f'T{oracle.tv(o)}'
    if isinstance(o, Random) or callable(o) or depth > 12:
        return type(o).__name__
    if isinstance(o, ScheduleSpec):
        return spec(o)
    if id(o) in seen:
        return '<seen>'
    seen.add(id(o))
    go = lambda x: deep(x, seen, depth + 1)  # noqa
    if isinstance(o, np.ndarray):
        return ['arr', str(o.dtype), o.shape, o.tolist() if o.dtype != object else [go(x) for x in o.ravel()]]
    if isinstance(o, dict):
        return ['dict'] + [[go(k), go(v)] for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [go(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return ['set'] + sorted(map(str, map(go, o)))
    if isinstance(o, GraphNode):
        return ['node', o.id]
    if isinstance(o, WorkGraph):
        return graph(o)
    d = getattr(o, '__dict__', None)
    if d is None:
        d = {k: getattr(o, k, None) for k in getattr(type(o), '__slots__', ())}
    return [type(o).__name__] + [[k, go(v)] for k, v in sorted(d.items())]


def constant(name, v):
    """A table of constants: a store that starts empty, or says it is a cache, is there to be filled."""
    return isinstance(v, (dict, list, set)) and len(v) > 0 and not name.startswith('_') and 'cache' not in name.lower()


def shared_state():
    """{place: picture} of everything all callers share: default values of parameters, and containers of modules and classes."""
    out = {}
    for name, mod in list(sys.modules.items()):
        if not (name == 'sampo' or name.startswith('sampo.')) or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if constant(k, v):
                out[f'{name}.{k}'] = deep(v)
            elif inspect.isfunction(v) and v.__module__ == name:
                functions(f'{name}.{k}', v, out)
            elif inspect.isclass(v) and v.__module__ == name:
                for a, m in list(vars(v).items()):
                    m = getattr(m, '__func__', m)
                    if inspect.isfunction(m):
                        functions(f'{name}.{k}.{a}', m, out)
                    elif constant(a, m):
                        out[f'{name}.{k}.{a}'] = deep(m)
    return out


def functions(where, f, out):
    names = f.__code__.co_varnames[:f.__code__.co_argcount][-len(f.__defaults__ or ()) or 10 ** 6:]
    vals = list(zip(names, f.__defaults__ or ())) + list((f.__kwdefaults__ or {}).items())
    for i, d in vals:
        if i.startswith('_') or 'cache' in i or 'memo' in i:
            continue
        if not isinstance(d, SCALAR) and not callable(d) and not isinstance(d, (Random, Interval)):
            out[f'{where}#{i}'] = deep(d)
