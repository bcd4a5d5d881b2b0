"""Value types and containers against plain models: time, intervals, resources, linked list, sorted list, queue, timeline."""
import math
from random import Random

from sampo.scheduler.timeline.general_timeline import GeneralTimeline
from sampo.schemas.contractor import Contractor
from sampo.schemas.interval import IntervalGaussian, IntervalUniform
from sampo.schemas.resources import Material, Worker, WorkerProductivityMode
from sampo.schemas.sorted_list import ExtendedSortedList
from sampo.schemas.time import Time, TIME_INF
from sampo.utilities.linked_list import LinkedList
from sampo.utilities.priority_queue import PriorityQueue

RULE = ('random values and random sequences of operations on each type, in lock step with a plain model; non-trivial: the '
        'sequence removes or saturates or merges something; distinct by the sequence')
KINDS = ['time', 'interval', 'linked', 'merge', 'queue', 'copies', 'checkpoints']


def cases(tier, seed):
    r = Random(f'P26-{seed}')
    return [dict(kind=KINDS[i % len(KINDS)], seed=r.getrandbits(40)) for i in range(60000 if tier == 'quick' else 800000)]


def run(case, obs):
    globals()[case['kind']](Random(case['seed']), obs)


def sat(x):
    x = int(x)
    return max(-TIME_INF, min(TIME_INF, x))


def time(r, obs):
    def num():
        return r.choice([0, 1, -1, 7, r.randint(-100, 100), r.randint(-10 ** 6, 10 ** 6), TIME_INF, -TIME_INF, TIME_INF - 1,
                         10 ** 12])
    log = []
    for _ in range(40):
        a, b = sat(num()), num()
        as_time = r.random() < .5
        if as_time:
            b = sat(b)
        other = Time(b) if as_time else b
        x = Time(a)
        obs.event('time-operations')
        for name, got, want in [('add', lambda: x + other, sat(a + b)), ('radd', lambda: other + x, sat(a + b)),
                                ('sub', lambda: x - other, sat(a - b)), ('rsub', lambda: other - x, sat(b - a)),
                                ('mul', lambda: x * other, sat(a * b)), ('rmul', lambda: other * x, sat(a * b))] + \
                ([('floordiv', lambda: x // other, sat(a // b))] if b else []):
            g = got()
            obs.check(type(g) is Time and g.value == want and type(g.value) is int, 'time:' + name, f'{a} {b} {g} {want}')
        if b:
            obs.check(x / other == a / b, 'time:truediv', f'{a} {b}')
        for name, g, want in [('lt', x < other, a < b), ('le', x <= other, a <= b), ('gt', x > other, a > b),
                              ('ge', x >= other, a >= b), ('eq', x == other, a == b), ('ne', x != other, a != b)]:
            obs.check(g is want, 'time:' + name, f'{a} {b} {g}')
        obs.check(x.value == a and (other.value if as_time else other) == b, 'time:operand-changed')
        obs.check(bool(x) is (a != 0) and int(x) == a and str(x) == str(a), 'time:conversion')
        obs.check(x.is_inf() is (abs(a) == TIME_INF), 'time:is-inf')
        if as_time and a == b:
            obs.check(hash(x) == hash(other), 'time:hash')
        f = r.uniform(-1e6, 1e6)
        obs.check(Time(f).value == int(f), 'time:from-float')
        log.append((a, b))
    s = [Time(r.randint(-9, 9)) for _ in range(12)]
    obs.check([t.value for t in sorted(s)] == sorted(t.value for t in s) and max(s).value == max(t.value for t in s), 'time:order')
    obs.check(sum(s).value == sum(t.value for t in s), 'time:sum')
    obs.check(len({t for t in s}) == len({t.value for t in s}), 'time:set')
    obs.check(Time.inf().is_inf() and Time.inf() + 5 == Time.inf() and -1 * Time.inf() - 7 == -1 * Time.inf(), 'time:saturation')
    obs.nontrivial(log)


def interval(r, obs):
    rand = Random(r.random())
    if r.random() < .5:
        lo = r.choice([0, -3, .5, 2.2, r.uniform(-20, 20)])
        hi = lo + r.choice([1, 1.5, 10, r.uniform(1, 30)])
        iv = IntervalUniform(lo, hi, rand)
    else:
        lo, hi = r.choice([(0, 5), (1, 1), (-2.5, 2.5), (-math.inf, math.inf), (0, math.inf), (3, 40), (.5, 2.5)])
        iv = IntervalGaussian(r.uniform(-3, 30), r.choice([0, .5, 3, 100]), lo, hi, rand)
    vals = []
    for _ in range(30):
        own = Random(5) if r.random() < .2 else None
        f, i = iv.rand_float(own), iv.rand_int(own)
        obs.event('draws', 2)
        obs.check(lo <= f <= hi, 'interval:float-outside', f'{iv} {f}')
        obs.check(isinstance(i, int) and lo <= i <= hi, 'interval:int-outside', f'{iv} {i}')
        vals.append((f, i))
    s = r.randint(0, 1000)
    a, b = [iv.rand_float(Random(s)) for _ in range(2)]
    obs.check(a == b and iv.rand_int(Random(s)) == iv.rand_int(Random(s)), 'interval:not-repeatable-by-seed')
    obs.nontrivial(vals)


def linked(r, obs):
    model, log = [], []
    init = [r.randint(0, 3) for _ in range(r.choice([0, 0, 1, 5]))]
    lst = LinkedList(iter(init)) if init else LinkedList()
    model += init
    for _ in range(r.randint(1, 40)):
        op = r.choice(['append', 'append', 'add', 'remove', 'pop', 'iter'])
        v = r.randint(0, 3)
        if op == 'append':
            lst.append(v)
            model.append(v)
        elif op == 'add':
            lst + v
            model.append(v)
        elif op == 'remove':
            seen = []
            lst.remove_if(lambda x: seen.append(x) or x == v)
            obs.check(seen == model, 'linked:remove-if-does-not-visit-all', f'{seen} {model}')
            if v in model:
                log.append('x')
            model = [x for x in model if x != v]
        elif op == 'pop':
            k = r.randint(0, len(model))
            it = lst.iterator()
            for _ in range(k):
                it.next()
            if k < len(model):
                obs.check(it.has_next() and it.get().value == model[k], 'linked:iterator')
                obs.check(it.remove() == model[k], 'linked:removed-value')
                del model[k]
                log.append('x')
            else:
                obs.check(not it.has_next(), 'linked:iterator-end')
        obs.check(list(lst) == model, 'linked:content', lambda: f'{op} {list(lst)} {model}')
        obs.check(len(lst) == len(model) and lst.is_empty() == (not model), 'linked:length')
        obs.event('linked-operations')
        log.append((op, v))
    if 'x' in log:
        obs.nontrivial(log)


def merge(r, obs):
    n = r.choice([0, 1, 5, 60])
    key = lambda x: x[0]
    model = {}
    lst = ExtendedSortedList(key=key)
    if r.random() < .5:
        lst._reset(8)  # short inner lists, so that they split
    for _ in range(n):
        k = r.randint(0, 50)
        if k not in model:
            model[k] = r.randint(0, 9)
            lst.add((k, model[k]))
    merged = 0
    for _ in range(r.randint(1, 60)):
        k, v = r.randint(0, 50), r.randint(1, 9)
        if k in model and r.random() < .7:
            if r.random() < .3:
                i = sorted(model).index(k)
                lst[i] = (k, v)
                model[k] = v
            else:
                lst.merge((k, model[k]), (k, v), lambda a, b: (a[0], a[1] + b[1]))
                model[k] += v
            merged += 1
        elif k in model:
            lst.remove((k, model.pop(k)))
        else:
            lst.merge((k, 0), (k, v), lambda a, b: (a[0], a[1] + b[1]))
            model[k] = v
        obs.event('merges')
        want = sorted(model.items())
        obs.check(list(lst) == want and len(lst) == len(want), 'sorted:content', lambda: f'{list(lst)} {want}')
        if want:
            i = r.randrange(len(want))
            obs.check(lst[i] == want[i] and lst[-1] == want[-1] and lst.bisect_key_left(want[i][0]) == i, 'sorted:index')
    lst._check()
    if merged:
        obs.nontrivial(sorted(model.items()), n)


def queue(r, obs):
    desc = r.random() < .5
    if r.random() < .5:
        by, mk = (lambda x: x[0]), (lambda: (r.randint(0, 20), r.randint(0, 99)))
    else:
        by, mk = (lambda x: x), (lambda: r.randint(0, 20))
    model = [mk() for _ in range(r.choice([0, 0, 3, 10]))]
    q = PriorityQueue(list(model), desc, by)
    outs = []
    for _ in range(r.randint(1, 50)):
        op = r.random()
        if op < .5 or not model:
            v = mk()
            q.add(v)
            model.append(v)
        elif op < .65:
            old, new = r.choice(model), mk()
            q.replace(old, new)
            model.remove(old)
            model.append(new)
        else:
            v = q.extract_extremum()
            want = min(map(by, model)) if desc else max(map(by, model))
            if obs.check(v in model and by(v) == want, 'queue:not-the-extremum', f'{v} {want}'):
                model.remove(v)
            outs.append(v)
        obs.event('queue-operations')
        obs.check(len(q) == len(model), 'queue:length')
    rest = [by(q.extract_extremum()) for _ in range(len(q))]
    obs.check(rest == sorted(map(by, model), reverse=not desc), 'queue:drain', f'{rest}')
    if outs:
        obs.nontrivial(outs, desc)


def copies(r, obs):
    cost = r.choice([None, 0, 3.5, 20])
    prod = r.choice([None, IntervalGaussian(2, .1, 1, 3)])
    w = Worker('i', 'driver', r.randint(0, 50), r.choice(['', 'c1']), prod, cost)
    want_cost = (cost if cost is not None else (2 if prod else 1) * 10)
    n = w.count
    c = w.copy()
    same = lambda a, b: (a.id, a.name, a.count, a.contractor_id, a.cost_one_unit, a.productivity) == \
        (b.id, b.name, b.count, b.contractor_id, b.cost_one_unit, b.productivity)
    obs.check(same(c, w) and c is not w, 'worker:copy-differs', f'{vars(c)} {vars(w)}')
    obs.check(w.get_cost() == n * want_cost, 'worker:cost')
    k = r.randint(0, 9)
    obs.check(c.with_count(k) is c and c.count == k and w.count == n, 'worker:with-count')
    obs.check(c.get_cost() == k * want_cost, 'worker:cost-of-a-copy', f'{c.get_cost()}')
    obs.check(w.get_agent_id() == (w.contractor_id, 'driver'), 'worker:agent-id')
    # productivity of a team: the mean or a random draw, times the number of workers
    low, high = r.choice([(1, 3), (.5, .75), (2, 2)])
    p = IntervalGaussian((low + high) / 2, .2, low, high)
    v = Worker('i', 'driver', r.randint(0, 50), 'c1', p)
    got = v.get_productivity(Random(k), WorkerProductivityMode.Static)
    obs.check(abs(got - v.count * p.mean) < 1e-9, 'worker:productivity', f'{got} {v.count} {p.mean}')
    one, two = (v.get_productivity(Random(k), WorkerProductivityMode.Stochastic) for _ in range(2))
    obs.check(one == two and v.count * low - 1e-9 <= one <= v.count * high + 1e-9, 'worker:random-productivity', f'{one} {two} {v.count} {low} {high}')
    obs.check(one == p.rand_float(Random(k)) * v.count, 'worker:random-productivity')
    m = Material('m', 'sand', 5, r.choice([1, 4.5]))
    d = m.copy()
    obs.check((d.id, d.name, d.count, d.cost_one_unit) == (m.id, m.name, m.count, m.cost_one_unit), 'material:copy-differs')
    d.with_count(2)
    obs.check(m.count == 5 and d.count == 2, 'material:with-count')
    # a contractor owns its workers
    ws = {f'k{i}': Worker(str(i), f'k{i}', r.randint(0, 9)) for i in range(r.randint(0, 4))}
    con = Contractor('cid', 'name', workers=ws)
    obs.check(all(x.contractor_id == 'cid' for x in con.workers.values()) and set(con.workers) == set(ws), 'contractor:workers')
    obs.event('copies')
    obs.nontrivial(n, cost, k, len(ws), w.contractor_id)


def checkpoints(r, obs):
    tl = GeneralTimeline()
    model = [0]
    for _ in range(r.randint(1, 25)):
        s, d = r.randint(0, 30), r.randint(0, 10)
        tl.update_timeline(Time(s), Time(d), None)
        model += [s, s + d]
        obs.event('checkpoints')
        obs.check(len(tl) == len(model) and [int(tl[i]) for i in range(len(tl))] == sorted(model), 'checkpoints')
    obs.nontrivial(model)
