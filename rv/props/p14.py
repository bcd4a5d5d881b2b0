"""Materials: what reaches the platforms, when, from which depots; nothing is used twice or appears from nowhere."""
from random import Random

from rv import gen, land, oracle, sched
from rv.runner import Skip

from sampo.schemas.exceptions import NotEnoughMaterialsInDepots, NoDepots, NoAvailableResources

RULE = ('random projects with materials on a random road network of platforms and depots (loose or scarce stocks, few '
        'vehicles) x schedulers; non-trivial: at least one delivery is observed; distinct by the set of deliveries')
ALGS = ['heft', 'heftb', 'heft_avg', 'topo', 'lft', 'rlft']
KINDS = ['plain', 'plain', 'chains', 'scarce', 'inner', 'tight', 'dense']


def cases(tier, seed):
    r = Random(f'P14-{seed}')
    k = 1 if tier == 'quick' else 10
    out = []
    for i in range(420 * k):
        out.append(dict(seed=r.getrandbits(40), kind=KINDS[i % len(KINDS)], alg=ALGS[(i // len(KINDS)) % len(ALGS)]))
    for i in range(42 * k):
        out.append(dict(seed=r.getrandbits(40), kind=KINDS[i % len(KINDS)], alg=['gen_par', 'gen_ser'][(i // len(KINDS)) % 2]))
    return out


def run(case, obs):
    r = Random(case['seed'])
    kind = case['kind']
    gen_alg = case['alg'].startswith('gen')
    works = gen.rand_works(r, r.randint(2, 7 if gen_alg else 12), chains=.4 if kind in ('chains', 'inner') else 0,
                           density=.8 if kind == 'dense' else .3, lags=r.choice(['none', 'int']),
                           **(dict(kinds=1, shape='wide') if kind == 'tight' else {}))
    mats = ['m1', 'm2', 'm3'][:r.randint(1, 3)]
    for w in works:
        if not w.service and (w.chain_prev is None or kind == 'inner'):
            for m in mats:
                if r.random() < .6:
                    w.materials[m] = r.randint(1, 40)
    pr = gen.Project(works)
    pr.wg = gen.build_wg(works, r)
    pr.contractors = gen.rand_contractors(r, works, **(dict(n=1, tight=1.0) if kind == 'tight' else {}))
    net = land.material_net(r, works, pr.wg, scarce=kind == 'scarce')
    sch = sched.make_scheduler(case['alg'], r.randint(0, 10 ** 6), sched.ESTIMATORS['default'](), gens=1, pop=4)
    pre = 'inner-stage:' if kind == 'inner' else ''
    try:
        res = sch.schedule(pr.wg, pr.contractors, landscape=net.config)
    except NotEnoughMaterialsInDepots:
        obs.event('refused: not enough materials')
        need, stock = {}, {}
        for w in works:
            for m, c in w.materials.items():
                need[m] = need.get(m, 0) + c
        # a delivery fills the platform up: each depot must be able to cover every need with that
        ok = kind != 'scarce'
        obs.check(not ok, pre + 'refused-though-depots-are-full')
        obs.nontrivial('refused', case['seed'])
        return
    obs.event('schedules', len(res))
    for s in res:
        v, trips = land.material_violations(s, works, net)
        obs.extend([(pre + m, d) for m, d in v])
        obs.extend([(pre + m, d) for m, d in land.vehicle_violations(trips, net)])
        obs.extend([(pre + 'over-allocation', d) for m, d in oracle.capacity(s, pr.wg, pr.contractors)[0]])
        obs.extend([(pre + m, d) for m, d in oracle.precedence(s, pr.wg)])
        n = sum(map(len, trips.values()))
        obs.event('deliveries', n)
        obs.event('works-with-materials', sum(1 for w in works if w.materials))
        obs.check(True, '')
        if n:
            obs.nontrivial(sorted((w, x) for w, x in land.deliveries(s).items()))
        obs.state(sched.signature(s))
        obs.sample({'deliveries': list(land.deliveries(s).items())[:3]})
