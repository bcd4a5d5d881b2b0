"""Runs one property's cases under its monitors, in parallel, and reports.

Exit 0: the property held on everything explored.  Exit 1 with `VIOLATION property=<id> replay=<path>`: it did not.
Exit 2: the check itself could not do its work (never used to say anything about SAMPO).
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import io
import json
import os
import re
import resource
import signal
import sys
import time
import traceback
from collections import Counter

from rv import env

SHARDS = 8
CASE_CPU_LIMIT = 75.0      # seconds of CPU of one case: far over the slowest case
WALL_LIMIT = 700.0        # seconds of a whole quick run; what is not explored by then is left
MEM_LIMIT = 3 << 30        # address space of one worker process, so a runaway change fails its own case only
FINDINGS = os.path.join(env.VERIF, 'known_findings.txt')


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Observer:
    """What the monitors saw during one case."""

    def __init__(self):
        self.events = Counter()
        self.sigs = set()
        self.states = set()
        self.violations: list[tuple[str, str]] = []
        self.samples: list = []
        self.tags = Counter()

    def event(self, name: str, n: int = 1):
        self.events[name] += int(n)

    def state(self, *parts):
        self.states.add(hashlib.blake2b(repr(parts).encode(), digest_size=6).hexdigest())

    def nontrivial(self, *parts):
        """The case exercised the property; `parts` identify what was different about it."""
        self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest())

    def violate(self, mech: str, detail: str = ''):
        self.violations.append((mech, str(detail)[:600]))

    def check(self, cond, mech: str, detail=''):
        self.event('checks')
        if not cond:
            self.violate(mech, detail() if callable(detail) else detail)
        return bool(cond)

    def extend(self, pairs, prefix=''):
        for m, d in pairs:
            self.violate(prefix + m, d)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)


def in_repo(tb) -> list:
    root = os.path.realpath(env.REPO) + os.sep
    return [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(root)]


def crash_mech(e: BaseException) -> str | None:
    """Names a crash by the type and by the deepest SAMPO function on the stack, None if SAMPO is not on the stack."""
    frames = in_repo(e.__traceback__)
    if not frames:
        return None
    f = frames[-1]
    return f'crash:{type(e).__name__}@{os.path.basename(f.filename)[:-3]}.{f.name}'


def run_case(mod, case: dict, obs: Observer) -> str | None:
    """Returns None or the text of an error of the harness itself."""

    def on_alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CPU_LIMIT', CASE_CPU_LIMIT))
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        mod.run(case, obs)
    except Skip as s:
        obs.event('skipped:' + str(s)[:40])
    except CaseTimeout:
        obs.violate('does-not-terminate', f'no answer within {CASE_CPU_LIMIT} s of CPU time')
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        signal.setitimer(signal.ITIMER_PROF, 0)
        mech = crash_mech(e)
        if mech is None:
            if isinstance(e, (OSError, MemoryError, ImportError)):
                return traceback.format_exc()
            # SAMPO answered with something its documented types do not allow to read
            mech = f'unreadable-result:{type(e).__name__}'
        obs.violate(mech, traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = out
    return None


def shard_main(mod, cases: list, idx: int, wfd: int):
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sys.setrecursionlimit(3000)
    slow = bad = 0
    with os.fdopen(wfd, 'w') as w:
        for n, case in enumerate(cases):
            w.write(json.dumps({'begin': idx + n * SHARDS}) + '\n')
            w.flush()
            obs = Observer()
            t0 = time.process_time()
            err = run_case(mod, case, obs)
            rec = {'case': idx + n * SHARDS, 'events': dict(obs.events), 'sigs': sorted(obs.sigs),
                   'states': sorted(obs.states)[:4000], 'viol': obs.violations[:40], 'samples': obs.samples,
                   'err': err, 'cpu': time.process_time() - t0}
            w.write(json.dumps(rec, default=str) + '\n')
            w.flush()
            # what is broken everywhere needs not be seen everywhere
            known = load_findings(mod.ID)
            slow += any(m == 'does-not-terminate' for m, _ in obs.violations)
            bad += any(m not in known for m, _ in obs.violations)
            if slow >= 2 or bad >= 40:
                break


def load_findings(prop: str):
    """`finding: property=<id> mech=<mechanism> <text>`; `fixed:` lines are a record only and suppress nothing."""
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r'finding: property=(\S+) mech=(\S+) (.*)', line.strip())
            if m and m[1] == prop:
                res[m[2]] = m[3]
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--limit', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    # sets of strings are iterated by hash: fix the order by the seed so that a run can be repeated
    want = str(a.seed % 4294967295)
    if os.environ.get('PYTHONHASHSEED') != want:
        os.environ['PYTHONHASHSEED'] = want
        os.execv(sys.executable, [sys.executable] + sys.argv)
    t0 = time.time()
    try:
        env.setup()
        mod = importlib.import_module(f'rv.props.{a.property.lower()}')
        mod.ID = a.property
        if a.replay:
            return replay(mod, a.replay)
        return explore(mod, a, t0)
    finally:
        env.cleanup()


def replay(mod, path):
    rec = json.load(open(path))
    obs = Observer()
    err = run_case(mod, rec['case'], obs)
    print(json.dumps({'case': rec['case'], 'events': obs.events, 'violations': obs.violations, 'error': err}, indent=1,
                     default=str))
    return 1 if obs.violations else (2 if err else 0)


def cpu_of(pid) -> float:
    """CPU seconds of a child."""
    try:
        f = open(f'/proc/{pid}/stat').read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return 0.0


def die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:  # noqa
        pass


def explore(mod, a, t0):
    cases = mod.cases(a.tier, a.seed)
    if a.limit:
        cases = cases[:a.limit]
    children = []
    sys.stdout.flush()
    for i in range(SHARDS):
        part = cases[i::SHARDS]
        if not part:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                die_with_parent()
                os.close(r)
                for _, rr, _ in children:
                    os.close(rr)
                shard_main(mod, part, i, w)
            except BaseException:  # noqa
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        children.append((pid, r, i))
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r, i in children:
        sel.register(r, selectors.EVENT_READ, i)
        bufs[i] = b''
    current = {}
    recs = []
    hung = {}
    pids = {i: pid for pid, _, i in children}
    limit = getattr(mod, 'CPU_LIMIT', CASE_CPU_LIMIT)
    end = time.time() + (WALL_LIMIT if a.tier == 'quick' else 10 * WALL_LIMIT)
    begun = {}
    next_look = time.time() + 5
    while sel.get_map():
        ready = sel.select(timeout=5)
        if time.time() > next_look:
            next_look = time.time() + 5
            # a case that outlives its limit does not hear the alarm
            for i, case in list(current.items()):
                late = cpu_of(pids[i]) - begun[i][0] > 2 * limit + 5 or time.time() - begun[i][1] > 5 * limit + 60
                if i not in hung and (late or time.time() > end):
                    hung[i] = case if late else None
                    os.kill(pids[i], signal.SIGKILL)
        for key, _ in ready:
            data = os.read(key.fd, 1 << 16)
            if not data:
                sel.unregister(key.fd)
                os.close(key.fd)
                continue
            buf = bufs[key.data] + data
            *lines, bufs[key.data] = buf.split(b'\n')
            for ln in lines:
                rec = json.loads(ln)
                if 'begin' in rec:
                    current[key.data] = rec['begin']
                    begun[key.data] = (cpu_of(pids[key.data]), time.time())
                else:
                    current.pop(key.data, None)
                    recs.append(rec)
    died = []
    for pid, _, i in children:
        _, st = os.waitpid(pid, 0)
        if i in hung:
            if hung[i] is not None:
                recs.append({'case': hung[i], 'events': {}, 'sigs': [], 'states': [], 'samples': [], 'err': None, 'cpu': limit,
                             'viol': [('does-not-terminate', f'no answer within {limit} s of CPU time')]})
        elif st:
            died.append((i, st, current.get(i)))
    recs.sort(key=lambda r: r['case'])
    return report(mod, a, cases, recs, died, t0)


def report(mod, a, cases, recs, died, t0):
    known = load_findings(mod.ID)
    events, mechs = Counter(), Counter()
    sigs, states, samples = set(), set(), []
    fresh = {}
    errors = []
    for r in recs:
        events.update(r['events'])
        states.update(r['states'])
        if r['sigs']:
            sigs.add(tuple(r['sigs']))
        if r['samples'] and len(samples) < 6:
            samples.append({'case': cases[r['case']], 'observed': r['samples'][0]})
        if r['err']:
            errors.append((r['case'], r['err']))
        for mech in dict.fromkeys(m for m, _ in r['viol']):
            mechs[mech] += 1
            if mech not in known and mech not in fresh:
                fresh[mech] = (r['case'], [v for v in r['viol'] if v[0] == mech][0][1], r['viol'])
    for i, st, case in died:
        sig = st & 0x7f
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE) and case is not None:
            fresh.setdefault('process-died', (case, f'signal {sig}', []))
        else:
            errors.append((case, f'worker {i} ended with status {st}'))
    if hasattr(mod, 'finish'):
        mod.finish(a.tier, events, lambda m, d: fresh.setdefault(m, (None, d, [])) if m not in known else None)
    ev_dir = os.path.join(env.VERIF, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    slow = sorted(((r['cpu'], r['case']) for r in recs), reverse=True)[:1]
    evidence = {
        'property': mod.ID, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(recs), 'distinct_nontrivial': len(sigs), 'rule': mod.RULE,
            'samples': samples or [{'case': cases[0]}],
            'monitor_events': dict(sorted(events.items())), 'distinct_states_observed': len(states),
            'known_findings_observed': {m: c for m, c in mechs.items() if m in known},
            'slowest_case_cpu_s': round(slow[0][0], 2) if slow else 0,
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(fresh),
    }
    with open(os.path.join(ev_dir, f'{mod.ID}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    for mech, text in sorted(known.items()):
        print(f'KNOWN-FINDING: property={mod.ID} {text} [{mech}; seen in {mechs.get(mech, 0)} cases of this run]')
    for mech, (case, detail, viol) in fresh.items():
        name = re.sub(r'[^A-Za-z0-9_.-]+', '_', mech)[:80]
        path = os.path.join(ev_dir, 'replay', f'{mod.ID}-{name}.json')
        with open(path, 'w') as f:
            json.dump({'property': mod.ID, 'mechanism': mech, 'detail': detail, 'seed': a.seed,
                       'case': cases[case] if case is not None else None, 'violations': viol}, f, indent=1, default=str)
        print(f'VIOLATION property={mod.ID} replay={os.path.relpath(path, env.VERIF)}')
        print(f'  {mech}: {str(detail)[-700:]}  ({mechs.get(mech, 1)} cases)')
    print(f'{mod.ID} {a.tier} seed={a.seed}: {len(recs)} cases, {len(sigs)} distinct non-trivial, '
          f'{len(states)} states, events={dict(sorted(events.items()))}, {evidence["wall_s"]} s, '
          f'slowest {evidence["coverage"]["slowest_case_cpu_s"]} s')
    if fresh:
        return 1
    if errors:
        for case, err in errors[:3]:
            print(f'CHECK-ERROR case={case}: {err}', file=sys.stderr)
        return 2
    if len(sigs) < getattr(mod, 'MIN_NONTRIVIAL', 2):
        print('CHECK-ERROR: the monitors observed nothing', file=sys.stderr)
        return 2
    return 0
