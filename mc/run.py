"""Explore a property's bounded space on the code under test, and report.

A check is a module in mc.checks with

  ID, TITLE, LEVEL, RULE, ASSUMPTIONS   what it decides and how it is counted
  cases(tier)                           generator of JSON-able case descriptors:
                                        the complete bounded space, in a fixed order
  case(c, ctx)                          explores one case on the real code and
                                        reports to ctx

The runner enumerates ALL cases (no sampling), hands them to worker processes
in this order, merges the counters, and writes the evidence file.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from mc import env

EVIDENCE_DIR = os.path.join(env.VERIF, 'evidence')
REPLAY_DIR = os.path.join(env.VERIF, 'evidence', 'replay')
KNOWN = os.path.join(env.VERIF, 'known_findings.txt')
MAX_VIOLATIONS = 12
CASE_SECONDS = int(os.environ.get('VERIF_CASE_SECONDS', '120'))
DEADLINE = {'quick': 700, 'thorough': int(os.environ.get('VERIF_THOROUGH_SECONDS', '780'))}


class CaseTimeout(Exception):
    pass


class Violation(Exception):
    """Raised by helpers when the property is broken."""


class Ctx:
    """Collects what one worker covered and found."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.evaluations = 0
        self.traces = 0
        self.keys = set()
        self.violations = []
        self.samples = []
        self.cases = 0
        self.current = None
        self.extra = {}

    def state(self, key, n=1):
        """Count a distinct canonical state."""
        h = _hash(key)
        if h not in self.keys:
            self.keys.add(h)
            self.states += 1
            return True
        return False

    def key(self, key):
        """Count a distinct non-trivial evaluation."""
        self.keys.add(_hash(key))

    def step(self, n=1):
        self.transitions += n

    def evaluated(self, n=1):
        self.evaluations += n

    def trace(self, n=1):
        """Count a model trace that was replayed against the implementation."""
        self.traces += n

    def bump(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:400])

    def violation(self, signature, detail, replay=None):
        self.violations.append({'signature': str(signature), 'detail': str(detail)[:4000],
                                'case': self.current if replay is None else replay})

    def expect(self, condition, signature, detail=''):
        if not condition:
            self.violation(signature, detail)
        return bool(condition)

    def same(self, expected, actual, signature, detail=''):
        if expected != actual:
            self.violation(signature, f'{detail}\nexpected: {expected!r}\nactual:   {actual!r}')
            return False
        return True


def _hash(key):
    if not isinstance(key, (bytes, str)):
        key = repr(key)
    if isinstance(key, str):
        key = key.encode('utf-8', 'surrogatepass')
    return hashlib.blake2b(key, digest_size=8).digest()


def _alarm(signum, frame):
    raise CaseTimeout(f'no answer within {CASE_SECONDS} s')


def _set_alarms(seconds):
    """Limit the processor time, and (for a case that waits) the time; a busy machine is no reason for an alarm."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.alarm(3 * seconds)


def _explore(mod, tier, counter, deadline):
    ctx = Ctx()
    complete = True
    if hasattr(mod, 'prepare'):
        mod.prepare()
    mine = _take(counter)
    for n, c in enumerate(mod.cases(tier)):
        if n != mine:
            continue
        mine = _take(counter)
        if time.monotonic() > deadline:
            complete = False
            break
        run_case(mod, c, ctx)
        if len(ctx.violations) >= MAX_VIOLATIONS:
            complete = False
            break
    return ctx, complete


def run_case(mod, c, ctx):
    ctx.current = c
    ctx.cases += 1
    _set_alarms(CASE_SECONDS)
    try:
        mod.case(c, ctx)
    except CaseTimeout as ex:
        ctx.violation('no-answer', f'{c!r}: {ex}')
    except Violation as ex:
        ctx.violation(str(ex).split(':')[0], str(ex))
    except Exception as ex:
        ctx.violation(f'exception-{type(ex).__name__}', traceback.format_exc())
    finally:
        _set_alarms(0)


def _take(counter):
    """Return the position of the next case nobody has explored yet."""
    with counter.get_lock():
        counter.value += 1
        return counter.value - 1


def _worker(name, tier, counter, deadline, conn):
    # Everything the code under test prints is irrelevant here.
    sys.stdout = sys.stderr = open(os.devnull, 'w')
    try:
        env.setup()
        env.own_tempdir()
        mod = importlib.import_module(f'mc.checks.{name}')
        ctx, complete = _explore(mod, tier, counter, deadline)
    except BaseException as ex:
        ctx, complete = Ctx(), False
        ctx.violation(f'exception-{type(ex).__name__}', traceback.format_exc())
    ctx.current = None
    conn.send((ctx, complete))
    conn.close()


def known_findings(prop):
    """Return {signature: description} of the recorded findings of a property."""
    found = {}
    try:
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                if line.startswith('finding:'):
                    parts = line.split(None, 3)
                    p, s = parts[1].split('=', 1)[1], parts[2].split('=', 1)[1]
                    if p == prop:
                        found[s] = parts[3].strip()
    except FileNotFoundError:
        pass
    return found


def main(prop, tier, replay=None):
    t0 = time.monotonic()
    name = prop.lower()
    base = env.scratch_base()
    workers = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 2)
    deadline = t0 + DEADLINE[tier]
    mod = importlib.import_module(f'mc.checks.{name}')
    if replay:
        with open(replay, encoding='utf-8') as f:
            c = json.load(f)['case']
        ctx = Ctx()
        env.setup()
        env.own_tempdir()
        if hasattr(mod, 'prepare'):
            mod.prepare()
        run_case(mod, c, ctx)
        for v in ctx.violations:
            print(v['signature'])
            print(v['detail'])
        return 1 if ctx.violations else 0
    workers = min(workers, getattr(mod, 'MAX_WORKERS', workers))
    procs = []
    mp = multiprocessing.get_context('fork')
    counter = mp.Value('q', 0)
    for __ in range(workers):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(name, tier, counter, deadline, b))
        p.start()
        b.close()
        procs.append((p, a))
    total = Ctx()
    exhaustive = True
    for p, a in procs:
        try:
            ctx, complete = a.recv()
        except EOFError:
            ctx, complete = Ctx(), False
            p.join()
            ctx.violation('worker-died', f'A worker ended with exit code {p.exitcode}.')
        p.join()
        exhaustive = exhaustive and complete
        total.states += ctx.states
        total.transitions += ctx.transitions
        total.evaluations += ctx.evaluations
        total.traces += ctx.traces
        total.cases += ctx.cases
        total.keys |= ctx.keys
        total.violations += ctx.violations
        for s in ctx.samples:
            total.sample(s)
        for k, v in ctx.extra.items():
            total.extra[k] = total.extra.get(k, 0) + v
    findings = known_findings(prop)
    seen_known = set()
    violations = []
    for v in total.violations:
        if v['signature'] in findings:
            seen_known.add(v['signature'])
        else:
            violations.append(v)
    for s in findings:
        print(f'KNOWN-FINDING: property={prop} {s} {findings[s]}' + ('' if s in seen_known else ' (not reached in this run)'))
    reported = {}
    for v in violations:
        reported.setdefault(v['signature'], v)
    replays = []
    if reported:
        os.makedirs(REPLAY_DIR, exist_ok=True)
    for n, (s, v) in enumerate(list(reported.items())[:MAX_VIOLATIONS]):
        path = os.path.join(REPLAY_DIR, f'{prop}-{n}.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': prop, 'signature': s, 'detail': v['detail'], 'case': v['case'],
                       'run': f'python3 /verif/check.py {prop} --replay {path}'}, f, indent=1)
        replays.append(path)
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  {s}: {v["detail"][:1500]}')
    wall = time.monotonic() - t0
    level = mod.LEVEL
    coverage = {'exhaustive': bool(exhaustive and not violations), 'cases': total.cases}
    if level == 'model_checking':
        coverage.update(states=len(total.keys), transitions=total.transitions,
                        traces_validated_against_impl=total.traces)
    else:
        coverage.update(evaluations=total.evaluations, distinct_nontrivial=len(total.keys))
    coverage['rule'] = mod.RULE
    coverage['samples'] = total.samples or ['-']
    coverage['bounds'] = getattr(mod, 'BOUNDS', {}).get(tier, '')
    coverage.update(total.extra)
    if reported:
        coverage['violated'] = [{'signature': s, 'replay': r} for s, r in zip(reported, replays)]
    os.makedirs(EVIDENCE_DIR, exist_ok=True)
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level,
        'coverage': coverage,
        'assumptions': list(mod.ASSUMPTIONS),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    with open(os.path.join(EVIDENCE_DIR, f'{prop}.json'), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1)
    n = len(total.keys)
    print(f'{prop} {tier}: {total.cases} cases, {n} distinct, {total.transitions} transitions, '
          f'{total.evaluations} evaluations, exhaustive={coverage["exhaustive"]}, {wall:.1f} s, '
          f'{len(violations)} violation(s)')
    return 1 if violations else 0
