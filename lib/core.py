"""Workload driver and monitor bookkeeping.

A check module (checks/<id>.py) defines

    PROPERTY  = 'B01'
    RULE      = how cases are made and what makes one non-trivial
    REQUIRED  = names of monitors that must have observed something
    scenarios = functions decorated with @scenario(quick=n, thorough=m)
    prepare() = optional, attaches class-wide hooks before the workers are forked

A scenario function gets one argument, a `Case`: random source, index, and the monitors.
"""
import hashlib
import importlib
import importlib.machinery
import json
import os
import pickle
import random
import re
import signal
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

CASE_SECONDS = 40            # wall-clock limit of one case; hitting it alone decides nothing
LINE_BUDGET = 60_000_000     # executed Python lines allowed for the repetition of such a case
MAX_VIOLATIONS = int(os.environ.get('VERIF_MAX_VIOLATIONS', '3'))        # per worker
SOFT_DEADLINE = dict(quick=420, thorough=3600)   # no new cases are started after this many seconds


# ------------------------------------------------------------------ scenarios

SCENARIOS = {}


def scenario(quick, thorough=None):
    def deco(fn):
        SCENARIOS[fn.__name__] = (fn, dict(quick=quick, thorough=thorough if thorough is not None else quick * 10))
        return fn
    return deco


class Violation(Exception):
    """raised to end a case after a deciding monitor has disagreed"""

    def __init__(self, monitor, message):
        super().__init__(message)
        self.monitor = monitor
        self.message = message


class Watchdog(BaseException):
    pass


class BudgetExceeded(BaseException):
    pass


def norm(x):
    """plain Python value: numpy scalars to int, sequences to tuples, sets to frozensets, dicts to frozensets of pairs"""
    t = type(x)
    if t in (int, str, bool) or x is None:
        return x
    if t in (list, tuple, range):
        return tuple(norm(e) for e in x)
    if t in (set, frozenset):
        return frozenset(norm(e) for e in x)
    mod = t.__module__
    if mod == 'numpy':
        if t.__name__ == 'ndarray':
            return tuple(norm(e) for e in x.tolist()) if x.ndim else norm(x.item())
        return norm(x.item())
    if isinstance(x, dict) or t.__name__ == 'bidict':
        return frozenset((norm(k), norm(v)) for k, v in x.items())
    if t.__name__ == 'odict_values' or t.__name__ in ('dict_values', 'dict_keys', 'map', 'filter', 'generator', 'zip'):
        return tuple(norm(e) for e in x)
    if isinstance(x, float) and x == int(x):
        return int(x)
    if isinstance(x, (list, tuple)):
        return tuple(norm(e) for e in x)
    if isinstance(x, int) and t.__name__ not in ('Boolf',):
        return int(x)
    return x


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Case:
    def __init__(self, store, name, index, total, seed, tier, prop):
        self.store = store
        self.name = name
        self.index = index
        self.total = total
        self.tier = tier
        self.rng = random.Random(f'{seed}|{prop}|{name}|{index}')
        self.log = []        # what was done in this case, for the report

    # ---- bookkeeping
    def note(self, *what):
        """one line of the case's history"""
        self.log.append(' '.join(w if isinstance(w, str) else short(w, 200) for w in what))
        if len(self.log) > 400:
            del self.log[:200]

    def state(self, *abstract, trivial=False):
        """an abstract situation that was observed"""
        d = hashlib.blake2b(repr((self.name, abstract)).encode(), digest_size=8).digest()
        v, = struct.unpack('<Q', d)
        (self.store.trivial if trivial else self.store.states).add(v)

    def sample(self, text):
        lst = self.store.samples.setdefault(self.name, [])
        if len(lst) < 2:
            lst.append(text if len(text) <= 600 else text[:600] + '...')

    # ---- deciding monitors
    def hit(self, monitor, n=1):
        self.store.events[monitor] += n

    def fail(self, monitor, message):
        self.store.events[monitor] += 1
        raise Violation(monitor, message)

    def eq(self, monitor, got, want, *ctx):
        self.store.events[monitor] += 1
        g, w = norm(got), norm(want)
        if not g == w:
            raise Violation(monitor, f'got {short(g)}, expected {short(w)}' + self._ctx(ctx))

    def true(self, monitor, cond, *ctx):
        self.store.events[monitor] += 1
        if not cond:
            raise Violation(monitor, 'condition does not hold' + self._ctx(ctx))

    def raises(self, monitor, fn, classes, *ctx):
        """`fn` must refuse with one of the exception classes"""
        self.store.events[monitor] += 1
        try:
            r = fn()
        except classes as e:
            return e
        except Exception as e:
            raise Violation(monitor, f'refused with {type(e).__name__}({short(str(e), 100)}) instead of '
                            f'{getattr(classes, "__name__", classes)}' + self._ctx(ctx))
        raise Violation(monitor, f'accepted, result {short(r, 200)}' + self._ctx(ctx))

    @staticmethod
    def _ctx(ctx):
        if not ctx:
            return ''
        return ' | ' + ' '.join(c if isinstance(c, str) else short(c, 300) for c in ctx)


class Store:
    """what the monitors of one process observed"""

    def __init__(self):
        self.events = Counter()
        self.hook_events = Counter()
        self.states = set()
        self.trivial = set()
        self.samples = {}
        self.cases = Counter()
        self.violations = []
        self.inconclusive = []
        self.truncated = False

    def merge(self, o):
        self.events += o.events
        self.hook_events += o.hook_events
        self.states |= o.states
        self.trivial |= o.trivial
        for k, v in o.samples.items():
            s = self.samples.setdefault(k, [])
            s.extend(v[:max(0, 2 - len(s))])
        self.cases += o.cases
        self.violations += o.violations
        self.inconclusive += o.inconclusive
        self.truncated = self.truncated or o.truncated


CURRENT = None    # the running case, for the class-wide hooks


def current():
    return CURRENT


# ------------------------------------------------------------------ running one case

def _run_case(store, fn, name, index, total, seed, tier, prop):
    """returns None or (monitor, message, log)"""
    global CURRENT
    case = Case(store, name, index, total, seed, tier, prop)
    CURRENT = case
    from lib import hooks
    hooks.reset()
    try:
        fn(case)
        return None
    except Violation as v:
        return v.monitor, v.message, case.log
    except (Watchdog, BudgetExceeded, KeyboardInterrupt, MemoryError):
        raise
    except RecursionError:
        return 'crash:RecursionError', 'unbounded recursion', case.log
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for fr in reversed(tb):
            if fr.filename.startswith(REPO):
                where = f'{fr.filename}:{fr.lineno}'
                break
        last = tb[-1]
        return (f'crash:{type(e).__name__}',
                f'{type(e).__name__}: {short(str(e), 200)} at {where or last.filename + ":" + str(last.lineno)}'
                f' (called from {tb[1].filename.rsplit("/", 1)[-1]}:{tb[1].lineno})' if len(tb) > 1 else str(e),
                case.log)
    finally:
        CURRENT = None


def _with_alarm(seconds, f):
    def onalarm(*_):
        raise Watchdog()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _with_budget(f):
    """runs f under a deterministic budget of executed lines"""
    mon = sys.monitoring
    tool = mon.DEBUGGER_ID
    count = 0

    def on_line(code, line):
        nonlocal count
        count += 1
        if count == LINE_BUDGET + 1:     # only once, or the handlers would be interrupted, too
            raise BudgetExceeded()

    mon.use_tool_id(tool, 'verif-budget')
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    try:
        return f(), count
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.LINE, None)
        mon.free_tool_id(tool)


def guarded_case(store, fn, name, index, total, seed, tier, prop):
    """returns None, ('violation', ...) or ('inconclusive', ...)"""
    try:
        r = _with_alarm(CASE_SECONDS, lambda: _run_case(store, fn, name, index, total, seed, tier, prop))
    except Watchdog:
        try:
            (r, used) = _with_alarm(400, lambda: _with_budget(
                lambda: _run_case(Store(), fn, name, index, total, seed, tier, prop)))
        except BudgetExceeded:
            return 'violation', 'nontermination', f'more than {LINE_BUDGET} lines executed in one case', []
        except Watchdog:
            return 'inconclusive', 'timeout', 'case exceeded the time limit but not the line budget', []
        if r is None:
            return None
    except MemoryError:
        return 'inconclusive', 'memory', 'out of memory', []
    if r is None:
        return None
    return ('violation',) + tuple(r)


# ------------------------------------------------------------------ workers

def load(prop):
    SCENARIOS.clear()
    return importlib.import_module('checks.' + prop.lower())


def plan(tier):
    """interleaved list of (scenario, index): round robin in proportion, so that a truncated run still touches all"""
    items = []
    for name, (fn, n) in SCENARIOS.items():
        total = n[tier]
        for i in range(total):
            items.append(((i + 0.5) / total, name, i, total))
    items.sort(key=lambda t: (t[0], t[1]))
    return [(name, i, total) for _, name, i, total in items]


def worker(wid, nworkers, items, prop, seed, tier, deadline, stopfile_fd):
    store = Store()
    from lib import hooks
    hooks.STORE = store
    for k in range(wid, len(items), nworkers):
        if time.time() > deadline:
            store.truncated = True
            break
        if os.path.exists(stopfile_fd):
            break
        name, index, total = items[k]
        fn = SCENARIOS[name][0]
        store.cases[name] += 1
        r = guarded_case(store, fn, name, index, total, seed, tier, prop)
        if r is None:
            continue
        kind, monitor, message, log = r
        rec = dict(scenario=name, index=index, total=total, monitor=monitor, message=message,
                   log=log[-60:], worker=wid, position=k)
        if kind == 'inconclusive':
            store.inconclusive.append(rec)
            if len(store.inconclusive) >= 3:
                break
            continue
        store.violations.append(rec)
        if monitor == 'nontermination' or len(store.violations) >= MAX_VIOLATIONS:
            try:
                open(stopfile_fd, 'w').close()
            except OSError:
                pass
            break
    return store


def hash_seed(seed, wid):
    """each worker is an interpreter of its own, with its own iteration order of sets of strings and functions"""
    return (seed * 8 + wid) % 4294967296


def worker_count(items):
    return max(1, min(8, os.cpu_count() or 1, len(items)))


def worker_main(prop, seed, tier, wid, n, deadline, stop, fd):
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)     # some operations print
    store = worker(wid, n, plan(tier), prop, seed, tier, deadline, stop)
    with os.fdopen(fd, 'wb') as f:
        pickle.dump(store.__dict__, f)


def run_all(prop, seed, tier):
    items = plan(tier)
    n = worker_count(items)
    t0 = time.time()
    deadline = t0 + SOFT_DEADLINE[tier]
    stop = os.path.join(VERIF, 'evidence', f'.stop-{prop}-{os.getpid()}')
    children = []
    for w in range(n):
        r, wfd = os.pipe()
        p = subprocess.Popen(
            [sys.executable, '-X', 'faulthandler', os.path.join(VERIF, 'lib', 'core.py'), prop, '--worker',
             str(w), str(n), repr(deadline), stop, str(wfd)],
            env=dict(os.environ, PYTHONHASHSEED=str(hash_seed(seed, w))), pass_fds=[wfd], cwd=VERIF)
        os.close(wfd)
        children.append((p, r))
    total = Store()
    broken = []
    for p, r in children:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        status = p.wait()
        if not data or status:
            broken.append((p.pid, status))
            continue
        s = Store()
        s.__dict__.update(pickle.loads(data))
        total.merge(s)
    if os.path.exists(stop):
        os.remove(stop)
    return total, broken, len(items), time.time() - t0


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    """lines 'known: property=<id> monitor=<regex> match=<regex> <text>'; 'fixed:' lines suppress nothing"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) monitor=(\S+) match=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2) + r'\Z'), re.compile(m.group(3)), m.group(4)))
    return out


# ------------------------------------------------------------------ main

class FreshLoader(importlib.machinery.SourceFileLoader):
    """compiles the current source text, whatever byte code lies around"""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def fresh_hook(path):
    if path != REPO and not path.startswith(REPO + '/'):
        raise ImportError
    return importlib.machinery.FileFinder(path, (FreshLoader, ['.py']))


def import_library():
    sys.path_hooks.insert(0, fresh_hook)
    sys.path_importer_cache.clear()
    sys.path.insert(0, REPO)
    import discretehelpers
    path = os.path.realpath(discretehelpers.__file__)
    if not path.startswith(REPO + '/'):
        print('the library under test is not imported from /repo:', path)
        sys.exit(2)


def main(argv):
    prop = argv[0].upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    sys.path.insert(0, VERIF)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)

    t0 = time.time()
    try:
        import_library()
        mod = load(prop)
        if hasattr(mod, 'prepare'):
            mod.prepare()
    except SystemExit:
        raise
    except BaseException:
        # the library (or a name the check needs from it) cannot be imported: nothing was observed
        traceback.print_exc()
        print(f'{prop}: the workload could not be loaded')
        return 2

    if len(argv) >= 3 and argv[1] == '--replay':
        return replay(prop, argv[2])
    if len(argv) >= 7 and argv[1] == '--worker':
        worker_main(prop, seed, tier, int(argv[2]), int(argv[3]), float(argv[4]), argv[5], int(argv[6]))
        return 0

    total, broken, planned, wall = run_all(prop, seed, tier)

    required = getattr(mod, 'REQUIRED', [])
    missing = [m for m in required if total.events[m] + total.hook_events[m] == 0]

    known = known_findings(prop)
    fresh, listed = [], []
    for v in total.violations:
        for mre, tre, text in known:
            if mre.match(v['monitor']) and tre.search(v['message'] + ' ' + ' '.join(v['log'])):
                listed.append((v, text))
                break
        else:
            fresh.append(v)

    samples = []
    for k in sorted(total.samples):
        for s in total.samples[k][:2]:
            samples.append(f'{k}: {s}')
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(total.cases.values()),
            distinct_nontrivial=len(total.states),
            rule=mod.RULE,
            samples=samples[:24],
            distinct_trivial=len(total.trivial),
            cases_per_scenario=dict(sorted(total.cases.items())),
            planned_cases=planned,
            monitor_events=dict(sorted(total.events.items())),
            monitor_events_total=sum(total.events.values()),
            hook_events=dict(sorted(total.hook_events.items())),
            hash_seeds=[hash_seed(seed, w) for w in range(worker_count(range(planned)))],
            truncated=total.truncated,
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        violations=len(fresh),
        wall_s=round(time.time() - t0, 2),
    )
    epath = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(epath + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(epath + '.tmp', epath)

    for text in sorted(set(t for _, t in listed)):
        print(f'KNOWN-FINDING: property={prop} {text}')

    if fresh:
        fresh.sort(key=lambda v: (v['scenario'], v['index']))
        v = fresh[0]
        path = os.path.join(VERIF, 'evidence', 'replay', f'{prop}-{tier}-{seed}-{v["scenario"]}-{v["index"]}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, **v), f, indent=1)
        for v in fresh[:2 * MAX_VIOLATIONS]:
            print(f'  {v["scenario"]}#{v["index"]} monitor {v["monitor"]}: {v["message"]}')
            for line in v['log'][-8:]:
                print('      ', line)
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'{prop}: {sum(total.cases.values())} cases, {sum(total.events.values())} monitor events, '
          f'{sum(total.hook_events.values())} hook events, {len(total.states)} distinct states, {wall:.1f} s'
          + (' (truncated)' if total.truncated else ''))
    if os.environ.get('VERIF_VERBOSE'):
        for k, n in sorted(total.events.items()):
            print('   ', k, n)
        for k, n in sorted(total.hook_events.items()):
            print('    hook', k, n)
    if broken:
        print('worker processes ended abnormally:', broken)
        return 2
    if total.inconclusive:
        print('inconclusive:', total.inconclusive[:3])
        return 2
    if missing:
        print('monitors that observed nothing:', missing)
        return 2
    return 0


def replay(prop, path):
    rec = json.load(open(path))
    wanted = str(hash_seed(rec['seed'], rec['worker']))
    if os.environ.get('PYTHONHASHSEED') != wanted:
        os.environ['PYTHONHASHSEED'] = wanted
        os.execv(sys.executable, [sys.executable, '-X', 'faulthandler', os.path.join(VERIF, 'lib', 'core.py'), prop, '--replay', os.path.abspath(path)])
    fn = SCENARIOS[rec['scenario']][0]
    store = Store()
    from lib import hooks
    hooks.STORE = store
    r = guarded_case(store, fn, rec['scenario'], rec['index'], rec['total'], rec['seed'], rec['tier'], prop)
    if r is None:
        print('not reproduced alone; repeating the cases the worker ran before it')
        items = plan(rec['tier'])
        n = worker_count(items)
        for k in range(rec['worker'], rec['position'] + 1, n):
            name, index, total = items[k]
            r = guarded_case(store, SCENARIOS[name][0], name, index, total, rec['seed'], rec['tier'], prop)
            if r is not None:
                break
    if r is None:
        print('not reproduced')
        return 0
    kind, monitor, message, log = r
    for line in log:
        print('   ', line)
    print(f'{kind}: monitor {monitor}: {message}')
    if kind == 'violation':
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 2


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    from lib import core
    sys.exit(core.main(sys.argv[1:]))
