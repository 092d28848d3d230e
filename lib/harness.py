"""Common machinery of all checks.

A property module (props/<id>.py) defines

    LEVEL_NOTE, RULE, ASSUMPTIONS (strings / list)
    def build(): -> list of Sub objects   (called after flavio is imported)

A Sub couples a Hypothesis strategy that produces a *JSON-serialisable* case
with a check function that raises Violation (via `fail` / `expect*`) when the
real code contradicts the oracle.  Sub-checks are sharded over forked worker
processes; every worker drives Hypothesis with a seed derived from VERIF_SEED,
counts what it evaluated and shrinks the first failure.  The shrunk case is
written as a JSON replay file that `run.py <id> --replay FILE` executes without
Hypothesis.
"""
import argparse
import collections
import hashlib
import importlib
import json
import math
import multiprocessing
import os
import random
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """The machinery itself is broken (never a violation)."""


class Skip(Exception):
    """The generated case is outside the property's domain (counted)."""


def bootstrap():
    """Make flavio (from REPO) and hypothesis importable."""
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.path.append(VT_SITE)
        try:
            import hypothesis  # noqa
        except ImportError:
            sys.path.remove(VT_SITE)
            import glob
            import zipfile
            d = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'site')
            os.makedirs(d, exist_ok=True)
            for w in ('hypothesis', 'sortedcontainers', 'attrs', 'mpmath'):
                for f in glob.glob(os.path.join(WHEELS, w + '-*.whl')):
                    zipfile.ZipFile(f).extractall(d)
            sys.path.append(d)
            import hypothesis  # noqa
    import numpy as np
    np.seterr(all='ignore')
    import flavio
    root = os.path.dirname(os.path.dirname(os.path.abspath(flavio.__file__)))
    if os.path.realpath(root) != os.path.realpath(REPO):
        raise HarnessError('flavio imported from %s, not %s' % (root, REPO))
    warnings.simplefilter('ignore')
    return flavio


# --------------------------------------------------------------------------
# case-level helpers

class Ctx:
    """Per-case context: labels and the non-triviality flag."""

    def __init__(self):
        self.labels = []
        self.nontrivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def trivial(self):
        self.nontrivial = False


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def expect(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def close(a, b, rtol=1e-9, atol=0.0):
    """Scalar/array closeness that treats equal infinities as close, NaN never."""
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        eq = (a == b)
        d = np.abs(a - b)
        ok = d <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
        # inf <= inf would accept inf versus finite
        ok = ok & np.isfinite(d)
    return bool(np.all(eq | ok))


def expect_close(a, b, what, rtol=1e-9, atol=0.0):
    if not close(a, b, rtol, atol):
        fail('%s: got %r, expected %r (rtol=%g atol=%g)', what, a, b, rtol, atol)


def stable_key(case):
    return hashlib.md5(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()


class Sub:
    def __init__(self, name, strategy, check, quick=200, thorough=2000, shards=4,
                 setup=None):
        self.name = name
        self.strategy = strategy      # hypothesis strategy
        self.check = check            # check(case, ctx)
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.setup = setup


class Sweep(Sub):
    """Every item of a finite list is visited, `quick`/`thorough` cases each."""

    def __init__(self, name, items, strategy_for, check, quick=1, thorough=10,
                 shards=8, setup=None, subset=None):
        super().__init__(name, None, check, quick, thorough, shards, setup)
        self.items = list(items)
        self.strategy_for = strategy_for
        self.subset = subset     # quick tier: visit only this many items (seeded sample)


# --------------------------------------------------------------------------
# running

_HARNESS_EXC = (ImportError, NameError, MemoryError, HarnessError, KeyboardInterrupt)


def classify_exception(e):
    """-> ('violation'|'harness', message)"""
    if isinstance(e, Violation):
        return 'violation', str(e)
    tb = traceback.extract_tb(e.__traceback__)
    in_repo = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
    last = tb[-1] if tb else None
    where = '%s:%s' % (last.filename, last.lineno) if last else '?'
    msg = '%s: %s (at %s)' % (type(e).__name__, e, where)
    if isinstance(e, (HarnessError, MemoryError, KeyboardInterrupt)):
        return 'harness', msg
    if in_repo:
        f = in_repo[-1]
        return 'violation', 'the code raised %s: %s [%s:%s]' % (
            type(e).__name__, e, os.path.relpath(f.filename, REPO), f.lineno)
    if isinstance(e, (ImportError, NameError)):
        return 'harness', msg
    # value returned by the code is unusable (None, wrong type, wrong shape ...)
    return 'violation', 'unusable result: ' + msg


class Collector:
    def __init__(self, sub):
        self.sub = sub
        self.evaluations = 0
        self.skipped = 0
        self.deadline_skips = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None      # (size, case, message)
        self.harness_error = None
        self.other_failures = []

    def run_case(self, case):
        ctx = Ctx()
        try:
            self.sub.check(case, ctx)
        except Skip:
            self.skipped += 1
            return True
        except Exception as e:
            kind, msg = classify_exception(e)
            if kind == 'harness':
                self.harness_error = msg + '\n' + traceback.format_exc()
                raise HarnessError(msg)
            self.evaluations += 1
            size = len(json.dumps(case, default=repr))
            if self.failure is None or size <= self.failure[0]:
                self.failure = (size, case, msg, traceback.format_exc())
            raise Violation(msg)
        self.evaluations += 1
        for l in ctx.labels:
            self.labels[l] += 1
        if ctx.nontrivial:
            k = stable_key(case)
            if k not in self.keys:
                self.keys.add(k)
                n = len(self.keys)
                if n in (1, 7, 40, 200):
                    self.samples.append(case)
        return True

    def result(self):
        return dict(sub=self.sub.name, evaluations=self.evaluations, skipped=self.skipped,
                    deadline_skips=self.deadline_skips, keys=self.keys, labels=self.labels,
                    samples=self.samples, failure=self.failure, harness_error=self.harness_error)


def drive(sub, strategy, n, seed_value, coll, deadline):
    from hypothesis import given, settings, seed, HealthCheck, Phase, Verbosity

    shrink_start = [None]

    @seed(seed_value)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              report_multiple_bugs=False, verbosity=Verbosity.quiet,
              print_blob=False,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=list(HealthCheck))
    @given(strategy)
    def test(case):
        now = time.monotonic()
        if coll.failure is None:
            if now > deadline:
                coll.deadline_skips += 1
                return
        else:
            if shrink_start[0] is None:
                shrink_start[0] = now
            if now - shrink_start[0] > 45:   # bounded shrinking
                return
        coll.run_case(case)

    try:
        test()
    except HarnessError:
        raise
    except Violation:
        pass
    except BaseException as e:      # Flaky, Unsatisfiable ...
        if coll.failure is not None:
            return
        coll.harness_error = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
        raise HarnessError(coll.harness_error)


def seed_for(base, *parts):
    h = hashlib.sha256(repr((base,) + parts).encode()).hexdigest()
    return int(h[:15], 16)


def run_task(task):
    sub, shard, nshards, tier, base_seed, deadline = task
    coll = Collector(sub)
    t0 = time.monotonic()
    try:
        if sub.setup:
            sub.setup()
        import numpy as np
        np.random.seed(seed_for(base_seed, sub.name, shard, 'np') % 2**32)
        random.seed(seed_for(base_seed, sub.name, shard, 'py'))
        total = sub.quick if tier == 'quick' else sub.thorough
        if isinstance(sub, Sweep):
            items = list(sub.items)
            if tier == 'quick' and sub.subset and sub.subset < len(items):
                rnd = random.Random(seed_for(base_seed, sub.name, 'subset'))
                items = [items[i] for i in sorted(rnd.sample(range(len(items)), sub.subset))]
            for i, it in enumerate(items):
                if i % nshards != shard:
                    continue
                drive(sub, sub.strategy_for(it), total, seed_for(base_seed, sub.name, repr(it)),
                      coll, deadline)
                if coll.failure:
                    break
        else:
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n:
                drive(sub, sub.strategy, n, seed_for(base_seed, sub.name, shard), coll, deadline)
    except HarnessError as e:
        if coll.harness_error is None:
            coll.harness_error = str(e)
    except Exception:
        coll.harness_error = traceback.format_exc()
    r = coll.result()
    r['wall'] = time.monotonic() - t0
    return r


_TASKS = None


def _run_index(i):
    # the code under test may start processes of its own
    multiprocessing.current_process()._config['daemon'] = False
    return i, run_task(_TASKS[i])


def load_known(prop):
    """known_findings.jsonl: {property, sub, case, what} entries; 'fixed:' lines are comments."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if line.startswith('finding: '):
            d = json.loads(line[len('finding: '):])
            if d['property'] == prop:
                out.append(d)
    return out


def jsonable(x):
    return json.loads(json.dumps(x, default=repr))


def self_test():
    bootstrap()
    sys.path.insert(0, os.path.join(VERIF, 'props'))
    for f in sorted(os.listdir(os.path.join(VERIF, 'props'))):
        if f.endswith('.py'):
            importlib.import_module(f[:-3])
    print('self-test: flavio, hypothesis and all property modules import')
    return 0


def main(argv):
    if argv == ['--self-test']:
        return self_test()
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--sub', help='only this sub-check (development)')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    prop = a.property
    base_seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        bootstrap()
    except HarnessError as e:
        print('HARNESS-ERROR', e)
        return 2
    except Exception as e:
        # flavio itself does not import: every property is broken on this tree
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + os.sep) for f in tb):
            traceback.print_exc()
            path = write_replay(prop, 'import', {'import': 'flavio'}, repr(e), base_seed, tier)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        traceback.print_exc()
        print('HARNESS-ERROR while bootstrapping')
        return 2
    sys.path.insert(0, os.path.join(VERIF, 'props'))
    mod = importlib.import_module(prop)
    try:
        subs = mod.build()
    except Exception as e:
        kind, msg = classify_exception(e)
        traceback.print_exc()
        if kind == 'violation' and not a.replay:
            path = write_replay(prop, 'build', {'build': prop}, msg, base_seed, tier)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        print('HARNESS-ERROR in build:', msg)
        return 2
    if a.replay:
        d = json.load(open(a.replay))
        if d['sub'] in ('build', 'import'):
            print('replay: build and import succeed')
            return 0
        sub = [s for s in subs if s.name == d['sub']][0]
        if sub.setup:
            sub.setup()
        coll = Collector(sub)
        try:
            coll.run_case(d['case'])
        except Violation as e:
            print('replay reproduces:', e)
            print(coll.failure[3])
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        except HarnessError as e:
            print('HARNESS-ERROR', coll.harness_error)
            return 2
        print('replay: property holds for this case')
        return 0
    if a.sub:
        subs = [s for s in subs if s.name in a.sub.split(',')]
    if a.scale != 1.0:
        for s in subs:
            s.quick = max(1, int(s.quick * a.scale))
            s.thorough = max(1, int(s.thorough * a.scale))
    budget = 420 if tier == 'quick' else 780
    deadline = t0 + budget
    # known findings: probe the exact recorded cases
    known_lines = []
    for kf in load_known(prop):
        sub = [s for s in mod.build() if s.name == kf['sub']]
        if not sub:
            continue
        if sub[0].setup:
            sub[0].setup()
        c = Collector(sub[0])
        try:
            c.run_case(kf['case'])
        except Violation:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
        except HarnessError:
            pass
    known_keys = set((kf['sub'], stable_key(kf['case'])) for kf in load_known(prop))
    for s in subs:
        _wrap_known(s, known_keys)

    global _TASKS
    _TASKS = []
    for s in subs:
        ns = max(1, min(s.shards, 40))
        for k in range(ns):
            _TASKS.append((s, k, ns, tier, base_seed, deadline))
    workers = a.workers or min(8, os.cpu_count() or 1)
    results = [None] * len(_TASKS)
    if workers == 1:
        for i in range(len(_TASKS)):
            results[i] = run_task(_TASKS[i])
    else:
        mp = multiprocessing.get_context('fork')
        with mp.Pool(workers, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_run_index, range(len(_TASKS)), chunksize=1)
            hard = t0 + budget + 100
            pending = len(_TASKS)
            while pending:
                try:
                    i, r = it.next(timeout=max(1.0, hard - time.monotonic()))
                except multiprocessing.TimeoutError:
                    pool.terminate()
                    break
                results[i] = r
                pending -= 1
    lost = [i for i, r in enumerate(results) if r is None]
    results_ok = [r for r in results if r is not None]
    harness_errors = [r for r in results_ok if r['harness_error']]
    failures = [r for r in results_ok if r['failure']]
    # evidence
    persub = collections.OrderedDict()
    labels = collections.Counter()
    keys = collections.defaultdict(set)
    samples = collections.OrderedDict()
    ev = 0
    for r in results_ok:
        d = persub.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=0, rejected=0,
                                             deadline_skips=0, cpu_s=0.0))
        d['evaluations'] += r['evaluations']
        d['rejected'] += r['skipped']
        d['deadline_skips'] += r['deadline_skips']
        d['cpu_s'] = round(d['cpu_s'] + r['wall'], 2)
        keys[r['sub']] |= r['keys']
        for l, c in r['labels'].items():
            labels[r['sub'] + ':' + l] += c
        samples.setdefault(r['sub'], []).extend(r['samples'])
        ev += r['evaluations']
    nontriv = 0
    for s, k in keys.items():
        persub[s]['distinct_nontrivial'] = len(k)
        nontriv += len(k)
    smp = [{'sub': s, 'case': jsonable(c)} for s, cs in samples.items() for c in cs[:2]]
    smp = [x if len(json.dumps(x)) < 2500 else {'sub': x['sub'], 'case': json.dumps(x['case'])[:2500]}
           for x in smp]
    wall = round(time.monotonic() - t0, 2)
    evidence = dict(
        property=prop, tier=tier, seed=base_seed, level='exploration',
        coverage=dict(evaluations=ev, distinct_nontrivial=nontriv, rule=mod.RULE, samples=smp,
                      per_sub_check=persub, labels=dict(sorted(labels.items())),
                      known_findings=known_lines),
        assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=wall, violations=len(failures))
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    for s, d in persub.items():
        print('%-34s evaluations=%-6d nontrivial=%-6d rejected=%-5d late=%d cpu=%.1fs' % (
            s, d['evaluations'], d['distinct_nontrivial'], d['rejected'], d['deadline_skips'], d['cpu_s']))
    print('total evaluations=%d nontrivial=%d wall=%.1fs' % (ev, nontriv, wall))
    for l in known_lines:
        print(l)
    rc = 0
    seen = set()
    for r in failures:
        if r['sub'] in seen:
            continue
        seen.add(r['sub'])
        _, case, msg, tb = r['failure']
        path = write_replay(prop, r['sub'], case, msg, base_seed, tier)
        print('--- %s: %s' % (r['sub'], msg[:1500]))
        print('    case: %s' % json.dumps(case, default=repr)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    if rc == 0 and (harness_errors or lost):
        for r in harness_errors:
            print('HARNESS-ERROR in %s: %s' % (r['sub'], r['harness_error']))
        for i in lost:
            print('HARNESS-ERROR: task %s/%d did not finish' % (_TASKS[i][0].name, _TASKS[i][1]))
        rc = 2
    return rc


def _wrap_known(sub, known_keys):
    keys = {k for s, k in known_keys if s == sub.name}
    if not keys:
        return
    inner = sub.check

    def check(case, ctx):
        if stable_key(case) in keys:
            raise Skip()
        return inner(case, ctx)
    sub.check = check


def write_replay(prop, sub, case, msg, seed_value, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%s_%s.json' % (prop, sub, stable_key(case)[:8]))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, sub=sub, case=case, message=msg, seed=seed_value, tier=tier),
                  f, indent=1, default=repr)
    return path
