"""Runner: drives generated-input checks, shrinks failures, writes evidence.

A property module (vf/props/cNN.py) defines

    ID, RULE, ASSUMPTIONS, SUBS = [Sub(...), ...], KNOWN = [Known(...), ...]

A Sub has a Hypothesis strategy producing plain JSON data (the "case") and a
check function `check(case, ctx)` that builds real objects from the case,
exercises the code under test and compares with its oracle, calling ctx.fail
(or raising any exception from inside the code under test) on a violation.
The check never draws randomness of its own, so a case replays by itself,
without Hypothesis.
"""
import concurrent.futures
import contextlib
import hashlib
import io
import json
import logging
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from vf import target

logging.getLogger().addHandler(logging.NullHandler())

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_SECONDS = 25       # a case normally takes milliseconds
MEM_LIMIT = 3 << 30         # per worker process
SHARDS = 8
SHRINK_SECONDS = int(os.environ.get('VF_SHRINK_SECONDS', '45'))
OVERALL_SECONDS = int(os.environ.get('VF_OVERALL_SECONDS', '780'))


class CheckFailed(Exception):
    """The oracle and the code under test disagree."""


class Abort(BaseException):
    """Leaves the search at once (not caught by Hypothesis)."""
    def __init__(self, kind, case, msg):
        BaseException.__init__(self, msg)
        self.kind, self.case, self.msg = kind, case, msg


class CpuLimit(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None):
        self.name = name            # short identifier
        self.strategy = strategy    # () -> Hypothesis strategy of JSON data
        self.check = check          # (case, ctx) -> None
        self.quick = quick          # examples per shard
        self.thorough = thorough or quick * 8   # examples per shard and round


class Known:
    """A recorded genuine defect: `demo` shows it on one specific input and
    returns True while the defect is present."""
    def __init__(self, key, what, demo):
        self.key, self.what, self.demo = key, what, demo


class Ctx:
    def __init__(self, tmproot):
        self._tmproot = tmproot
        self._dirs = []
        self.labels = set()
        self.nontrivial_ = False

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_ = True

    def fail(self, msg, **details):
        if details:
            msg += '\n' + '\n'.join(
                '  %s: %s' % (k, _short(v)) for k, v in details.items())
        raise CheckFailed(msg)

    def check(self, cond, msg, **details):
        if not cond:
            self.fail(msg, **details)

    def equal(self, got, want, msg, **details):
        if got != want:
            self.fail(msg + ' (%s)' % first_difference(got, want),
                      got=got, want=want, **details)

    def raises(self, exc_types, fn, msg, **details):
        try:
            r = fn()
        except exc_types as e:
            return e
        self.fail(msg + ' (no error raised; returned %s)' % _short(r, 200),
                  **details)

    def tmpdir(self):
        d = tempfile.mkdtemp(dir=self._tmproot)
        self._dirs.append(d)
        return d

    def close(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)


def _short(v, n=2000):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def first_difference(a, b, path=''):
    if type(a) is not type(b) and not (
            isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return 'at %s: %s vs %s' % (path or '/', _short(a, 200), _short(b, 200))
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return 'at %s: key %r only on one side' % (path or '/', k)
            if a[k] != b[k]:
                return first_difference(a[k], b[k], '%s/%s' % (path, k))
    elif isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, '%s/%d' % (path, i))
        if len(a) != len(b):
            return 'at %s: length %d vs %d' % (path or '/', len(a), len(b))
    return 'at %s: %s vs %s' % (path or '/', _short(a, 200), _short(b, 200))


def case_key(case):
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True).encode('utf-8', 'surrogatepass'),
        digest_size=8).digest()


def _on_cpu_limit(signum, frame):
    raise CpuLimit()


def execute(sub, case, tmproot):
    """Run one case. Returns (ctx, None) or (ctx, message of the violation).
    Raises Abort for run-aways and for errors of the harness."""
    ctx = Ctx(tmproot)
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    err = None
    try:
        try:
            sub.check(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            sys.settrace(None)
    except CheckFailed as e:
        err = str(e)
    except (CpuLimit, MemoryError) as e:
        raise Abort('hang', case, 'no result within %d s of CPU and %d MB: %s'
                    % (CASE_CPU_SECONDS, MEM_LIMIT >> 20, type(e).__name__))
    except RecursionError as e:
        if target.in_target(e):
            err = 'RecursionError in the code under test'
        else:
            raise Abort('harness', case, traceback.format_exc())
    except (Exception, SystemExit) as e:
        if target.in_target(e):
            tb = ''.join(traceback.format_exception(e)[-6:])
            err = 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb)
        else:
            # checks are made for everything correct code returns
            err = 'the results cannot be examined: ' + traceback.format_exc()
    finally:
        ctx.close()
    return ctx, err


class Violation(Exception):
    pass


def run_shard(sub, seed, examples, tmproot, deadline):
    """Search one shard; returns a plain dict."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    out = dict(sub=sub.name, evaluations=0, labels={}, keys=set(),
               samples=[], failure=None, error=None, inconclusive=False)
    last = {}

    class Stop(BaseException):
        pass

    def test(case):
        out['evaluations'] += 1
        if not last and out['evaluations'] % 64 == 0 \
                and time.monotonic() > deadline:
            raise Stop()
        ctx, err = execute(sub, case, tmproot)
        if not last:
            for l in ctx.labels:
                out['labels'][l] = out['labels'].get(l, 0) + 1
            if ctx.nontrivial_:
                k = case_key(case)
                if k not in out['keys']:
                    out['keys'].add(k)
                    _sample(out['samples'], case)
        if err is not None:
            last['case'], last['msg'] = case, err
            raise Violation(err)

    prop = settings(
        max_examples=examples, database=None, deadline=None,
        derandomize=False, report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(hypothesis.given(sub.strategy())(test))
    prop = hypothesis.seed(seed)(prop)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            prop()
    except Violation:
        out['failure'] = dict(case=last['case'], msg=last['msg'])
    except Stop:
        out['inconclusive'] = True
    except Abort as a:
        if a.kind == 'hang':
            out['failure'] = dict(case=a.case, msg=a.msg)
        elif last:
            # the shrinker wandered into something the harness cannot do
            out['failure'] = dict(last)
        else:
            out['error'] = a.msg + '\ncase: ' + _short(json.dumps(a.case))
    except BaseException:
        if last:   # e.g. a failure that depends on earlier cases (Flaky)
            out['failure'] = dict(last)
        else:
            out['error'] = traceback.format_exc()
    return out


def _sample(samples, case):
    s = json.dumps(case)
    if len(s) > 1200:
        return
    if len(samples) < 2:
        samples.append(case)
    elif len(s) > len(json.dumps(samples[-1])):
        samples[-1] = case


_MOD = None
_TMP = None


def _task(t):
    name, seed, examples, deadline = t
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    sub = next(s for s in _MOD.SUBS if s.name == name)
    return run_shard(sub, seed, examples, _TMP, deadline)


def load_module(pid):
    import importlib
    return importlib.import_module('vf.props.' + pid.lower())


def known_findings(pid):
    keys = set()
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith('known: property=%s ' % pid):
                keys.add(line.split()[2].split('=', 1)[1])
    return keys


def write_replay(pid, sub, case, msg, tag):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.json' % (pid, sub, tag))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, sub=sub, case=case, message=msg), f,
                  indent=1)
    return path


def run_property(pid, tier, seed):
    global _MOD, _TMP
    t0 = time.monotonic()
    target.setup()
    _MOD = mod = load_module(pid)
    _TMP = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    violations = []      # (sub, case, msg)
    errors = []
    evaluations = 0
    keys = {}
    labels = {}
    samples = {}
    inconclusive = 0
    regressions = 0
    try:
        # 1. saved inputs of earlier failures
        rdir = os.path.join(VERIF, 'regressions', pid)
        if os.path.isdir(rdir):
            for fn in sorted(os.listdir(rdir)):
                rec = json.load(open(os.path.join(rdir, fn)))
                sub = next((s for s in mod.SUBS if s.name == rec['sub']), None)
                if sub is None:
                    errors.append('regression %s names unknown sub' % fn)
                    continue
                regressions += 1
                try:
                    ctx, err = execute(sub, rec['case'], _TMP)
                except Abort as a:
                    if a.kind != 'hang':
                        errors.append(a.msg)
                        continue
                    err = a.msg
                if err is not None:
                    violations.append((sub.name, rec['case'], err))
        # 2. recorded findings
        listed = known_findings(pid)
        for k in getattr(mod, 'KNOWN', []):
            try:
                present = k.demo()
            except Exception:
                errors.append(traceback.format_exc())
                continue
            if present and k.key in listed:
                print('KNOWN-FINDING: property=%s %s' % (pid, k.what))
            elif present:
                violations.append(('known-' + k.key, None, k.what))
        # 3. generated search
        if not violations and not errors:
            deadline = t0 + OVERALL_SECONDS - 60
            tasks = []
            rounds = 1 if tier == 'quick' else 4
            for r in range(rounds):
                for i, sub in enumerate(mod.SUBS):
                    n = sub.quick if tier == 'quick' else sub.thorough
                    for sh in range(SHARDS):
                        s = int.from_bytes(hashlib.blake2b(
                            ('%d/%s/%s/%d/%d' % (seed, pid, sub.name, r, sh)
                             ).encode(), digest_size=6).digest(), 'big')
                        tasks.append((sub.name, s, n, deadline))
            nproc = min(SHARDS, os.cpu_count() or 1)
            mp = multiprocessing.get_context('fork')
            ex = concurrent.futures.ProcessPoolExecutor(nproc, mp_context=mp)
            try:
                futs = [ex.submit(_task, t) for t in tasks]
                for fut in concurrent.futures.as_completed(
                        futs, timeout=OVERALL_SECONDS):
                    if fut.cancelled():
                        continue
                    o = fut.result()
                    evaluations += o['evaluations']
                    keys.setdefault(o['sub'], set()).update(o['keys'])
                    lab = labels.setdefault(o['sub'], {})
                    for l, c in o['labels'].items():
                        lab[l] = lab.get(l, 0) + c
                    samples.setdefault(o['sub'], []).extend(o['samples'])
                    inconclusive += o['inconclusive']
                    if o['error']:
                        errors.append(o['error'])
                    if o['failure']:
                        violations.append(
                            (o['sub'], o['failure']['case'],
                             o['failure']['msg']))
                        # what has not started yet need not run
                        for f in futs:
                            f.cancel()
            except concurrent.futures.TimeoutError:
                errors.append('overall time limit hit')
            except concurrent.futures.process.BrokenProcessPool as e:
                errors.append('a worker died: %s' % e)
            finally:
                ex.shutdown(wait=True, cancel_futures=True)
    finally:
        shutil.rmtree(_TMP, ignore_errors=True)

    rc = 0
    if violations:
        best = {}
        for sub, case, msg in violations:
            size = len(json.dumps(case))
            if sub not in best or size < best[sub][0]:
                best[sub] = (size, case, msg)
        for sub in sorted(best):
            size, case, msg = best[sub]
            path = write_replay(pid, sub, case, msg, 'seed%d' % seed)
            print('--- %s/%s: %s' % (pid, sub, _short(msg, 3000)))
            print('case: ' + _short(json.dumps(case), 3000))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif errors:
        for e in errors[:3]:
            print('HARNESS ERROR: ' + e, file=sys.stderr)
        rc = 2

    wall = time.monotonic() - t0
    distinct = sum(len(k) for k in keys.values())
    smp = []
    for name in sorted(samples):
        for c in sorted(samples[name], key=lambda c: len(json.dumps(c)))[::7][:3]:
            smp.append({'sub': name, 'case': c})
    ev = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evaluations + regressions,
            distinct_nontrivial=distinct,
            rule=mod.RULE,
            samples=smp,
            regression_inputs=regressions,
            shards=SHARDS,
            shards_cut_short_by_time=inconclusive,
            distinct_nontrivial_by_sub={n: len(k) for n, k in
                                        sorted(keys.items())},
            class_counts={n: dict(sorted(l.items()))
                          for n, l in sorted(labels.items())},
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, '
          '%d violation(s), %.1f s%s'
          % (pid, tier, seed, evaluations + regressions, distinct,
             len(violations), wall,
             ', %d shards cut short' % inconclusive if inconclusive else ''))
    return rc


def replay(path):
    target.setup()
    rec = json.load(open(path))
    mod = load_module(rec['property'])
    sub = next(s for s in mod.SUBS if s.name == rec['sub'])
    tmp = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        ctx, err = execute(sub, rec['case'], tmp)
    except Abort as a:
        err = a.msg
        if a.kind != 'hang':
            print(a.msg, file=sys.stderr)
            return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if err is None:
        print('not reproduced: the property holds on this input')
        return 0
    print(err)
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


@contextlib.contextmanager
def ordinary_stack(levels=900):
    """Calls can be nested as deep as in an ordinary program (the generator
    library allows for more)."""
    depth, f = 0, sys._getframe()
    while f is not None:
        depth, f = depth + 1, f.f_back
    was = sys.getrecursionlimit()
    sys.setrecursionlimit(depth + levels)
    try:
        yield
    finally:
        sys.setrecursionlimit(was)


def step_budget(fn, steps):
    """Call fn() and fail (deterministically) if it executes more than
    `steps` lines of the code under test."""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] > steps:
                sys.settrace(None)
                raise CheckFailed(
                    'not finished after %d executed lines' % steps)
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(target.PKG):
            return local
        return None

    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(None)


def selftest():
    """Set-up check: the code under test and every property module import."""
    import hypothesis
    target.setup()
    names = sorted(fn[:-3] for fn in os.listdir(
        os.path.join(VERIF, 'vf', 'props')) if fn.startswith('c')
        and fn.endswith('.py'))
    for n in names:
        load_module(n)
    print('hypothesis %s, %d property modules' % (hypothesis.__version__,
                                                 len(names)))
    return 0
