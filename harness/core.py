"""Runner of the property checks.

A property module (props/cXX_*.py) defines

    ID, RULE        property id, and what makes a generated case non-trivial
    SUBS            list of Sub(...)
    ASSUMPTIONS     (optional) list of texts for the evidence file

A Sub is one executable statement of the property: a Hypothesis strategy of plain JSON cases and a function
that runs the code under test on one case and compares it with an oracle.  The JSON case alone determines what
the function does, so a failing case is its own replay file."""
import contextlib
import faulthandler
import gc
import glob
import hashlib
import importlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CPU_LIMIT = 60.      # CPU seconds for one case; cases take milliseconds
SHRINK_LIMIT = 75.   # seconds spent on making a failing case smaller
BUDGET = dict(quick=300., thorough=700.)
QUICK_WORKERS = 8
QUICK_FACTOR = 3   # cases per worker, relative to the numbers in the modules


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


class _StopShrink(BaseException):
    pass


class _Hang(BaseException):
    pass


def check(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


class Sub:
    def __init__(self, name, strategy, test, quick, thorough=None, nontrivial=None, label=None):
        self.name = name
        self.strategy = strategy      # function without arguments that returns a strategy
        self.test = test              # test(case, scratch directory)
        self.examples = dict(quick=quick * QUICK_FACTOR, thorough=thorough or quick * 12)
        self.nontrivial = nontrivial or (lambda case: True)
        self.label = label            # case -> label(s) for the distribution in the evidence


def refuses(function, *args, **kwargs):
    """True if the call raises an exception."""
    try:
        function(*args, **kwargs)
    except Exception:
        return True
    return False


def _on_hang(signum, frame):
    raise _Hang()


def _dump(case):
    return json.dumps(case, sort_keys=True)


@contextlib.contextmanager
def _quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def run_case(sub, case, scratch):
    """Runs one case; raises Violation if the property does not hold for it."""
    import numpy as np
    random.seed(12345)
    np.random.seed(12345)
    for name in os.listdir(scratch):
        path = os.path.join(scratch, name)
        if os.path.isdir(path):
            shutil.rmtree(path, ignore_errors=True)
        else:
            os.unlink(path)
    signal.signal(signal.SIGPROF, _on_hang)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        with _quiet(), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            sub.test(case, scratch)
    except Violation:
        raise
    except HarnessError:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except _Hang:
        raise Violation('does not finish: more than %d s of CPU time for one case' % CPU_LIMIT)
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
            raise HarnessError('environment: %r' % e)
        raise Violation('%s: %s\n%s' % (type(e).__name__, e, _where()))
    except (Exception, SystemExit) as e:
        # every case is a valid use whose result the oracle can read, so an exception means that the code under
        # test raised it or returned something else than the property says
        raise Violation('%s: %s\n%s' % (type(e).__name__, e, _where()))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _where():
    return ''.join(traceback.format_exc().splitlines(True)[-14:])


class _Run:
    def __init__(self, pid, sub, seed, tier, deadline, scratch):
        self.sub, self.scratch, self.deadline = sub, scratch, deadline
        self.pid, self.seed, self.tier = pid, seed, tier
        self.evaluations = self.skipped = 0
        self.nontrivial = set()
        self.samples = []
        self.labels = {}
        self.note = None             # file that holds the current case, in case it ends the process
        self.failure = None          # (case, message) of the last failing execution
        self.smallest = None
        self.first_failure = None

    def __call__(self, case):
        now = time.monotonic()
        if self.first_failure is None and now > self.deadline:
            self.skipped += 1
            return
        if self.first_failure is not None and now - self.first_failure > SHRINK_LIMIT:
            raise _StopShrink()
        text = _dump(case)
        if self.first_failure is None:
            self.evaluations += 1
            if self.sub.nontrivial(case):
                digest = hashlib.blake2b(text.encode(), digest_size=12).digest()
                if digest not in self.nontrivial:
                    self.nontrivial.add(digest)
                    n = len(self.nontrivial)
                    if n in (3, 40) and len(text) < 4000 or n % 97 == 0 and len(self.samples) < 3 and len(text) < 1500:
                        self.samples.append(json.loads(text))
                    if self.sub.label:
                        found = self.sub.label(case)
                        for label in [found] if isinstance(found, str) else found:
                            self.labels[label] = self.labels.get(label, 0) + 1
        if self.note:
            self.note.seek(0)
            self.note.write('%d\n%s\n%s\n' % (len(text), self.sub.name, text))
            self.note.flush()
        try:
            run_case(self.sub, json.loads(text), self.scratch)
        except Violation as e:
            if self.first_failure is None:
                self.first_failure = time.monotonic()
            self.failure = (text, str(e))
            if self.smallest is None or len(text) <= len(self.smallest[0]):
                self.smallest = self.failure
            raise

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, settings
        derived = int.from_bytes(hashlib.sha256(
            ('%s/%s/%s' % (self.pid, self.sub.name, self.seed)).encode()).digest()[:8], 'big')

        test = hypothesis.given(self.sub.strategy())(self.__call__)
        test = settings(max_examples=self.sub.examples[self.tier], database=None, deadline=None,
                        report_multiple_bugs=False, print_blob=False,
                        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                               HealthCheck.large_base_example])(hypothesis.seed(derived)(test))
        finished = True
        try:
            with _quiet():
                test()
        except Violation:
            pass
        except _StopShrink:
            finished = False
        except (HarnessError, KeyboardInterrupt, MemoryError):
            raise
        except BaseException:
            # e.g. hypothesis.errors.Flaky: the failure was observed all the same
            if self.failure is None:
                raise
            finished = False
        if self.failure is None:
            return None
        return self.failure if finished else self.smallest


def load(pid):
    found = glob.glob(os.path.join(ROOT, 'props', pid.lower() + '_*.py'))
    if len(found) != 1:
        raise HarnessError('no check for %s' % pid)
    return importlib.import_module('props.' + os.path.basename(found[0])[:-3])


CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


def _crashed(status):
    return os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASHES


def _crash_message(status):
    return 'the process is ended by signal %d (%s)' % (os.WTERMSIG(status), signal.Signals(os.WTERMSIG(status)).name)


def _explore(pid, tier, seed, budget, note=None):
    """Runs all subs; returns a JSON-able result."""
    module = load(pid)
    scratch = tempfile.mkdtemp(prefix='rsb-%s-' % pid)
    os.environ['MPLCONFIGDIR'] = os.path.join(tempfile.gettempdir(), 'rsb-mpl-%d' % os.getuid())
    cwd = os.getcwd()
    os.chdir(scratch)
    start = time.monotonic()
    result = dict(evaluations=0, nontrivial=[], samples=[], subs={}, failure=None)
    try:
        total = float(sum(s.examples[tier] for s in module.SUBS))
        for i, sub in enumerate(module.SUBS):
            work = os.path.join(scratch, 'w')
            os.makedirs(work, exist_ok=True)
            os.chdir(work)
            # what earlier subs left of the budget is shared by the others
            left = budget - (time.monotonic() - start)
            run = _Run(pid, sub, seed, tier, time.monotonic() + left / (len(module.SUBS) - i), work)
            run.note = note
            failure = run.run()
            result['evaluations'] += run.evaluations
            result['nontrivial'] += [(sub.name + '/' + d.hex()) for d in run.nontrivial]
            result['samples'] += [dict(sub=sub.name, case=s) for s in run.samples[:2]]
            result['subs'][sub.name] = dict(evaluations=run.evaluations, nontrivial=len(run.nontrivial),
                                            labels=run.labels, skipped=run.skipped)
            gc.collect()
            if failure:
                result['failure'] = dict(sub=sub.name, case=json.loads(failure[0]), message=failure[1])
                break
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return result


def _merge(results):
    merged = dict(evaluations=0, nontrivial=set(), samples=[], subs={}, failure=None)
    for r in results:
        merged['evaluations'] += r['evaluations']
        merged['nontrivial'].update(r['nontrivial'])
        if len(merged['samples']) < 6:
            merged['samples'] += r['samples']
        for name, s in r['subs'].items():
            m = merged['subs'].setdefault(name, dict(evaluations=0, nontrivial=0, labels={}, skipped=0))
            for k in ('evaluations', 'nontrivial', 'skipped'):
                m[k] += s[k]
            for k, v in s['labels'].items():
                m['labels'][k] = m['labels'].get(k, 0) + v
        merged['failure'] = merged['failure'] or r['failure']
    return merged


def _workers(pid, tier, seed, budget, count):
    """The same check under several seeds in parallel processes."""
    out = tempfile.mkdtemp(prefix='rsb-out-')
    pids = {}
    for w in range(count):
        child = os.fork()
        if child == 0:
            code = 2
            try:
                os.setpgid(0, 0)
                with open(os.path.join(out, '%d.case' % w), 'w') as note:
                    r = _explore(pid, tier, '%s.%d' % (seed, w), budget, note)
                with open(os.path.join(out, '%d.json' % w), 'w') as f:
                    json.dump(r, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[child] = w
    try:
        bad = False
        results = []
        for child in list(pids):
            _, status = os.waitpid(child, 0)
            bad = bad or status != 0
            if _crashed(status):
                with open(os.path.join(out, '%d.case' % pids[child])) as f:
                    size, sub, text = int(f.readline()), f.readline().strip(), f.read()
                results.append(dict(evaluations=1, nontrivial=[], samples=[], subs={}, failure=dict(
                    sub=sub, case=json.loads(text[:size]), message=_crash_message(status))))
        for name in sorted(n for n in os.listdir(out) if n.endswith('.json')):
            with open(os.path.join(out, name)) as f:
                results.append(json.load(f))
        if bad and not any(r['failure'] for r in results):
            raise HarnessError('a worker failed')
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return _merge(results)


def _write_evidence(pid, tier, seed, module, result, wall, violations):
    samples = result['samples'][:8] or [dict(note='no non-trivial case sampled')]
    evidence = dict(
        property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=result['evaluations'], distinct_nontrivial=len(set(result['nontrivial'])),
                      rule=module.RULE, samples=samples, per_check=result['subs']),
        assumptions=getattr(module, 'ASSUMPTIONS', []),
        wall_s=round(wall, 3), violations=violations)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + '.tmp', path)


def _replay(pid, path):
    module = load(pid)
    with open(path) as f:
        data = json.load(f)
    sub = [s for s in module.SUBS if s.name == data['sub']]
    if not sub:
        raise HarnessError('no check named %s' % data['sub'])
    scratch = tempfile.mkdtemp(prefix='rsb-%s-' % pid)
    os.environ['MPLCONFIGDIR'] = os.path.join(tempfile.gettempdir(), 'rsb-mpl-%d' % os.getuid())
    path = os.path.abspath(path)
    cwd = os.getcwd()
    os.chdir(scratch)
    child = None
    try:
        child = os.fork()
        if child == 0:
            code = 2
            try:
                run_case(sub[0], data['case'], scratch)
                code = 0
            except Violation as e:
                print(e)
                code = 1
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        _, status = os.waitpid(child, 0)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    if _crashed(status):
        print(_crash_message(status))
    if _crashed(status) or os.WIFEXITED(status) and os.WEXITSTATUS(status) == 1:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if status:
        print('ERROR: the case did not run')
        return 2
    print('property %s holds for %s' % (pid, path))
    return 0


def main(argv):
    faulthandler.enable()
    if len(argv) == 3 and argv[1] == '--replay':
        return _replay(argv[0], argv[2])
    if len(argv) != 2 or argv[1] not in ('quick', 'thorough'):
        print('usage: check.py ID quick|thorough   or   check.py ID --replay FILE')
        return 2
    pid, tier = argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    start = time.monotonic()
    try:
        module = load(pid)
        if tier == 'quick':
            result = _workers(pid, tier, seed, BUDGET[tier], min(QUICK_WORKERS, os.cpu_count() or 1))
        else:
            result = _workers(pid, tier, seed, BUDGET[tier], min(8, os.cpu_count() or 1))
    except BaseException:
        traceback.print_exc()
        print('ERROR: the check of %s did not run' % pid)
        return 2
    failure = result['failure']
    _write_evidence(pid, tier, seed, module, result, time.monotonic() - start, int(bool(failure)))
    if failure:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        digest = hashlib.sha256(_dump(failure).encode()).hexdigest()[:12]
        path = os.path.join(ROOT, 'replays', '%s-%s-%s.json' % (pid, failure['sub'], digest))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, **failure), f, indent=1)
        print('%s/%s: %s' % (pid, failure['sub'], failure['message']))
        print('case: %s' % _dump(failure['case'])[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('%s %s: held on %d cases (%d distinct non-trivial) in %.1f s' % (
        pid, tier, result['evaluations'], len(set(result['nontrivial'])), time.monotonic() - start))
    return 0
