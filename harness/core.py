"""Property registry, generated-input engine and case evaluation.

A property module defines

    ID, TITLE, RULE, ASSUMPTIONS (list), SUBS (list of Sub)

Each Sub has a Hypothesis strategy that produces plain JSON values (a "case")
and a function check(case) that raises Violation when the case breaks the
property. check returns a falsy value for a trivial case and a class label (str)
for a non-trivial one.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings


class Violation(AssertionError):
    """The property does not hold for the case."""


class Skip(Exception):
    """The generated case is outside of the domain (counted as trivial)."""


class BudgetHit(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, weight=1.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12


HARNESS_ERRORS = (MemoryError, OSError, ImportError, SystemError)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def case_hash(sub, case):
    return hashlib.sha1((sub + '\0' + canon(case)).encode()).hexdigest()[:16]


def run_case(sub, case):
    """Evaluates one case. Returns the label; raises Violation or harness errors."""
    import numpy as np
    np.random.seed(20240607)
    case = json.loads(canon(case))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return sub.check(case)
        except Violation:
            raise
        except Skip:
            return None
        except HARNESS_ERRORS:
            raise
        except Exception as e:  # an unexpected exception on a valid input
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                              for f in tb[-4:])
            raise Violation('unexpected %s: %s [%s]' % (type(e).__name__, e, where))


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.trivial = 0
        self.timeouts = 0

    def add(self, name, case, label):
        self.evaluations += 1
        if not label:
            self.trivial += 1
            return
        label = label if isinstance(label, str) else 'nontrivial'
        self.labels[label] = self.labels.get(label, 0) + 1
        h = case_hash(name, case)
        if h not in self.hashes:
            self.hashes.add(h)
            n = len(self.hashes)
            if n in (3, 40):
                c = canon(case)
                if len(c) < 1500:
                    self.samples.append({'sub': name, 'class': label, 'case': case})


def run_sub(sub, n, seed, deadline, stop_file, case_timeout, history_cap=4000):
    """Runs one sub-check. Returns (stats, failure or None)."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase, given
    stats = Stats()
    state = {'last_fail': None, 'msg': None, 'first_fail': None, 'failed': False}
    history = []
    harness_error = []

    def on_alarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)

    def body(case):
        if not state['failed']:
            if time.monotonic() > deadline or os.path.exists(stop_file):
                raise BudgetHit()
            if len(history) < history_cap:
                history.append(case)
        signal.alarm(int(case_timeout))
        try:
            label = run_case(sub, case)
        except CaseTimeout:
            # Cases take milliseconds; a hang is confirmed in a fresh process.
            stats.timeouts += 1
            if not state['failed']:
                state['failed'] = True
                state['first_fail'] = state['last_fail'] = case
                state['history'] = []
                state['msg'] = 'no result within %d s' % case_timeout
                state['hang'] = True
            raise BudgetHit()
        except Violation as e:
            if not state['failed']:
                state['failed'] = True
                state['first_fail'] = case
                state['history'] = list(history)
            state['last_fail'] = case
            state['msg'] = str(e)
            raise
        except HARNESS_ERRORS as e:
            harness_error.append(traceback.format_exc())
            raise BudgetHit()
        finally:
            signal.alarm(0)
        if not state['failed']:
            stats.add(sub.name, case, label)

    test = given(sub.strategy)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        print_blob=False, phases=[Phase.generate, Phase.shrink],
        verbosity=hypothesis.Verbosity.quiet)(test)
    try:
        with open(os.devnull, 'w') as null:
            old = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = null, null
            try:
                test()
            finally:
                sys.stdout, sys.stderr = old
    except BudgetHit:
        pass
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        pass
    except BaseExceptionGroup:
        pass
    if harness_error:
        raise RuntimeError('harness error:\n' + harness_error[0])
    failure = None
    if state['failed']:
        failure = {'sub': sub.name, 'case': state['last_fail'], 'message': state['msg'],
                   'first_case': state['first_fail'], 'history': state['history'],
                   'hang': state.get('hang', False)}
    return stats, failure
