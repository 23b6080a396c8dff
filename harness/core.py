"""
Generated-input checks: core definitions.

A property module (harness/props/cNN.py) defines

    PROPERTY = 'CNN'
    RULE     = 'how cases are made / what makes one non-trivial'
    SUBS     = [Sub(...), ...]

Each Sub has a Hypothesis strategy yielding plain JSON-able data and a body(case, ctx) which drives the real code and
compares it to an explicit oracle. Bodies call ctx.nontrivial() when the case reaches the interesting part, and
ctx.label() to count what was covered.
"""
import contextlib
import hashlib
import io
import json
import math
import os
import shutil
import signal
import sys
import tempfile
import traceback

import numpy as np

REPO_SRC = os.path.realpath('/repo/src')
HARNESS = os.path.realpath(os.path.dirname(__file__))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CASE_TIMEOUT = 150


class Violation(AssertionError):
    """the code under test broke the property"""


class HarnessError(Exception):
    """the check itself is wrong"""


class Skip(Exception):
    """case is outside the property's domain: not counted as non-trivial"""


class CaseTimeout(BaseException):
    pass


class StopSearch(KeyboardInterrupt):
    pass


class Sub:
    def __init__(self, name, strategy, body, quick=100, thorough=None, rule='', examples=(), shards=1, slow=False):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.examples = list(examples)
        self.shards = shards
        self.slow = slow

    @property
    def n(self):
        return self.thorough if THOROUGH else self.quick


class Ctx:
    def __init__(self):
        self.is_nontrivial = False
        self.labels = []
        self._dirs = []

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, s):
        self.labels.append(s)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix='case', dir=os.environ.get('VERIF_SCRATCH') or None)
        self._dirs.append(d)
        return d

    def close(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(a, b, what):
    if not (a == b):
        raise Violation('%s: got %r, expected %r' % (what, a, b))


def close(a, b, what, rtol=1e-9, atol=0.):
    """elementwise closeness, with shape"""
    aa = np.asarray(a, dtype=float)
    bb = np.asarray(b, dtype=float)
    if aa.shape != bb.shape:
        raise Violation('%s: shape %s, expected %s: %r vs %r' % (what, aa.shape, bb.shape, a, b))
    if aa.size == 0:
        return
    with np.errstate(all='ignore'):
        ok = np.isclose(aa, bb, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        i = np.argwhere(~np.atleast_1d(ok))[0]
        raise Violation('%s: got %r, expected %r (first difference at %s: %r vs %r)' % (
            what, short(a), short(b), tuple(int(e) for e in i),
            float(np.atleast_1d(aa)[tuple(i)]), float(np.atleast_1d(bb)[tuple(i)])))


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


@contextlib.contextmanager
def quiet():
    """capture stdout/stderr of the code under test; yields the stdout buffer"""
    o = io.StringIO()
    e = io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o


@contextlib.contextmanager
def cwd(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def expect_exit(f, *a, mentions=None, what='call', **k):
    """f must refuse by SystemExit with a message (not a traceback)"""
    try:
        with quiet():
            r = f(*a, **k)
    except SystemExit as e:
        msg = str(e.code if e.code is not None else '')
        if mentions is not None and mentions not in msg:
            raise Violation('%s: refused with message %r which does not mention %r' % (what, msg, mentions))
        if not isinstance(e.code, str) or not e.code.strip():
            raise Violation('%s: refused without an explanatory message (%r)' % (what, e.code))
        return msg
    raise Violation('%s: should be refused, but returned %s' % (what, short(r)))


def jdump(x):
    return json.dumps(x, sort_keys=True, allow_nan=True)


def chash(x):
    return hashlib.blake2b(jdump(x).encode(), digest_size=8).hexdigest()


def stable_seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), 'big')


def rnd(x, n=6):
    """round float to n significant digits (generated decimal-ish values)"""
    return float('%.*g' % (n, x))


def _frames(tb):
    out = []
    while tb is not None:
        out.append(os.path.realpath(tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    return out


def classify(exc):
    """'skip', 'violation' or 'harness'"""
    if isinstance(exc, Skip):
        return 'skip'
    if isinstance(exc, HarnessError):
        return 'harness'
    if isinstance(exc, AssertionError):
        return 'violation'
    if isinstance(exc, CaseTimeout):
        return 'violation'
    frames = _frames(exc.__traceback__)
    if any(f.startswith(REPO_SRC) for f in frames):
        if isinstance(exc, (MemoryError,)):
            return 'harness'
        return 'violation'
    if isinstance(exc, (TypeError, KeyError, IndexError, ValueError, FileNotFoundError)):
        return 'violation'  # a result of the code under test has the wrong form for the oracle to read
    return 'harness'


def _alarm(sig, frame):
    raise CaseTimeout('case did not finish within %d s' % CASE_TIMEOUT)


def run_case(sub, case):
    """-> (outcome, message, ctx); outcome: ok, skip, violation, harness"""
    ctx = Ctx()
    here = os.getcwd()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    np_err = np.geterr()
    try:
        sub.body(case, ctx)
        return 'ok', '', ctx
    except StopSearch:
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if type(e).__module__.startswith('hypothesis') or type(e).__name__ in ('StopTest', 'UnsatisfiedAssumption'):
            raise
        kind = classify(e)
        msg = '%s: %s' % (type(e).__name__, e)
        if kind != 'skip' and not isinstance(e, Violation):
            tb = traceback.extract_tb(e.__traceback__)[-4:]
            msg += ' @ ' + ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb))
        return kind, msg, ctx
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(here)
        np.seterr(**np_err)
        ctx.close()
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.skips = 0
        self.labels = {}
        self.samples = []
        self.failure = None  # (case, message)
        self.harness = None

    def add(self, case, outcome, ctx):
        self.evaluations += 1
        if outcome == 'skip':
            self.skips += 1
        for l in ctx.labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if ctx.is_nontrivial and outcome == 'ok':
            h = chash(case)
            if h not in self.hashes:
                self.hashes.add(h)
                n = len(self.hashes)
                if n in (1, 3, 10, 30):
                    s = jdump(case)
                    self.samples.append(case if len(s) < 1500 else s[:1500] + '...')


def run_sub(sub, prop, shard=0, shards=1, soft_cap=None, shrink_cap=60):
    """run one sub-check (or one shard of it); returns a plain dict"""
    import time
    import hypothesis as H
    from hypothesis import HealthCheck, Phase, settings

    st = Stats()
    t0 = time.time()
    state = {'first_fail': None, 'capped': False}

    def one(case):
        if state['first_fail'] is not None and time.time() - state['first_fail'] > shrink_cap:
            raise StopSearch()
        if soft_cap and state['first_fail'] is None and time.time() - t0 > soft_cap:
            state['capped'] = True
            raise StopSearch()
        if st.harness:
            raise StopSearch()
        outcome, msg, ctx = run_case(sub, case)
        st.add(case, outcome, ctx)
        if outcome == 'skip':
            H.reject()
        if outcome == 'harness':
            st.harness = (case, msg)
            raise StopSearch()
        if outcome == 'violation':
            if state['first_fail'] is None:
                state['first_fail'] = time.time()
            st.failure = (case, msg)
            raise Violation(msg)

    n = max(1, int(math.ceil(sub.n / shards)))
    try:
        if shard == 0:
            for ex in sub.examples:
                outcome, msg, ctx = run_case(sub, ex)
                st.add(ex, outcome, ctx)
                if outcome == 'harness':
                    st.harness = (ex, msg)
                    break
                if outcome == 'violation':
                    st.failure = (ex, msg)
                    break
        if sub.strategy is not None and st.failure is None and st.harness is None:
            f = H.given(sub.strategy)(one)
            f = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                         report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                         phases=[Phase.generate, Phase.shrink], verbosity=H.Verbosity.quiet)(f)
            f = H.seed(stable_seed(SEED, prop, sub.name, shard))(f)
            with quiet():
                f()
    except (Violation, StopSearch):
        pass
    except BaseException as e:
        if st.failure is None and st.harness is None:
            if type(e).__name__ == 'Unsatisfiable':
                pass
            else:
                st.harness = (None, 'hypothesis: %s: %s' % (type(e).__name__, e) + traceback.format_exc()[-1500:])
    return {'sub': sub.name, 'shard': shard, 'evaluations': st.evaluations, 'skips': st.skips,
            'hashes': sorted(st.hashes), 'labels': st.labels, 'samples': st.samples, 'failure': st.failure,
            'harness': st.harness, 'wall_s': round(time.time() - t0, 2), 'capped': state['capped']}
