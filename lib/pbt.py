"""A small property-based-testing harness on top of Hypothesis.

A check module (checks/<id>.py) defines PROPERTY, RULE, ASSUMPTIONS and a list PARTS.  Each part has a
Hypothesis strategy producing a JSON-able *case* and a function check(case, ctx) which drives the
code under test and raises Violation when an oracle disagrees.  Because a case is plain data, the
shrunk failure is written as a JSON replay file that can be re-run without Hypothesis.
"""

import hashlib
import json
import math
import os
import signal
import traceback
import zlib

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property is broken by this case.  `key` identifies the failing site for known findings."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = str(msg)
        self.key = key


class Discard(Exception):
    """The case is outside the domain (counted, not judged)."""


class Ctx:
    """Collects what a case covered."""

    def __init__(self, known=()):
        self.labels = []
        self.nontrivial_ = False
        self.known = set(known)
        self.known_hits = []
        self.sub = 0
        self.sample = None

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, flag=True):
        if flag:
            self.nontrivial_ = True

    def fail(self, msg, key=None):
        """Report a disagreement: a listed known finding is counted, anything else is a violation."""
        if key is not None and key in self.known:
            self.known_hits.append(key)
            return
        raise Violation(msg, key)

    def require(self, cond, msg, key=None):
        self.sub += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return bool(cond)

    def close(self, a, b, what, rtol=1e-9, atol=1e-12, key=None):
        self.sub += 1
        a_ = np.asarray(a, dtype=float)
        b_ = np.asarray(b, dtype=float)
        ok = a_.shape == b_.shape or a_.size == 1 or b_.size == 1
        if ok:
            with np.errstate(all='ignore'):
                # nan in both and equal infinities count as agreement
                d = np.abs(a_ - b_) <= atol + rtol * np.maximum(np.abs(a_), np.abs(b_))
                d = d | (a_ == b_) | (np.isnan(a_) & np.isnan(b_))
            ok = bool(np.all(d))
        if not ok:
            self.fail(f'{what}: got {short(a)} expected {short(b)} (rtol={rtol}, atol={atol})', key)


def short(x, n=400):
    try:
        s = np.array2string(np.asarray(x), precision=12, threshold=40)
    except Exception:
        s = repr(x)
    return s if len(s) <= n else s[: n - 3] + '...'


class Part:
    def __init__(
        self,
        name,
        strategy,
        check,
        quick,
        thorough=None,
        shards=None,
        shrink=True,
        weight=1.0,
        shrink_budget=40.0,
        setup=None,
        enumerate_cases=None,
        case_limit=60.0,
        hang_fails=False,
    ):
        """quick/thorough: total number of generated cases over all shards."""
        self.name = name
        self.strategy = strategy
        self.check = check
        self.n = {'quick': quick, 'thorough': thorough if thorough is not None else quick * 10}
        self.shards = shards
        self.shrink = shrink
        self.weight = weight
        self.shrink_budget = shrink_budget
        self.setup = setup
        self.enumerate_cases = enumerate_cases
        self.case_limit = case_limit
        self.hang_fails = hang_fails


def frames_in_repo(tb):
    names = []
    for f in traceback.extract_tb(tb):
        fn = os.path.realpath(f.filename)
        if fn.startswith(os.path.realpath(REPO) + os.sep):
            names.append(f'{os.path.relpath(fn, os.path.realpath(REPO))}:{f.name}')
    return names


class Crash(Violation):
    pass


class CaseTimeout(BaseException):
    """The case ran out of its time; outside the judged domain unless the part says otherwise."""


def _on_alarm(signum, frame):
    raise CaseTimeout()


def run_case(part, case, ctx):
    """Run one case; turn an unexpected exception raised inside the code under test into Violation."""
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, part.case_limit)
    try:
        part.check(case, ctx)
    except (Violation, Discard):
        raise
    except CaseTimeout as exc:
        ctx.label('case_timeout')
        if part.hang_fails:
            raise Violation(f'no answer within {part.case_limit} s', 'hang') from exc
        raise Discard() from exc
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError as exc:
        ctx.label('out_of_memory')
        raise Discard() from exc
    except BaseException as exc:  # noqa: BLE001
        if type(exc).__module__.startswith('hypothesis'):
            raise
        names = frames_in_repo(exc.__traceback__)
        if names:
            key = f'crash:{type(exc).__name__}@{names[-1]}'
            msg = f'unexpected {type(exc).__name__} from {names[-1]}: {str(exc)[:600]}'
            if key in ctx.known:
                ctx.known_hits.append(key)
                return
            raise Crash(msg, key) from exc
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def jdefault(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, (set, frozenset, tuple)):
        return list(o)
    return repr(o)


def case_hash(case):
    return hashlib.sha1(
        json.dumps(case, default=jdefault, sort_keys=True).encode()
    ).hexdigest()[:12]


def shard_seed(seed, part_name, shard):
    return zlib.crc32(f'{seed}/{part_name}/{shard}'.encode()) ^ (int(seed) & 0x7FFFFFFF)


def finite(x):
    return isinstance(x, (int, float)) and math.isfinite(x)
