"""Harness core: cases, violations, recording.

A *sub-check* is a Hypothesis strategy producing a plain JSON-able case, and a
function ``run(case, rec)`` which drives the real code and compares it with an
oracle.  ``run`` raises :class:`Violation` when the oracle disagrees.  An
exception which passes through a frame of the code under test on an input the
generator promises to be valid is a violation too ("raised on a valid input");
every other exception is an error of the harness.
"""

import hashlib
import json
import os
import traceback

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
HOME = os.environ.get('VERIF_HOME', os.path.dirname(os.path.dirname(__file__)))


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    pass


class Abort(KeyboardInterrupt):
    """Stops Hypothesis' shrinking when its time budget is used up."""


class Rec:
    """Per-case recorder: labels and non-triviality."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def label(self, *labels):
        self.labels.extend(str(x) for x in labels)

    def mark(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, shards=8):
        self.name = name
        self.strategy = strategy  # zero-arg callable returning a strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


def in_repo(fn):
    try:
        return os.path.realpath(fn).startswith(REPO + os.sep + 'multisim')
    except Exception:  # pragma: no cover
        return False


def raised_in_repo(exc):
    """True if the exception left a frame of the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if in_repo(tb.tb_frame.f_code.co_filename):
            return True
        tb = tb.tb_next
    return False


def short_tb(exc):
    out = []
    for fr in traceback.extract_tb(exc.__traceback__)[-4:]:
        out.append(
            '%s:%s %s' % (os.path.basename(fr.filename), fr.lineno, fr.name)
        )
    return ' <- '.join(reversed(out))


def evaluate(sub, case):
    """Run one case.  Returns (rec, violation or None)."""
    rec = Rec()
    try:
        sub.run(case, rec)
    except Violation as v:
        return rec, v
    except Abort:
        raise
    except Exception as exc:
        if raised_in_repo(exc):
            v = Violation(
                'raised %s on a valid input: %s [%s]'
                % (type(exc).__name__, str(exc)[:300], short_tb(exc))
            )
            return rec, v
        if isinstance(exc, (ValueError, IndexError, ZeroDivisionError)):
            # the oracle could not read the result (missing rows, wrong shape)
            return rec, Violation(
                'result has an unexpected shape or value: %s: %s [%s]'
                % (type(exc).__name__, str(exc)[:300], short_tb(exc))
            )
        raise
    return rec, None


def canon(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(type(o))


def digest(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def require(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg % args if args else msg, key=key)
