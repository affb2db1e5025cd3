"""Facets, violations, and running one case."""
import signal
import traceback
from .env import HarnessError, PY


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(BaseException):
    pass


class Reject(Exception):
    """The plan is outside the domain (counted, never silently common)."""


def need(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def same(got, want, what):
    if got != want:
        raise Violation("%s: got %s, want %s" % (what, _short(got), _short(want)) + diff_at(got, want))


def _short(v, n=400):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def diff_at(a, b, path=""):
    """Locate the first difference in nested data."""
    try:
        if type(a) is type(b):
            if isinstance(a, dict):
                for k in list(a) + [k for k in b if k not in a]:
                    if k not in a or k not in b:
                        return " [differs at %s[%r]: present only on one side]" % (path, k)
                    if a[k] != b[k]:
                        return diff_at(a[k], b[k], "%s[%r]" % (path, k))
            elif isinstance(a, (list, tuple)):
                for i in range(min(len(a), len(b))):
                    if a[i] != b[i]:
                        return diff_at(a[i], b[i], "%s[%d]" % (path, i))
                return " [differs at %s: length %d vs %d]" % (path, len(a), len(b))
            elif isinstance(a, (str, bytes)):
                k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                lo = max(0, k - 20)
                return " [differs at %s offset %d of %d/%d: ...%r vs ...%r]" % (
                    path, k, len(a), len(b), a[lo:k + 40], b[lo:k + 40])
        return " [differs at %s: %s vs %s]" % (path, _short(a, 120), _short(b, 120))
    except Exception:
        return ""


def raises(kinds, fn, what):
    """fn() must raise one of kinds."""
    try:
        r = fn()
    except kinds:
        return
    except Exception as e:
        raise Violation("%s: raised %s(%s), want %s" % (what, type(e).__name__, e, kinds))
    raise Violation("%s: accepted (returned %s), must be rejected with %s" % (what, _short(r, 120), kinds))


class Facet:
    """One generated check: strategy() -> hypothesis strategy of plans, check(plan, rec)."""

    def __init__(self, name, strategy, check, rule, quick, thorough, examples=(), case_seconds=30):
        self.name, self.strategy, self.check, self.rule = name, strategy, check, rule
        self.quick, self.thorough = quick, thorough
        self.examples = list(examples)
        self.case_seconds = case_seconds


class Rec:
    """Per-case record: labels and whether the case is non-trivial by the facet's rule."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True


def run_case(facet, plan, rec):
    """Run one case; any failure that is not the harness's own is a Violation."""
    def onalarm(signum, frame):
        raise Hang()
    # CPU seconds of this process, so a loaded machine does not make a case "hang"; repeats in
    # case the first one is swallowed
    old = signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, facet.case_seconds, 1.0)
    try:
        facet.check(plan, rec)
    except (Violation, Reject, HarnessError):
        raise
    except Hang:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # an exception out of the code under test, or from its wrong answer
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(PY)]
        last = where[-1] if where else tb[-1]
        raise Violation("%s: %s (raised at %s:%s in %s)" % (
            type(e).__name__, e, last.filename, last.lineno, last.name)) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
