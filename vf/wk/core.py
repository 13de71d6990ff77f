"""Shared by every property module on the worker side."""
import math
import os
import traceback

inf = float('inf')


class Violation(Exception):
    pass


class Discard(Exception):
    pass


class Ctx:
    def __init__(self):
        self.nt = False
        self.tags = set()
        self.trail = []

    def tag(self, *ts):
        self.tags.update(ts)

    def note(self, s):
        self.trail.append(str(s)[:400])


def in_sut(exc, lib):
    """Does the traceback pass through the code under test?"""
    lib = os.path.realpath(os.path.join(lib, 'sppl')) + os.sep
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            fn = fr.filename
            if os.path.realpath(fn).startswith(lib):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, rel=1e-6, abs_=1e-8):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def check_close(got, want, what, rel=1e-6, abs_=1e-8):
    try:
        g = float(got)
    except Exception as e:
        raise Violation('%s: answer %r is not a number (%s)' % (what, got, e))
    if not close(g, float(want), rel, abs_):
        raise Violation('%s: got %.17g, reference %.17g' % (what, g, float(want)))


def expect_error(f, what, kinds=(Exception,)):
    try:
        r = f()
    except kinds:
        return
    except Exception as e:
        raise Violation('%s: raised %s(%s) instead of %s'
                        % (what, type(e).__name__, e, [k.__name__ for k in kinds]))
    raise Violation('%s: accepted, gave %s' % (what, str(r)[:300]))
