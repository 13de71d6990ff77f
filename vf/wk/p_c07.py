"""C07: the solution set of a single-variable event, against pointwise truth."""
import math
import build, ref
from core import check, Discard
import sympy
from sppl.sets import EmptySet, FiniteReal, FiniteNominal, Interval, Union
from p_c08 import canonical

GRID = [ref.F(k, 2) for k in range(-12, 17)] + [ref.F(k, 3) for k in (-5, -4, -2, -1, 1, 2, 4, 5)] \
    + [ref.F(20), ref.F(-20), ref.F(1000), ref.F(-1000), ref.F(1, 1000), ref.F(-1, 1000)]


def has_float(j):
    if isinstance(j, float):
        return True
    if isinstance(j, dict):
        return False
    return isinstance(j, list) and any(has_float(x) for x in j)


def near(lit, y, fuzzy):
    """Is value y too close to an end point to be decided in floating point?"""
    for t in ref.endpoints(lit[3]):
        if t in ref.INFS:
            continue
        if isinstance(y, ref.F) and isinstance(t, ref.F) and not fuzzy:
            continue
        if abs(float(y) - float(t)) <= 1e-7 * max(1, abs(float(t))):
            return True
    return False


def decide(ev, x):
    """Truth at x, or None when not decidable robustly."""
    states = []
    fuzzy = has_float(ev)
    for l in ref.literals(ev):
        y = ref.ev_expr(l[2], x)
        if y is not None and near(l, y, fuzzy):
            return None
        states.append(ref.lit_state(l, x))
    return ref.ev_bool(ev, states)


def probe_points(ev):
    """(points to test, approximate break points)"""
    bps = sorted(b for b in ref.crit_event(ev) if abs(b) < 1e12)
    probes = list(GRID)
    pts = [-1e13] + bps + [1e13]
    for a, b in zip(pts, pts[1:]):
        if b - a > 1e-6 * max(1, abs(a), abs(b)):
            m = ref.midpoint(a if a != -1e13 else -ref.inf, b if b != 1e13 else ref.inf)
            if m is not None:
                probes.append(m)
                if a != -1e13 and b != 1e13:
                    probes.append(a + (b - a) * 0.01)
                    probes.append(a + (b - a) * 0.99)
    # exact rational break points
    for b in bps:
        f = ref.F(b).limit_denominator(64)
        if abs(float(f) - b) < 1e-9:
            probes.append(f)
    return probes, [float(b) for b in bps]


def run(case, ctx):
    ev = case['ev']
    probes, bset = probe_points(ev)          # discards thresholds beyond floating point
    event = build.ev(ev)
    ctx.note('event %s' % (event,))
    sol = event.solve()
    ctx.note('solution %s' % (sol,))
    canonical(sol, 'solution')
    seen_t = seen_f = 0
    for x in probes:
        if isinstance(x, float) and any(abs(x - b) <= 1e-7 * max(1, abs(b)) for b in bset):
            continue
        try:
            want = decide(ev, x)
        except Discard:
            continue
        if want is None:
            continue
        xs = sympy.Rational(x.numerator, x.denominator) if isinstance(x, ref.F) else x
        got = xs in sol
        check(got == want, '%s at %s is %s but its solution %s %s it',
              event, xs, want, sol, 'contains' if got else 'lacks')
        seen_t += want
        seen_f += not want
    for s in ('a', 'b', 'zz'):
        want = ref.truth_at(ev, s)
        check((s in sol) == want, '%s at %r is %s but its solution is %s', event, s, want, sol)
    # The probability of the solution is what a leaf reports; also compare with ~.
    ls = ref.literals(ev)
    depth = max(depth_of(l[2]) for l in ls)
    ctx.nt = bool(seen_t and seen_f and (depth >= 1 or len(ls) > 1))
    ctx.tag('depth:%d' % depth, 'lits:%d' % len(ls), 'sol:%s' % type(sol).__name__,
            'result:%s' % ('mixed' if seen_t and seen_f else 'all' if seen_t else 'none'))
    for l in ls:
        for op in ops(l[2]):
            ctx.tag('op:' + op)


def ops(e):
    if not isinstance(e, list) or not e or not isinstance(e[0], str):
        return
    yield e[0]
    for s in e[1:]:
        if isinstance(s, list):
            yield from ops(s)


def depth_of(e):
    return sum(1 for _ in ops(e)) - 1
