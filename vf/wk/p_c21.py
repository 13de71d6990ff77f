"""C21: polynomial events without the symbolic solver."""
import contextlib, math, os
import build, ref
from core import check, check_close, Discard
from p_c02 import feats
from p_c07 import probe_points, decide, ops
from p_c08 import canonical
from sppl import poly
from sppl.sets import EmptySet, Interval
import sympy

if hasattr(poly, 'TIMEOUT_SYMBOLIC'):
    poly.TIMEOUT_SYMBOLIC = 1        # (the numeric answer takes over)
TOL = dict(rel=1e-5, abs_=1e-6)


@contextlib.contextmanager
def numeric(how):
    """No symbolic solutions: by configuration, by a timeout, or because the
    symbolic solver gives none."""
    name = 'solve_poly_inequality_symbolically'
    orig = getattr(poly, name, None)
    if how == 'env' or orig is None:
        os.environ['SPPL_NO_SYMBOLIC'] = '1'
    elif how == 'timeout':
        def f(*args):
            raise TimeoutError('timeout')
        setattr(poly, name, f)
    else:
        x = sympy.Symbol('x')
        setattr(poly, name, lambda *args: sympy.ConditionSet(x, x > 0, sympy.Reals))
    try:
        yield
    finally:
        os.environ.pop('SPPL_NO_SYMBOLIC', None)
        if orig is not None:
            setattr(poly, name, orig)


def run(case, ctx):
    ctx.tag(case['kind'], 'how:' + case['how'])
    if case['kind'] == 'solve':
        return solve(case, ctx)
    m, evs, cond, style = case['m'], case['evs'], case['cond'], case['style']
    ref.validate(m)
    for x in feats(m):
        ctx.tag('model:' + x)
    want = ref.probs(m, evs)
    post = None
    if ref.prob(m, cond) > 1e-3:
        m2 = {'t': 'cond', 'm': m, 'e': cond}
        ref.validate(m2)
        post = ref.probs(m2, evs)
    with numeric(case['how']):
        spe = build.model(m, style)
        got = [float(spe.prob(build.ev(e))) for e in evs]
        for e, p, q in zip(evs, got, want):
            check_close(p, q, 'numerically: P(%s)' % build.ev(e), **TOL)
            if 1e-4 < q < 1 - 1e-4:
                ctx.nt = True
        if post is not None:
            after = spe.condition(build.ev(cond))
            pgot = [float(after.prob(build.ev(e))) for e in evs]
            for e, p, q in zip(evs, pgot, post):
                check_close(p, q, 'numerically: P(%s given %s)' % (build.ev(e), build.ev(cond)), rel=1e-4, abs_=1e-5)
            ctx.tag('posterior')
    # The model itself does not depend on how its events were solved.
    for e, p in zip(evs, got):
        check_close(float(spe.prob(build.ev(e))), p, 'symbolically, numerically: P(%s)' % build.ev(e), **TOL)
    if post is not None:
        for e, p in zip(evs, pgot):
            check_close(float(after.prob(build.ev(e))), p, 'symbolically, numerically: P(%s given %s)' % (build.ev(e), build.ev(cond)), rel=1e-4, abs_=1e-5)


def solve(case, ctx):
    ev = case['ev']
    event = build.ev(ev)
    ctx.note('event %s' % (event,))
    probes, bset = probe_points(ev)
    with numeric(case['how']):
        sol = event.solve()
    ctx.note('solution %s' % (sol,))
    canonical(sol, 'numeric solution')
    for s in ('a', 'zz'):
        check((s in sol) == ref.truth_at(ev, s), '%s at %r: its numeric solution is %s', event, s, sol)
    t = f = 0
    truth = {}

    def at(x):
        try:
            return decide(ev, x)
        except Discard:
            return None
    for x in probes:
        if any(abs(float(x) - b) <= 1e-5 * max(1, abs(b)) for b in bset):
            continue
        want = at(x)
        if want is None:
            continue
        xs = sympy.Rational(x.numerator, x.denominator) if isinstance(x, ref.F) else x
        got = xs in sol
        check(got == want, '%s at %s is %s but its numeric solution %s %s it', event, xs, want, sol, 'contains' if got else 'lacks')
        t, f = t + want, f + (not want)
    # Break points that are nice numbers: isolated solutions are found.
    for x in probes:
        if not isinstance(x, ref.F) or not any(abs(float(x) - b) <= 1e-9 for b in bset):
            continue
        d = min([abs(float(x) - b) for b in bset if abs(float(x) - b) > 1e-9] + [1.0]) / 3
        if d < 1e-3:
            continue
        d = ref.F(d).limit_denominator(1000)
        here, left, right = at(x), at(x - d), at(x + d)
        if here is None or left is None or right is None or left or right:
            continue
        w = 1e-6 * max(1, abs(float(x)))
        some = (sol & Interval(float(x) - w, float(x) + w)) is not EmptySet
        check(some == here, '%s at %s is %s, and false around, but its numeric solution is %s', event, x, here, sol)
        ctx.tag('isolated:%s' % here)
        t, f = t + here, f + (not here)
    ctx.nt = bool(t and f)
    for l in ref.literals(ev):
        for op in ops(l[2]):
            ctx.tag('op:' + op)
