"""C17: mutual information of two events."""
import math
import build, ref
from core import check, check_close, Discard
from p_c02 import feats
from sppl.spe import Memo


def h(p):
    return -p * math.log(p) if p > 0 else 0.0


def mi(t):
    """From the probabilities of the four joint outcomes."""
    n = sum(t.values())
    t = {k: max(v, 0) / n for k, v in t.items()}
    pa = {i: t[i, 0] + t[i, 1] for i in (0, 1)}
    pb = {j: t[0, j] + t[1, j] for j in (0, 1)}
    return sum(p * (math.log(p) - math.log(pa[i]) - math.log(pb[j])) for (i, j), p in t.items() if p > 0)


def conj(a, b):
    return ['and', [a, b]]


def err(p):
    """Error of -p log p for an error of about 1e-7 in p."""
    return 2e-6


def run(case, ctx):
    m, a, b, style = case['m'], case['a'], case['b'], case['style']
    ref.validate(m)
    na, nb = ['not', a], ['not', b]
    keys = [(1, 1), (1, 0), (0, 1), (0, 0)]
    evs = [conj(a, b), conj(a, nb), conj(na, b), conj(na, nb)]
    table = dict(zip(keys, ref.probs(m, evs)))
    want = mi(table)
    pa, pb = table[1, 1] + table[1, 0], table[1, 1] + table[0, 1]
    spe = build.model(m, style)
    A, B = build.ev(a), build.ev(b)
    before = hash(spe), hash(A), hash(B), repr(A), repr(B)
    for x in feats(m):
        ctx.tag('model:' + x)
    ctx.tag('A:' + ('degenerate' if not 1e-9 < pa < 1 - 1e-9 else 'proper'),
            'B:' + ('degenerate' if not 1e-9 < pb < 1 - 1e-9 else 'proper'))

    def get(x, y, memo=None):
        r = spe.mutual_information(x, y) if memo is None else spe.mutual_information(x, y, memo)
        r = float(r)
        check(math.isfinite(r), 'the mutual information of %s and %s is %r', x, y, r)
        check(r >= -1e-9, 'the mutual information of %s and %s is %r', x, y, r)
        check(r <= math.log(2) + 1e-9, 'the mutual information of %s and %s is %r', x, y, r)
        return r
    tol = dict(rel=2e-5, abs_=5e-6)
    got = get(A, B)
    check_close(got, want, 'mutual information of %s and %s' % (A, B), **tol)
    # From the probabilities the model itself reports.
    t = {(i, j): float(spe.prob(build.ev(e))) for (i, j), e in zip(keys, evs)}
    check_close(got, mi(t), 'mutual information of %s and %s from the four probabilities' % (A, B), rel=1e-6, abs_=1e-8)
    near = dict(rel=1e-6, abs_=1e-8)
    check_close(get(B, A), got, 'mutual information of %s and %s (exchanged)' % (B, A), **near)
    NA, NB = ~A, ~B
    check_close(get(NA, B), got, 'mutual information of %s and %s (complement)' % (NA, B), **near)
    check_close(get(A, NB), got, 'mutual information of %s and %s (complement)' % (A, NB), **near)
    check_close(get(NA, NB), got, 'mutual information of %s and %s (complements)' % (NA, NB), **near)
    # An event and itself, and its complement: the entropy.
    for x, p, e in ((A, pa, a), (B, pb, b)):
        check_close(get(x, x), h(p) + h(1 - p), 'mutual information of %s and itself' % (x,), **tol)
        check_close(get(x, ~x), h(p) + h(1 - p), 'mutual information of %s and its complement' % (x,), **tol)
        check(got <= get(x, x) + 1e-8, 'mutual information of %s and %s exceeds the entropy of %s', A, B, x)
    # Trivial events.
    T, F = build.ev(case['triv']), build.ev(['not', case['triv']])
    for x in (A, B):
        for y in (T, F):
            check_close(get(x, y), 0, 'mutual information of %s and the trivial %s' % (x, y), rel=0, abs_=1e-8)
            check_close(get(y, x), 0, 'mutual information of the trivial %s and %s' % (y, x), rel=0, abs_=1e-8)
    check_close(get(T, T), 0, 'mutual information of trivial events', rel=0, abs_=1e-8)
    check_close(get(T, F), 0, 'mutual information of trivial events', rel=0, abs_=1e-8)
    # A shared cache.
    memo = Memo()
    for x, y in ((A, B), (B, A), (A, A), (A, B)):
        check_close(get(x, y, memo), get(x, y), 'mutual information of %s and %s with a shared cache' % (x, y), rel=1e-9, abs_=1e-11)
    # Written differently.
    if case['b2'] is not None:
        check_close(get(A, build.ev(case['b2'])), got, 'mutual information of %s and %s, rewritten from %s' % (A, build.ev(case['b2']), B), **near)
        ctx.tag('rewritten')
    # Given a third event.
    c = case['c']
    if c is not None and ref.prob(m, c) > 1e-3:
        m2 = {'t': 'cond', 'm': m, 'e': c}
        ref.validate(m2)
        p = spe.condition(build.ev(c))
        w = mi(dict(zip(keys, ref.probs(m2, evs))))
        check_close(float(p.mutual_information(A, B)), w, 'mutual information of %s and %s given %s' % (A, B, build.ev(c)), rel=1e-4, abs_=2e-5)
        ctx.tag('posterior')
    check((hash(spe), hash(A), hash(B), repr(A), repr(B)) == before, 'model or events changed')
    if want > 1e-6:
        ctx.nt = True
    elif 1e-4 < pa < 1 - 1e-4 and 1e-4 < pb < 1 - 1e-4:
        ctx.tag('independent')
