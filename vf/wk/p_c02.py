"""C02: laws that relate several probabilities of one model."""
import math
import build, ref
from core import check, check_close, Discard

TOL = dict(rel=1e-7, abs_=2e-8)


def AND(*e):
    return ['and', list(e)]


def OR(*e):
    return ['or', list(e)]


def NOT(e):
    return ['not', e]


def run(case, ctx):
    m, A, B = case['m'], case['A'], case['B']
    try:
        spe = build.model(m, case.get('style', 0))
    except ValueError as e:
        if 'ero' in str(e) and 'cond' in feats(m):
            raise Discard('conditioning on a null event')
        raise
    seen = {}

    def P(e):
        k = repr(e)
        if k not in seen:
            event = build.ev(e)
            ctx.note('P(%s)' % (event,))
            p = float(spe.prob(event))
            check(-1e-9 <= p <= 1 + 1e-9, 'P(%s) = %r is not in [0,1]', event, p)
            seen[k] = p
        return seen[k]
    a, b = P(A), P(B)
    na = P(NOT(A))
    sa, sb = build.ev(A), build.ev(B)

    def small(*es):
        """Inclusion-exclusion is exponential in the number of clauses."""
        ok = all(ref.dnf_sizes(e)[0] <= 9 for e in es)
        ctx.tag('law:applied' if ok else 'law:skipped')
        return ok
    check_close(a + na, 1.0, 'P(A)+P(not A) for A = %s' % (sa,), **TOL)
    if small(AND(A, B), OR(A, B)):
        ab, aob = P(AND(A, B)), P(OR(A, B))
        check_close(ab + aob, a + b, 'P(A and B)+P(A or B) vs P(A)+P(B) for A = %s, B = %s' % (sa, sb), **TOL)
        check(ab <= min(a, b) + 1e-8, 'P(A and B) = %r exceeds P(A) = %r or P(B) = %r for A = %s, B = %s',
              ab, a, b, sa, sb)
        check(aob >= max(a, b) - 1e-8, 'P(A or B) = %r is below P(A) = %r or P(B) = %r for A = %s, B = %s',
              aob, a, b, sa, sb)
        if small(AND(A, NOT(B))):
            check_close(P(AND(A, NOT(B))) + ab, a, 'P(A and not B)+P(A and B) for A = %s, B = %s' % (sa, sb), **TOL)
    if small(AND(A, NOT(A))):
        check_close(P(AND(A, NOT(A))), 0.0, 'P(A and not A) for A = %s' % (sa,), **TOL)
    if small(OR(A, NOT(A))):
        check_close(P(OR(A, NOT(A))), 1.0, 'P(A or not A) for A = %s' % (sa,), **TOL)
    for rule, e in case['rw']:
        if small(e):
            check_close(P(e), a, 'P of %s rewritten (%s) to %s' % (sa, rule, build.ev(e)), **TOL)
            ctx.tag('rule:' + rule)
    cells = case['cells']
    check_close(sum(P(c) for c in cells), 1.0, 'sum over a partition of %s' % cells[0][1], **TOL)
    if small(*[AND(A, c) for c in cells]):
        check_close(sum(P(AND(A, c)) for c in cells), a, 'sum of P(A and cell) for A = %s' % (sa,), **TOL)
    ctx.tag(*['model:' + t for t in feats(m)])
    inner = 1e-6 < a < 1 - 1e-6
    ctx.tag('p:interior' if inner else 'p:extreme')
    ctx.nt = inner and bool(case['rw'])


def feats(m, acc=None):
    acc = set() if acc is None else acc
    acc.add(m['t'])
    if 'm' in m:
        feats(m['m'], acc)
    for c in m.get('c', ()):
        feats(c[1] if isinstance(c, list) else c, acc)
    return acc
