"""C08: set operators against pointwise membership."""
import itertools
import build, ref
from core import check, Discard
from sppl.sets import (EmptySet, FiniteNominal, FiniteReal, Interval, Set, Union)

LEAVES = ('iv', 'in', 'ins', 'nins', 'lt', 'le', 'gt', 'ge')


def member(t, x):
    """Reference membership of a number (Fraction or +-inf) or string."""
    op = t[0]
    if op == 'empty':
        return False
    if op == 'and':
        return member(t[1], x) and member(t[2], x)
    if op == 'or':
        return member(t[1], x) or member(t[2], x)
    if op == 'not':
        # Complements are within the strings or within the (finite) reals.
        if isinstance(x, str) != (kind(t[1]) == 's') or x in ref.INFS:
            return False
        return not member(t[1], x)
    if isinstance(x, str):
        return any(p[0] == 'str' and ((x in p[1]) != p[2]) for p in ref.pieces(t))
    for p in ref.pieces(t):
        if p[0] == 'pt' and p[1] == x:
            return True
        if p[0] == 'iv':
            _, a, b, lo, ro = p
            lo, ro = lo or a in ref.INFS, ro or b in ref.INFS
            if (a < x or (a == x and not lo)) and (x < b or (x == b and not ro)):
                return True
    return False


def kind(t):
    op = t[0]
    if op in ('and', 'or'):
        a, b = kind(t[1]), kind(t[2])
        return a if a == b else ('m' if a and b else a or b)
    if op == 'not':
        return kind(t[1])
    if op == 'empty':
        return None
    return 's' if op in ('ins', 'nins') else 'n'


def ends(t, acc):
    if t[0] in ('and', 'or'):
        ends(t[1], acc)
        ends(t[2], acc)
    elif t[0] == 'not':
        ends(t[1], acc)
    elif t[0] in ('ins', 'nins'):
        acc.update(t[1])
    elif t[0] != 'empty':
        acc.update(ref.endpoints(t))
    return acc


def snapshot(s):
    return (repr(s), str(s), hash(s))


def canonical(s, what):
    check(isinstance(s, Set), '%s: result %r is not a set' % (what, s))
    if s is EmptySet:
        return
    if isinstance(s, FiniteReal):
        check(len(s) > 0, '%s: empty FiniteReal' % what)
        vs = [float(v) for v in s.values]
        check(len(set(vs)) == len(vs), '%s: repeated element in %r' % (what, s))
        return
    if isinstance(s, FiniteNominal):
        check(s.b or len(s) > 0, '%s: empty FiniteNominal' % what)
        return
    if isinstance(s, Interval):
        check(s.a < s.b, '%s: empty interval %r' % (what, s))
        return
    check(isinstance(s, Union), '%s: unknown set %r' % (what, s))
    ivs = sorted(s.intervals, key=lambda i: (float(i.a), float(i.b)))
    for i, j in zip(ivs, ivs[1:]):
        check(i.b < j.a or (i.b == j.a and i.right_open and j.left_open),
              '%s: pieces %s and %s of %s touch or overlap' % (what, i, j, s))
    atoms = list(s.atoms) if s.atoms is not EmptySet else []
    for v in atoms:
        for i in ivs:
            check(v not in i, '%s: %s in two pieces of %s' % (what, v, s))
            check(not ((v == i.a and abs(float(v)) != ref.inf) or (v == i.b and abs(float(v)) != ref.inf)),
                  '%s: point %s touches piece %s of %s' % (what, v, i, s))
    n = len(ivs) + bool(atoms) + (s.nominals is not EmptySet)
    check(n >= 2, '%s: union of one piece %r' % (what, s))
    check(len(list(s)) == n and all(any(p == q for q in s.values) for p in s),
          '%s: iteration over %r does not list its pieces' % (what, s))


def sut(t, trail, ctx):
    op = t[0]
    if op == 'empty':
        return EmptySet
    if op in LEAVES:
        s = build.rset(t)
        trail.append((s, snapshot(s)))
        return s
    if op == 'not':
        a = sut(t[1], trail, ctx)
        k = kind(t[1])
        if k == 'm' or k is None or (k == 's' and a is EmptySet):
            raise Discard('complement across types')
        r = ~a
    else:
        a, b = sut(t[1], trail, ctx), sut(t[2], trail, ctx)
        r = (a & b) if op == 'and' else (a | b)
    canonical(r, '%s' % op)
    trail.append((r, snapshot(r)))
    return r


def rebuild(t, probes, order):
    """The same set assembled from maximal pieces, in the given order."""
    nums = sorted(x for x in probes if not isinstance(x, str) and x not in ref.INFS)
    ends_ = sorted(e for e in ends(t, set()) if not isinstance(e, str) and e not in ref.INFS)
    # elementary cells: (-inf,e0) {e0} (e0,e1) ... (en, inf)
    cells = []
    prev = -ref.inf
    for e in ends_:
        cells.append(('o', prev, e))
        cells.append(('p', e, e))
        prev = e
    cells.append(('o', prev, ref.inf))
    out = []
    for c in cells:
        if c[0] == 'p':
            if member(t, c[1]):
                out.append(FiniteReal(sym(c[1])))
        else:
            m = mid(c[1], c[2])
            if member(t, m):
                out.append(Interval(sym(c[1]), sym(c[2]), left_open=True, right_open=True))
    for i in ref.INFS:
        if member(t, i):
            out.append(FiniteReal(i))
    strs = sorted(x for x in probes if isinstance(x, str) and x != '~other')
    if member(t, '~other'):
        no = [x for x in strs if not member(t, x)]
        out.append(FiniteNominal(*no, b=True))
    else:
        yes = [x for x in strs if member(t, x)]
        if yes:
            out.append(FiniteNominal(*yes))
    idx = sorted(range(len(out)), key=lambda i: (order[i % len(order)], i)) if order else range(len(out))
    r = EmptySet
    for i in idx:
        r = r | out[i]
    return r, len(out)


def sym(x):
    import sympy
    if x in ref.INFS:
        return x
    return int(x) if x.denominator == 1 else sympy.Rational(x.numerator, x.denominator)


def mid(a, b):
    if a == -ref.inf and b == ref.inf:
        return ref.F(0)
    if a == -ref.inf:
        return b - 1
    if b == ref.inf:
        return a + 1
    return (a + b) / 2


def run(case, ctx):
    t = case['t']
    trail = []
    r = sut(t, trail, ctx)
    es = ends(t, set())
    probes = set(e for e in es)
    probes |= {'~other', 'a', 'q'}
    nums = sorted(e for e in es if not isinstance(e, str) and e not in ref.INFS)
    for a, b in zip([-ref.inf] + nums, nums + [ref.inf]):
        probes.add(mid(a, b))
    probes |= {ref.inf, -ref.inf}
    what = repr(t)
    for x in probes:
        want = member(t, x)
        xs = [x] if isinstance(x, str) or x in ref.INFS else [sym(x), float(x)]
        for y in xs:
            if isinstance(y, float) and y not in ref.INFS and ref.F(y) != x:
                continue
            check((y in r) == want, 'membership of %r in %s = %r is %s, should be %s'
                  % (y, what, r, not want, want))
    for s, snap in trail:
        check(snapshot(s) == snap, 'operand %s changed to %r' % (snap, s))
    if case.get('eq', True):
        for order in case['orders']:
            r2, n = rebuild(t, probes, order)
            canonical(r2, 'rebuilt')
            check(r == r2 and r2 == r, '%s = %r differs from the same set %r' % (what, r, r2))
            check(hash(r) == hash(r2), 'equal sets %r and %r hash differently' % (r, r2))
            check(not (r != r2), '%r != %r although equal' % (r, r2))
    n_ops = what.count("'and'") + what.count("'or'") + what.count("'not'")
    ctx.nt = n_ops >= 2 and len(es) >= 3
    ctx.tag('kind:%s' % kind(t), 'ops:%d' % min(n_ops, 6), 'result:%s' % type(r).__name__)
