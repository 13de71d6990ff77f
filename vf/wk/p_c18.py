"""C18: equality and hashing agree with meaning."""
import itertools, math
from fractions import Fraction
import build, ref, p_c08
from core import check, Discard
from sppl.transforms import Id
from sppl.sets import EmptySet, FiniteNominal, FiniteReal, Interval


def tree(t):
    if t[0] == 'and':
        return tree(t[1]) & tree(t[2])
    if t[0] == 'or':
        return tree(t[1]) | tree(t[2])
    if t[0] == 'not':
        return ~tree(t[1])
    if t[0] == 'empty':
        return EmptySet
    return build.rset(t)


def construct(kind, j, k, style):
    build.KIND = k
    try:
        if kind == 'set':
            return tree(j)
        if kind == 'expr':
            return build.expr(j, Id('X'))
        if kind == 'event':
            return build.ev(j)
        return build.model(j, style)
    finally:
        build.KIND = 0


PROBES = [Fraction(n, d) for n, d in ((0, 1), (1, 1), (-1, 1), (2, 1), (-2, 1), (1, 2), (-3, 2), (5, 1), (-7, 1),
                                      (4, 1), (1, 3), (17, 4), (9, 1), (3, 1), (-3, 1), (25, 1))]


def meaning(kind, items):
    """For each item the vector of its values."""
    if kind == 'set':
        es = set()
        for j in items:
            p_c08.ends(j, es)
        strs = sorted({x for x in es if isinstance(x, str)} | {'a', 'b', 'other'})
        ns = sorted({x for x in es if not isinstance(x, str) and x not in ref.INFS})
        ps = sorted(set(ns) | {(x + y) / 2 for x, y in zip(ns, ns[1:])} | {min(ns, default=0) - 1, max(ns, default=0) + 1})
        return [[p_c08.member(j, x) for x in ps + list(ref.INFS) + strs] for j in items]
    if kind == 'expr':
        def val(j, x):
            try:
                return ref.ev_expr(j, x)
            except (Discard, ArithmeticError, TypeError, ValueError):
                return 'unknown'
        return [[val(j, x) for x in PROBES] for j in items]
    if kind == 'event':
        vs = sorted({l[1] for j in items for l in ref.literals(j)})
        pts = {v: set(PROBES[:6]) | {'a', 'other'} for v in vs}
        for j in items:
            for l in ref.literals(j):
                for x in ref.endpoints(l[3]):
                    if not isinstance(x, str) and x not in ref.INFS:
                        pts[l[1]] |= {x, x + Fraction(1, 2)}
                    elif isinstance(x, str):
                        pts[l[1]].add(x)
        asg = []
        for v in vs:
            for x in sorted(pts[v], key=str):
                asg.append({u: (x if u == v else sorted(pts[u], key=str)[(3 * len(asg)) % len(pts[u])]) for u in vs})
        out = []
        for j in items:
            row = [sorted({l[1] for l in ref.literals(j)})]
            for a in asg:
                try:
                    row.append(ref.truth_on(j, a))
                except (Discard, ArithmeticError, TypeError, ValueError):
                    row.append('unknown')
            out.append(row)
        return out
    return None


def alike(a, b):
    if 'unknown' in (a, b) or a is b:
        return True
    if a is None or b is None or isinstance(a, (str, bool, list)) or isinstance(b, (str, bool, list)):
        return a == b
    return abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))


def run(case, ctx):
    kind, items = case['kind'], case['items']
    ctx.tag(kind)
    objs = []
    for i, (j, k) in enumerate(zip(items, case['nums'])):
        try:
            if kind == 'model':
                ref.validate(j)
            vec = None
            if kind == 'model':
                evs = case['evs']
                vec = [sorted(ref.variables(j))] + (ref.probs(j, evs) if ref.variables(j) == ref.variables(items[0]) else [])
                d = ref.density(j, case['a']) if ref.variables(j) == ref.variables(items[0]) else None
                if d is not None:
                    vec += [str(d[0]), d[1]]
            else:
                vec = meaning(kind, [j] + items)[0]
            o = construct(kind, j, k, case['style'])
        except Exception:
            if i == 0:
                raise
            continue
        objs.append((i, j, k, o, vec))
    others = [None, 0, 1.5, 'X', (), Id('X'), Id('other'), EmptySet, FiniteNominal('a'), FiniteReal(3), Interval(0, 1),
              Id('Q') < 3, abs(Id('Q'))]
    nt = 0
    for i, j, k, o, vec in objs:
        check(o == o and not (o != o), '%s is not equal to itself', o)
        h = hash(o)
        check(hash(o) == h, 'the hash of %s changes', o)
        again = construct(kind, j, k, case['style'])
        check(o == again and again == o and not (o != again), '%s built twice is not equal: %s', o, again)
        check(hash(o) == hash(again), '%s built twice has two hashes', o)
        check({o: 1}.get(again) == 1 and again in {o} and again in [o], '%s built twice is not found in a dictionary', o)
        for x in others:
            if type(x) is type(o) and kind != 'model':
                continue
            check(not (o == x) and o != x and not (x == o) and x != o, '%s equals %s', o, x)
    for (i1, j1, k1, a, va), (i2, j2, k2, b, vb) in itertools.combinations(objs, 2):
        e = a == b
        check(e in (True, False), '%s == %s is %r', a, b, e)
        check((b == a) == e, '%s == %s is %s but not symmetric', a, b, e)
        check((a != b) == (not e) and (b != a) == (not e), '%s != %s with %s == is %s', a, b, a, e)
        same = len(va) == len(vb) and all(map(alike, va, vb))
        if e:
            check(hash(a) == hash(b), '%s == %s but their hashes differ', a, b)
            check(same, '%s == %s though they differ:\n%s\n%s', a, b, j1, j2)
            ctx.tag('equal:' + kind)
        elif not same:
            ctx.tag('different:' + kind)
            nt += 1
        if j1 == j2 and k1 == k2:
            check(e, '%s and %s are built alike but not equal', a, b)
    for (_, _, _, a, _), (_, _, _, b, _), (_, _, _, c, _) in itertools.permutations(objs[:5], 3):
        if a == b and b == c:
            check(a == c, 'equality is not transitive: %s, %s, %s', a, b, c)
    ctx.nt = nt > 0
