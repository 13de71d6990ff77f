from fractions import Fraction as F
from hypothesis import strategies as st
from gen import common as g
import ref

TYPES = ('c', 'i', 'r', 's')
RULES = ['dneg', 'demorgan', 'distrib', 'reorder', 'split', 'xorexp', 'mono', 'absorb', 'dup', 'setform']


def lits_paths(ev, path=()):
    if ev[0] == 'lit':
        yield path, ev
    elif ev[0] in ('and', 'or'):
        for i, s in enumerate(ev[1]):
            yield from lits_paths(s, path + ((1, i),))
    elif ev[0] == 'not':
        yield from lits_paths(ev[1], path + ((1,),))
    else:
        yield from lits_paths(ev[1], path + ((1,),))
        yield from lits_paths(ev[2], path + ((2,),))


def nodes(ev, path=()):
    yield path, ev
    if ev[0] in ('and', 'or'):
        for i, s in enumerate(ev[1]):
            yield from nodes(s, path + ((1, i),))
    elif ev[0] == 'not':
        yield from nodes(ev[1], path + ((1,),))
    elif ev[0] == 'xor':
        yield from nodes(ev[1], path + ((1,),))
        yield from nodes(ev[2], path + ((2,),))


def put(ev, path, new):
    if not path:
        return new
    k = path[0]
    ev = list(ev)
    if len(k) == 2:
        sub = list(ev[1])
        sub[k[1]] = put(sub[k[1]], path[1:], new)
        ev[1] = sub
    else:
        ev[k[0]] = put(ev[k[0]], path[1:], new)
    return ev


def mono(draw, lit, types):
    """The same literal through a strictly monotone function of its expression."""
    _, v, e, s, how = lit
    kind = draw(st.sampled_from(['cube', 'affine', 'neg', 'exp2', 'scale']))
    if g.has_op(e, ('poly', 'pow')) and kind == 'cube':
        kind = 'affine'
    if g.has_op(e, ('exp', 'expb')) and kind == 'exp2':
        kind = 'neg'
    a = F(draw(st.sampled_from([1, 2, 3, -2, -1])))
    b = F(draw(st.sampled_from([-2, -1, 1, 3])))
    f, dec, w = {
        'cube': (lambda y: y ** 3, False, lambda x: ['pow', x, 3]),
        'affine': (lambda y: a * y + b, a < 0, lambda x: ['add', ['rmul', g.jnum(a), x], g.jnum(b)]),
        'neg': (lambda y: -y, True, lambda x: ['neg', x]),
        'exp2': (lambda y: F(2) ** int(y) if y.denominator == 1 and abs(y) < 20 else None,
                 False, lambda x: ['expb', 2, x]),
        'scale': (lambda y: y / 2, False, lambda x: ['div', x, 2]),
    }[kind]

    def val(j):
        y = f(ref.num(j))
        return None if y is None else g.jnum(y)
    k = s[0]
    if k in ('lt', 'le', 'gt', 'ge'):
        t = val(s[1])
        if t is None:
            return None
        flip = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
        ns = [flip[k] if dec else k, t]
    elif k == 'iv':
        x, y = val(s[1]), val(s[2])
        if x is None or y is None:
            return None
        ns = ['iv', y, x, s[4], s[3]] if dec else ['iv', x, y, s[3], s[4]]
    elif k == 'in':
        vs = [val(t) for t in s[1]]
        if any(t is None for t in vs):
            return None
        ns = ['in', vs]
    else:
        return None
    ne = w(e)
    if types[v] == 'd' or g.has_op(ne, g.TRANSC):
        ne, ns = g.exactify(ne), g.exactify(ns)
    return ['lit', v, ne, ns, how]


def rewrite(draw, ev, rule, types):
    """An equivalent event, or None."""
    ns = list(nodes(ev))
    ls = [x for x in ns if x[1][0] == 'lit']
    if rule == 'dneg':
        p, n = draw(st.sampled_from(ns))
        return put(ev, p, ['not', ['not', n]])
    if rule == 'demorgan':
        c = [(p, n) for p, n in ns if n[0] in ('and', 'or')]
        if not c:
            return None
        p, n = draw(st.sampled_from(c))
        return put(ev, p, ['not', ['or' if n[0] == 'and' else 'and', [['not', s] for s in n[1]]]])
    if rule == 'distrib':
        c = [(p, n, i) for p, n in ns if n[0] in ('and', 'or') for i, s in enumerate(n[1])
             if s[0] in ('and', 'or') and s[0] != n[0]]
        if not c:
            return None
        p, n, i = draw(st.sampled_from(c))
        rest = [s for j, s in enumerate(n[1]) if j != i]
        return put(ev, p, [n[1][i][0], [[n[0], [s] + rest] for s in n[1][i][1]]])
    if rule == 'reorder':
        c = [(p, n) for p, n in ns if n[0] in ('and', 'or', 'xor')]
        if not c:
            return None
        p, n = draw(st.sampled_from(c))
        if n[0] == 'xor':
            return put(ev, p, ['xor', n[2], n[1]])
        return put(ev, p, [n[0], draw(st.permutations(n[1]))])
    if rule == 'split':
        c = [(p, n) for p, n in ls if n[3][0] in ('iv', 'in', 'ins', 'lt', 'le', 'gt', 'ge')]
        if not c:
            return None
        p, n = draw(st.sampled_from(c))
        s = n[3]
        mk = lambda t: ['lit', n[1], n[2], t, n[4]]
        if s[0] == 'iv':
            a, b = ref.num(s[1]), ref.num(s[2])
            cut = g.jnum((a + b) / 2)
            if types[n[1]] == 'd' or g.has_op(n[2], g.TRANSC):
                cut = g.exactify(cut)
            r = draw(st.booleans())
            return put(ev, p, ['or', [mk(['iv', s[1], cut, s[3], r]), mk(['iv', cut, s[2], not r, s[4]])]])
        if s[0] in ('in', 'ins'):
            if len(s[1]) < 2:
                return None
            return put(ev, p, ['or', [mk([s[0], [x]]) for x in s[1]]])
        cut = g.jnum(ref.num(s[1]) + (-1 if s[0] in ('lt', 'le') else 1) * draw(st.integers(1, 3)))
        if types[n[1]] == 'd' or g.has_op(n[2], g.TRANSC):
            cut = g.exactify(cut)
        r = draw(st.booleans())
        if s[0] in ('lt', 'le'):
            return put(ev, p, ['or', [mk(['lt' if r else 'le', cut]),
                                      mk(['iv', cut, s[1], not r, s[0] == 'lt'])]])
        return put(ev, p, ['or', [mk(['gt' if r else 'ge', cut]),
                                  mk(['iv', s[1], cut, s[0] == 'gt', not r])]])
    if rule == 'xorexp':
        c = [(p, n) for p, n in ns if n[0] == 'xor']
        if not c:
            return None
        p, n = draw(st.sampled_from(c))
        return put(ev, p, ['or', [['and', [n[1], ['not', n[2]]]], ['and', [['not', n[1]], n[2]]]]])
    if rule == 'mono':
        c = [(p, n) for p, n in ls if types[n[1]] != 's']
        if not c:
            return None
        p, n = draw(st.sampled_from(c))
        new = mono(draw, n, types)
        return None if new is None else put(ev, p, new)
    if rule == 'absorb':
        p, n = draw(st.sampled_from(ns))
        o = draw(g.literal(types))
        return put(ev, p, draw(st.sampled_from([['or', [n, ['and', [n, o]]]], ['and', [n, ['or', [n, o]]]]])))
    if rule == 'dup':
        p, n = draw(st.sampled_from(ns))
        return put(ev, p, [draw(st.sampled_from(['and', 'or'])), [n, n]])
    if rule == 'setform':
        c = [(p, n) for p, n in ls if n[3][0] in ('in', 'iv') and types[n[1]] != 's']
        if not c:
            return None
        p, n = draw(st.sampled_from(c))
        s = n[3]
        if g.has_op(n[2], ('poly', 'pow')):
            return None
        if s[0] == 'in':
            cs = [F(1)]
            if len(s[1]) < 2:
                return None
            for r in map(ref.num, s[1]):
                nx = [F(0)] * (len(cs) + 1)
                for i, x in enumerate(cs):
                    nx[i + 1] += x
                    nx[i] -= r * x
                cs = nx
            e = ['poly', n[2], [g.jnum(x) for x in cs]]
            new = ['lit', n[1], e, ['in', [0]], 0]
        else:
            a, b = ref.num(s[1]), ref.num(s[2])
            if bool(s[3]) != bool(s[4]):
                return None
            e = ['abs', ['sub', n[2], g.jnum((a + b) / 2)]] if a + b else ['abs', n[2]]
            new = ['lit', n[1], e, ['lt' if s[3] else 'le', g.jnum((b - a) / 2)], 0]
        if types[n[1]] == 'd' or g.has_op(n[2], g.TRANSC):
            new = g.exactify(new)
        return put(ev, p, new)


@st.composite
def _case(draw, big):
    types = draw(g.var_types(draw(st.sampled_from([1, 2, 2, 3])), TYPES))
    m, ty = draw(g.rich_model(types, draw(st.integers(0, 2)), 2))
    ex = draw(st.sampled_from([0, 1, 2]))
    expr = None if ex == 0 else g.expression(2, ops=tuple(g.TOTAL_OPS))
    A = draw(g.event(ty, draw(st.integers(0, 2)), expr, 6 if big else 4))
    B = draw(g.event(ty, draw(st.integers(0, 1)), expr, 3))
    rw = []
    cur = A
    for rule in draw(st.lists(st.sampled_from(RULES), min_size=2, max_size=6)):
        new = rewrite(draw, cur, rule, ty)
        if new is not None and max(g.dnf_sizes(new)) <= 16:
            rw.append([rule, new])
            cur = new
    cut_v = draw(st.sampled_from(sorted(ty)))
    if ty[cut_v] == 's':
        cells = [['lit', cut_v, ['x'], ['ins', [s]], 0] for s in g.STRS]
        cells.append(['lit', cut_v, ['x'], ['nins', g.STRS], 1])
    else:
        cuts = sorted({ref.num(draw(g.nice())) for _ in range(2)})
        closed = [draw(st.booleans()) for _ in cuts]
        cells = [['lit', cut_v, ['x'], ['le' if closed[0] else 'lt', g.jnum(cuts[0])], 0]]
        for i in range(len(cuts) - 1):
            cells.append(['lit', cut_v, ['x'], ['iv', g.jnum(cuts[i]), g.jnum(cuts[i + 1]),
                                               closed[i], not closed[i + 1]], 0])
        cells.append(['lit', cut_v, ['x'], ['gt' if closed[-1] else 'ge', g.jnum(cuts[-1])], 0])
    if ty[cut_v] == 'd':
        cells = g.exactify(cells)
    return {'m': m, 'A': A, 'B': B, 'rw': rw, 'cells': cells, 'style': draw(st.integers(0, 2))}


def strategy(tier):
    return _case(tier != 'quick')
