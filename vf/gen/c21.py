"""Events over polynomials, solved with and without the symbolic solver."""
from hypothesis import strategies as st
from gen import common as g
from gen import c07
import ref

OPS = ('affine', 'poly', 'poly', 'poly', 'abs', 'exp', 'sqrt', 'rdiv', 'expb')


@st.composite
def pexpr(draw, big, total=False):
    """An expression with a polynomial stage."""
    ops = tuple(o for o in OPS if not total or o in g.TOTAL_OPS)
    r = draw(st.integers(0, 4))
    if r == 0:
        e = draw(g.poly_op(['x'], 3))
        return draw(g.affine(e)) if draw(st.booleans()) else e
    if r == 1:
        # Any coefficients.
        n = draw(st.integers(2, 4 if big else 3))
        cs = [draw(g.nice()) for _ in range(n)] + [draw(g.nonzero())]
        e = ['poly', ['x'], cs]
        if draw(st.integers(0, 2)) == 0:
            e = draw(g.affine(['abs', e]))
        return e
    e = draw(g.expression(3, ops=ops, mindepth=1, deg=4 if big else 3))
    return e if g.has_op(e, ('poly', 'pow')) else draw(g.poly_op(e, 3)) if not g.has_op(e, ('exp', 'expb')) else e


def shift(ev, types):
    """Thresholds that integers and other nice atoms do not attain exactly."""
    if ev[0] == 'lit':
        if types.get(ev[1]) == 'c' or ev[3][0] in ('ins', 'nins'):
            return ev
        return ev[:3] + [shift_set(ev[3])] + ev[4:]
    if ev[0] in ('and', 'or'):
        return [ev[0], [shift(s, types) for s in ev[1]]]
    return [ev[0]] + [shift(s, types) for s in ev[1:]]


def shift_set(s):
    f = lambda x: g.jnum(ref.num(x) + g.F(1, 7))
    if s[0] == 'in':
        return ['in', [f(x) for x in s[1]]]
    if s[0] == 'iv':
        return ['iv', f(s[1]), f(s[2])] + s[3:]
    if s[0] == 'un':
        return ['un', [shift_set(x) for x in s[1]]]
    return [s[0], f(s[1])]


@st.composite
def event(draw, types, depth, big, n=4):
    return shift(draw(g.event(types, depth, st.one_of(pexpr(big), pexpr(big), st.just(['x'])), n)), types)


@st.composite
def model_case(draw, big):
    types = draw(g.var_types(draw(st.sampled_from([1, 2, 3])), types=('c', 'c', 'i', 'r', 's')))
    m = draw(g.base_model(types, draw(st.integers(0, 2))))
    ty = dict(types)
    num = sorted(v for v, t in types.items() if t in g.NUMERIC)
    if num and draw(st.booleans()):
        b = draw(st.sampled_from(num))
        m = {'t': 'trans', 'm': m, 'v': 'U', 'x': [b, g.exactify(draw(pexpr(big, True)))]}
        ty['U'] = 'd'
    if draw(st.booleans()):
        e = g.likely(m, draw(event(ty, draw(st.integers(0, 1)), big)))
        if e is not None:
            m = {'t': 'cond', 'm': m, 'e': e}
    evs = [draw(event(ty, draw(st.integers(0, 1)), big, 6)) for _ in range(draw(st.integers(1, 2)))]
    c = draw(event(ty, draw(st.integers(0, 1)), big))
    return {'kind': 'model', 'm': m, 'evs': evs, 'cond': g.likely(m, c) or c, 'style': draw(st.integers(0, 2)),
            'how': draw(st.sampled_from(['env', 'env', 'timeout', 'unknown']))}


@st.composite
def solve_case(draw, big):
    def lit():
        e = draw(pexpr(big))
        s = draw(g.num_set(e, c07.KINDS))
        if g.has_op(e, g.TRANSC):
            e, s = g.exactify(e), g.exactify(s)
        return ['lit', 'X', e, s, draw(st.sampled_from([0, 1, 2, 3]))]
    n = draw(st.sampled_from([1, 1, 1, 2]))
    ls = [lit() for _ in range(n)]
    ev = ls[0] if n == 1 else [draw(st.sampled_from(['and', 'or'])), ls]
    if draw(st.integers(0, 3)) == 0:
        ev = ['not', ev]
    return {'kind': 'solve', 'ev': ev, 'how': draw(st.sampled_from(['env', 'env', 'timeout', 'unknown']))}


def strategy(tier):
    big = tier != 'quick'
    return st.one_of(model_case(big), solve_case(big))
