from hypothesis import strategies as st
from gen import common as g
from gen import c06
from gen.c10 import rename
from gen.c07 import pw
from gen.c02 import TYPES


@st.composite
def any_expr(draw, base):
    """Definitions of every kind of expression."""
    r = draw(st.integers(0, 5))
    if r == 0:
        return rename(draw(pw(g.expression(1, ops=g.TOTAL_OPS))), base)
    if r == 1:
        e = ['ind', draw(g.event({base: 'd'}, draw(st.integers(0, 2)), g.simple_exprs, 4))]
        return draw(g.affine(e)) if draw(st.booleans()) else e
    return draw(g.expression(3, mindepth=1, ops=tuple(g.EXPR_OPS), deg=3))


@st.composite
def model_case(draw, big, constr=True, kinds=None):
    types = draw(g.var_types(draw(st.sampled_from([1, 2, 2, 3, 4 if big else 3])), types=('c', 'c', 'i', 'i', 'r', 's', 'm')))
    m = draw(g.base_model(types, draw(st.integers(0, 2))))
    types = dict(types)
    names = list(g.DVARS)
    kinds = kinds or (('trans', 'trans', 'cond', 'constr') if constr else ('trans', 'cond'))
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(kinds))
        if k == 'trans':
            base = sorted(v for v, t in types.items() if t in g.NUMERIC or t == 'd')
            if not base or not names:
                continue
            b = draw(st.sampled_from(base))
            e = g.exactify(draw(any_expr(b))) if types[b] != 'd' else g.exactify(draw(g.expression(1, mindepth=1, ops=('affine', 'abs'))))
            u = names.pop(0)
            m = {'t': 'trans', 'm': m, 'v': u, 'x': [b, e]}
            types[u] = 'd'
        elif k == 'cond':
            ty = {v: t for v, t in types.items() if t != 'd'} if draw(st.booleans()) else types
            if not ty:
                continue
            ev = g.likely(m, draw(g.event(ty, draw(st.integers(0, 2)), g.simple_exprs if 'd' not in ty.values() else None, 4)))
            m = m if ev is None else {'t': 'cond', 'm': m, 'e': ev}
        else:
            vs = sorted(v for v, t in types.items() if t != 'd')
            vs = draw(st.lists(st.sampled_from(vs), min_size=1, max_size=2, unique=True))
            m = {'t': 'constr', 'm': m, 'a': {v: draw(g.value_for(m, v, types[v])) for v in vs}}
    evs = [draw(g.event(types, draw(st.integers(0, 2)), None, 6)) for _ in range(draw(st.integers(1, 3)))]
    a = {v: draw(g.value_for(m, v, t)) for v, t in types.items() if t != 'd'}
    cond = draw(g.event(types, draw(st.integers(0, 1)), None, 4))
    return {'kind': 'model', 'm': m, 'evs': evs, 'cond': g.likely(m, cond) or cond, 'a': a,
            'arr': draw(st.booleans()), 'style': draw(st.integers(0, 2)), 'seed': draw(st.integers(0, 2 ** 20))}


@st.composite
def named_case(draw):
    c = draw(c06.named(draw(st.sampled_from([n for n in c06.NAMES if n not in ('levy_stable', 'geninvgauss', 'norminvgauss')]))))
    c['kind'] = draw(st.integers(0, 2))
    us = sorted(draw(st.lists(st.integers(1, 31), min_size=2, max_size=4, unique=True)))
    return {'kind': 'named', 'c': c, 'us': us, 'shape': draw(st.integers(0, 4)),
            'x': g.exactify(draw(g.expression(2, ops=('affine', 'abs', 'poly'))))}


def strategy(tier):
    big = tier != 'quick'
    return st.one_of(model_case(big), model_case(big), named_case())
