from hypothesis import strategies as st
from gen import common as g
from gen.c02 import rewrite, RULES, TYPES


@st.composite
def _case(draw, big):
    types = draw(g.var_types(3 if not big else 4, types=TYPES + ('c',)))
    m, ty = draw(g.rich_model(types, 2, 2, kinds=('trans', 'cond', 'cond', 'constr')))
    expr = g.expression(2, ops=tuple(g.TOTAL_OPS))
    ev = lambda d, n: draw(g.event(ty, draw(st.integers(0, d)), draw(st.sampled_from([st.just(['x']), expr])), n))
    d = 2 if big else 1
    a = ev(d, 4)
    k = draw(st.integers(0, 8))
    b = (a if k == 0 else ['not', a] if k == 1 else ['or', [a, ev(0, 2)]] if k == 2
         else ['and', [a, ev(0, 2)]] if k == 3 else ev(d, 4))
    if k >= 7 and len(ty) > 1:
        # About different variables.
        v = draw(st.sampled_from(sorted(ty)))
        a = draw(g.event({v: ty[v]}, 1, expr, 3))
        b = draw(g.event({x: t for x, t in ty.items() if x != v}, 1, expr, 3))
    b2 = b
    for rule in draw(st.lists(st.sampled_from(RULES), max_size=3)):
        new = rewrite(draw, b2, rule, ty)
        if new is not None and max(g.dnf_sizes(new)) <= 12:
            b2 = new
    w = draw(st.sampled_from(sorted(x for x, y in ty.items() if y != 'd')))
    l = draw(g.literal({w: ty[w]}, expr=st.just(['x'])))
    triv = ['or', [l, ['not', l]]]
    c = ev(1, 3) if draw(st.booleans()) else None
    return {'m': m, 'a': a, 'b': b, 'b2': None if b2 is b else b2, 'triv': triv, 'c': c,
            'style': draw(st.integers(0, 2))}


def strategy(tier):
    return _case(tier != 'quick')
