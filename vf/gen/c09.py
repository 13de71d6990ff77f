from hypothesis import strategies as st
from gen import common as g


@st.composite
def _case(draw, big):
    types = draw(g.var_types(4 if big else 3, ('c', 'c', 's', 'm')))
    expr = st.one_of(st.just(['x']), st.just(['x']), g.expression(2, ops=tuple(g.TOTAL_OPS)))
    ev = draw(g.event(types, draw(st.integers(1, 3)), expr, 10 if big else 8))
    return {'ev': ev, 'types': types, 'seed': draw(st.integers(0, 10**6)), 'n': 25 if not big else 60}


def strategy(tier):
    return _case(tier != 'quick')
