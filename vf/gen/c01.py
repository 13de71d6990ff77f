from hypothesis import strategies as st
from gen import common as g


@st.composite
def _case(draw, big):
    types = draw(g.var_types(4 if big else 3))
    m = draw(g.base_model(types, draw(st.integers(0, 3 if big else 2))))
    ex = draw(st.sampled_from([0, 0, 1, 2]))
    expr = None if ex == 0 else (g.simple_exprs if ex == 1 else g.expression(3))
    n = draw(st.integers(1, 3))
    evs = [draw(g.event(types, draw(st.integers(0, 3)), expr, 10 if big else 7)) for _ in range(n)]
    return {'m': m, 'evs': evs, 'style': draw(st.integers(0, 2)), 'memo': draw(st.booleans())}


@st.composite
def rare(draw, big):
    m, types = draw(g.rare_model(3 if big else 2))
    evs = [draw(g.rare_event(types, draw(st.integers(0, 2)))) for _ in range(draw(st.integers(1, 3)))]
    return {'m': m, 'evs': evs, 'style': 1, 'memo': draw(st.booleans()), 'rare': True}


def strategy(tier):
    b = tier != 'quick'
    return g.mixed(_case(b), 5, rare(b))
