from hypothesis import strategies as st
from gen import common as g


@st.composite
def _case(draw, big):
    types = draw(g.var_types(draw(st.sampled_from([1, 2, 2, 3] + ([4] if big else [])))))
    m, ty = draw(g.rich_model(types, draw(st.integers(0, 3 if big else 2)), draw(st.sampled_from([0, 1, 2])),
                              kinds=('trans', 'trans', 'cond', 'constr')))
    ex = draw(st.sampled_from([0, 0, 1]))
    expr = g.simple_exprs if ex else None
    evs = [draw(g.event(ty, draw(st.integers(0, 2)), expr, 8)) for _ in range(draw(st.integers(1, 3)))]
    sub = draw(st.lists(st.sampled_from(sorted(ty)), min_size=1, max_size=4, unique=True))
    return {'m': m, 'evs': evs, 'N': draw(st.sampled_from([60, 300, 300, 1200] + ([4000] if big else []))),
            'seed': draw(st.integers(0, 2 ** 30)), 'sub': sub, 'set': draw(st.booleans()),
            'style': draw(st.integers(0, 2))}


def strategy(tier):
    return _case(tier != 'quick')
