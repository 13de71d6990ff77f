from hypothesis import strategies as st
from gen import common as g


@st.composite
def _case(draw, big):
    types = draw(g.var_types(draw(st.sampled_from([1, 2, 2, 3] + ([4] if big else [])))))
    m, ty = draw(g.rich_model(types, draw(st.integers(0, 2)), draw(st.sampled_from([0, 0, 1])),
                              kinds=('trans', 'constr')))
    ex = draw(st.sampled_from([0, 0, 1, 2]))
    expr = None if ex == 0 else (g.simple_exprs if ex == 1 else g.expression(2))
    k = draw(st.sampled_from([1, 1, 2, 3]))
    conds = [draw(g.event(ty, draw(st.integers(0, 3 if big else 2)), expr, 6 if big else 4)) for _ in range(k)]
    if draw(st.integers(0, 5)) > 0:
        # Mostly conditions that are possible.
        cm, out = m, []
        for c in conds:
            c = g.likely(cm, c) or c
            cm = {'t': 'cond', 'm': cm, 'e': c}
            out.append(c)
        conds = out
    evs = [draw(g.event(ty, draw(st.integers(0, 2)), expr, 4)) for _ in range(draw(st.integers(1, 3)))]
    return {'m': m, 'conds': conds, 'evs': evs, 'style': draw(st.integers(0, 2))}


@st.composite
def rare(draw, big):
    m, types = draw(g.rare_model(3 if big else 2))
    conds = [draw(g.rare_event(types, draw(st.integers(0, 1)))) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    evs = [draw(g.rare_event(types, draw(st.integers(0, 1)))) for _ in range(draw(st.integers(1, 3)))]
    return {'m': m, 'conds': conds, 'evs': evs, 'style': 1, 'rare': True}


def strategy(tier):
    b = tier != 'quick'
    return g.mixed(_case(b), 5, rare(b))
