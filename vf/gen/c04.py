from hypothesis import strategies as st
from gen import common as g


@st.composite
def _case(draw, big):
    types = draw(g.var_types(draw(st.sampled_from([1, 2, 2, 3] + ([4] if big else [])))))
    m, ty = draw(g.rich_model(types, draw(st.integers(0, 3 if big else 2)),
                              draw(st.sampled_from([0, 1, 2])), kinds=('trans', 'cond', 'constr')))
    base = sorted(v for v, t in ty.items() if t != 'd')
    asg = []
    for _ in range(draw(st.integers(1, 3))):
        vs = draw(st.lists(st.sampled_from(base), min_size=1, max_size=len(base), unique=True))
        asg.append({v: draw(g.value_for(m, v, ty[v])) for v in vs})
    expr = draw(st.sampled_from([None, g.simple_exprs]))
    evs = [draw(g.event(ty, draw(st.integers(0, 2)), expr, 4)) for _ in range(draw(st.integers(1, 3)))]
    second = {v: draw(g.value_for(m, v, ty[v])) for v in
              draw(st.lists(st.sampled_from(base), min_size=1, max_size=len(base), unique=True))}
    return {'m': m, 'asg': asg, 'evs': evs, 'second': second, 'style': draw(st.integers(0, 2))}


@st.composite
def rare(draw, big):
    m, types = draw(g.rare_model(3 if big else 2))
    vs = sorted(types)
    val = lambda v: draw(st.sampled_from(['a', 'b', 'c']) if types[v] == 's' else st.integers(0, 1) if types[v] == 'b'
                         else st.integers(-6, 12))
    sub = lambda: draw(st.lists(st.sampled_from(vs), min_size=1, max_size=len(vs), unique=True))
    asg = [{v: val(v) for v in sub()} for _ in range(draw(st.integers(1, 2)))]
    evs = [draw(g.rare_event(types, draw(st.integers(0, 1)))) for _ in range(draw(st.integers(1, 3)))]
    return {'m': m, 'asg': asg, 'evs': evs, 'second': {v: val(v) for v in sub()}, 'style': 1, 'rare': True}


def strategy(tier):
    b = tier != 'quick'
    return g.mixed(_case(b), 5, rare(b))
