from hypothesis import strategies as st
from gen import common as g

ENDS = [-2, -1, 0, 1, 2, 3, 0.5, {'q': [1, 3]}, 1.5, {'q': [-7, 2]}, 5]


@st.composite
def num_leaf(draw, inf_elems):
    k = draw(st.sampled_from(['iv', 'iv', 'iv', 'in', 'in', 'lt', 'le', 'gt', 'ge']))
    if k == 'iv':
        a, b = draw(st.sampled_from(ENDS)), draw(st.sampled_from(ENDS))
        fa, fb = g.ref.num(a), g.ref.num(b)
        if fa == fb:
            b = 7
        elif fa > fb:
            a, b = b, a
        return ['iv', a, b, draw(st.booleans()), draw(st.booleans())]
    if k == 'in':
        pool = ENDS + ([{'inf': 1}, {'inf': -1}] if inf_elems else [])
        idx = draw(st.lists(st.integers(0, len(pool) - 1), min_size=1, max_size=4, unique=True))
        return ['in', [pool[i] for i in idx]]
    return [k, draw(st.sampled_from(ENDS))]


@st.composite
def nom_leaf(draw):
    k = draw(st.sampled_from(['ins', 'nins']))
    vs = draw(st.lists(st.sampled_from(g.STRS), min_size=0 if k == 'nins' else 1, max_size=3, unique=True))
    return [k, vs]


@st.composite
def tree(draw, depth, kind, comp):
    if depth == 0 or draw(st.integers(0, 4)) == 0:
        if draw(st.integers(0, 24)) == 0:
            return ['empty']
        k = kind if kind != 'm' else draw(st.sampled_from(['n', 's']))
        return draw(nom_leaf()) if k == 's' else draw(num_leaf(draw(st.integers(0, 2)) == 0))
    op = draw(st.sampled_from(['and', 'or', 'or', 'not'] if comp and kind != 'm' else ['and', 'or', 'or']))
    if kind == 'm' and comp and draw(st.integers(0, 3)) == 0:
        return ['not', draw(tree(depth - 1, draw(st.sampled_from(['n', 's'])), comp))]
    if op == 'not':
        return ['not', draw(tree(depth - 1, kind, comp))]
    return [op, draw(tree(depth - 1, kind, comp)), draw(tree(depth - 1, kind, comp))]


@st.composite
def _case(draw, big):
    kind = draw(st.sampled_from(['n', 'n', 'n', 's', 'm', 'm']))
    comp = draw(st.integers(0, 3)) > 0
    t = draw(tree(draw(st.integers(1, 5 if big else 4)), kind, comp))
    orders = draw(st.lists(st.lists(st.integers(0, 9), min_size=0, max_size=8), min_size=1, max_size=2))
    return {'t': t, 'orders': orders}


def strategy(tier):
    return _case(tier != 'quick')
