from hypothesis import strategies as st
from gen import common as g
from gen.c07 import pw

ALL = tuple(g.EXPR_OPS) + ('poly2', 'divi')


@st.composite
def deep(draw, n):
    e = ['x']
    for _ in range(draw(st.integers(1, n))):
        r = draw(st.integers(0, 9))
        if r == 0:
            e = ['pow', e, draw(st.sampled_from([-3, -2, -1, 1, 2, 3, 4]))]
        elif r == 1:
            e = draw(g.poly_op(e, 3))
            if draw(st.integers(0, 2)) == 0:
                e = ['abs', e]
        else:
            e = draw_op(draw, e)
    return e


def draw_op(draw, e):
    op = draw(st.sampled_from(g.EXPR_OPS))
    if op == 'affine':
        return draw(g.affine(e))
    if op == 'poly':
        return draw(g.poly_op(e, 3))
    if op == 'expb':
        return ['expb', draw(st.sampled_from([2, 3, {'q': [3, 2]}, 0.5, {'q': [1, 3]}, 1])), e]
    if op == 'logb':
        return ['logb', e, draw(st.sampled_from([2, 10, 3]))]
    if op == 'root':
        return ['root', e, draw(st.sampled_from([2, 3, 4]))]
    if op == 'rdiv':
        return ['rdiv', draw(g.nonzero()), e]
    return [op, e]


@st.composite
def _case(draw, big):
    if draw(st.integers(0, 4)) == 0:
        e = draw(pw(deep(2)))
        if draw(st.booleans()):
            e = draw_op(draw, e)
    else:
        e = draw(deep(6 if big else 5))
    inner = draw(deep(2)) if draw(st.booleans()) else None
    if inner is not None and g.has_op(e, ('pw',)) and not g.has_op(inner, ()):
        pass
    xs = draw(st.lists(g.nice(-5, 8, (1, 1, 2, 3)), min_size=3, max_size=6))
    cmps = [[draw(g.num_set(['x'])), draw(st.sampled_from([0, 1, 2, 3]))]
            for _ in range(draw(st.integers(0, 2)))]
    return {'e': e, 'inner': inner, 'xs': xs, 'cmps': cmps, 'float': draw(st.booleans())}


def strategy(tier):
    return _case(tier != 'quick')
