from hypothesis import strategies as st
from gen import common as g

KINDS = ('lt', 'le', 'gt', 'ge', 'iv', 'iv', 'in', 'un')


@st.composite
def pw(draw, inner):
    """Piecewise expression with disjoint pieces cut at one or two points."""
    cuts = sorted(set(draw(st.lists(st.integers(-3, 4), min_size=1, max_size=2))))
    closed = [draw(st.booleans()) for _ in cuts]
    out = []
    bounds = [None] + list(range(len(cuts))) + [None]
    for i in range(len(cuts) + 1):
        lits = []
        if i > 0:
            c = cuts[i - 1]
            lits.append(['gt' if closed[i - 1] else 'ge', c])
        if i < len(cuts):
            c = cuts[i]
            lits.append(['le' if closed[i] else 'lt', c])
        if len(lits) == 2:
            s = ['iv', lits[0][1], lits[1][1], lits[0][0] == 'gt', lits[1][0] == 'lt']
        else:
            s = lits[0]
        out.append([draw(inner), ['lit', 'X', ['x'], s, draw(st.sampled_from([0, 1, 2]))]])
    if len(out) > 2 and draw(st.booleans()):
        out.pop(draw(st.integers(0, len(out) - 1)))
    return ['pw', out]


@st.composite
def lit(draw, big):
    r = draw(st.integers(0, 9))
    if r == 0:
        e = ['x']
        if draw(st.booleans()):
            return ['lit', 'X', ['x'], draw(g.str_set()), draw(st.sampled_from([0, 1, 2]))]
    elif r <= 2:
        e = draw(pw(g.expression(2, mindepth=1)))
        if draw(st.booleans()):
            e = draw(g.affine(e))
    elif r <= 6:
        e = draw(g.expression(4 if big else 3, mindepth=1))
    else:
        e = draw(g.expression(2, mindepth=1, deg=4 if big else 3))
    s = draw(g.num_set(e if e[0] != 'pw' else ['x'], KINDS))
    if g.has_op(e, g.TRANSC):
        e, s = g.exactify(e), g.exactify(s)
    return ['lit', 'X', e, s, draw(st.sampled_from([0, 1, 2, 3]))]


@st.composite
def _case(draw, big):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    lits = [draw(lit(big)) for _ in range(n)]
    if any(l[3][0] == 'ins' for l in lits):
        lits = lits[:1]
    if len(lits) == 1:
        ev = lits[0]
        if draw(st.integers(0, 3)) == 0:
            ev = ['not', ev]
    else:
        ev = [draw(st.sampled_from(['and', 'or'])), lits]
        if draw(st.integers(0, 3)) == 0:
            ev = ['not', ev]
    return {'ev': ev if draw(st.integers(0, 3)) == 0 else g.exactify(ev)}


def strategy(tier):
    return _case(tier != 'quick')
