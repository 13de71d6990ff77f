from hypothesis import strategies as st
from gen import common as g
from gen.c07 import pw

NOPOLY = tuple(o for o in g.EXPR_OPS if o not in ('poly', 'exp', 'expb'))
NOPOLY_T = ('affine', 'affine', 'abs')


def rename(e, v):
    """The events of the pieces are about the base variable."""
    if isinstance(e, list):
        if e and e[0] == 'lit':
            return ['lit', v] + [rename(x, v) for x in e[2:]]
        return [rename(x, v) for x in e]
    return e


@st.composite
def definition(draw, base, seen, partial):
    """An expression of `base`; `seen` is the set of special stages in the chain."""
    busy = 'poly' in seen
    ops = (NOPOLY if partial else NOPOLY_T) if busy else (tuple(g.EXPR_OPS) if partial else tuple(g.TOTAL_OPS))
    r = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9]))
    if r <= 1 and 'pw' not in seen:
        e = rename(draw(pw(g.expression(1, ops=ops))), base)
    elif r == 9 and 'pw' not in seen:
        ev = draw(g.event({base: 'd'}, draw(st.sampled_from([0, 1, 1, 2])), None, 3))
        e = ['ind', ev]
        for _ in range(draw(st.integers(0, 1))):
            e = draw(g.affine(e))
        s = set(seen) | {'pw', 'poly'}
        return g.exactify(e), s
    elif r == 2 and not busy:
        e = draw(g.expression(1, mindepth=1, ops=ops, deg=3))
    else:
        e = draw(g.expression(2, mindepth=1, ops=ops))
    e = g.exactify(e)
    s = set(seen)
    if g.has_op(e, ('poly', 'pow', 'exp', 'expb')):
        s.add('poly')
    if g.has_op(e, ('pw',)):
        s.add('pw')
        s.add('poly')
    return e, s


@st.composite
def defs(draw, m, types, n, partial, stages, where):
    """Wrap m in n definitions."""
    types = dict(types)
    done = []
    for u in g.DVARS[:n]:
        if u in types:
            continue
        base = sorted(v for v, t in types.items() if t in g.NUMERIC or t == 'd')
        if not base:
            break
        derived = [v for v in base if types[v] == 'd']
        b = draw(st.sampled_from(derived)) if derived and draw(st.booleans()) else draw(st.sampled_from(base))
        e, s = draw(definition(b, stages.get(b, set()), partial))
        stages[u] = s
        m = {'t': 'trans', 'm': m, 'v': u, 'x': [b, e]}
        types[u] = 'd'
        done.append(u)
        if where and draw(st.integers(0, 3)) == 0:
            ev = g.likely(m, draw(g.event(types, draw(st.integers(0, 1)), None, 3)))
            m = m if ev is None else {'t': 'cond', 'm': m, 'e': ev}
    return m, types


@st.composite
def deep(draw, types, depth, n, partial):
    """Mixture whose components define the same derived variables differently,
    or product of such with an unrelated component."""
    comps = []
    ty = None
    stages = {}
    for _ in range(draw(st.integers(2, 3))):
        m, ty = draw(defs(draw(g.base_model(types, depth)), types, n, partial, stages, True))
        comps.append([draw(g.weights), m])
    if any(c[1]['t'] == 'leaf' for c in comps):
        pass
    m = {'t': 'mix', 'c': comps}
    if draw(st.booleans()):
        other = draw(g.base_model({'W': draw(st.sampled_from(['c', 'i', 's']))}, 1))
        m = {'t': 'prod', 'c': draw(st.permutations([m, other]))}
        ty = dict(ty, W='s' if any(d['k'] == 'choice' for d in g.leaves_of(other, 'W')) else 'r')
    return m, ty


@st.composite
def _case(draw, big):
    types = draw(g.var_types(draw(st.sampled_from([1, 2, 2, 3])), types=('c', 'c', 'i', 'i', 'r', 's')))
    if not any(t in g.NUMERIC for t in types.values()):
        types['X'] = draw(st.sampled_from(['c', 'i', 'r']))
    partial = draw(st.integers(0, 2)) == 0
    depth = draw(st.integers(0, 2))
    if draw(st.integers(0, 3)) == 0:
        m, ty = draw(deep(types, 1, draw(st.integers(1, 2)), partial))
    else:
        m = draw(g.base_model(types, depth))
        for _ in range(draw(st.integers(0, 1))):
            ev = g.likely(m, draw(g.event(types, 1, None, 3)))
            m = m if ev is None else {'t': 'cond', 'm': m, 'e': ev}
        m, ty = draw(defs(m, types, draw(st.integers(1, 2)), partial, {}, True))
    aff = st.one_of(st.just(['x']), st.just(['x']), g.expression(1, ops=('affine', 'abs')))
    dt = {v: t for v, t in ty.items() if t == 'd'} or ty
    evs = [draw(g.event(draw(st.sampled_from([ty, dt])), draw(st.integers(0, 2)), aff, 6)) for _ in range(draw(st.integers(1, 3)))]
    cond = draw(g.event(ty, draw(st.integers(0, 1)), None, 3))
    cond = g.likely(m, cond) or cond
    bt = {v: t for v, t in ty.items() if t != 'd'}
    bev = [draw(g.event(bt, draw(st.integers(0, 1)), None, 4)) for _ in range(2)]
    a = {v: draw(g.value_for(m, v, t)) for v, t in bt.items()}
    return {'m': m, 'evs': evs, 'cond': cond, 'bev': bev, 'a': a, 'partial': partial,
            'style': draw(st.integers(0, 2)), 'seed': draw(st.integers(0, 2 ** 20))}


def strategy(tier):
    return _case(tier != 'quick')
