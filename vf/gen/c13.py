"""Mixtures with repeated, nearly repeated and reordered components."""
from hypothesis import strategies as st
from gen import common as g
from gen.c11 import guard, State
import ref


@st.composite
def mutate_dist(draw, d):
    """The distribution with one parameter, outcome or weight changed."""
    k = d['k']
    if k == 'uniformd':
        w = list(d['w'])
        w[draw(st.integers(0, len(w) - 1))] = draw(st.integers(7, 9))
        return {'k': k, 'w': w}
    if k in ('choice', 'discrete'):
        w = [list(x) for x in d['w']]
        if len(w) > 1 and draw(st.booleans()):
            i = draw(st.integers(0, len(w) - 2))
            w[i][1], w[i + 1][1] = w[i + 1][1], w[i][1]
        else:
            i = draw(st.integers(0, len(w) - 1))
            w[i][0] = {'choice': 'y', 'discrete': 7}[k]
        return {'k': k, 'w': w}
    kw = dict(d['kw'])
    names = [n for n in sorted(kw) if n in ('loc', 'scale', 'mu', 'low', 'high', 'a', 'b', 'n')]
    if k == 'randint':
        names = ['high']
    if not names:
        p = kw.get('p') or kw.get('c')
        n = 'p' if 'p' in kw else 'c'
        kw[n] = {0.25: 0.5, 0.5: 0.25, 0.7: 0.75, 0.75: 0.5}.get(p, 0.5)
        return {'k': k, 'kw': kw}
    n = draw(st.sampled_from(names))
    kw[n] = g.jnum(ref.num(kw[n]) + draw(st.sampled_from([1, 1, 2])))
    return {'k': k, 'kw': kw}


@st.composite
def piece(draw, v, t):
    """A one-variable model."""
    r = draw(st.integers(0, 7))
    m = {'t': 'leaf', 'v': v, 'd': draw(g.dist_of(t))}
    if r == 0:
        m = {'t': 'mix', 'c': [[draw(g.weights), m], [draw(g.weights), {'t': 'leaf', 'v': v, 'd': draw(g.dist_of(t))}]]}
    elif r in (1, 2):
        ev = g.likely(m, draw(g.event({v: t}, 0, None, 3)))
        if ev is not None:
            m = {'t': 'cond', 'm': m, 'e': ev}
    return m


@st.composite
def mutate(draw, m):
    """A model of the same variables that differs in one place."""
    if m['t'] == 'leaf':
        return dict(m, d=draw(mutate_dist(m['d'])))
    if m['t'] == 'mix':
        i = draw(st.integers(0, len(m['c'])))
        if i == len(m['c']):
            return dict(m, c=[[m['c'][0][0] + 2, m['c'][0][1]]] + m['c'][1:])
        cs = [list(c) for c in m['c']]
        cs[i][1] = draw(mutate(cs[i][1]))
        return dict(m, c=cs)
    if m['t'] == 'cond':
        e = m['e']
        if e[0] == 'lit' and e[3][0] in ('lt', 'le', 'gt', 'ge') and draw(st.booleans()):
            x = ref.num(e[3][1]) + draw(st.sampled_from([1, -1]))
            new = dict(m, e=e[:3] + [[e[3][0], g.jnum(x)]] + e[4:])
            if g.likely(m['m'], new['e']) == new['e']:
                return new
        return m['m']
    if m['t'] == 'trans':
        if draw(st.booleans()):
            return dict(m, m=draw(mutate(m['m'])))
        return dict(m, x=[m['x'][0], ['radd', 1, m['x'][1]]])
    return m


@st.composite
def pool(draw, v, t, defs):
    """Interchangeable models of a variable; some equal, some nearly equal."""
    a = draw(piece(v, t))
    if v in defs:
        a = {'t': 'trans', 'm': a, 'v': defs[v], 'x': [v, draw(g.expression(1, mindepth=1, ops=('affine', 'abs', 'poly')).map(g.exactify))]}
    out = [a]
    for _ in range(draw(st.integers(0, 2))):
        if draw(st.booleans()):
            out.append(draw(mutate(a)))
        else:
            b = draw(piece(v, t))
            if v in defs:
                b = {'t': 'trans', 'm': b, 'v': defs[v], 'x': a['x']}
            out.append(b)
    return out


@st.composite
def components(draw, types, defs, n):
    pools = {v: draw(pool(v, t, defs)) for v, t in types.items()}
    vs = sorted(types)
    joint = None
    if len(vs) > 2 and draw(st.booleans()):
        j = vs[:2]
        joint = {'t': 'mix', 'c': [[draw(g.weights), {'t': 'prod', 'c': [draw(st.sampled_from(pools[v])) for v in j]}] for _ in range(2)]}
    out = []
    for _ in range(n):
        if out and draw(st.integers(0, 4)) == 0:
            m = draw(st.sampled_from(out))[1]
        elif len(vs) == 1:
            m = draw(st.sampled_from(pools[vs[0]]))
        else:
            rest = vs
            cs = []
            if joint is not None and draw(st.booleans()):
                cs, rest = [joint], vs[2:]
            cs = cs + [draw(st.sampled_from(pools[v])) for v in rest]
            m = {'t': 'prod', 'c': draw(st.permutations(cs))} if len(cs) > 1 else cs[0]
        out.append([draw(g.weights), m])
    return out


@st.composite
def _case(draw, big):
    nv = draw(st.integers(1, 4 if big else 3))
    types = {v: draw(st.sampled_from(['c', 'i', 's', 'r', 'm'])) for v in g.VARS[:nv]}
    if draw(st.integers(0, 2)) == 0:
        return draw(prog_case(big))
    defs = {}
    num = [v for v, t in types.items() if t in g.NUMERIC]
    if num and draw(st.integers(0, 2)) == 0:
        defs[draw(st.sampled_from(num))] = 'U'
    comps = draw(components(types, defs, draw(st.integers(2, 4))))
    m = {'t': 'mix', 'c': comps}
    ty = dict(types, **{u: 'd' for u in defs.values()})
    evs = [draw(g.event(ty, draw(st.integers(0, 2)), None, 6)) for _ in range(draw(st.integers(1, 3)))]
    cond = draw(g.event(ty, draw(st.integers(0, 2)), None, 6))
    a = {v: draw(g.value_for(m, v, t)) for v, t in types.items()}
    sub = draw(st.lists(st.sampled_from(sorted(types)), min_size=1, max_size=nv, unique=True))
    other = None
    if draw(st.booleans()):
        other = draw(g.base_model({'K': draw(st.sampled_from(['c', 's']))}, 0))
    return {'kind': 'mix', 'm': m, 'evs': evs, 'cond': g.likely(m, cond) or cond, 'a': a, 'sub': sub,
            'style': draw(st.integers(0, 2)), 'other': other}


@st.composite
def prog_case(draw, big):
    """A program whose branches sample from a few repeated distributions."""
    s = State()
    out = []
    for v in ('X', 'Y')[:draw(st.integers(1, 2))]:
        t = draw(st.sampled_from(['c', 'i', 's']))
        out.append(['sample', v, draw(g.dist_of(t))])
        s.types[v] = t
    new = {}
    for v in ('Z', 'W')[:draw(st.integers(1, 2))]:
        new[v] = draw(st.sampled_from(['c', 'i', 's']))
    pools = {}
    for v, t in new.items():
        d = draw(g.dist_of(t))
        pools[v] = [d, d, draw(mutate_dist(d)), draw(g.dist_of(t))]
    gs = [draw(guard(s)) for _ in range(draw(st.integers(1, 3)))] + [None]
    drv = None
    nb = [v for v, t in s.types.items() if t in ('c', 'i')]
    if nb and draw(st.integers(0, 2)) == 0:
        b = draw(st.sampled_from(sorted(nb)))
        drv = [['trans', 'U', b, ['rmul', c, ['x']]] for c in (2, 2, 3)]
    bs = []
    for gd in gs:
        body = [['sample', v, draw(st.sampled_from(pools[v]))] for v in draw(st.permutations(sorted(new)))]
        if drv:
            body.insert(draw(st.integers(0, len(body))), draw(st.sampled_from(drv)))
        bs.append([gd, body])
    out.append(['if', bs])
    types = dict(s.types, **new)
    if drv:
        types['U'] = 'd'
    if draw(st.booleans()):
        # A second block over the result.
        gs = [draw(guard(State({v: t for v, t in types.items() if t != 'd'}))), None]
        d = draw(g.dist_of('i'))
        out.append(['if', [[gd, [['sample', 'K', draw(st.sampled_from([d, d, draw(mutate_dist(d))]))]]] for gd in gs]])
        types['K'] = 'i'
    evs = [draw(g.event(types, draw(st.integers(0, 2)), None, 6)) for _ in range(draw(st.integers(1, 3)))]
    return {'kind': 'prog', 'stmts': out, 'evs': evs, 'style': draw(st.integers(0, 2 ** 16)),
            'cond': draw(g.event(types, draw(st.integers(0, 1)), None, 4))}


def strategy(tier):
    return _case(tier != 'quick')
