"""Ill-formed models and programs: a legal base and one fault."""
from hypothesis import strategies as st
from gen import common as g
from gen import c11
from gen.c07 import pw
import faults

NAN = {'f': 'nan'}


@st.composite
def params(draw):
    good = draw(st.one_of(g.cont_dist(), g.int_dist()).filter(lambda d: d['k'] not in ('discrete', 'uniformd')))
    k, kw = good['k'], dict(good['kw'])
    neg = st.sampled_from([-1, -0.5, -3, {'q': [-1, 3]}])
    outp = st.sampled_from([-0.25, 1.25, 2, -1])
    anyp = st.sampled_from(['nan', 'inf', '-inf'])
    ch = []
    for p in kw:
        if p == 'scale':
            ch += [(p, neg), (p, st.just(0))]
        elif p in ('a', 'b', 'mu') and k != 'randint':
            ch.append((p, neg))
        elif p in ('p', 'c'):
            ch.append((p, outp))
        elif p == 'n':
            ch.append((p, st.sampled_from([-1, -3, 2.5])))
        elif p == 'high':
            ch.append((p, st.integers(kw['low'] - 3, kw['low'])))
        ch.append((p, anyp.map(lambda s: {'f': s})))
        ch.append((p, st.sampled_from([{'s': 'a'}, {'n': None}, {'j': 1}])))
        ch.append((p, st.none()))
    p, s = draw(st.sampled_from(ch))
    v = draw(s)
    if v is None:
        return {'good': good, 'bad': {'k': k, 'kw': {a: b for a, b in kw.items() if a != p}, 'var': p}}
    return {'good': good, 'bad': {'k': k, 'kw': dict(kw, **{p: v})}}


@st.composite
def mixvars(draw):
    types = draw(g.var_types(3))
    n = draw(st.integers(2, 3))
    other = dict(types)
    how = draw(st.sampled_from(['drop', 'add', 'rename']))
    if how == 'drop' and len(other) > 1:
        other.pop(draw(st.sampled_from(sorted(other))))
    elif how == 'rename':
        other['R'] = other.pop(draw(st.sampled_from(sorted(other))))
    else:
        other['R'] = 'c'
    return {'ms': [draw(g.base_model(types, 1)) for _ in range(n)], 'ws': [draw(g.weights) for _ in range(n)],
            'bad': draw(g.base_model(other, 1)), 'style': draw(st.integers(0, 2))}


@st.composite
def prodvars(draw):
    types = draw(g.var_types(3))
    m, ty = draw(g.rich_model(types, 1, 2))
    v = draw(st.sampled_from(sorted(ty)))
    t = 'r' if ty[v] == 'd' else ty[v]
    bt = {v: t}
    if draw(st.booleans()):
        bt['R'] = 'c'
    return {'m': m, 'leaf': {'t': 'leaf', 'v': 'S', 'd': draw(g.dist_of('r'))}, 'bad': draw(g.base_model(bt, 1))}


@st.composite
def weights(draw):
    types = draw(g.var_types(2))
    n = draw(st.integers(2, 4))
    return {'ms': [draw(g.base_model(types, 0)) for _ in range(n)], 'ws': [draw(g.weights) for _ in range(n)],
            'eps': draw(st.sampled_from([0.001, -0.001, 0.01, -0.01, 0.1, -0.1, 1, -0.5, 2, 1e-3, -1])),
            'at': draw(st.integers(0, 3)),
            'out': draw(st.lists(st.sampled_from([-1, -0.25, 1.25, 2, 1e9, -1e-3, {'q': [4, 3]}, {'q': [-1, 3]}]), min_size=1, max_size=2)),
            'ds': [draw(g.dist_of('r')) for _ in range(n)]}


@st.composite
def piecewise(draw):
    _, parts = draw(pw(g.expression(1, ops=g.TOTAL_OPS)))
    k = draw(st.integers(0, len(parts) - 1))
    e = draw(g.expression(1, ops=g.TOTAL_OPS))
    how = draw(st.integers(0, 2))
    if how == 0:
        s = draw(g.num_set(['x']))
        gd = ['lit', parts[k][1][1] if parts[k][1][0] == 'lit' else 'X', ['x'], s, 0]
    elif how == 1:
        gd = parts[k][1]
    else:
        gd = ['or', [parts[k][1], ['lit', 'X', ['x'], draw(g.num_set(['x'])), 0]]]
    return {'good': parts, 'bad': [e, gd], 'at': draw(st.integers(0, 3)), 'style': draw(st.integers(0, 2))}


@st.composite
def powers(draw):
    ops = tuple(o for o in g.EXPR_OPS)
    return {'e': draw(g.expression(2, ops=ops)), 'e2': draw(g.expression(1, ops=ops))}


def numeric(ty):
    return sorted(v for v, t in ty.items() if t in g.NUMERIC or t == 'd')


@st.composite
def transform(draw):
    types = draw(g.var_types(3, types=('c', 'i', 'r', 's', 'c')))
    if not numeric(types):
        types['X'] = 'c'
    m, ty = draw(g.rich_model(types, 1, 2))
    return {'m': m, 'base': draw(st.sampled_from(numeric(ty))), 'e': g.exactify(draw(g.expression(2, ops=g.TOTAL_OPS, mindepth=1)))}


@st.composite
def query(draw):
    types = draw(g.var_types(3))
    m, ty = draw(g.rich_model(types, 1, 2))
    return {'m': m, 'ev': draw(g.event(ty, 1, st.just(['x']), 4)),
            'u': draw(st.one_of(g.literal({'unknown': 'c'}, g.expression(1, ops=g.TOTAL_OPS)), g.literal({'unknown': 's'}))),
            'a': {v: draw(g.value_for(m, v, t)) for v, t in ty.items() if t != 'd'}}


@st.composite
def program(draw):
    p = draw(c11._case(False))
    return {'stmts': p['stmts'], 'style': p['style'], 'fault': draw(st.sampled_from(faults.FAULTS)),
            'at': draw(st.integers(0, 40)), 'pick': draw(st.integers(0, 5)), 'd': draw(g.dist_of('r'))}


KINDS = dict(mixvars=mixvars, prodvars=prodvars, weights=weights, params=params, piecewise=piecewise,
             powers=powers, transform=transform, query=query, program=program)


@st.composite
def of(draw, k):
    return dict(draw(KINDS[k]()), kind=k)


@st.composite
def _case(draw):
    return draw(of(draw(st.sampled_from(sorted(KINDS) + ['program'] * 9))))


def strategy(tier):
    return _case()
