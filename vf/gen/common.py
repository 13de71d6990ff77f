"""Hypothesis strategies for models, events and expressions (pure JSON data)."""
import os, sys
from fractions import Fraction as F
from hypothesis import strategies as st

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'wk'))
import ref  # noqa: E402
from core import Discard  # noqa: E402

STRS = ['a', 'b', 'c', 'd']
VARS = ['X', 'Y', 'Z', 'W']
DVARS = ['U', 'V']


def jnum(x):
    """Fraction -> JSON number (int, dyadic float or rational)."""
    x = F(x)
    if x.denominator == 1:
        return int(x)
    d = x.denominator
    if d & (d - 1) == 0 and d <= 2 ** 20 and abs(x) < 2 ** 20:
        return float(x)
    return {'q': [x.numerator, x.denominator]}


small_int = st.integers(-4, 6)
pos_int = st.integers(1, 5)


@st.composite
def nice(draw, lo=-4, hi=7, den=(1, 1, 1, 2, 4)):
    d = draw(st.sampled_from(den))
    return jnum(F(draw(st.integers(lo * d, hi * d)), d))


@st.composite
def nonzero(draw, lo=-3, hi=4, den=(1, 1, 2)):
    d = draw(st.sampled_from(den))
    n = draw(st.integers(lo * d, hi * d).filter(lambda v: v != 0))
    return jnum(F(n, d))


@st.composite
def positive(draw, hi=4, den=(1, 1, 2, 4)):
    d = draw(st.sampled_from(den))
    return jnum(F(draw(st.integers(1, hi * d)), d))


weights = st.integers(1, 9)

# --- leaves ------------------------------------------------------------------

def kwd(k, **kw):
    return {'k': k, 'kw': kw}


@st.composite
def cont_dist(draw):
    k = draw(st.sampled_from(['norm', 'norm', 'uniform', 'uniform', 'expon', 'beta', 'gamma',
                              'laplace', 'logistic', 'triang']))
    loc = draw(st.integers(-3, 4))
    sc = draw(positive(hi=3, den=(1, 1, 2)))
    if k in ('norm', 'laplace', 'logistic', 'expon'):
        return kwd(k, loc=loc, scale=sc)
    if k == 'uniform':
        return kwd(k, loc=loc, scale=draw(st.integers(1, 6)))
    if k == 'beta':
        return kwd(k, a=draw(pos_int), b=draw(pos_int), loc=loc, scale=sc)
    if k == 'gamma':
        return kwd(k, a=draw(pos_int), loc=loc, scale=sc)
    return kwd('triang', c=draw(st.sampled_from([0.25, 0.5, 0.75])), loc=loc, scale=sc)


@st.composite
def int_dist(draw):
    k = draw(st.sampled_from(['poisson', 'binom', 'bernoulli', 'randint', 'randint', 'geom',
                              'atomic', 'discrete', 'discrete', 'uniformd']))
    if k == 'poisson':
        return kwd(k, mu=draw(st.sampled_from([0.5, 1, 2, 3.5])))
    if k == 'binom':
        return kwd(k, n=draw(st.integers(1, 6)), p=draw(st.sampled_from([0.25, 0.5, 0.7])))
    if k == 'bernoulli':
        return kwd(k, p=draw(st.sampled_from([0.25, 0.5, 0.7])))
    if k == 'randint':
        lo = draw(st.integers(-4, 4))
        return kwd(k, low=lo, high=lo + draw(st.integers(1, 6)))
    if k == 'geom':
        return kwd(k, p=draw(st.sampled_from([0.25, 0.5, 0.7])))
    if k == 'atomic':
        return kwd(k, loc=draw(st.integers(-3, 5)))
    if k == 'uniformd':
        return {'k': k, 'w': draw(st.lists(st.integers(-3, 6), min_size=1, max_size=4, unique=True))}
    vs = draw(st.lists(st.integers(-3, 6), min_size=1, max_size=4, unique=True))
    ws = [draw(st.integers(1, 8)) for _ in vs]
    tot = sum(ws)
    return {'k': 'discrete', 'w': [[v, w / tot] for v, w in zip(vs, ws)]}


@st.composite
def nom_dist(draw, strs=STRS):
    vs = draw(st.lists(st.sampled_from(strs), min_size=1, max_size=4, unique=True))
    ws = [draw(weights) for _ in vs]
    tot = sum(ws)
    return {'k': 'choice', 'w': [[v, [w, tot]] for v, w in zip(vs, ws)]}


def dist_of(typ):
    if typ == 's':
        return nom_dist()
    if typ == 'c':
        return cont_dist()
    if typ == 'i':
        return int_dist()
    if typ == 'r':
        return st.one_of(cont_dist(), int_dist())
    if typ == 'm':                         # nominal or real
        return st.one_of(nom_dist(), cont_dist(), int_dist())
    raise ValueError(typ)


@st.composite
def var_types(draw, maxn=3, types=('c', 'i', 'r', 's', 's', 'm'), minn=1):
    n = draw(st.integers(minn, maxn))
    return {v: draw(st.sampled_from(types)) for v in VARS[:n]}


@st.composite
def base_model(draw, types, depth=2, top=True):
    """A model over exactly the variables of `types` (no conditioning)."""
    vs = list(types)
    if len(vs) == 1:
        v = vs[0]
        if depth > 0 and draw(st.integers(0, 2)) == 0:
            n = draw(st.integers(2, 3))
            return {'t': 'mix', 'c': [[draw(weights), draw(base_model(types, depth - 1, False))]
                                      for _ in range(n)]}
        return {'t': 'leaf', 'v': v, 'd': draw(dist_of(types[v]))}
    if depth > 0 and draw(st.booleans()):
        n = draw(st.integers(2, 3))
        return {'t': 'mix', 'c': [[draw(weights), draw(base_model(types, depth - 1, False))]
                                  for _ in range(n)]}
    k = draw(st.integers(1, len(vs) - 1))
    perm = draw(st.permutations(vs))
    g1, g2 = perm[:k], perm[k:]
    return {'t': 'prod', 'c': [draw(base_model({v: types[v] for v in g1}, depth - (len(g1) > 1), False)),
                               draw(base_model({v: types[v] for v in g2}, depth - (len(g2) > 1), False))]}


# --- expressions -------------------------------------------------------------

@st.composite
def affine(draw, e):
    op = draw(st.sampled_from(['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'neg']))
    c = draw(nonzero())
    if op in ('radd', 'rsub', 'rmul'):
        return [op, c, e]
    if op == 'neg':
        return ['neg', e]
    return [op, e, c]


@st.composite
def poly_op(draw, e, deg=2):
    """A polynomial with nice roots, as written with operators."""
    if draw(st.booleans()):
        return ['pow', e, draw(st.integers(2, deg))]
    how = draw(st.integers(0, 5))
    if how == 0:
        # Few terms, signs apart: x^2 - 1, 2 - x^2, ...
        cs = [draw(st.sampled_from([-4, -1, 1, 4])) * (1 if i == 0 else draw(st.sampled_from([0, 0, 1, -1])))
              for i in range(draw(st.integers(2, deg)))]
        return ['poly', e, cs + [draw(st.sampled_from([1, 1, -1, 2]))]]
    roots = [F(draw(st.integers(-3, 4))) for _ in range(draw(st.integers(2, deg)))]
    if how == 1:
        # Two roots close to one another.
        roots[1] = roots[0] + F(1, draw(st.sampled_from([8, 64, 512])))
    lead = draw(st.sampled_from([1, 1, -1, 2]))
    cs = [F(lead)]
    for r in roots:
        nxt = [F(0)] * (len(cs) + 1)
        for i, c in enumerate(cs):
            nxt[i + 1] += c
            nxt[i] -= r * c
        cs = nxt
    return ['poly', e, [jnum(c) for c in cs]]


EXPR_OPS = ['affine', 'affine', 'poly', 'abs', 'exp', 'expb', 'log', 'logb', 'sqrt', 'root', 'rdiv']
TOTAL_OPS = ['affine', 'affine', 'poly', 'abs', 'exp', 'expb']


@st.composite
def expression(draw, maxdepth=3, ops=tuple(EXPR_OPS), mindepth=0, deg=2):
    """A composed expression; at most two polynomial stages."""
    e = ['x']
    n = draw(st.integers(mindepth, maxdepth))
    polys = exps = 0
    for i in range(n):
        op = draw(st.sampled_from(ops))
        if op == 'poly':
            if polys:
                op = 'affine'
            polys += 1
        if op in ('exp', 'expb'):
            if exps:
                op = 'abs'
            exps += 1
        if op == 'affine':
            e = draw(affine(e))
        elif op == 'poly':
            e = draw(poly_op(e, deg))
        elif op == 'abs':
            e = ['abs', e]
        elif op == 'exp':
            e = ['exp', e]
        elif op == 'expb':
            e = ['expb', draw(st.sampled_from([2, 3, {'q': [3, 2]}, 0.5])), e]
        elif op == 'log':
            e = ['log', e]
        elif op == 'logb':
            e = ['logb', e, draw(st.sampled_from([2, 10, 3]))]
        elif op == 'sqrt':
            e = ['sqrt', e]
        elif op == 'root':
            e = ['root', e, draw(st.sampled_from([2, 3]))]
        elif op == 'rdiv':
            e = ['rdiv', draw(nonzero()), e]
    return e


def depth_of(e):
    op = e[0]
    if op == 'x':
        return 0
    if op in ('radd', 'rsub', 'rmul', 'rdiv', 'expb'):
        return 1 + depth_of(e[2])
    if op == 'pw':
        return 1 + max(depth_of(s) for s, _ in e[1])
    return 1 + depth_of(e[1])


TRANSC = ('exp', 'expb', 'log', 'logb', 'root', 'sqrt')


def has_op(e, ops):
    if not isinstance(e, list) or not e:
        return False
    return e[0] in ops or any(has_op(s, ops) for s in e)


def exactify(j):
    """Floats -> rationals.  Around logarithms, exponentials and roots a float
    constant makes the inverse inexact, so that an atom sitting exactly on a
    threshold could fall on either side; rationals are inverted exactly."""
    if isinstance(j, float):
        f = F(j)
        return int(f) if f.denominator == 1 else {'q': [f.numerator, f.denominator]}
    if isinstance(j, list):
        return [exactify(x) for x in j]
    return j


@st.composite
def threshold(draw, e):
    """A nice threshold; often the exact value of e at a nice point."""
    if e[0] != 'x' and draw(st.integers(0, 2)) > 0:
        x0 = ref.num(draw(nice(-3, 5, (1, 1, 2))))
        try:
            y = ref.ev_expr(e, x0)
        except (Discard, OverflowError, ZeroDivisionError):
            y = None
        if isinstance(y, F) and abs(y.numerator) < 10**6 and y.denominator < 10**4:
            return jnum(y)
    return draw(nice())


@st.composite
def num_set(draw, e, kinds=('lt', 'le', 'gt', 'ge', 'iv', 'iv', 'in')):
    k = draw(st.sampled_from(kinds))
    if k in ('lt', 'le', 'gt', 'ge'):
        return [k, draw(threshold(e))]
    if k == 'iv':
        a, b = draw(threshold(e)), draw(threshold(e))
        fa, fb = ref.num(a), ref.num(b)
        if fa == fb:
            b = jnum(fa + 1)
        elif fa > fb:
            a, b = b, a
        return ['iv', a, b, draw(st.booleans()), draw(st.booleans())]
    if k == 'in':
        n = draw(st.integers(1, 3))
        vals = []
        for _ in range(n):
            t = draw(threshold(e))
            if t not in vals:
                vals.append(t)
        return ['in', vals]
    if k == 'un':
        return ['un', [draw(num_set(e, ('lt', 'ge', 'iv', 'in'))) for _ in range(2)]]
    raise ValueError(k)


@st.composite
def str_set(draw):
    vs = draw(st.lists(st.sampled_from(STRS + ['z']), min_size=1, max_size=3, unique=True))
    return ['ins', vs]


@st.composite
def literal(draw, types, expr=None, kinds=('lt', 'le', 'gt', 'ge', 'iv', 'iv', 'in', 'in')):
    v = draw(st.sampled_from(sorted(types)))
    t = types[v]
    if t == 's' or (t == 'm' and draw(st.booleans())):
        return ['lit', v, ['x'], draw(str_set()), draw(st.sampled_from([0, 1, 2]))]
    e = ['x'] if expr is None else draw(expr)
    s = draw(num_set(e, kinds))
    if t == 'd' or has_op(e, TRANSC):
        e, s = exactify(e), exactify(s)
    return ['lit', v, e, s, draw(st.sampled_from([0, 0, 1, 2, 3]))]


dnf_sizes = ref.dnf_sizes


@st.composite
def raw_event(draw, types, depth, expr, kinds):
    if depth == 0 or draw(st.integers(0, 3)) == 0:
        return draw(literal(types, expr, kinds))
    op = draw(st.sampled_from(['and', 'and', 'or', 'or', 'not', 'xor']))
    if op in ('and', 'or'):
        n = draw(st.integers(2, 3))
        return [op, [draw(raw_event(types, depth - 1, expr, kinds)) for _ in range(n)]]
    if op == 'not':
        return ['not', draw(raw_event(types, depth - 1, expr, kinds))]
    return ['xor', draw(raw_event(types, depth - 1, expr, kinds)),
            draw(raw_event(types, depth - 1, expr, kinds))]


@st.composite
def event(draw, types, depth=2, expr=None, maxclauses=8,
          kinds=('lt', 'le', 'gt', 'ge', 'iv', 'iv', 'in', 'in')):
    # A variable with both nominal and real values is used with one kind of
    # literal per event (the base-event rewriting rules across kinds are fixed
    # by the test suite: X<1 & X<<{'a'} is the empty nominal event).
    types = {v: (draw(st.sampled_from(['s', 'r'])) if t == 'm' else t)
             for v, t in types.items()}
    e = draw(raw_event(types, depth, expr, kinds))
    while max(dnf_sizes(e)) > maxclauses:
        if e[0] in ('and', 'or'):
            e = [e[0], e[1][:-1]] if len(e[1]) > 2 else e[1][0]
        elif e[0] == 'not':
            e = e[1]
        elif e[0] == 'xor':
            e = e[1]
        else:
            break
    return e


simple_exprs = st.one_of(st.just(['x']), st.just(['x']), st.just(['x']), expression(2))


# --- models with derived variables, conditioning and constraining -------------

NUMERIC = ('c', 'i', 'r')


def leaves_of(m, v):
    """Distributions of the leaves of variable v."""
    if m['t'] == 'leaf':
        return [m['d']] if m['v'] == v else []
    out = []
    if 'm' in m:
        out += leaves_of(m['m'], v)
    for c in m.get('c', ()):
        out += leaves_of(c[1] if isinstance(c, list) else c, v)
    return out


def dist_value(draw, d):
    """A value the distribution can produce (JSON)."""
    k, kw = d['k'], {a: ref.num(b) for a, b in d.get('kw', {}).items()}
    loc, sc = kw.get('loc', F(0)), kw.get('scale', F(1))
    if k in ('choice', 'discrete'):
        return draw(st.sampled_from([v for v, _ in d['w']]))
    if k == 'uniformd':
        return draw(st.sampled_from(d['w']))
    if k == 'atomic':
        return d['kw']['loc']
    if k == 'randint':
        return draw(st.integers(int(kw['low']), int(kw['high']) - 1))
    if k == 'binom':
        return draw(st.integers(0, int(kw['n'])))
    if k == 'bernoulli':
        return draw(st.integers(0, 1))
    if k in ('poisson',):
        return draw(st.integers(0, 4))
    if k == 'geom':
        return draw(st.integers(1, 4))
    u = F(draw(st.integers(1, 7)), 8)
    if k in ('norm', 'laplace', 'logistic'):
        u = (u - F(1, 2)) * 4
    return jnum(loc + sc * u)


@st.composite
def value_for(draw, m, v, t):
    """A value for variable v: mostly one that some leaf of m can produce."""
    ds = leaves_of(m, v)
    if ds and draw(st.integers(0, 7)) > 0:
        return dist_value(draw, draw(st.sampled_from(ds)))
    if t == 's' or (t == 'm' and draw(st.booleans())):
        return draw(st.sampled_from(STRS))
    if t == 'i':
        return draw(st.integers(-2, 4))
    return draw(nice(-3, 5))


def likely(m, ev):
    """ev or its negation, whichever the model makes probable enough to
    condition on; None when neither."""
    try:
        p = ref.prob(m, ev)
        if p > 1e-3:
            return ev
        if ev[0] == 'not':
            ev = ev[1]
        else:
            ev = ['not', ev]
        if max(dnf_sizes(ev)) <= 8 and ref.prob(m, ev) > 1e-3:
            return ev
    except Exception:
        pass
    return None


@st.composite
def rich_model(draw, types, depth=2, wraps=2, kinds=('trans', 'cond', 'cond'), expr=None,
               maxclauses=4):
    """(model, types): a base model wrapped in definitions, conditioning and
    constraining; derived variables appear in types with type 'd'."""
    m = draw(base_model(types, depth))
    types = dict(types)
    names = list(DVARS)
    for _ in range(draw(st.integers(0, wraps))):
        k = draw(st.sampled_from(kinds))
        if k == 'trans':
            base = [v for v, t in types.items() if t in NUMERIC or t == 'd']
            if not base or not names:
                continue
            b = draw(st.sampled_from(sorted(base)))
            e = draw(expr if expr is not None else expression(2, ops=tuple(TOTAL_OPS), mindepth=1))
            e = exactify(e)
            u = names.pop(0)
            m = {'t': 'trans', 'm': m, 'v': u, 'x': [b, e]}
            types[u] = 'd'
        elif k == 'cond':
            ev = draw(event(types, draw(st.integers(0, 2)), None, maxclauses))
            ev = likely(m, ev)
            if ev is not None:
                m = {'t': 'cond', 'm': m, 'e': ev}
        elif k == 'constr':
            vs = [v for v, t in types.items() if t != 'd']
            vs = draw(st.lists(st.sampled_from(sorted(vs)), min_size=1, max_size=2, unique=True))
            a = {v: draw(value_for(m, v, types[v])) for v in vs}
            m = {'t': 'constr', 'm': m, 'a': a}
    return m, types


def model_features(m, acc=None):
    acc = set() if acc is None else acc
    acc.add(m['t'])
    if 'm' in m:
        model_features(m['m'], acc)
    for c in m.get('c', ()):
        model_features(c[1] if isinstance(c, list) else c, acc)
    return acc


# --- models and events with probabilities of very different sizes -----------------

def mixed(a, n, b):
    """n cases of a for each of b."""
    return st.integers(0, n).flatmap(lambda i: b if i == n else a)


@st.composite
def rare_leaf(draw, v, t):
    k = lambda: draw(st.integers(1, 14))
    if t == 's':
        a, b = k(), k()
        names = draw(st.permutations(['a', 'b', 'c']))
        D = 10 ** max(a, b) * 2
        p, q = D // 2 // 10 ** a, D // 2 // 10 ** b
        return {'t': 'leaf', 'v': v, 'd': {'k': 'choice', 'w': [[names[0], [p, D]], [names[1], [q, D]], [names[2], [D - p - q, D]]]}}
    if t == 'b':
        return {'t': 'leaf', 'v': v, 'd': {'k': 'bernoulli', 'kw': {'p': draw(st.sampled_from([1e-8, 1e-6, 1e-3, 0.5, 0.999]))}}}
    return {'t': 'leaf', 'v': v, 'd': {'k': 'norm', 'kw': {'loc': draw(st.sampled_from([0, 0, 3, 7, 10])), 'scale': 1}}}


@st.composite
def rare_model(draw, nvars):
    """Mixture of products whose weights and leaf probabilities span many orders
    of magnitude."""
    types = {v: draw(st.sampled_from(['s', 's', 'b', 'n'])) for v in ['X', 'Y', 'Z'][:draw(st.integers(1, nvars))]}

    def comp():
        cs = [draw(rare_leaf(v, t)) for v, t in types.items()]
        return cs[0] if len(cs) == 1 else {'t': 'prod', 'c': cs}
    n = draw(st.sampled_from([1, 2, 2, 3]))
    if n == 1:
        return comp(), types
    ws = [draw(st.sampled_from([0, 0, 1, 3, 6, 9, 12, 15])) for _ in range(n)]
    ws[draw(st.integers(0, n - 1))] = 0
    return {'t': 'mix', 'c': [[10.0 ** -w, comp()] for w in ws]}, types


@st.composite
def rare_lit(draw, types):
    v = draw(st.sampled_from(sorted(types)))
    if types[v] == 's':
        return ['lit', v, ['x'], ['ins', sorted(draw(st.lists(st.sampled_from(STRS[:3]), min_size=1, max_size=2, unique=True)))], 0]
    if types[v] == 'b':
        return ['lit', v, ['x'], ['in', [draw(st.integers(0, 1))]], 0]
    t = draw(st.integers(-9, 6))
    if draw(st.booleans()):
        return ['lit', v, ['x'], ['lt', t], 0]
    return ['lit', v, ['x'], ['iv', t - draw(st.integers(1, 3)), t, 0, 1], 0]


@st.composite
def rare_event(draw, types, depth):
    if depth == 0:
        return draw(rare_lit(types))
    return [draw(st.sampled_from(['and', 'and', 'or'])), [draw(rare_event(types, depth - 1)) for _ in range(2)]]
