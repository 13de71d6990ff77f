from fractions import Fraction as F
from hypothesis import strategies as st
from gen import common as g
from gen.c11 import rhs_dist
import prog, ref

STRS = g.STRS


def swap(j, old, new):
    """Replace variable name old in literals by new (possibly a placeholder)."""
    return prog.rename(j, lambda v: new if v == old else v)


class S:
    def __init__(self):
        self.types = {}     # concrete name -> type
        self.supp = {}      # concrete name -> list of possible values (finite)
        self.stmts = []
        self.consts = {}
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)


def loc_of(d):
    kw = d.get('kw') or {}
    return 'loc' in kw and isinstance(kw['loc'], int)


@st.composite
def param_dist(draw, t, idx):
    """A distribution whose location may depend on the indices in scope:
    idx: {name: ('num', None) | ('str', values)}"""
    d = draw(g.dist_of(t))
    if d['k'] == 'atomic' or not loc_of(d):
        if t in ('c', 'i', 'r') and draw(st.booleans()):
            d = g.kwd('norm' if t != 'i' else 'atomic', loc=draw(st.integers(-2, 3)), **({'scale': 1} if t != 'i' else {}))
    if loc_of(d) and idx and draw(st.integers(0, 3)) > 0:
        d = {'k': d['k'], 'kw': dict(d['kw'], loc=draw(param(d['kw']['loc'], idx)))}
    if d['k'] == 'choice':
        ss = [n for n, (k, _) in idx.items() if k == 'str']
        if ss and draw(st.booleans()):
            d = {'k': 'choice', 'w': [[{'ixs': ss[0]}, 1]]}
    return d


@st.composite
def param(draw, base, idx):
    n = draw(st.sampled_from(sorted(idx)))
    k, vals = idx[n]
    if k == 'num':
        return {'ix': [[[n, draw(st.sampled_from([1, 1, 2, -1]))]], base]}
    return {'sel': [n, [[v, draw(st.integers(-3, 4))] for v in vals]]}


@st.composite
def guard(draw, scope, idx):
    """Event over the scope {concrete or '#k': type}; thresholds may use an index."""
    ev = draw(g.event(scope, draw(st.integers(0, 1)), st.one_of(st.just(['x']), st.just(['x']), g.expression(1, ops=('affine', 'abs'))), 3))
    nums = {n: v for n, v in idx.items() if v[0] == 'num'}
    if nums and ev[0] == 'lit' and ev[3][0] in ('lt', 'le', 'gt', 'ge') and isinstance(ev[3][1], int) and draw(st.booleans()):
        ev = ev[:3] + [[ev[3][0], draw(param(ev[3][1], nums))]] + ev[4:]
    return ev


def subst_scope(j, names):
    return prog.rename(j, lambda v: names.get(v, v))


@st.composite
def body(draw, targets, scope, names, idx, plain):
    """Statements defining the targets [(variable, type)], using the scope."""
    out = []
    scope = dict(scope)
    for i, (v, t) in enumerate(targets):
        gs = {k: x for k, x in scope.items() if x != 'm'}
        op = draw(st.sampled_from(['sample', 'sample', 'if', 'ifexp', 'trans']))
        if op == 'trans':
            bases = [k for k, x in scope.items() if x in ('c', 'i', 'r')]
            if bases and t == 'd':
                b = draw(st.sampled_from(bases))
                e = draw(g.expression(1, mindepth=1, ops=('affine', 'abs', 'poly')))
                e = g.exactify(e)
                nums = {n: x for n, x in idx.items() if x[0] == 'num'}
                if nums and e[0] in ('add', 'sub') and draw(st.booleans()):
                    e = [e[0], e[1], draw(param(e[2] if isinstance(e[2], int) else 1, nums))]
                out.append(['trans', v, names.get(b, b), e])
                continue
            op = 'sample'
        td = 'r' if t == 'd' else t
        if op == 'sample' or not gs:
            out.append(['sample', v, draw(param_dist(td, idx))])
        else:
            bs = [[subst_scope(draw(guard(gs, idx)), names), draw(param_dist(td, idx))] for _ in range(draw(st.integers(1, 2)))]
            bs.append([None, draw(param_dist(td, idx))])
            if op == 'ifexp':
                out.append(['ifexp', v, [[x, ['sample', d]] for x, d in bs]])
            else:
                out.append(['if', [[x, [['sample', v, d]]] for x, d in bs]])
    if draw(st.integers(0, 4)) == 0:
        gs = {k: x for k, x in scope.items() if x != 'm'}
        if gs:
            ev = subst_scope(draw(guard(gs, idx)), names)
            out.append(['cond', ['not', ev] if draw(st.booleans()) else ev])
    return out


@st.composite
def t_chain(draw, s):
    """An array filled by a loop, each element depending on the previous one."""
    a = s.fresh('A')
    n = draw(st.integers(1, 3))
    t = draw(st.sampled_from(['c', 'i', 's', 'r']))
    size = {'k': s.fresh('N')} if draw(st.booleans()) else n
    if isinstance(size, dict):
        s.consts[size['k']] = n
    s.stmts.append(['array', a, size])
    s.stmts.append(['sample', a + '[0]', draw(rhs_dist(t))])
    i = s.fresh('i')
    scope = {'#prev': t}
    other = sorted(s.types)
    if other and draw(st.booleans()):
        o = draw(st.sampled_from(other))
        scope[o] = s.types[o]
    b = draw(body([({'at': [a, [[i, 1]], 0]}, t)], scope, {'#prev': {'at': [a, [[i, 1]], -1]}}, {i: ('num', None)}, False))
    s.stmts.append(['for', i, 1, size if isinstance(size, dict) and draw(st.booleans()) else n, b])
    for k in range(n):
        s.types['%s[%d]' % (a, k)] = t


@st.composite
def t_grid(draw, s):
    """Nested loops over a flattened two-dimensional array, or two arrays."""
    a = s.fresh('A')
    n, k = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    i, j = s.fresh('i'), s.fresh('j')
    t = draw(st.sampled_from(['c', 'i', 's']))
    idx = {i: ('num', None), j: ('num', None)}
    s.stmts.append(['array', a, n * k])
    other = {}
    if s.types and draw(st.booleans()):
        o = draw(st.sampled_from(sorted(s.types)))
        other[o] = s.types[o]
    b = draw(body([({'at': [a, [[i, k], [j, 1]], 0]}, t)], other, {}, idx, False))
    inner = [['for', j, 0, k, b]]
    if draw(st.booleans()):
        c = s.fresh('A')
        lo = draw(st.integers(0, 1))
        s.stmts.append(['array', c, n + lo])
        inner.insert(draw(st.integers(0, 1)), ['sample', {'at': [c, [[i, 1]], lo]}, draw(param_dist('r', {i: ('num', None)}))])
        for x in range(n):
            s.types['%s[%d]' % (c, x + lo)] = 'r'
    s.stmts.append(['for', i, 0, n, inner])
    if draw(st.integers(0, 5)) == 0:
        s.stmts.append(['for', s.fresh('i'), 2, 2, [['constr', [[a + '[0]', -100]]]]])
    for x in range(n * k):
        s.types['%s[%d]' % (a, x)] = t


@st.composite
def finite(draw, s):
    """A variable with finitely many values: (name, values)."""
    old = [v for v in s.supp]
    if old and draw(st.booleans()):
        v = draw(st.sampled_from(sorted(old)))
        return v, s.supp[v]
    v = s.fresh('K')
    if draw(st.booleans()):
        d = draw(g.nom_dist())
        vals = [x for x, _ in d['w']]
        s.types[v] = 's'
    else:
        k = draw(st.integers(0, 2))
        if k == 0:
            lo = draw(st.integers(-2, 3))
            n = draw(st.integers(1, 4))
            d = g.kwd('randint', low=lo, high=lo + n)
            vals = list(range(lo, lo + n))
        elif k == 1:
            vs = draw(st.lists(st.integers(-3, 5), min_size=1, max_size=4, unique=True))
            d = {'k': 'uniformd', 'w': vs}
            vals = list(vs)
        else:
            d = g.kwd('bernoulli', p=draw(st.sampled_from([0.25, 0.5])))
            vals = [0, 1]
        s.types[v] = 'i'
    s.stmts.append(['sample', v, d])
    s.supp[v] = vals
    return v, vals


@st.composite
def t_switch(draw, s):
    mode = draw(st.sampled_from(['finite', 'finite', 'sets', 'bins']))
    idx = {}
    if mode == 'finite':
        v, vals = draw(finite(s))
        vals = list(draw(st.permutations(vals)))
        if draw(st.integers(0, 3)) == 0:
            vals.append(draw(st.sampled_from(STRS + ['z'])) if isinstance(vals[0], str) else draw(st.integers(6, 9)))
            vals = list(dict.fromkeys(vals))
        strs = isinstance(vals[0], str)
        kinds = ['list', 'list', 'enumerate', 'iter']
        if not strs and sorted(vals) == list(range(min(vals), max(vals) + 1)):
            kinds += ['range', 'range']
        kind = draw(st.sampled_from(kinds))
        x = s.fresh('v')
        names = [x]
        if kind == 'range':
            values = [min(vals), max(vals) + 1]
        elif kind == 'enumerate':
            values = vals
            names = [s.fresh('i'), x]
            idx[names[0]] = ('num', None)
        else:
            values = vals
        idx[x] = ('str', vals) if strs else ('num', None)
    elif mode == 'sets':
        v = s.fresh('C')
        t = draw(st.sampled_from(['c', 'i', 's']))
        s.stmts.append(['sample', v, draw(rhs_dist(t))])
        s.types[v] = t
        if t == 's':
            cut = draw(st.integers(1, 3))
            values = [['ins', STRS[:cut + draw(st.integers(0, 1))]], ['ins', STRS[cut:]]]
        else:
            c1 = draw(g.nice())
            c2 = g.jnum(ref.num(c1) + draw(st.integers(1, 3)))
            ov = draw(st.booleans())
            values = [[draw(st.sampled_from(['lt', 'le'])), c2 if ov else c1], ['iv', c1, c2, False, False],
                      [draw(st.sampled_from(['gt', 'ge'])), c2]]
            if draw(st.booleans()):
                values.insert(draw(st.integers(0, 3)), ['in', [draw(g.nice())]])
            values = list(draw(st.permutations(values)))
        kind = draw(st.sampled_from(['list', 'enumerate']))
        names = [s.fresh('v')]
        if kind == 'enumerate':
            names = [s.fresh('i')] + names
            idx[names[0]] = ('num', None)
    else:
        v = s.fresh('C')
        a, n = draw(st.integers(-2, 2)), draw(st.integers(2, 4))
        width = draw(st.sampled_from([1, 2])) * (n - 1)
        d = draw(st.sampled_from([g.kwd('uniform', loc=a, scale=width), g.kwd('beta', a=2, b=3, loc=a, scale=width)]))
        s.stmts.append(['sample', v, d])
        s.types[v] = 'c'
        kind, values, names = 'bins', [a, a + width, n], [s.fresh('v')]
    targets, decl = [], []
    for _ in range(draw(st.integers(1, 2))):
        t = draw(st.sampled_from(['c', 'i', 's', 'd', 'r']))
        if draw(st.integers(0, 3)) == 0:
            a = s.fresh('A')
            s.stmts.append(['array', a, 1])
            targets.append((a + '[0]', t))
        else:
            targets.append((s.fresh('Z'), t))
    scope = {v: s.types[v]}
    inner = draw(body(targets, scope, {}, idx, True))
    r = draw(st.integers(0, 5))
    if r == 0:
        # A loop inside the switch.
        a, i = s.fresh('A'), s.fresh('i')
        n = draw(st.integers(1, 2))
        s.stmts.append(['array', a, n])
        t = draw(st.sampled_from(['c', 'i']))
        inner.append(['for', i, 0, n, [['sample', {'at': [a, [[i, 1]], 0]}, draw(param_dist(t, dict(idx, **{i: ('num', None)})))]]])
        for k in range(n):
            targets.append(('%s[%d]' % (a, k), t))
    elif r == 1 and s.supp:
        # A switch inside the switch.
        w = draw(st.sampled_from(sorted(s.supp)))
        if w != v:
            x, z = s.fresh('v'), s.fresh('Z')
            vals = s.supp[w]
            idx2 = dict(idx, **{x: ('str', vals) if isinstance(vals[0], str) else ('num', None)})
            t = draw(st.sampled_from(['c', 'i']))
            inner.append(['switch', w, 'list', list(vals), [x], [['sample', z, draw(param_dist(t, idx2))]]])
            targets.append((z, t))
    s.stmts.append(['switch', v, kind, values, names, inner])
    for n, t in targets:
        s.types[n] = t


@st.composite
def t_forswitch(draw, s):
    """A loop whose body switches on the element (or ifs), chain-like."""
    a, b = s.fresh('A'), s.fresh('A')
    n = draw(st.integers(1, 2))
    i, x = s.fresh('i'), s.fresh('v')
    s.stmts += [['array', a, n], ['array', b, n]]
    if draw(st.booleans()):
        vals = STRS[:2]
        d = {'k': 'choice', 'w': [[v, [draw(g.weights), 1]] for v in vals]}
        tot = sum(p[0] for _, p in d['w'])
        d = {'k': 'choice', 'w': [[v, [p[0], tot]] for v, p in d['w']]}
        ix, t = ('str', vals), 's'
    else:
        vals = [0, 1, 2][:draw(st.integers(2, 3))]
        d = g.kwd('randint', low=0, high=len(vals))
        ix, t = ('num', None), 'i'
    t2 = draw(st.sampled_from(['c', 'i', 's', 'd']))
    inner = draw(body([({'at': [b, [[i, 1]], 0]}, t2)], {'#el': t}, {'#el': {'at': [a, [[i, 1]], 0]}}, {i: ('num', None), x: ix}, False))
    s.stmts.append(['for', i, 0, n, [['sample', {'at': [a, [[i, 1]], 0]}, d],
                                     ['switch', {'at': [a, [[i, 1]], 0]}, 'list', vals, [x], inner]]])
    for k in range(n):
        s.types['%s[%d]' % (a, k)] = t
        s.types['%s[%d]' % (b, k)] = t2


@st.composite
def t_ifexp(draw, s):
    if not s.types:
        v = s.fresh('X')
        t = draw(st.sampled_from(['c', 'i', 's']))
        s.stmts.append(['sample', v, draw(rhs_dist(t))])
        s.types[v] = t
    t = draw(st.sampled_from(['c', 'i', 's', 'd']))
    z = s.fresh('Z')
    gs = {v: x for v, x in s.types.items() if x not in 'm'}
    s.stmts += draw(body([(z, t)], gs, {}, {}, True))
    s.types[z] = t


def no_cond(j):
    """Statements without (impossible) conditioning."""
    out = []
    for x in j:
        if x[0] == 'if':
            x = ['if', [[gd, no_cond(b)] for gd, b in x[1]]]
        elif x[0] in ('for', 'switch'):
            x = x[:-1] + [no_cond(x[-1])]
        if x[0] != 'cond':
            out.append(x)
    return out


@st.composite
def _case(draw, big):
    s = S()
    n = draw(st.integers(1, 3 if big else 2))
    for _ in range(n):
        draw(draw(st.sampled_from([t_chain, t_grid, t_switch, t_switch, t_switch, t_forswitch, t_ifexp]))(s))
    arrays = [x for x in s.stmts if x[0] == 'array']
    rest = [x for x in s.stmts if x[0] != 'array']
    types = s.types
    pool = draw(st.lists(st.sampled_from(sorted(types)), min_size=1, max_size=3, unique=True))
    evs = [draw(g.event({v: types[v] for v in pool}, draw(st.integers(0, 2)), st.just(['x']), 5))
           for _ in range(draw(st.integers(1, 3)))]
    stmts = arrays + rest
    try:
        prog.denote(prog.expand(prog.constants({'stmts': stmts, 'consts': s.consts})))
    except Exception:
        stmts = no_cond(stmts)
    return {'stmts': stmts, 'consts': s.consts, 'evs': evs, 'style': draw(st.integers(0, 2 ** 16)),
            'style2': draw(st.integers(0, 2 ** 16))}


def strategy(tier):
    return _case(tier != 'quick')
