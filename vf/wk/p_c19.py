"""C19: one fault makes a model or program ill-formed: it must be rejected, and
the same construction without the fault accepted."""
import math
import sympy
import build, prog, ref
from core import check, check_close, Discard, Violation
from sppl import spe as S
from sppl import distributions as D
from sppl import transforms as T
from sppl.transforms import Id
from sppl.compilers import ast_to_spe as A
from sppl.compilers.sppl_to_python import SPPL_Compiler
import p_c07
from faults import RAW

ROOT = (S.SumSPE, S.ProductSPE, S.LeafSPE)


def rejected(f, what):
    try:
        r = f()
    except Exception as e:
        if isinstance(e, (MemoryError,)):
            raise
        return
    raise Violation('%s: accepted, gave %s' % (what, str(r)[:300]))


def accepted(f, what):
    try:
        return f()
    except Exception as e:
        raise Violation('%s: rejected with %s(%s)' % (what, type(e).__name__, str(e)[:300]))


def names(spe):
    return {str(s) for s in spe.get_symbols()}


def sane(spe, m, what):
    check(names(spe) == ref.variables(m), '%s has variables %s, should be %s', what, sorted(names(spe)), sorted(ref.variables(m)))


def mixture(cs, ws, style):
    return build.mixture(cs, ws, style)


def usable(p):
    """A mixture under construction must not answer anything."""
    if isinstance(p, ROOT):
        return p
    v = sorted(p.children[0].get_symbols(), key=str)[0] if getattr(p, 'children', None) else Id('X')
    got = []
    for g in (lambda: p & (Id('fresh') >> D.norm()), lambda: p.prob(v < 0), lambda: p.condition(v < 1e6),
              lambda: p.sample(1), lambda: p.transform(Id('fresh'), v ** 2)):
        try:
            got.append(g())
        except Exception:
            pass
    if got:
        return got
    raise ValueError('not a model')


# --- library constructions ------------------------------------------------------

def mixvars(c):
    ms, ws = c['ms'], build.frac_weights([[w, None] for w in c['ws']])
    good = [build.model(m) for m in ms]
    r = accepted(lambda: usable(mixture(good, ws, c['style'])), 'mixture over the same variables')
    sane(r, ms[0], 'the mixture')
    bad = build.model(c['bad'])
    if names(bad) == names(good[0]):
        raise Discard('same variables')
    for i in range(len(good)):
        kids = good[:i] + [bad] + good[i + 1:]
        for style in (0, 1, 2):
            rejected(lambda: usable(mixture(kids, ws, style)),
                     'mixture (style %d) of components over %s' % (style, [sorted(names(k)) for k in kids]))


def prodvars(c):
    m = build.model(c['m'])
    l, b = build.model(c['leaf']), build.model(c['bad'])
    r = accepted(lambda: m & l, 'product over disjoint variables')
    check(names(r) == names(m) | names(l), 'product has variables %s', names(r))
    if not names(m) & names(b):
        raise Discard('disjoint')
    o = build.model({'t': 'leaf', 'v': 'other', 'd': {'k': 'norm', 'kw': {}}})
    for f in (lambda: m & b, lambda: b & m, lambda: S.ProductSPE([m, b]), lambda: S.ProductSPE([o, b, m]),
              lambda: (m & o) & b, lambda: o & (m & b), lambda: (b & o) & m, lambda: S.ProductSPE([S.ProductSPE([o, b]), m])):
        rejected(f, 'product of models over %s and %s' % (sorted(names(m)), sorted(names(b))))


def weights(c):
    ws = build.frac_weights([[w, None] for w in c['ws']])
    eps = float(ref.num(c['eps']))
    k = c['at'] % len(ws)
    ms = [build.model(m) for m in c['ms']]
    bad = list(ws)
    bad[k] = bad[k] + eps
    X = Id('X')
    accepted(lambda: usable(mixture(ms, ws, 0)), 'weights %s' % ws)
    accepted(lambda: S.SumSPE(ms, [math.log(w) for w in ws]), 'weights %s' % ws)
    if 0 < bad[k]:
        rejected(lambda: S.SumSPE(ms, [math.log(w) for w in bad]), 'mixture with weights %s' % bad)
        rejected(lambda: S.SumSPE(ms + ms[:1], [math.log(w) for w in ws]), 'mixture with too few weights')
        rejected(lambda: S.SumSPE(ms, [math.log(w) for w in ws + ws[:1]]), 'mixture with too many weights')
    for style in (0, 2) if 0 < bad[k] else (0,):
        rejected(lambda: usable(mixture(ms, bad, style)), 'mixture with weights %s' % bad)
    rejected(lambda: usable(mixture(ms[:-1], ws[:-1], 0)) if len(ms) > 2 else usable(ws[0] * ms[0]), 'incomplete mixture')
    for w in c['out']:
        w = build.num(w)
        rejected(lambda: w * ms[0], 'weight %s' % w)
        rejected(lambda: w * D.norm(), 'weight %s' % w)
        rejected(lambda: (w * ms[0]) | ((1 - w) * ms[-1]), 'weights %s and %s' % (w, 1 - w))
    # Mixtures of primitive distributions, outcomes of finite distributions.
    ds = c['ds']

    def dmix(ws):
        r = None
        for w, d in zip(ws, ds):
            p = w * build.distribution(d)
            r = p if r is None else r | p
        return X >> r
    accepted(lambda: dmix(ws), 'mixture of distributions with weights %s' % ws)
    rejected(lambda: dmix(bad), 'mixture of distributions with weights %s' % bad)
    rejected(lambda: dmix(ws[:-1]), 'mixture of distributions with weights %s' % ws[:-1])
    strs = ['a', 'b', 'c', 'd'][:len(ws)]
    accepted(lambda: X >> D.choice(dict(zip(strs, ws))), 'choice with weights %s' % ws)
    rejected(lambda: X >> D.choice(dict(zip(strs, bad))), 'choice with weights %s' % bad)
    neg = list(ws)
    neg[0], neg[-1] = -0.25, neg[-1] + neg[0] + 0.25
    rejected(lambda: X >> D.choice(dict(zip(strs, neg))), 'choice with weights %s' % neg)
    nums = list(range(len(ws)))
    accepted(lambda: X >> D.discrete(dict(zip(nums, ws))), 'discrete with weights %s' % ws)
    rejected(lambda: X >> D.discrete(dict(zip(nums, bad))), 'discrete with weights %s' % bad)
    rejected(lambda: X >> D.discrete(dict(zip(nums, neg))), 'discrete with weights %s' % neg)
    rejected(lambda: X >> D.choice(dict(zip(nums, ws))), 'choice over numbers')
    rejected(lambda: X >> D.choice({}), 'choice over nothing')
    rejected(lambda: X >> D.uniformd(values=()), 'uniform distribution over nothing')


def special(j):
    if isinstance(j, dict):
        if 'f' in j:
            return float(j['f'])
        if 's' in j:
            return j['s']
        if 'n' in j:
            return None
        if 'j' in j:
            return 1j
    return build.num(j)


def params(c):
    v = Id('X')
    good = accepted(lambda: v >> build.distribution(c['good']), 'X >> %s' % c['good'])
    check(isinstance(good, ROOT), 'X >> %s gave %s', c['good'], good)
    bad = c['bad']
    kw = {k: special(x) for k, x in bad['kw'].items()}
    if bad.get('var'):
        kw[bad['var']] = Id('Y')
    rejected(lambda: v >> getattr(D, bad['k'])(**kw), 'X >> %s(%s)' % (bad['k'], kw))
    f = getattr(D, c['good']['k'])
    kw = {k: build.num(x) for k, x in c['good']['kw'].items()}
    if c['good']['k'] != 'atomic':
        rejected(lambda: v >> f(*kw.values()), 'positional parameters of %s' % c['good']['k'])
    rejected(lambda: v >> f(nonsense=1, **kw), 'unknown parameter of %s' % c['good']['k'])
    rejected(lambda: v >> f, 'distribution without parameters')
    need = [k for k in kw if k not in ('loc', 'scale')]
    if need:
        rejected(lambda: v >> f(**{k: x for k, x in kw.items() if k != need[0]}), '%s without %s' % (c['good']['k'], need[0]))


def pieces(ps, x, style):
    es = [build.expr(e, x) for e, _ in ps]
    vs = [build.event(g, build.Everything(x)) for _, g in ps]
    if style == 1:
        return T.Piecewise(es, vs)
    r = None
    for e, g in zip(es, vs):
        p = e * g if style == 0 else g * e
        r = p if r is None else r + p
    return r


def piecewise(c):
    x = Id('X')
    xs = [y for y in p_c07.probe_points(['or', [g for _, g in c['good'] + [c['bad']]]])[0]]
    gd = [g for _, g in c['good']]
    if any(sum(ref.truth_at(g, y) for g in gd) > 1 for y in xs):
        raise Discard('the good pieces overlap')
    if not any(ref.truth_at(c['bad'][1], y) and any(ref.truth_at(g, y) for g in gd) for y in xs):
        raise Discard('the bad piece does not overlap')
    r = accepted(lambda: pieces(c['good'], x, c['style']), 'disjoint pieces')
    check(r.get_symbols() == frozenset([x]), 'symbols %s', r.get_symbols())
    k = c['at'] % (len(c['good']) + 1)
    ps = c['good'][:k] + [c['bad']] + c['good'][k:]
    for style in (0, 1, 2):
        rejected(lambda: pieces(ps, x, style), 'pieces on overlapping sets: %s' % (ps,))
    # Pieces over another variable.
    y = Id('Y')
    e, g = c['good'][0]
    ex, gx, ey, gy = build.expr(e, x), build.event(g, build.Everything(x)), build.expr(e, y), build.event(g, build.Everything(y))
    rejected(lambda: ex * gy, 'a piece of X on an event of Y')
    rejected(lambda: T.Piecewise([ex], [gy]), 'a piece of X on an event of Y')
    rejected(lambda: ex * (gx & gy), 'a piece of X on an event of X and Y')
    rejected(lambda: ex * (gx | gy), 'a piece of X on an event of X and Y')
    if len(c['good']) > 1:
        e2, g2 = c['good'][1]
        ex2, gx2 = build.expr(e2, x), build.event(g2, build.Everything(x))
        rejected(lambda: ex2 * gx2 + ey * gy, 'pieces over X and Y')
        rejected(lambda: T.Piecewise([ey, ex2], [gy, gx2]), 'pieces over X and Y')
        rejected(lambda: T.Piecewise([ex, ex2], [gx]), 'more pieces than events')
        rejected(lambda: T.Piecewise([ex], [gx, gx2]), 'more events than pieces')


POINTS = [sympy.Rational(1, 4), 1, 2, 3]


def right_or_rejected(f, want, what, x):
    """An unsupported combination: refused, or else right."""
    try:
        t = f()
    except Exception:
        return
    check(isinstance(t, T.Transform) and t.get_symbols() == frozenset([x]), '%s: accepted, gave %s', what, t)
    ok = 0
    for p in POINTS:
        try:
            w = want(float(p))
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if isinstance(w, complex) or not math.isfinite(w):
            continue
        try:
            got = float(t.evaluate({x: p}))
        except Exception as e:
            raise Violation('%s: accepted, gave %s, which cannot be evaluated at %s (%s)' % (what, t, p, e))
        check(abs(got - w) <= 1e-9 * max(1, abs(w)), '%s: accepted, gave %s, at %s it is %s, should be %s', what, t, p, got, w)
        ok += 1
    if not ok:
        raise Violation('%s: accepted, gave %s, though it denotes nothing' % (what, t))


def powers(c):
    x, y = Id('X'), Id('Y')
    e = c['e']
    t = build.expr(e, x)

    def at(p):
        v = ref.ev_expr(e, ref.F(p).limit_denominator(1000))
        if v is None:
            raise ValueError
        return float(v)
    R = sympy.Rational
    for p in (0.5, 2.5, 1.0, 2.0, -1.5, R(2, 3), R(-2, 3), R(5, 2), sympy.pi, sympy.sqrt(2), 0):
        right_or_rejected(lambda: t ** p, lambda v: at(v) ** float(p), '(%s)**%r' % (t, p), x)
    never = [('(%s)**%r' % (t, p), lambda p=p: t ** p) for p in ('a', None, x, y, t, float('nan'), 1j)]
    for b in (0, -1, -2, -0.5, R(-1, 2), 'a', None, float('nan'), 1j):
        never.append(('%r**(%s)' % (b, t), lambda b=b: b ** t))
    for b in (0, -1, -2.5):
        never.append(('Exponential(%s, %r)' % (t, b), lambda b=b: T.Exponential(t, b)))
    for b in (0, 1, -1, -2.5):
        never.append(('Logarithm(%s, %r)' % (t, b), lambda b=b: T.Logarithm(t, b)))
    for d in (0, -1, 2.5):
        never.append(('Radical(%s, %r)' % (t, d), lambda d=d: T.Radical(t, d)))
    never += [('%s / 0' % t, lambda: t / 0), ('%s / 0.0' % t, lambda: t / 0.0), ('Poly without coefficients', lambda: T.Poly(t, [])),
              ('%s * inf' % t, lambda: t * float('inf')), ('%s + nan' % t, lambda: t + float('nan')),
              ('%s + inf' % t, lambda: t + float('inf')), ('%s * 1j' % t, lambda: t * 1j), ('%s + "a"' % t, lambda: t + 'a'),
              ('%s - None' % t, lambda: t - None), ('Poly with strings', lambda: T.Poly(t, ['a', 1])),
              ('%s < Y' % t, lambda: t < y), ('%s <= "a"' % t, lambda: t <= 'a'), ('%s > None' % t, lambda: t > None),
              ('%s < nan' % t, lambda: t < float('nan')), ('%s >= 1j' % t, lambda: t >= 1j),
              ('%s << 3' % t, lambda: t << 3), ('%s << {nan}' % t, lambda: t << {float('nan')}), ('%s << None' % t, lambda: t << None),
              ('%s & (X < 1)' % t, lambda: t & (x < 1)), ('(X < 1) & True', lambda: (x < 1) & True), ('(X < 1) | X', lambda: (x < 1) | x),
              ('(X < 1) ^ 2', lambda: (x < 1) ^ 2), ('~X', lambda: ~x)]
    for what, f in never:
        rejected(f, what)
    # Two expressions in one.
    t2 = build.expr(c['e2'], y)
    for op, f in (('+', lambda a, b: a + b), ('*', lambda a, b: a * b), ('-', lambda a, b: a - b), ('/', lambda a, b: a / b), ('**', lambda a, b: a ** b)):
        rejected(lambda: f(t, t2), '(%s) %s (%s)' % (t, op, t2))
        t3 = build.expr(c['e2'], x)

        def want(v):
            b = ref.ev_expr(c['e2'], ref.F(v).limit_denominator(1000))
            if b is None:
                raise ValueError
            return f(at(v), float(b))
        right_or_rejected(lambda: f(t, t3), want, '(%s) %s (%s)' % (t, op, t3), x)


def transform(c):
    m = c['m']
    spe = build.model(m)
    U = Id('new')
    vs = sorted(ref.variables(m))
    base = c['base']
    e = build.expr(c['e'], Id(base))
    r = accepted(lambda: spe.transform(U, e), 'new = %s on %s' % (e, vs))
    check(names(r) == set(vs) | {'new'}, 'variables %s', names(r))
    for v in vs:
        rejected(lambda: spe.transform(Id(v), e), 'redefinition of %s as %s' % (v, e))
        rejected(lambda: r.transform(Id(v), build.expr(c['e'], U)), 'redefinition of %s by a derived variable' % v)
    rejected(lambda: r.transform(U, e), 'second definition of new')
    rejected(lambda: spe.transform(U, build.expr(c['e'], U)), 'definition of new by itself')
    rejected(lambda: spe.transform(U, build.expr(c['e'], Id('unknown'))), 'definition by an unknown variable')
    rejected(lambda: spe.transform(U, (Id(base) < 0) | (Id('unknown') < 0)), 'definition by an unknown variable')
    for bad in (3, 'X', None, True):
        rejected(lambda: spe.transform(U, bad), 'definition by %r' % (bad,))


def query(c):
    m = c['m']
    spe = build.model(m)
    q = Id('unknown')
    ev = build.ev(c['ev'])
    p = ref.prob(m, c['ev'])
    if not 1e-3 < p < 1 - 1e-3:
        raise Discard('known part decided')
    accepted(lambda: spe.prob(ev), 'P(%s)' % ev)
    accepted(lambda: spe.condition(ev), 'condition on %s' % ev)
    u = build.event(c['u'], build.Everything(q))
    for what, e in (('', u), ('', ~u), ('', ev & u), ('', ev | u), ('', u & ev), ('', ~(ev & u)), ('', ev ^ u)):
        rejected(lambda: spe.prob(e), 'P(%s) for a model of %s' % (e, sorted(names(spe))))
        rejected(lambda: spe.logprob(e), 'log P(%s)' % e)
        rejected(lambda: spe.condition(e), 'condition on %s for a model of %s' % (e, sorted(names(spe))))
    rejected(lambda: spe.mutual_information(ev, u), 'mutual information with %s' % u)
    rejected(lambda: spe.mutual_information(u, ev), 'mutual information with %s' % u)
    asg = build.assignment(c['a'])
    d, w = ref.density(m, c['a'])
    if d is not None and w > 1e-9:
        accepted(lambda: spe.logpdf(asg), 'density of %s' % asg)
        accepted(lambda: spe.constrain(asg), 'observing %s' % asg)
        for a in ({q: 1}, {**asg, q: 1}, {q: 1, **asg}):
            rejected(lambda: spe.logpdf(a), 'density of %s for a model of %s' % (a, sorted(names(spe))))
            rejected(lambda: spe.constrain(a), 'observing %s for a model of %s' % (a, sorted(names(spe))))
    some = sorted(spe.get_symbols(), key=str)[:1]
    rejected(lambda: spe.sample_subset([q], 2), 'samples of an unknown variable')
    rejected(lambda: spe.sample_subset(some + [q], 2), 'samples of an unknown variable')
    rejected(lambda: spe.sample_func(lambda unknown: unknown, 2), 'samples of a function of an unknown variable')
    for bad in (True, None, 'X < 1', some[0], 3):
        rejected(lambda: spe.prob(bad), 'P(%r)' % (bad,))
        rejected(lambda: spe.condition(bad), 'condition on %r' % (bad,))


# --- programs --------------------------------------------------------------------

def put_raw(stmts, path, lines):
    """Stmts with raw lines inserted at the path (index, branch, index, ..)."""
    i = path[0] % (len(stmts) + 1)
    if len(path) > 1 and i < len(stmts) and stmts[i][0] == 'if':
        bs = [list(b) for b in stmts[i][1]]
        k = path[1] % len(bs)
        bs[k][1] = put_raw(bs[k][1], path[2:] or [0], lines)
        return stmts[:i] + [['if', bs]] + stmts[i + 1:]
    return stmts[:i] + [['raw', lines]] + stmts[i:]


class Source(prog.Source):
    def block(self, stmts, depth=0):
        for s in stmts:
            if s[0] == 'raw':
                for l in s[1]:
                    self.lines.append(' ' * (self.ind * depth) + l)
            else:
                super().block([s], depth)


def text(p, style, stmts=None):
    s = Source(style)
    s.block(p['stmts'] if stmts is None else stmts)
    return s.text()


def execute(src):
    ns = SPPL_Compiler(src).execute_module()
    return ns.model


def render(src):
    t = SPPL_Compiler(src, modelname='other').render_module()
    ns = {}
    exec(compile(t, 'rendered', 'exec'), ns)
    return ns['other']


def walk(stmts, path=(), m=None):
    """(path, defined variables, reachable) of every place in the program."""
    for i, s in enumerate(stmts):
        yield path + (i,), m
        if s[0] == 'if':
            earlier = []
            for k, (g, b) in enumerate(s[1]):
                e = ['not', ['or', list(earlier)]] if g is None else ['and', [g] + [['not', x] for x in earlier]] if earlier else g
                earlier.append(g)
                if ref.prob(m, e) > 1e-3:
                    yield from walk(b, path + (i, k), {'t': 'cond', 'm': m, 'e': e})
        m = prog.denote([s], m)
    yield path + (len(stmts),), m


def insert(stmts, path, new):
    i = path[0]
    if len(path) == 1:
        return stmts[:i] + new + stmts[i:]
    bs = [list(b) for b in stmts[i][1]]
    bs[path[1]][1] = insert(bs[path[1]][1], path[2:], new)
    return stmts[:i] + [['if', bs]] + stmts[i + 1:]


def remove(stmts, path):
    i = path[0]
    if len(path) == 1:
        return stmts[:i] + stmts[i + 1:]
    bs = [list(b) for b in stmts[i][1]]
    bs[path[1]][1] = remove(bs[path[1]][1], path[2:])
    return stmts[:i] + [['if', bs]] + stmts[i + 1:]


def numeric(m):
    return m is not None and sorted(v for v in ref.variables(m)
                                    if ref.prob(m, ['lit', v, ['x'], ['ge', 0]]) + ref.prob(m, ['lit', v, ['x'], ['lt', 0]]) > 1 - 1e-9)


def spell(c, stmts, places):
    """(what, statements or text) of the faulty program."""
    f = c['fault']
    path, m = places[c['at'] % len(places)]
    vs = sorted(ref.variables(m)) if m is not None else []
    v = vs[c['pick'] % len(vs)] if vs else None
    top = len(path) == 1
    if f in ('redefine', 'self', 'unknown-base', 'unknown-cond', 'unknown-cond-or', 'unknown-guard', 'unknown-constrain', 'impossible', 'redefine-trans') and m is None:
        raise Discard('nothing defined yet')
    if f == 'redefine':
        return 'second definition of %s' % v, insert(stmts, path, [['sample', v, c['d']]])
    if f == 'redefine-trans':
        return 'second definition of %s' % v, insert(stmts, path, [['trans', v, vs[0], ['add', ['x'], 1]]])
    if f == 'self':
        return 'definition by itself', insert(stmts, path, [['trans', 'Q', 'Q', ['add', ['x'], 1]]])
    if f == 'unknown-base':
        return 'definition by an unknown variable', insert(stmts, path, [['trans', 'Q', 'Q2', ['pow', ['x'], 2]]])
    if f == 'unknown-cond':
        return 'condition on an unknown variable', insert(stmts, path, [['cond', ['lit', 'Q', ['x'], ['lt', 1], 0]]])
    if f == 'unknown-cond-or':
        return 'condition on an unknown variable', insert(stmts, path, [['cond', ['or', [['lit', v, ['x'], ['in', [12345]], 0], ['lit', 'Q', ['x'], ['lt', 1], 0]]]]])
    if f == 'unknown-constrain':
        return 'observation of an unknown variable', insert(stmts, path, [['constr', [['Q', 1]]]])
    if f == 'unknown-guard':
        d = ['sample', 'Q', c['d']]
        return 'branch on an unknown variable', insert(stmts, path, [['if', [[['lit', 'Q2', ['x'], ['lt', 0], 0], [d]], [None, [d]]]]])
    if f == 'impossible':
        e = ['and', [['lit', v, ['x'], ['lt', -1], 0], ['lit', v, ['x'], ['gt', 1], 0]]]
        return 'condition of probability zero', insert(stmts, path, [['cond', e]])
    if f in ('branch-def', 'extra-def', 'no-else', 'if-alone'):
        ifs = [i for i, s in enumerate(stmts) if s[0] == 'if']
        if not ifs:
            raise Discard('no branches')
        path = ifs[c['at'] % len(ifs)]
        s = stmts[path]
        qm = prog.denote(stmts[:path])
        earlier, ps = [], []
        for g, _ in s[1]:
            e = ['not', ['or', list(earlier)]] if g is None else ['and', [g] + [['not', x] for x in earlier]] if earlier else g
            earlier.append(g)
            ps.append(ref.prob(qm, e))
        live = [k for k, p in enumerate(ps) if p > 1e-3]
        if f == 'no-else':
            if s[1][-1][0] is not None or ps[-1] < 1e-3 or len(s[1]) < 3:
                raise Discard('no else branch to drop')
            return 'branches that do not cover every case', replace(stmts, path, ['if', s[1][:-1]])
        if f == 'if-alone':
            if ps[0] > 1 - 1e-3:
                raise Discard('certain')
            g = Source(c['style']).event(s[1][0][0])
            return 'a branch without alternative', replace(stmts, path, ['raw', ['if %s:' % g, '    Q ~= norm()']])
        if len(live) < 2:
            raise Discard('one live branch')
        k = live[c['pick'] % len(live)]
        b = s[1][k][1]
        if f == 'extra-def':
            nb = b + [['sample', 'Q', c['d']]]
        else:
            ds = [j for j, x in enumerate(b) if x[0] in ('sample', 'trans', 'ifexp')]
            if not ds:
                raise Discard('no definition in the branch')
            nb = [x for j, x in enumerate(b) if j != ds[-1]] or [['raw', ['pass']]]
        bs = [[g, nb if j == k else x] for j, (g, x) in enumerate(s[1])]
        return 'branches that define different variables', replace(stmts, path, ['if', bs])
    if f == 'drop-def':
        ds = [(i,) for i, s in enumerate(stmts) if s[0] in ('sample', 'trans') and mentions(stmts[i + 1:], s[1])]
        if not ds:
            raise Discard('no used definition')
        return 'use of an undefined variable', remove(stmts, ds[c['at'] % len(ds)])
    # Raw text.
    kind, lines = RAW[f]
    n = numeric(m)
    if '{v}' in ''.join(lines):
        if not n:
            raise Discard('no numeric variable')
        if '{w}' in ''.join(lines) and len(n) < 2:
            raise Discard('one numeric variable')
    sub = {'v': n[c['pick'] % len(n)] if n else '', 'w': n[(c['pick'] + 1) % len(n)] if n else '', 'new': 'Q'}
    if kind == 'top' and not top:
        path = (len(stmts),)
    lines = [l.replace('{v}', sub['v']).replace('{w}', sub['w']) for l in lines]
    return 'ill-formed statement %r' % ('\n'.join(lines)), insert(stmts, path, [['raw', lines]])


def mentions(stmts, v):
    return "'%s'" % v in str(stmts)


def replace(stmts, i, new):
    return stmts[:i] + [new] + stmts[i + 1:]


def program(c):
    flat = prog.expand(c['stmts'])
    m = prog.denote(flat)
    ref.validate(m)
    src = text({'stmts': flat}, c['style'])
    spe = accepted(lambda: execute(src), 'the program without the fault\n%s\n' % src)
    sane(spe, m, 'the program\n%s\n' % src)
    accepted(lambda: render(src), 'the rendered program without the fault\n%s\n' % src)
    what, bad = spell(c, flat, list(walk(flat)))
    bsrc = text({'stmts': bad}, c['style'])
    for f in (execute, render):
        rejected(lambda: f(bsrc), '%s in\n%s\n' % (what, bsrc))
    return what


KINDS = dict(mixvars=mixvars, prodvars=prodvars, weights=weights, params=params, piecewise=piecewise,
             powers=powers, transform=transform, query=query, program=program)


def run(case, ctx):
    k = case['kind']
    if 'm' in case:
        ref.validate(case['m'])
    for m in case.get('ms', ()):
        ref.validate(m)
    if k == 'program':
        ctx.tag('fault:' + case['fault'])
    KINDS[k](case)
    ctx.tag('kind:' + k)
    ctx.nt = True
