"""C06: primitive distributions against scipy and against their stated weights."""
import fractions
import math
import numpy
import scipy.stats
import sympy
from scipy.stats._distr_params import distcont, distdiscrete

import build, ref
from core import check, check_close, Discard, Violation, inf
from sppl import distributions as D
from sppl.sets import FiniteReal, Interval
from sppl.transforms import Id

PARAMS = {}
for _n, _a in list(distcont) + list(distdiscrete):
    PARAMS.setdefault(_n, []).append(_a)
EXTRA = {'norm': [()], 'beta': [(0.5, 0.5), (1, 3)], 'randint': [(-4, 3), (0, 1)], 'binom': [(1, 0.5), (9, 0.2)],
         'truncnorm': [(-1, 2), (0.5, 3)], 'trapz': [(0.25, 0.75)], 'genpareto': [(-0.5,)], 'genextreme': [(0.3,), (-0.3,)],
         'hypergeom': [(10, 4, 5)], 'bernoulli': [(0.9,)], 'skellam': [(2, 5)], 'loguniform': [(1, 8)],
         'kappa4': [(1.0, 0.5)], 'weibull_max': [(1.5,)], 'poisson': [(0.25,)], 'geom': [(0.1,)]}
for _n, _l in EXTRA.items():
    PARAMS[_n] = PARAMS.get(_n, []) + _l
X = Id('X')
TOL = dict(rel=2e-5, abs_=2e-7)


def wrap(v, kind):
    if kind == 1 and isinstance(v, (int, float)):
        return float(v)
    if kind == 2 and isinstance(v, (int, float)) and float(v) == int(v):
        return int(v)
    return v


def fits(f, discrete, lo, hi):
    ok = all(math.isfinite(float(v)) for v in f.ppf([0.25, 0.5, 0.75]))
    return ok and lo < hi or (discrete and lo <= hi)


def sane(f, discrete):
    """scipy itself is wrong for some parameters (pearson3 of negative skew in
    this version has a decreasing cdf): those are outside the domain."""
    qs = [0.05, 0.25, 0.5, 0.75, 0.95]
    xs = [float(v) for v in f.ppf(qs)]
    if any(a > b for a, b in zip(xs, xs[1:])):
        return False
    for q, x in zip(qs, xs):
        if not math.isfinite(x):
            continue
        c = float(f.cdf(x))
        if discrete:
            if not (c >= q - 1e-6 and float(f.cdf(x - 1)) <= q + 1e-6):
                return False
        elif abs(c - q) > 1e-4:
            return False
    return True


class Ref:
    """Mass of sets under the scipy distribution."""
    def __init__(self, f, discrete):
        self.f, self.discrete = f, discrete

    def cdf(self, x):
        if x == inf:
            return 1.0
        if x == -inf:
            return 0.0
        v = float(self.f.cdf(float(x)))
        if math.isnan(v):
            raise Discard('scipy gives nan')
        return v

    def mass(self, a, b, lo, ro):
        if a > b:
            return 0.0
        if not self.discrete:
            return max(0.0, self.cdf(b) - self.cdf(a))
        # integers k with a <(=) k <(=) b
        ka = a if math.isinf(a) else (math.floor(a) + 1 if lo or a != math.floor(a) else math.floor(a))
        if not math.isinf(a) and not lo:
            ka = math.ceil(a)
        kb = b if math.isinf(b) else (math.ceil(b) - 1 if ro else math.floor(b))
        if ka > kb:
            return 0.0
        return max(0.0, self.cdf(kb) - (0.0 if ka == -inf else self.cdf(ka - 1)))

    def atom(self, x):
        if not self.discrete:
            return 0.0
        return float(self.f.pmf(x)) if float(x) == math.floor(x) else 0.0


def make(case):
    """(leaf, text, frozen scipy distribution, discrete?) of a named case."""
    name = case['name']
    cls = getattr(D, name)
    sname = {'normal': 'norm'}.get(name, name)
    dist = getattr(scipy.stats, sname)
    discrete = isinstance(dist, scipy.stats.rv_discrete)
    shapes = [s.strip() for s in dist.shapes.split(',')] if dist.shapes else []
    opts = PARAMS.get(sname, [()])
    args = list(opts[case['pi'] % len(opts)])
    scaled = []
    for a, m in zip(args, case['mult']):
        v = a * m
        if isinstance(a, (int, numpy.integer)) and not isinstance(a, bool):
            v = int(round(v)) if discrete or float(v) == int(v) else float(v)
        scaled.append(v)
    loc = 0 if case['loc'] is None else float(ref.num(case['loc']))
    if discrete and loc != int(loc):
        loc = float(math.floor(loc))
    scale = 1 if discrete or case['scale'] is None else float(ref.num(case['scale']))
    use = None
    for cand in (scaled, args):
        kw = dict(zip(shapes, cand))
        if case['loc'] is not None:
            kw['loc'] = loc
        if case['scale'] is not None and not discrete:
            kw['scale'] = scale
        f = dist(**kw)
        try:
            if bool(numpy.all(f.dist._argcheck(*cand))):
                lo, hi = map(float, f.support())
                if fits(f, discrete, lo, hi) and sane(f, discrete):
                    use = kw
                    break
        except Exception:
            continue
    if use is None:
        raise Discard('parameters not legal')
    given = {k: wrap(v, case['kind']) for k, v in use.items()}
    if case['loc'] is not None and not discrete and case['kind'] == 0:
        given['loc'] = build.num(case['loc'])
    if case['scale'] is not None and not discrete and case['kind'] == 0:
        given['scale'] = build.num(case['scale'])
    leaf = (X >> cls(**given)) if case['seed'] % 2 else cls(**given)(X)
    what = '%s(%s)' % (name, ', '.join('%s=%s' % kv for kv in sorted(given.items())))
    return leaf, what, f, discrete, lo, hi, loc, scale


def named(case, ctx):
    name = case['name']
    leaf, what, f, discrete, lo, hi, loc, scale = make(case)
    ctx.note(what)
    R = Ref(f, discrete)
    ctx.tag('family:' + name, 'loc' if case['loc'] is not None else 'noloc',
            'scale' if case['scale'] is not None else 'noscale')
    if name == 'vonmises':           # one period around the location
        lo, hi = loc - math.pi * scale, loc + math.pi * scale
    check(leaf.get_symbols() == frozenset([X]), '%s is about %s', what, leaf.get_symbols())
    # Total mass and support.
    check_close(float(leaf.prob(X << Interval(-inf, inf))), 1.0, 'total probability of ' + what, **TOL)
    slow = name in ('levy_stable', 'geninvgauss')
    draws = f.rvs(size=3 if slow else 20, random_state=case['seed'])
    for x in draws:
        x = float(x)
        if not math.isfinite(x):
            continue
        if name == 'vonmises' and not lo <= x <= hi:
            continue
        dens = f.pmf(x) if discrete else f.pdf(x)
        if not dens > 1e-290 or not math.isfinite(dens):
            continue
        got = float(leaf.logpdf({X: int(x) if discrete else x}))
        check(math.isfinite(got), '%s: density of the drawn value %r is %r', what, x, got)
    inside = []
    nt = nconds = 0
    edges = [v for v in (lo, hi) if math.isfinite(v)]
    for k, u, lo_, ro_, far in case['qs']:
        def q(v):
            r = float(f.ppf(v))
            if not math.isfinite(r):
                raise Discard('no quantile')
            if discrete and v > 0.5 and far == 0.5:
                r += 0.5
            return r
        if k in ('lt', 'le', 'gt', 'ge'):
            t = q(u[0])
            ev = {'lt': X < t, 'le': X <= t, 'gt': X > t, 'ge': X >= t}[k]
            want = {'lt': R.mass(-inf, t, True, True), 'le': R.mass(-inf, t, True, False),
                    'gt': R.mass(t, inf, True, True), 'ge': R.mass(t, inf, False, True)}[k]
            S = None
        elif k == 'iv':
            a, b = sorted([q(u[0]), q(u[1])])
            if a == b:
                continue
            ev = X << Interval(a, b, left_open=lo_, right_open=ro_)
            want = R.mass(a, b, lo_, ro_)
            S = (a, b)
        elif k == 'pt':
            vs = sorted({q(u[0]), q(u[1])})
            ev = X << set(vs)
            want = sum(R.atom(v) for v in vs)
        elif k == 'un':
            a, b, c, d = sorted(q(v) for v in u)
            if not a < b < c < d:
                continue
            ev = (X << Interval(a, b, left_open=lo_, right_open=ro_)) | (X << Interval(c, d, left_open=ro_, right_open=lo_))
            want = R.mass(a, b, lo_, ro_) + R.mass(c, d, ro_, lo_)
        elif k == 'out':
            if not edges:
                continue
            e = edges[0] if lo_ or len(edges) == 1 else edges[-1]
            if name == 'vonmises':
                continue
            t = e - (1 + far) if e == lo else e + (1 + far)
            ev = (X < t) if e == lo else (X > t)
            want = 0.0
            check(float(leaf.logpdf({X: int(t) if discrete and t == int(t) else t})) == -inf,
                  '%s: density outside the support at %r', what, t)
        else:
            if not edges or name == 'vonmises':
                continue
            e = edges[0] if lo_ or len(edges) == 1 else edges[-1]
            ev = {(True, True): X < e, (True, False): X <= e, (False, True): X > e, (False, False): X >= e}[(e == hi, ro_)]
            want = {(True, True): R.mass(-inf, e, True, True), (True, False): R.mass(-inf, e, True, False),
                    (False, True): R.mass(e, inf, True, True), (False, False): R.mass(e, inf, False, True)}[(e == hi, ro_)]
        got = float(leaf.prob(ev))
        check_close(got, want, '%s: P(%s)' % (what, ev), **TOL)
        if name != 'vonmises':
            inside.append((ev, want, None))
        if 1e-6 < want < 1 - 1e-6:
            nt += 1
            ctx.tag('query:' + k)
        if slow or want < 0.01 or nconds > 1:
            continue
        nconds += 1
        # Conditional.
        try:
            post = leaf.condition(ev)
        except ValueError as e:
            raise Violation('%s: conditioning on %s of probability %r: %s' % (what, ev, want, e))
        t2 = q(0.5)
        joint = ev & (X <= t2)
        w2 = float(leaf.prob(joint))
        check_close(float(post.prob(X <= t2)), w2 / want, '%s: P(X <= %r | %s)' % (what, t2, ev), rel=1e-4, abs_=1e-5)
        check_close(float(post.prob(ev)), 1.0, '%s: P(E|E) for %s' % (what, ev), rel=1e-5, abs_=1e-5)
    if not slow:
        S = leaf.sample(30, prng=numpy.random.RandomState(case['seed']))
        check(len(S) == 30 and all(list(a) == [X] for a in S), '%s sampled %s', what, S)
        for a in S:
            x = float(a[X])
            check(not math.isnan(x) and (name == 'vonmises' or lo - 1e-9 <= x <= hi + 1e-9),
                  '%s sampled %r outside its support', what, x)
            check(not discrete or x == math.floor(x), '%s sampled %r', what, x)
        for ev, want, _ in inside:
            k = sum(bool(ev.evaluate({X: float(a[X])})) for a in S)
            lim = 1e-9
            ok = (k == 0 if want <= 1e-9 else k == 30 if want >= 1 - 1e-9 else
                  min(scipy.stats.binom.cdf(k, 30, want), scipy.stats.binom.sf(k - 1, 30, want)) > lim)
            check(ok, '%s: %d of 30 samples satisfy %s of probability %r', what, k, ev, want)
    # Density.
    for u in (0.25,) if slow else (0.2, 0.9):
        x = float(f.ppf(u))
        if not math.isfinite(x):
            continue
        d = float(f.pmf(x) if discrete else f.pdf(x))
        if not math.isfinite(d) or d <= 1e-290:
            continue
        got = float(leaf.logpdf({X: int(x) if discrete else x}))
        check_close(got, math.log(d), '%s: log density at %r' % (what, x), rel=1e-5, abs_=1e-6)
    if discrete:
        check(float(leaf.logpdf({X: float(f.ppf(0.5)) + 0.5})) == -inf, '%s: density at a fraction', what)
    ctx.nt = nt > 0


def as_num(v, kind):
    return v if kind == 0 else float(v) if kind == 1 else sympy.Integer(v)


def finite(case, ctx):
    t = case['t']
    vs, ws, kind = case.get('vs'), case['ws'], case.get('kind', 0)
    tot = sum(ws)
    F = fractions.Fraction
    if t == 'choice':
        p = {v: F(w, tot) for v, w in zip(vs, ws)}
        given = {v: (q if kind == 0 else float(q)) for v, q in p.items()}
        leaf = X >> D.choice(given)
        for v in vs + ['nope']:
            want = float(p.get(v, 0))
            check_close(float(leaf.prob(X << {v})), want, 'P(X = %r) of choice(%s)' % (v, given), rel=1e-9, abs_=1e-12)
            lp = float(leaf.logpdf({X: v}))
            check(abs(math.exp(lp) - want) < 1e-9 if want else lp == -inf, 'density of %r under choice(%s) is %r', v, given, lp)
        check_close(float(leaf.prob(~(X << {vs[0]}))), 1 - float(p[vs[0]]), 'P(X != %r)' % vs[0], rel=1e-9, abs_=1e-12)
        check_close(float(leaf.prob(X < 3)), 0.0, 'P(X < 3) of a nominal', rel=0, abs_=0)
        half = vs[:max(1, len(vs) // 2)]
        pa = sum(p[v] for v in half)
        check_close(float(leaf.prob(X << half)), float(pa), 'P(X in %s)' % half, rel=1e-9, abs_=1e-12)
        if pa > 0:
            post = leaf.condition(X << half)
            for v in vs:
                check_close(float(post.prob(X << {v})), float(p[v] / pa) if v in half else 0.0,
                            'P(X = %r | X in %s)' % (v, half), rel=1e-9, abs_=1e-12)
        S = leaf.sample(50, prng=numpy.random.RandomState(case['seed']))
        check(all(p.get(s[X], 0) > 0 for s in S), 'choice(%s) sampled %s', given, S)
        ctx.nt = len(vs) > 1
        ctx.tag('choice')
        return
    if t == 'mix':
        w = [F(x, sum(case['ws'])) for x in case['ws']]
        mix = None
        for x, d in zip(w, case['ds']):
            c = float(x) * build.distribution(d)
            mix = c if mix is None else mix | c
        leaf = X >> mix
        m = {'t': 'mix', 'c': [[x, {'t': 'leaf', 'v': 'X', 'd': d}] for x, d in zip(case['ws'], case['ds'])]}
    else:
        if t == 'atomic':
            leaf = X >> D.atomic(loc=as_num(vs[0], kind))
            d = {'k': 'atomic', 'kw': {'loc': vs[0]}}
        elif t == 'uniformd':
            leaf = X >> D.uniformd(values=tuple(vs))
            d = {'k': 'uniformd', 'w': vs}
        elif t == 'rv_discrete':
            leaf = X >> D.rv_discrete(values=(tuple(vs), tuple(x / tot for x in ws)))
            d = {'k': 'discrete', 'w': [[v, x / tot] for v, x in zip(vs, ws)]}
        else:
            leaf = X >> D.discrete({as_num(v, 0): x / tot for v, x in zip(vs, ws)})
            d = {'k': 'discrete', 'w': [[v, x / tot] for v, x in zip(vs, ws)]}
        m = {'t': 'leaf', 'v': 'X', 'd': d}
        kind_, atoms = ref.dist_ref(d)
        table = dict((int(v), p) for v, p in atoms)
        for v in range(min(vs) - 2, max(vs) + 3):
            want = table.get(v, 0.0)
            check_close(float(leaf.prob(X << {v})), want, '%s: P(X = %s)' % (d, v), rel=1e-7, abs_=1e-9)
            lp = float(leaf.logpdf({X: v}))
            check(abs(math.exp(lp) - want) < 1e-7 if want else lp == -inf, '%s: density at %s is %r', d, v, lp)
        S = leaf.sample(40, prng=numpy.random.RandomState(case['seed']))
        check(all(float(s[X]) in table for s in S), '%s sampled %s', d, S)
    for s in case['sets']:
        l = ['lit', 'X', ['x'], s, 1]
        want = ref.prob(m, l)
        ev = build.ev(l)
        check_close(float(leaf.prob(ev)), want, '%s: P(%s)' % (m, ev), rel=1e-6, abs_=1e-8)
        if want > 0.01:
            post = leaf.condition(ev)
            check_close(float(post.prob(X <= 1)), ref.prob({'t': 'cond', 'm': m, 'e': l}, ['lit', 'X', ['x'], ['le', 1]]),
                        '%s: P(X <= 1 | %s)' % (m, ev), rel=1e-5, abs_=1e-7)
        if 1e-6 < want < 1 - 1e-6:
            ctx.nt = True
    ctx.tag('finite:' + t)


def run(case, ctx):
    if case['t'] == 'named':
        named(case, ctx)
    else:
        finite(case, ctx)
