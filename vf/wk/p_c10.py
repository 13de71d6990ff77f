"""C10: derived variables are functions of their base variable."""
import math
import numpy
import build, ref
from core import check, check_close, Discard, Violation
from p_c02 import feats
from p_c05 import defs_of
from sppl.transforms import Id

TOL = dict(rel=5e-6, abs_=5e-7)


def subst_ev(ev, m):
    """The event with the definition of node m substituted."""
    if ev[0] == 'lit':
        return ref.rewrite(m, ev)
    if ev[0] in ('and', 'or'):
        return [ev[0], [subst_ev(s, m) for s in ev[1]]]
    if ev[0] == 'not':
        return ['not', subst_ev(ev[1], m)]
    return ['xor', subst_ev(ev[1], m), subst_ev(ev[2], m)]


def names(ev):
    return {l[1] for l in ref.literals(ev)}


def lossy(ev, dv):
    """Conditioning on such an event loses outcomes when a derived variable is
    undefined somewhere (known finding F1): a disjunction whose clauses are
    about a derived and another variable."""
    ns = names(ev)
    return len(ns) > 1 and bool(ns & dv) and min(ref.dnf_sizes(ev)[:1]) > 1


def lossy_model(m, dv):
    if m['t'] == 'cond' and lossy(m['e'], dv):
        return True
    return any(lossy_model(c[1] if isinstance(c, list) else c, dv) for c in m.get('c', ())) or ('m' in m and lossy_model(m['m'], dv))


def values_of(m, v, a):
    """The values a derived variable may have given the base variables."""
    if v in a:
        return [a[v]]
    out = []

    def go(m):
        if m['t'] == 'trans' and m['v'] == v:
            b, e = m['x']
            for y in values_of(top, b, a):
                z = ref.ev_expr(e, ref.num(y) if not isinstance(y, (str, ref.F, float)) else y)
                if z is not None:
                    out.append(z)
        if 'm' in m:
            go(m['m'])
        for c in m.get('c', ()):
            go(c[1] if isinstance(c, list) else c)
    top = m
    go(m)
    return out


def run(case, ctx):
    m, evs, style = case['m'], case['evs'], case.get('style', 0)
    ref.validate(m)
    dv = {v for v in ('U', 'V') if v in ref.variables(m)}
    skip = case['partial'] and not case.get('probe')
    if skip and lossy_model(m, dv):
        raise Discard('known finding F1 (model)')
    want = ref.probs(m, evs)
    spe = build.model(m, style)
    for e, p in zip(evs, want):
        check_close(float(spe.prob(build.ev(e))), p, 'P(%s)' % (build.ev(e),), **TOL)
        if 1e-4 < p < 1 - 1e-4 and any(v in g for v in ('U', 'V') for g in [names(e)]):
            ctx.nt = True
    check({str(s) for s in spe.get_symbols()} == ref.variables(m), 'variables are %s, should be %s',
          sorted(map(str, spe.get_symbols())), sorted(ref.variables(m)))
    ctx.tag('derived:%d' % len(dv), *['model:' + t for t in feats(m)])
    if case['partial']:
        ctx.tag('partial')
    # The last definition: substitution, unchanged base, unknown in the base.
    if m['t'] == 'trans':
        inner = build.model(m['m'], style)
        before = (hash(inner), inner.get_symbols())
        tr = inner.transform(Id(m['v']), build.expr(m['x'][1], Id(m['x'][0])))
        check((hash(inner), inner.get_symbols()) == before, 'transform changed the model')
        check(tr.get_symbols() == inner.get_symbols() | {Id(m['v'])}, 'variables after definition: %s', tr.get_symbols())
        for e, p in zip(evs, want):
            s = subst_ev(e, m)
            if ref.dnf_sizes(s)[0] > 6 or not single_poly(s):
                continue
            check_close(float(inner.prob(build.ev(s))), p, 'P(%s), the definition of %s substituted in %s'
                        % (build.ev(s), m['v'], build.ev(e)), **TOL)
            ctx.tag('substituted')
        for e in case['bev']:
            if m['v'] not in names(e):
                check_close(float(tr.prob(build.ev(e))), float(inner.prob(build.ev(e))),
                            'P(%s) after the definition of %s' % (build.ev(e), m['v']), rel=1e-10, abs_=1e-12)
        a = build.assignment(case['a'])
        check_close(float(tr.logpdf(a)), float(inner.logpdf(a)), 'log density after the definition', rel=1e-10, abs_=1e-12)
    # Further conditioning (before or after the definition).
    c = case['cond']
    pc = ref.prob(m, c)
    if skip and lossy(c, dv):
        ctx.tag('skipped: F1')
    elif pc > 1e-4:
        cm = {'t': 'cond', 'm': m, 'e': c}
        post = spe.condition(build.ev(c))
        for e, p in zip(evs, ref.probs(cm, evs)):
            check_close(float(post.prob(build.ev(e))), p, 'P(%s | %s)' % (build.ev(e), build.ev(c)), **TOL)
        if m['t'] == 'trans':
            s = subst_ev(c, m)
            if ref.dnf_sizes(s)[0] <= 4 and single_poly(s):
                swapped = inner.condition(build.ev(s)).transform(Id(m['v']), build.expr(m['x'][1], Id(m['x'][0])))
                for e, p in zip(evs, ref.probs(cm, evs)):
                    check_close(float(swapped.prob(build.ev(e))), p, 'conditioning on %s before defining %s: P(%s)'
                                % (build.ev(s), m['v'], build.ev(e)), **TOL)
                ctx.tag('swapped')
    # Observation of the base variables determines the derived ones.
    d, w = ref.density(m, case['a'])
    if d is not None and w > 1e-9:
        post = spe.constrain(build.assignment(case['a']))
        cm = {'t': 'constr', 'm': m, 'a': case['a']}
        for e, p in zip(evs, ref.probs(cm, evs)):
            if all(v not in dv for v in names(e)) or not edge(m, e, case['a']):
                check_close(float(post.prob(build.ev(e))), p, 'P(%s) given %s' % (build.ev(e), case['a']), **TOL)
        ctx.tag('observed')
    # Sampling.
    if all(ref.prob(m, ['or', [['lit', u, ['x'], ['lt', 0]], ['lit', u, ['x'], ['ge', 0]]]]) > 1 - 1e-12 for u in dv):
        dd = defs_of(m)
        one = not any(f == 'mix' for f in feats(m)) or m['t'] == 'trans'
        for s in spe.sample(5, prng=numpy.random.RandomState(case['seed'])):
            a = {str(k): v for k, v in s.items()}
            check(set(a) == ref.variables(m), 'sampled variables %s', sorted(a))
            if not all_same_defs(m):
                continue
            for u in dv:
                b, e = dd[u]
                y = ref.ev_expr(e, ref.F(float(a[b])) if float(a[b]) == math.floor(float(a[b])) else float(a[b]))
                if y is None:
                    continue
                check(abs(float(y) - float(a[u])) <= 1e-7 * max(1, abs(float(y))),
                      'sample has %s = %r but the definition gives %r at %s = %r', u, a[u], y, b, a[b])


def all_same_defs(m):
    seen = {}

    def go(m):
        if m['t'] == 'trans':
            seen.setdefault(m['v'], []).append(m['x'])
        if 'm' in m:
            go(m['m'])
        for c in m.get('c', ()):
            go(c[1] if isinstance(c, list) else c)
    go(m)
    return all(all(x == xs[0] for x in xs) for xs in seen.values())


def edge(m, e, a):
    """Is a derived value within rounding of a threshold of the event?"""
    for l in ref.literals(e):
        if l[1] in a:
            continue
        for y in values_of(m, l[1], a):
            z = ref.ev_expr(l[2], y)
            if z is None or isinstance(z, str):
                continue
            for t in ref.endpoints(l[3]):
                if t not in ref.INFS and abs(float(z) - float(t)) <= 1e-6 * max(1, abs(float(t)), abs(float(z))):
                    return True
    return False


def single_poly(ev):
    """Substitution may nest two polynomials: those are decided by C07."""
    def count(e):
        if not isinstance(e, list):
            return 0
        return (e[0] in ('poly', 'pow', 'pw') if e else 0) + sum(count(x) for x in e if isinstance(x, list))
    return all(count(l[2]) <= 1 for l in ref.literals(ev))
