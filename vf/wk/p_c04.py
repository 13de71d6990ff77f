"""C04: densities of mixed distributions and measure-zero observations."""
import math
import build, ref
from core import check, check_close, Discard, Violation
from p_c02 import feats

TOL = dict(rel=5e-6, abs_=5e-7)


def check_logpdf(spe, m, a, what):
    d, w = ref.density(m, a)
    got = spe.logpdf(build.assignment(a))
    try:
        got = float(got)
    except Exception:
        raise Violation('%s: log density of %s is %r' % (what, a, got))
    if d is None:
        check(got == -math.inf, '%s: log density of impossible %s is %r', what, a, got)
    elif w < ref.DMIN:
        raise Discard('tiny density')
    else:
        check(math.isfinite(got), '%s: log density of %s is %r, should be %r', what, a, got, math.log(w))
        check_close(got, math.log(w), '%s: log density of %s' % (what, a), rel=1e-6, abs_=1e-6)
        check_close(float(spe.pdf(build.assignment(a))), w, '%s: density of %s' % (what, a), rel=1e-5, abs_=1e-12)
    return d, w


def run(case, ctx):
    m, asg, evs = case['m'], case['asg'], case['evs']
    ref.prob(m, evs[0])                       # discards impossible models
    spe = build.model(m, case.get('style', 0))
    before = (hash(spe), repr(spe) if len(repr(spe)) < 20000 else '')
    first = None
    for a in asg:
        ctx.note('assignment %s' % (a,))
        d, w = check_logpdf(spe, m, a, 'model')
        if d is None:
            ctx.tag('impossible')
            try:
                r = spe.constrain(build.assignment(a))
            except (ValueError, AssertionError):
                continue
            raise Violation('constraining on impossible %s gives %s' % (a, str(r)[:300]))
        ctx.tag('dim:%d/%d' % (d, len(a)))
        if w < min(1e-9, 1e3 * ref.DMIN):
            continue
        post = spe.constrain(build.assignment(a))
        cm = {'t': 'constr', 'm': m, 'a': a}
        check(post.get_symbols() == spe.get_symbols(), 'variables change from %s to %s',
              sorted(map(str, spe.get_symbols())), sorted(map(str, post.get_symbols())))
        want = ref.probs(cm, evs)
        for e, p in zip(evs, want):
            check_close(float(post.prob(build.ev(e))), p, 'P(%s) after observing %s' % (build.ev(e), a), **TOL)
        for v, x in a.items():
            e = ['lit', v, ['x'], ['ins', [x]] if isinstance(x, str) else ['in', [x]], 0]
            check_close(float(post.prob(build.ev(e))), 1.0, 'P(%s = observed %s)' % (v, x), **TOL)
        # Densities and conditioning of the posterior.
        b = {v: x for v, x in case['second'].items()}
        check_logpdf(post, cm, b, 'posterior of %s' % a)
        rest = {v: x for v, x in b.items() if v not in a}
        if rest:
            check_logpdf(post, cm, rest, 'posterior of %s' % a)
            ctx.tag('chain')
        pe = want[0]
        if 1e-3 < pe < 0.999:
            pc = post.condition(build.ev(evs[0]))
            check_close(float(pc.prob(build.ev(evs[0]))), 1.0, 'P(E|E) after observing %s' % (a,), **TOL)
            w3 = ref.probs({'t': 'cond', 'm': cm, 'e': evs[0]}, evs)
            for e, p in zip(evs, w3):
                check_close(float(pc.prob(build.ev(e))), p, 'P(%s) after observing %s and conditioning'
                            % (build.ev(e), a), **TOL)
        ctx.nt = True
    check((hash(spe), repr(spe) if len(repr(spe)) < 20000 else '') == before, 'model changed by observing')
    ctx.tag(*['model:' + t for t in feats(m)])
    if case.get('rare'):
        ctx.tag('rare')
