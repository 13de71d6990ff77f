"""C03: conditioning against Bayes' rule."""
import math
import build, ref
from core import check, check_close, Discard, Violation
from p_c02 import feats

TOL = dict(rel=5e-6, abs_=5e-7)


def snapshot(spe):
    return (repr(spe) if len(repr(spe)) < 20000 else '', hash(spe), spe.get_symbols())


def run(case, ctx):
    m, conds, evs = case['m'], case['conds'], case['evs']
    # Reference prior; a constrained prior may be impossible.
    prior_want = ref.probs(m, evs)
    spe = build.model(m, case.get('style', 0))
    prior = [float(spe.prob(build.ev(e))) for e in evs]
    snap = snapshot(spe)
    cur, cm = spe, m
    for i, c in enumerate(conds):
        event = build.ev(c)
        ctx.note('condition on %s' % (event,))
        p = ref.prob(cm, c)
        if p == 0.0:
            try:
                r = cur.condition(event)
            except ValueError:
                ctx.tag('null')
                ctx.nt = True
                return
            except Exception as e:
                raise Violation('conditioning on %s of probability zero raises %r' % (event, e))
            raise Violation('conditioning on %s of probability zero gives %s' % (event, str(r)[:500]))
        if p < 1e-6 and not case.get('rare') or p < 1e-200:
            raise Discard('nearly null event')
        cur = cur.condition(event)
        check(cur.get_symbols() == spe.get_symbols(), 'variables change from %s to %s',
              sorted(map(str, spe.get_symbols())), sorted(map(str, cur.get_symbols())))
        cm = {'t': 'cond', 'm': cm, 'e': c}
        check_close(float(cur.prob(event)), 1.0, 'P(A|A) for A = %s' % (event,), **TOL)
        if p > 1 - 1e-12:
            ctx.tag('certain')
        else:
            ctx.tag('proper')
            ctx.nt = True
    want = ref.probs(cm, evs)
    for e, w in zip(evs, want):
        check_close(float(cur.prob(build.ev(e))), w, 'P(%s | %s)' % (
            build.ev(e), '; '.join(str(build.ev(c)) for c in conds)), **TOL)
    if len(conds) > 1:
        allc = ['and', conds]
        if ref.dnf_sizes(allc)[0] <= 8:
            one = spe.condition(build.ev(allc))
            for e, w in zip(evs, want):
                check_close(float(one.prob(build.ev(e))), w, 'P(%s | conjunction)' % (build.ev(e),), **TOL)
            ctx.tag('conjunction')
    # Bayes through the prior's own answers.
    if len(conds) == 1:
        pa = float(spe.prob(build.ev(conds[0])))
        for e, w in zip(evs, want):
            j = ['and', [e, conds[0]]]
            if ref.dnf_sizes(j)[0] <= 8:
                pj = float(spe.prob(build.ev(j)))
                check(abs(pj - w * pa) <= 1e-6, 'P(%s and A) = %r but P(A) = %r, P(.|A) = %r',
                      build.ev(e), pj, pa, w)
    check(snapshot(spe) == snap, 'conditioning changed the prior model')
    for e, p, w in zip(evs, prior, prior_want):
        check_close(float(spe.prob(build.ev(e))), p, 'prior P(%s) after conditioning' % (build.ev(e),), rel=1e-12, abs_=0)
        check_close(p, w, 'prior P(%s)' % (build.ev(e),), **TOL)
    if case.get('rare'):
        ctx.tag('rare')
    ctx.tag('conds:%d' % len(conds), *['model:' + t for t in feats(m)])
