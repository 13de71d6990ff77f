"""C15: a model written as a source program denotes the same distribution."""
import io, math
import build, prog, ref, p_c06
from core import check, check_close, Discard
from p_c02 import feats
from p_c14 import MAP, rename_model, rename_ev, same
from sppl.compilers.spe_to_sppl import render_sppl
from sppl.compilers.sppl_to_python import SPPL_Compiler
from sppl.transforms import Id


def back(spe, fwidth=None, how=0):
    """(text, the model of the text)."""
    h, syms = hash(spe), spe.get_symbols()
    if how:
        stream = io.StringIO()
        kw = {} if fwidth is None else {'fwidth': fwidth}
        r = render_sppl(spe, stream, **kw) if how == 1 else render_sppl(spe, stream=stream, **kw)
        check(r is stream, 'another stream is returned')
        text = stream.getvalue()
    else:
        text = (render_sppl(spe) if fwidth is None else render_sppl(spe, fwidth=fwidth)).getvalue()
    check(hash(spe) == h and spe.get_symbols() == syms, 'rendering changed the model')
    return text, SPPL_Compiler(text).execute_module().model


def alike(what, spe, other, evs, assigns, tol):
    vs = spe.get_symbols()
    check(vs <= other.get_symbols(), '%s: variables %s become %s', what, vs, other.get_symbols())
    extra = {str(v) for v in other.get_symbols() - vs}
    check(all(v.startswith('branch_var') for v in extra), '%s: unexpected variables %s', what, extra)
    for e in evs:
        check_close(float(other.prob(e)), float(spe.prob(e)), '%s: P(%s)' % (what, e), **tol)
    for a in assigns:
        p, q = float(spe.logpdf(a)), float(other.logpdf(a))
        check(same(p, q) or abs(p - q) <= 100 * tol['rel'], '%s: log density of %s is %r, after rendering %r', what, a, p, q)


TIGHT = dict(rel=1e-8, abs_=1e-10)


def run(case, ctx):
    if case['kind'] == 'named':
        return named(case, ctx)
    if case['kind'] == 'prog':
        m = prog.denote(prog.expand(prog.constants({'stmts': case['stmts'], 'consts': {}})))
        evs, cond, a = case['evs'], case['evs'][0], None
    else:
        m, evs, cond, a = case['m'], case['evs'], case['cond'], case['a']
    ref.validate(m)
    if case['arr'] and case['kind'] == 'model':
        f = lambda v: MAP.get(v, v)
        m, evs, cond = rename_model(m, f), rename_ev(evs, f), rename_ev(cond, f)
        a = {f(k): v for k, v in a.items()}
    if case['kind'] == 'prog':
        spe = SPPL_Compiler(prog.source({'stmts': case['stmts'], 'consts': {}}, case['style'])).execute_module().model
    else:
        spe = build.model(m, case['style'])
    events = [build.ev(e) for e in evs]
    # (The distribution a rendered point is observed from is arbitrary, so
    # densities have a meaning only without observations.)
    assigns = []
    fe = feats(m)
    if a is not None and 'constr' not in fe:
        asg = build.assignment(a)
        assigns = [asg, dict(list(asg.items())[:1])]
    for x in fe:
        ctx.tag('model:' + x)
    text, other = back(spe, None, case['how'])
    ctx.note(text)
    alike('rendered', spe, other, events, assigns, TIGHT)
    for e, p in zip(evs, ref.probs(m, evs)):
        check_close(float(other.prob(build.ev(e))), p, 'P(%s) after rendering' % build.ev(e), rel=5e-6, abs_=5e-7)
        if 1e-4 < p < 1 - 1e-4:
            ctx.nt = True
    # A given number of digits.
    w = case['width']
    text, other = back(spe, w, case['how'])
    check(other.get_symbols() >= spe.get_symbols(), 'width %d: variables', w)
    tol = 10.0 ** -w
    if w >= 8:
        alike('rendered with %d digits' % w, spe, other, events, [], dict(rel=1000 * tol + 1e-8, abs_=1000 * tol + 1e-8))
    ctx.tag('width:%d' % w)
    # Once more.
    text, again = back(back(spe)[1], None)
    alike('rendered twice', spe, again, events, [], TIGHT)
    # Conditioning afterwards, and a rendered posterior.
    if ref.prob(m, cond) > 1e-4:
        c = build.ev(cond)
        p1 = spe.condition(c)
        p2 = back(spe)[1].condition(c)
        alike('posterior given %s' % c, p1, p2, events, [], TIGHT)
        text, p3 = back(p1)
        ctx.note(text)
        alike('rendered posterior given %s' % c, p1, p3, events, [], dict(rel=1e-7, abs_=1e-9))
        ctx.tag('posterior')
    if a is not None:
        d, wt = ref.density(m, a)
        if d is not None and wt > 1e-9:
            asg = build.assignment(a)
            o1 = spe.constrain(asg)
            text, o3 = back(o1)
            ctx.note(text)
            alike('rendered, observing %s' % asg, o1, o3, events, [], dict(rel=1e-7, abs_=1e-9))
            ctx.tag('observed')


def named(case, ctx):
    leaf, what, f, discrete, lo, hi, loc, scale = p_c06.make(case['c'])
    X, Y = Id('X'), Id('Y')
    qs = [float(f.ppf(u / 32)) for u in case['us']]
    if not all(math.isfinite(q) for q in qs) or len(set(qs)) < 2:
        raise Discard('no quantiles')
    spe = leaf
    if case['shape'] in (1, 3):
        c = (X >= qs[0]) if len(qs) < 4 else ((X >= qs[0]) & (X <= qs[1])) | (X > qs[2])
        if not spe.prob(c) > 1e-6:
            raise Discard('unlikely condition')
        spe = spe.condition(c)
    if case['shape'] >= 2:
        spe = spe.transform(Y, build.expr(case['x'], X))
    if case['shape'] == 4:
        v = qs[0]
        if not math.isfinite(float(leaf.logpdf({X: v}))):
            raise Discard('no density')
        spe = spe.constrain({X: v})
    evs = [X <= q for q in qs] + [(X > qs[0]) & (X < qs[-1])]
    if case['shape'] >= 2:
        y = ref.ev_expr(case['x'], qs[0])
        if y is not None:
            evs += [Y <= float(y) + 0.25, Y > float(y) - 0.25]
    text, other = back(spe, None, case['how'])
    ctx.note(text)
    alike(what, spe, other, evs, [{X: q} for q in qs[:2]] if case['shape'] != 4 else [], TIGHT)
    text, other = back(spe, 12)
    alike(what + ' with 12 digits', spe, other, evs if case['shape'] != 4 else [], [], dict(rel=1e-6, abs_=1e-6))
    ctx.tag('family:' + case['c']['name'], 'shape:%d' % case['shape'])
    ctx.nt = True
