"""C13: simplification and sharing preserve the distribution."""
import math, os
import build, prog, ref
from core import check, check_close, Discard
from p_c11 import command
from sppl import spe as S
from sppl.compilers.sppl_to_python import SPPL_Compiler

TOL = dict(rel=5e-6, abs_=5e-7)
TIGHT = dict(rel=1e-9, abs_=1e-10)


def nodes(spe, seen=None):
    """Number of distinct node objects."""
    seen = set() if seen is None else seen
    if id(spe) not in seen:
        seen.add(id(spe))
        for c in getattr(spe, 'children', ()):
            nodes(c, seen)
    return len(seen)


def weights_ok(spe, what):
    if isinstance(spe, S.SumSPE):
        t = sum(math.exp(float(w)) for w in spe.weights)
        check(abs(t - 1) < 1e-9, '%s: mixture weights sum to %r', what, t)
    for c in getattr(spe, 'children', ()):
        weights_ok(c, what)


def logpdf(spe, a):
    return float(spe.logpdf(build.assignment(a)))


def lp_close(x, y):
    return x == y or abs(x - y) <= 1e-8 * max(1, abs(x), abs(y))


def compare(case, what, a, b, assignments=()):
    """Two models of the code under test answer alike."""
    check(a.get_symbols() == b.get_symbols(), '%s: variables %s, were %s', what, b.get_symbols(), a.get_symbols())
    for e in case['evs']:
        check_close(float(b.prob(build.ev(e))), float(a.prob(build.ev(e))), '%s: P(%s)' % (what, build.ev(e)), **TIGHT)
    for x in assignments:
        p, q = logpdf(a, x), logpdf(b, x)
        check(lp_close(p, q), '%s: log density of %s is %r, was %r', what, x, q, p)
    weights_ok(b, what)


def run(case, ctx):
    if case['kind'] == 'prog':
        return run_prog(case, ctx)
    m = case['m']
    ref.validate(m)
    want = ref.probs(m, case['evs'])
    kids = [build.model(c, case['style']) for _, c in m['c']]
    ws = build.frac_weights(m['c'])
    raw = S.SumSPE(kids, [math.log(w) for w in ws])
    assigns = [case['a'], {v: case['a'][v] for v in case['sub']}]
    if m['t'] == 'mix' and any(t in ref.derived(m) for t in case['sub']):
        assigns = []
    for e, p in zip(case['evs'], want):
        check_close(float(raw.prob(build.ev(e))), p, 'P(%s)' % build.ev(e), **TOL)
        if 1e-4 < p < 1 - 1e-4:
            ctx.nt = True
    models = {}
    simplify = getattr(S, 'spe_simplify_sum', None)
    flat = [c.children if isinstance(c, S.SumSPE) else [c] for c in kids]
    if simplify:
        before = [id(c) for c in raw.children], list(raw.weights), nodes(raw)
        models['simplified'] = simplify(raw)
        check(([id(c) for c in raw.children], list(raw.weights), nodes(raw)) == before, 'simplification changed the mixture')
        if nodes(models['simplified']) < nodes(raw):
            ctx.tag('smaller')
    models['operators'] = build.mixture(kids, ws, 0)
    share = getattr(S, 'spe_cache_duplicate_subtrees', None)
    if share:
        copy = S.SumSPE([build.model(c, case['style']) for _, c in m['c']], [math.log(w) for w in ws])
        n0 = nodes(copy)
        models['shared'] = share(copy, {})
        if nodes(models['shared']) < n0:
            ctx.tag('shared')
    if case['other'] is not None:
        o = build.model(case['other'])
        models['product'] = raw & o
        if simplify:
            ds = [S.ProductSPE([c, o]) for c in raw.children]
            models['distributed'] = simplify(S.SumSPE(ds, raw.weights))
            models['product of simplified'] = models['simplified'] & o
    for what, b in sorted(models.items()):
        a = raw
        if what in ('product', 'distributed', 'product of simplified'):
            a = models['product']
            for e, p in zip(case['evs'], want):
                check_close(float(b.prob(build.ev(e))), p, '%s: P(%s)' % (what, build.ev(e)), **TOL)
        compare(case, what, a, b, assigns)
    # Conditioning and observing (which simplify in turn).
    pc = ref.prob(m, case['cond'])
    if pc > 1e-4:
        cm = {'t': 'cond', 'm': m, 'e': case['cond']}
        posts = ref.probs(cm, case['evs'])
        for what, b in [('raw', raw)] + sorted(models.items()):
            post = b.condition(build.ev(case['cond']))
            weights_ok(post, what)
            for e, p in zip(case['evs'], posts):
                check_close(float(post.prob(build.ev(e))), p, '%s: P(%s | %s)' % (what, build.ev(e), build.ev(case['cond'])), **TOL)
        ctx.tag('conditioned')
    for a in assigns:
        d, w = ref.density(m, a)
        if d is not None and w > 1e-6:
            first = raw.constrain(build.assignment(a))
            for what, b in sorted(models.items()):
                post = b.constrain(build.assignment(a))
                for e in case['evs']:
                    check_close(float(post.prob(build.ev(e))), float(first.prob(build.ev(e))), '%s: P(%s given %s)' % (what, build.ev(e), a), rel=1e-8, abs_=1e-9)
            ctx.tag('observed')
    ctx.tag('components:%d' % len(m['c']))


def run_prog(case, ctx):
    flat = prog.expand(case['stmts'])
    m = prog.denote(flat)
    ref.validate(m)
    want = ref.probs(m, case['evs'])
    src = prog.source({'stmts': case['stmts']}, case['style'])
    ctx.note(src)
    a = SPPL_Compiler(src).execute_module().model
    b2 = command(flat).interpret()
    os.environ['SPPL_NO_SIMPLIFY'] = '1'
    try:
        b = SPPL_Compiler(src).execute_module().model
        c2 = command(flat).interpret()
    finally:
        del os.environ['SPPL_NO_SIMPLIFY']
    if nodes(a) != nodes(b):
        ctx.tag('prog:smaller')
    for e, p in zip(case['evs'], want):
        check_close(float(b.prob(build.ev(e))), p, 'not simplified: P(%s) under\n%s' % (build.ev(e), src), **TOL)
        check_close(float(a.prob(build.ev(e))), p, 'simplified: P(%s) under\n%s' % (build.ev(e), src), **TOL)
        if 1e-4 < p < 1 - 1e-4:
            ctx.nt = True
    compare(case, 'simplified\n' + src, b, a)
    compare(case, 'simplified, by commands\n' + src, b, b2)
    compare(case, 'not simplified, by commands\n' + src, b, c2)
    if ref.prob(m, case['cond']) > 1e-4:
        ev = build.ev(case['cond'])
        compare(case, 'posterior given %s of\n%s' % (ev, src), b.condition(ev), a.condition(ev))
    ctx.tag('prog')
