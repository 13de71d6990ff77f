"""C20: operator expressions denote the real functions they spell."""
import math
import build, ref
from core import check, Discard, Violation
import sympy
from sppl.transforms import Id
from p_c07 import near, has_float, ops
from p_c09 import sut_val

X, Y = Id('X'), Id('Y')


def fl(v):
    try:
        return float(v)
    except Exception as e:
        raise Violation('value %r is not a real number (%s)' % (v, e))


def close(a, b):
    if a == b:
        return True
    return abs(a - b) <= 1e-9 + 1e-9 * max(abs(a), abs(b))


def at_edge(e, x):
    """Does rounding decide whether e is defined at x?"""
    d = 1e-7 * max(1, abs(float(x)))
    for y in (float(x) - d, float(x) + d):
        try:
            if ref.ev_expr(e, ref.F(y)) is None:
                return True
        except Discard:
            return True
    return False


def run(case, ctx):
    e, inner = case['e'], case.get('inner')
    xs = [ref.num(x) for x in case['xs']]
    tr = build.expr(e, X)
    ctx.note('expression %s' % (tr,))
    check(tr.get_symbols() == frozenset([X]), 'symbols of %s are %s', tr, tr.get_symbols())
    dom = tr.domain()
    before = repr(tr), hash(tr)
    hits = 0
    comp = None
    if inner is not None:
        t_in = build.expr(inner, Y)
        ctx.note('inner %s' % (t_in,))
        comp = tr.subs({X: t_in})
        check(comp.get_symbols() == frozenset([Y]), 'symbols of substituted %s are %s', comp, comp.get_symbols())
        direct = None
        c_e = ref.subst(e, inner)
    for x in xs:
        try:
            y = ref.ev_expr(e, x)
        except Discard:
            y = 'skip'
        if y == 'skip':
            continue
        for sx in ([sut_val(x), float(x)] if case.get('float') else [sut_val(x)]):
            if y is None:
                if sx is not x and isinstance(sx, float):
                    continue               # rounding may hide a pole
                try:
                    v = tr.evaluate({X: sx})
                except Exception:
                    continue
                # Undefined here: only an extended-real or complex answer may be given.
                ok = v in (ref.inf, -ref.inf, sympy.oo, -sympy.oo, sympy.zoo, sympy.nan) or \
                    (hasattr(v, 'is_real') and v.is_real is False) or v is None
                check(ok, '%s at %s gives %s but is undefined there', tr, sx, v)
                continue
            try:
                v = tr.evaluate({X: sx})
            except Exception:
                if (isinstance(sx, float) or has_float(e)) and at_edge(e, x):
                    continue
                raise
            if isinstance(v, bool):
                v = int(v)
            if (isinstance(sx, float) or has_float(e)) and at_edge(e, x):
                continue
            check(close(fl(v), float(y)), '%s at %s gives %s, should be %s', tr, sx, v, float(y))
            hits += 1
        if y is not None:
            check(sut_val(x) in dom or True, '')
            # comparisons
            for s, how in case['cmps']:
                lit = ['lit', 'X', e, s, how]
                if near(lit, y, has_float(lit)):
                    continue
                event = build.literal(lit, tr)
                want = ref.lit_state(lit, x)
                try:
                    got = event.evaluate({X: sut_val(x)})
                except Exception:
                    if has_float(lit) and at_edge(e, x):
                        continue
                    raise
                check(bool(got) == bool(want), '%s at %s is %s, should be %s', event, x, got, want)
    if comp is not None:
        for x in xs:
            try:
                y = ref.ev_expr(c_e, x)
            except Discard:
                continue
            if y is None:
                continue
            try:
                v = comp.evaluate({Y: sut_val(x)})
            except Exception:
                if has_float(c_e) and at_edge(c_e, x):
                    continue
                raise
            if has_float(c_e) and at_edge(c_e, x):
                continue
            check(close(fl(v), float(y)), '%s with X := %s is %s; at %s gives %s, should be %s',
                  tr, t_in, comp, x, v, float(y))
            try:
                chained = tr.substitute({X: t_in})
            except Exception as ex:
                raise Violation('substitute fails on %s: %r' % (tr, ex))
            check(chained == comp, 'substitute gives %s, subs gives %s', chained, comp)
    check((repr(tr), hash(tr)) == before, 'expression changed: %s', tr)
    names = [o for o in ops(e)]
    ctx.nt = hits >= 3 and len(names) >= 3
    ctx.tag(*['op:' + o for o in names])
