"""Builds objects of the code under test from JSON cases."""
import fractions
import math
import sympy

from sppl import distributions as D
from sppl.sets import (EmptySet, FiniteNominal, FiniteReal, Interval, Range, Reals, Union)
from sppl.spe import (SPE, Memo, PartialSumSPE, ProductSPE, SumSPE)
from sppl.transforms import (Exp, Id, Log, Sqrt)
from sppl import transforms as T

inf = float('inf')


KIND = 0     # how numbers are typed: 0 as given, 1 sympy, 2 float where exact


def num(j, style=0):
    """JSON number -> Python number handed to the code under test."""
    if KIND and not isinstance(j, bool):
        if isinstance(j, dict) and 'q' in j and KIND == 2:
            x = fractions.Fraction(*j['q'])
            if float(x) == x:
                return float(x)
        elif isinstance(j, int):
            return sympy.Integer(j) if KIND == 1 else float(j)
        elif isinstance(j, float) and KIND == 1 and not math.isinf(j) and j.as_integer_ratio()[1] <= 1024:
            return sympy.Rational(*j.as_integer_ratio())
    if isinstance(j, dict):
        if 'q' in j:
            if style == 0:
                return sympy.Rational(j['q'][0], j['q'][1])
            return fractions.Fraction(j['q'][0], j['q'][1])
        if 'inf' in j:
            return inf if j['inf'] > 0 else -inf
    return j


def expr(e, x):
    """Expression over Transform x."""
    op = e[0]
    if op == 'x':
        return x
    if op == 'add':
        return expr(e[1], x) + num(e[2])
    if op == 'radd':
        return num(e[1]) + expr(e[2], x)
    if op == 'sub':
        return expr(e[1], x) - num(e[2])
    if op == 'rsub':
        return num(e[1]) - expr(e[2], x)
    if op == 'mul':
        return expr(e[1], x) * num(e[2])
    if op == 'rmul':
        return num(e[1]) * expr(e[2], x)
    if op == 'div':
        return expr(e[1], x) / num(e[2])
    if op == 'rdiv':
        return num(e[1]) / expr(e[2], x)
    if op == 'neg':
        return -expr(e[1], x)
    if op == 'abs':
        return abs(expr(e[1], x))
    if op == 'pow':
        return expr(e[1], x) ** e[2]
    if op == 'root':
        return expr(e[1], x) ** sympy.Rational(1, e[2])
    if op == 'sqrt':
        return Sqrt(expr(e[1], x))
    if op == 'exp':
        return Exp(expr(e[1], x))
    if op == 'expb':
        return num(e[1]) ** expr(e[2], x)
    if op == 'log':
        return Log(expr(e[1], x))
    if op == 'logb':
        return T.Logarithm(expr(e[1], x), num(e[2]))
    if op == 'poly':
        s = expr(e[1], x)
        if isinstance(s, (T.Poly, T.Piecewise)):
            # A polynomial of a polynomial is not a sum of its powers here
            # (the operators reject it); write it as a composition.
            return T.Poly(s, [num(c) for c in e[2]])
        r = None
        for i, c in enumerate(e[2]):
            c = num(c)
            if i == 0:
                continue
            if c == 0:
                continue
            term = c * (s ** i if i > 1 else s)
            r = term if r is None else r + term
        c0 = num(e[2][0])
        return r + c0 if c0 != 0 else r
    if op == 'ind':
        return event(e[1], Everything(x))
    if op == 'pw':
        r = None
        for sub, evt in e[1]:
            p = expr(sub, x) * event(evt, Everything(x)) if not (isinstance(sub, list) and sub[0] == 'ev') else None
            r = p if r is None else r + p
        return r
    raise ValueError(op)


class Everything:
    """Maps every variable to one expression."""
    def __init__(self, x):
        self.x = x

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return self.x


def rset(s):
    k = s[0]
    if k == 'lt':
        return Interval(-inf, num(s[1]), right_open=True)
    if k == 'le':
        return Interval(-inf, num(s[1]))
    if k == 'gt':
        return Interval(num(s[1]), inf, left_open=True)
    if k == 'ge':
        return Interval(num(s[1]), inf)
    if k == 'iv':
        return Interval(num(s[1]), num(s[2]), left_open=bool(s[3]), right_open=bool(s[4]))
    if k == 'in':
        return FiniteReal(*[num(v) for v in s[1]]) if s[1] else EmptySet
    if k == 'ins':
        return FiniteNominal(*s[1]) if s[1] else EmptySet
    if k == 'nins':
        return FiniteNominal(*s[1], b=True)
    if k == 'un':
        r = EmptySet
        for t in s[1]:
            r = r | rset(t)
        return r
    raise ValueError(s)


def literal(l, tr):
    """l = ['lit', var, expr, set, how]; tr the Transform of the expression."""
    s = l[3]
    how = l[4] if len(l) > 4 else 0
    k = s[0]
    if how == 1 or isinstance(tr, T.Event):
        # (Operators on an event continue it as a chained comparison.)
        return tr << rset(s)
    if k == 'lt':
        return tr < num(s[1])
    if k == 'le':
        return tr <= num(s[1])
    if k == 'gt':
        return tr > num(s[1])
    if k == 'ge':
        return tr >= num(s[1])
    if k == 'iv':
        a, b = num(s[1]), num(s[2])
        if how == 2 and not (math.isinf(a) or math.isinf(b)):
            lo = (tr > a) if s[3] else (tr >= a)
            hi = (tr < b) if s[4] else (tr <= b)
            return lo & hi
        if how == 3 and not (math.isinf(a) or math.isinf(b)):
            lo = (a < tr) if s[3] else (a <= tr)
            return (lo < b) if s[4] else (lo <= b)
        return tr << rset(s)
    if k == 'in':
        vs = [num(v) for v in s[1]]
        return tr << (set(vs) if how == 0 else vs if how == 2 else tuple(vs))
    if k == 'ins':
        return tr << (set(s[1]) if how == 0 else list(s[1]))
    return tr << rset(s)


def event(e, ids):
    op = e[0]
    if op == 'lit':
        x = ids[e[1]] if e[1] in ids else Id(e[1])
        return literal(e, expr(e[2], x))
    if op == 'and':
        r = None
        for s in e[1]:
            v = event(s, ids)
            r = v if r is None else r & v
        return r
    if op == 'or':
        r = None
        for s in e[1]:
            v = event(s, ids)
            r = v if r is None else r | v
        return r
    if op == 'not':
        return ~event(e[1], ids)
    if op == 'xor':
        return event(e[1], ids) ^ event(e[2], ids)
    raise ValueError(e)


NO = {}


def ev(e):
    return event(e, NO)


# --- models ------------------------------------------------------------------

def distribution(d):
    k = d['k']
    if k == 'choice':
        w = d['w']
        if all(isinstance(x[1], list) for x in w):
            return D.choice({s: fractions.Fraction(*p) for s, p in w})
        return D.choice({s: num(p) for s, p in w})
    if k == 'discrete':
        return D.discrete({num(v): num(w) for v, w in d['w']})
    if k == 'uniformd':
        return D.uniformd(values=tuple(num(v) for v in d['w']))
    if k == 'atomic':
        return D.atomic(loc=num(d['kw']['loc']))
    return getattr(D, k)(**{a: num(b) for a, b in d.get('kw', {}).items()})


def frac_weights(c):
    """Positive numbers -> floats summing to one."""
    ws = [float(fractions.Fraction(*w['q'])) if isinstance(w, dict) else float(w) for w, _ in c]
    tot = sum(ws)
    return [w / tot for w in ws]


def model(m, style=0):
    """style 0: operators; 1: constructors; 2: constructors, nested binary."""
    t = m['t']
    if t == 'leaf':
        return Id(m['v']) >> distribution(m['d'])
    if t == 'prod':
        cs = [model(c, style) for c in m['c']]
        if len(cs) == 1:
            return cs[0]
        if style == 1:
            return ProductSPE(cs)
        r = cs[0]
        for c in cs[1:]:
            r = r & c
        return r
    if t == 'mix':
        cs = [model(c, style) for _, c in m['c']]
        if len(cs) == 1:
            return cs[0]
        return mixture(cs, frac_weights(m['c']), style)
    if t == 'trans':
        s = model(m['m'], style)
        return s.transform(Id(m['v']), expr(m['x'][1], Id(m['x'][0])))
    if t == 'cond':
        return model(m['m'], style).condition(ev(m['e']))
    if t == 'constr':
        return model(m['m'], style).constrain(assignment(m['a']))
    raise ValueError(t)


def mixture(cs, ws, style):
    if style == 1:
        return SumSPE(cs, [math.log(w) for w in ws])
    if style == 2 and len(cs) > 2:
        rest = sum(ws[1:])
        inner = mixture(cs[1:], [w / rest for w in ws[1:]], style)
        return SumSPE([cs[0], inner], [math.log(ws[0]), math.log(rest)])
    r = None
    for w, c in zip(ws, cs):
        p = w * c
        r = p if r is None else r | p
    return r


def assignment(a):
    return {Id(k): (v if isinstance(v, str) else num(v)) for k, v in a.items()}
