"""Reference semantics, independent of the code under test.

Numbers are Fractions when exact, floats otherwise.  An expression at a point is
a number or None (undefined).  A literal has three states at a point: True,
False or None (undefined there or of another type: false, and so is its
negation).  A model is evaluated to tables {signature: mass} where a signature
is the tuple of states of a list of literals.
"""
import math
from fractions import Fraction
import numpy
import scipy.stats
from core import Discard, inf

F = Fraction
EPS = 1e-9
INFS = (inf, -inf)
ZMIN, DMIN = 1e-7, 1e-12       # below these a condition or observation is left undecided


def num(j):
    """JSON number -> Fraction (exact) or float infinity."""
    if isinstance(j, dict):
        if 'q' in j:
            return F(j['q'][0], j['q'][1])
        if 'inf' in j:
            return inf if j['inf'] > 0 else -inf
        raise ValueError(j)
    if isinstance(j, float) and math.isinf(j):
        return j
    return F(j)


def same(a, b):
    if isinstance(a, F) and isinstance(b, F):
        return a == b
    if a in INFS or b in INFS:
        return a == b
    a, b = float(a), float(b)
    return abs(a - b) <= EPS * max(1.0, abs(a), abs(b))


def lt(a, b):
    return (not same(a, b)) and a < b


def _root_exact(x, n):
    """Exact n-th root of a nonnegative Fraction, or None."""
    def r(k):
        if k < 2:
            return k
        g = int(round(k ** (1.0 / n)))
        for c in (g - 1, g, g + 1):
            if c >= 0 and c ** n == k:
                return c
        return None
    if x.numerator > 10**15 or x.denominator > 10**15:
        return None
    p, q = r(x.numerator), r(x.denominator)
    return None if p is None or q is None else F(p, q)


HUGE = 1e300


def tiny(r):
    """A positive float near or below the resolution: kept positive and exact."""
    if r < 1e-8:
        return F(max(r, 1e-300))
    return r


def _fexp(y):
    """exp(y); overflow gives a huge number, which stands for any huge number."""
    try:
        return tiny(math.exp(y))
    except OverflowError:
        return HUGE


def powr(b, e):
    """b ** e for b > 0."""
    if isinstance(b, F) and isinstance(e, F) and e.denominator == 1 and abs(e) < 60:
        return b ** int(e)
    if b == 1:
        return F(1)
    try:
        return tiny(float(b) ** float(e))
    except OverflowError:
        return HUGE


def logr(x, b):
    """log base b of x > 0 (b None: natural)."""
    if x == 1:
        return F(0)
    if b is not None and isinstance(x, F) and isinstance(b, F):
        k = math.log(float(x)) / math.log(float(b))
        kk = int(round(k))
        if abs(k - kk) < 1e-9 and abs(kk) < 60 and b ** kk == x:
            return F(kk)
    try:
        lx = math.log(x)
    except (OverflowError, ValueError):
        lx = math.log(x.numerator) - math.log(x.denominator)
    return lx if b is None else lx / math.log(float(b))


def ipow(y, n):
    try:
        return y ** n
    except OverflowError:
        raise Discard('expression overflow')


BIG = 1e150


def ev_expr(e, x, top=True):
    """Value of expression e at x, or None; Discard when out of floating range."""
    try:
        return ev_expr_(e, x, top)
    except (ZeroDivisionError, OverflowError):
        raise Discard('expression overflow')


def ev_expr_(e, x, top=True):
    """See ev_expr.

    The code under test works in the extended reals (log 0 = -oo); a logarithm
    of zero inside another operation is left undecided."""
    op = e[0]
    if op == 'x':
        return x
    if isinstance(x, str):
        return None
    if op in ('radd', 'rsub', 'rmul', 'rdiv', 'expb'):
        c, s = num(e[1]), e[2]
    else:
        s = e[1]
        c = num(e[2]) if op in ('add', 'sub', 'mul', 'div') else None
    if op == 'pw':
        for sub, evt in e[1]:
            if truth_at(evt, x):
                return ev_expr(sub, x, top)
        return None
    if op == 'ind':
        st = [lit_state(l, x) for l in literals(e[1])]
        return F(1) if ev_bool(e[1], st) else F(0) if ev_bool(e[1], st, True) else None
    y = ev_expr(s, x, False)
    if y is None:
        return None
    if not isinstance(y, F) and (math.isinf(y) or abs(y) > BIG):
        raise Discard('expression overflow')
    if op in ('add', 'radd'):
        return y + c
    if op == 'sub':
        return y - c
    if op == 'rsub':
        return c - y
    if op in ('mul', 'rmul'):
        return y * c
    if op == 'div':
        return y / c
    if op == 'rdiv':
        return None if y == 0 else c / y
    if op == 'neg':
        return -y
    if op == 'abs':
        return abs(y)
    if op == 'pow':
        n = e[2]
        if n < 0:
            return None if y == 0 else 1 / ipow(y, -n)
        return ipow(y, n)
    if op == 'poly':
        r = F(0)
        for cc in reversed(e[2]):
            r = r * y + num(cc)
        return r
    if op in ('root', 'sqrt'):
        n = 2 if op == 'sqrt' else e[2]
        if y < 0:
            if not isinstance(y, F) and y > -1e-11:
                raise Discard('root of a rounding error')
            return None
        if isinstance(y, F):
            r = _root_exact(y, n)
            if r is not None:
                return r
        return float(y) ** (1.0 / n)
    if op == 'exp':
        return F(1) if y == 0 else _fexp(float(y))
    if op == 'expb':
        return powr(c, y)
    if op in ('log', 'logb'):
        if y == 0 and not top:
            raise Discard('logarithm of zero inside an expression')
        if y <= 0:
            return None
        if y < 1e-290 or y > 1e290:
            raise Discard('logarithm of an under- or overflow')
        return logr(y, None if op == 'log' else num(e[2]))
    raise ValueError(op)


def subst(e, inner):
    """Expression e with its variable replaced by expression inner."""
    op = e[0]
    if op == 'x':
        return inner
    if op in ('radd', 'rsub', 'rmul', 'rdiv', 'expb'):
        return [op, e[1], subst(e[2], inner)]
    if op == 'ind':
        return ['ind', subst_event(e[1], inner)]
    if op == 'pw':
        return ['pw', [[subst(s, inner), subst_event(t, inner)] for s, t in e[1]]]
    return [op, subst(e[1], inner)] + list(e[2:])


def subst_event(ev, inner):
    if ev[0] == 'lit':
        return ['lit', ev[1], subst(ev[2], inner), ev[3]] + list(ev[4:])
    if ev[0] in ('and', 'or'):
        return [ev[0], [subst_event(s, inner) for s in ev[1]]]
    if ev[0] == 'not':
        return ['not', subst_event(ev[1], inner)]
    if ev[0] == 'xor':
        return ['xor', subst_event(ev[1], inner), subst_event(ev[2], inner)]
    raise ValueError(ev)


# --- sets --------------------------------------------------------------------

def pieces(s):
    """JSON set -> list of ('pt', v) | ('iv', a, b, lo, ro) | ('str', set, neg)."""
    k = s[0]
    if k == 'lt':
        return [('iv', -inf, num(s[1]), True, True)]
    if k == 'le':
        return [('iv', -inf, num(s[1]), True, False)]
    if k == 'gt':
        return [('iv', num(s[1]), inf, True, True)]
    if k == 'ge':
        return [('iv', num(s[1]), inf, False, True)]
    if k == 'iv':
        a, b = num(s[1]), num(s[2])
        return [('iv', a, b, bool(s[3]), bool(s[4]))]
    if k == 'in':
        return [('pt', num(v)) for v in s[1]]
    if k == 'ins':
        return [('str', frozenset(s[1]), False)]
    if k == 'nins':
        return [('str', frozenset(s[1]), True)]
    if k == 'un':
        return [p for t in s[1] for p in pieces(t)]
    raise ValueError(s)


def set_kind(s):
    k = s[0]
    if k in ('ins', 'nins'):
        return 'str'
    if k == 'un':
        kinds = {set_kind(t) for t in s[1]}
        return kinds.pop() if len(kinds) == 1 else 'mixed'
    return 'num'


def in_pieces(y, ps):
    if isinstance(y, str):
        return any(p[0] == 'str' and ((y in p[1]) != p[2]) for p in ps)
    for p in ps:
        if p[0] == 'pt':
            if same(y, p[1]):
                return True
        elif p[0] == 'iv':
            _, a, b, lo, ro = p
            if same(y, a):
                if not lo and not (a in INFS) and (lt(a, b) or (same(a, b) and not ro)):
                    return True
            elif same(y, b):
                if not ro and not (b in INFS) and lt(a, b):
                    return True
            elif lt(a, y) and lt(y, b):
                return True
    return False


def lit_state(lit, x):
    """lit = ['lit', var, expr, set, ...]; x a number or string."""
    kind = set_kind(lit[3])
    if isinstance(x, str):
        if lit[2][0] != 'x' or kind == 'num':
            return None
        return in_pieces(x, pieces(lit[3]))
    if kind == 'str':
        return None
    y = ev_expr(lit[2], x)
    if y is None:
        return None
    return in_pieces(y, pieces(lit[3]))


def literals(ev, acc=None):
    acc = [] if acc is None else acc
    if ev[0] == 'lit':
        acc.append(ev)
    elif ev[0] in ('and', 'or'):
        for s in ev[1]:
            literals(s, acc)
    elif ev[0] == 'not':
        literals(ev[1], acc)
    elif ev[0] == 'xor':
        literals(ev[1], acc)
        literals(ev[2], acc)
    return acc


def ev_bool(ev, states, neg=False):
    """Truth of event given an iterator-like list of literal states, consumed in
    the order of `literals`; negation is pushed to the literals."""
    it = iter(states)

    def go(e):
        # returns (value, value of negation)
        if e[0] == 'lit':
            s = next(it)
            return (s is True, s is False)
        if e[0] == 'and':
            rs = [go(s) for s in e[1]]
            return (all(r[0] for r in rs), any(r[1] for r in rs))
        if e[0] == 'or':
            rs = [go(s) for s in e[1]]
            return (any(r[0] for r in rs), all(r[1] for r in rs))
        if e[0] == 'not':
            a, b = go(e[1])
            return (b, a)
        if e[0] == 'xor':
            a, an = go(e[1])
            b, bn = go(e[2])
            # (a & ~b) | (~a & b), and its negation (~a | b) & (a | ~b)
            return ((a and bn) or (an and b), (an or b) and (a or bn))
        raise ValueError(e)
    r = go(ev)
    return r[1] if neg else r[0]


def dnf_sizes(ev):
    """(clauses of ev, clauses of its negation)."""
    op = ev[0]
    if op == 'lit':
        k = ev[3][0]
        if k == 'iv':
            return (1, 2)
        if k == 'in':
            return (1, len(ev[3][1]) + 1)
        if k == 'un':
            return (3, 4)
        return (1, 1)
    if op == 'and':
        a, b = 1, 0
        for s in ev[1]:
            x, y = dnf_sizes(s)
            a *= x
            b += y
        return (a, b)
    if op == 'or':
        a, b = 0, 1
        for s in ev[1]:
            x, y = dnf_sizes(s)
            a += x
            b *= y
        return (a, b)
    if op == 'not':
        a, b = dnf_sizes(ev[1])
        return (b, a)
    x, y = dnf_sizes(ev[1])
    z, w = dnf_sizes(ev[2])
    return (x * w + y * z, (y + z) * (x + w))


def truth_at(ev, x):
    """Single-variable event at a point."""
    return ev_bool(ev, [lit_state(l, x) for l in literals(ev)])


def truth_on(ev, assignment):
    """Event on {var: value}."""
    return ev_bool(ev, [lit_state(l, assignment[l[1]]) for l in literals(ev)])


# --- break points ------------------------------------------------------------

def crit(e, targets):
    """A superset of the reals at which e crosses a target, or at which its
    definedness or monotonicity may change (floats)."""
    T = [float(t) for t in targets if not math.isinf(t) and abs(t) < BIG]
    op = e[0]
    if op == 'x':
        return set(T)
    if op == 'ind':
        return crit_event(e[1])
    if op in ('radd', 'rsub', 'rmul', 'rdiv', 'expb'):
        c, s = float(num(e[1])), e[2]
    else:
        s = e[1]
        c = float(num(e[2])) if op in ('add', 'sub', 'mul', 'div') else None
    if op == 'pw':
        out = set()
        for sub, evt in e[1]:
            out |= crit(sub, T)
            out |= crit_event(evt)
        return out
    U = set()
    if op in ('add', 'radd'):
        U = {t - c for t in T}
    elif op == 'sub':
        U = {t + c for t in T}
    elif op == 'rsub':
        U = {c - t for t in T}
    elif op in ('mul', 'rmul'):
        U = {t / c for t in T} if c else set()
    elif op == 'div':
        U = {t * c for t in T}
    elif op == 'rdiv':
        U = {c / t for t in T if t} | {0.0}
    elif op == 'neg':
        U = {-t for t in T}
    elif op == 'abs':
        U = {t for t in T} | {-t for t in T} | {0.0}
    elif op == 'pow':
        n = e[2]
        if n < 0:
            T = [1 / t for t in T if t]
            n = -n
        for t in T:
            r = abs(t) ** (1.0 / n)
            U |= {r, -r}
        U |= {0.0}
    elif op == 'poly':
        cs = [float(num(v)) for v in e[2]]
        while len(cs) > 1 and cs[-1] == 0:
            cs.pop()
        if len(cs) > 1:
            for t in T:
                rs = numpy.roots([cs[i] if i else cs[0] - t for i in range(len(cs) - 1, -1, -1)])
                for r in rs:
                    if abs(r.imag) <= 1e-3 * max(1, abs(r.real)):
                        U.add(float(r.real))
            if len(cs) > 2:
                for r in numpy.roots([i * cs[i] for i in range(len(cs) - 1, 0, -1)]):
                    U.add(float(r.real))
    elif op in ('root', 'sqrt'):
        n = 2 if op == 'sqrt' else e[2]
        U = {t ** n for t in T if t >= 0 and t < 1e40} | {0.0}
    elif op == 'exp':
        U = {math.log(t) for t in T if t > 0}
    elif op == 'expb':
        U = {math.log(t) / math.log(c) for t in T if t > 0} if c != 1 else set()
    elif op in ('log', 'logb'):
        b = 1.0 if op == 'log' else math.log(float(num(e[2])))
        if any(t * b > 600 for t in T):
            raise Discard('threshold beyond floating point')
        U = {float(_fexp(t * b)) for t in T} | {0.0}
    else:
        raise ValueError(op)
    return crit(s, U)


def endpoints(s):
    out = []
    for p in pieces(s):
        if p[0] == 'pt':
            out.append(p[1])
        elif p[0] == 'iv':
            out += [p[1], p[2]]
    return out


def crit_event(ev):
    out = set()
    for l in literals(ev):
        out |= crit(l[2], endpoints(l[3]))
    return out


# --- distributions -----------------------------------------------------------

_FRESH = {}


def dist_ref(d):
    """JSON distribution -> ('cont', frozen) or ('atoms', [(value, mass)...])."""
    k = d['k']
    kw = {a: float(num(b)) for a, b in d.get('kw', {}).items()}
    if k == 'choice':
        tot = sum(F(w[0], w[1]) if isinstance(w, list) else num(w) for _, w in d['w'])
        return ('atoms', [(s, float((F(w[0], w[1]) if isinstance(w, list) else num(w)) / tot))
                          for s, w in d['w']])
    if k in ('discrete', 'uniformd'):
        if k == 'uniformd':
            n = len(d['w'])
            return ('atoms', [(num(v), 1.0 / n) for v in d['w']])
        return ('atoms', [(num(v), float(num(w))) for v, w in d['w']])
    if k == 'atomic':
        return ('atoms', [(num(d['kw']['loc']), 1.0)])
    key = (k, tuple(sorted(kw.items())))
    if key in _FRESH:
        return _FRESH[key]
    frozen = getattr(scipy.stats, k)(**kw)
    if isinstance(frozen.dist, scipy.stats.rv_discrete):
        lo, hi = frozen.support()
        atoms = []
        loc = kw.get('loc', 0)
        if lo == -inf:
            start = int(frozen.ppf(1e-14)) - 3
        else:
            start = int(lo)
        end = int(hi) if hi != inf else int(frozen.isf(1e-14)) + 3
        if end - start > 3000:
            raise Discard('too many atoms')
        ks = numpy.arange(start, end + 1)
        ps = frozen.pmf(ks)
        atoms = [(F(int(a)), float(p)) for a, p in zip(ks, ps) if p > 0]
        r = ('atoms', atoms)
    else:
        r = ('cont', frozen)
    if len(_FRESH) > 5000:
        _FRESH.clear()
    _FRESH[key] = r
    return r


def interval_mass(fr, a, b):
    """Mass of (a, b) using whichever tail is more accurate."""
    ca = 0.0 if a == -inf else float(fr.cdf(a))
    if ca > 0.5:
        sa = float(fr.sf(a))
        sb = 0.0 if b == inf else float(fr.sf(b))
        return max(sa - sb, 0.0)
    cb = 1.0 if b == inf else float(fr.cdf(b))
    return max(cb - ca, 0.0)


# --- tables ------------------------------------------------------------------

def variables(m):
    t = m['t']
    if t == 'leaf':
        return {m['v']}
    if t == 'prod':
        return set().union(*[variables(c) for c in m['c']])
    if t == 'mix':
        return variables(m['c'][0][1])
    if t == 'trans':
        return variables(m['m']) | {m['v']}
    if t in ('cond', 'constr'):
        return variables(m['m'])
    raise ValueError(t)


def derived(m):
    """Names of derived variables."""
    t = m['t']
    if t == 'leaf':
        return set()
    if t == 'prod':
        return set().union(*[derived(c) for c in m['c']])
    if t == 'mix':
        return derived(m['c'][0][1])
    if t == 'trans':
        return derived(m['m']) | {m['v']}
    return derived(m['m'])


def add_to(d, k, v):
    d[k] = d.get(k, 0.0) + v


def leaf_table(m, lits):
    kind, D = dist_ref(m['d'])
    out = {}
    if kind == 'atoms':
        for l in lits:
            if set_kind(l[3]) != 'str':
                crit(l[2], endpoints(l[3]))      # discards thresholds beyond floating point
        for v, p in D:
            add_to(out, tuple(lit_state(l, v) for l in lits), p)
        return out
    lo, hi = D.support()
    bps = set()
    for l in lits:
        bps |= crit(l[2], endpoints(l[3]))
    pts = [float(lo)] + sorted(b for b in bps if lo < b < hi) + [float(hi)]
    for a, b in zip(pts, pts[1:]):
        if not a < b:
            continue
        p = interval_mass(D, a, b)
        if p == 0.0:
            continue
        mid = midpoint(a, b, D)
        if mid is None:
            continue
        add_to(out, tuple(lit_state(l, mid) for l in lits), p)
    return out


def midpoint(a, b, D=None):
    if a == -inf and b == inf:
        mid = 0.123
    elif a == -inf:
        mid = b - 1.0 - abs(b) * 0.5
    elif b == inf:
        mid = a + 1.0 + abs(a) * 0.5
    else:
        mid = 0.5 * (a + b)
    if not a < mid < b:
        return None
    return mid


def table(m, lits):
    """{tuple of literal states: mass} for literals over variables of m."""
    t = m['t']
    if t == 'leaf':
        return leaf_table(m, lits)
    if t == 'mix':
        out = {}
        tot = float(sum(num(w) for w, _ in m['c']))
        for w, c in m['c']:
            for s, p in table(c, lits).items():
                add_to(out, s, p * float(num(w)) / tot)
        return out
    if t == 'prod':
        return product_tables([(c, table) for c in m['c']], lits,
                              lambda c, ls: table(c, ls))
    if t == 'trans':
        return table(m['m'], [rewrite(m, l) for l in lits])
    if t == 'cond':
        fl = literals(m['e'])
        tb = table(m['m'], list(lits) + fl)
        n = len(lits)
        out, z = {}, 0.0
        for s, p in tb.items():
            if ev_bool(m['e'], s[n:]):
                add_to(out, s[:n], p)
                z += p
        if z < ZMIN:
            raise Discard('reference: conditioning on a (nearly) null event')
        return {s: p / z for s, p in out.items()}
    if t == 'constr':
        ds = dens(m['m'], m['a'], lits)
        d = min_dim(ds)
        if d is None:
            raise Discard('reference: constraint has density zero')
        tb = at_dim(ds, d)
        z = sum(tb.values())
        if not z > DMIN:
            raise Discard('reference: tiny density')
        return {s: p / z for s, p in tb.items()}
    raise ValueError(t)


def rewrite(m, l):
    if l[1] == m['v']:
        e = m['x']
        return ['lit', e[0], subst(l[2], e[1]), l[3]] + list(l[4:])
    return l


def product_tables(cs, lits, f):
    out = {tuple([None] * len(lits)): 1.0}
    for c, _ in cs:
        vs = variables(c)
        idx = [i for i, l in enumerate(lits) if l[1] in vs]
        if not idx:
            continue
        tb = f(c, [lits[i] for i in idx])
        nxt = {}
        for s, p in out.items():
            for s2, p2 in tb.items():
                q = list(s)
                for i, v in zip(idx, s2):
                    q[i] = v
                add_to(nxt, tuple(q), p * p2)
        out = nxt
    return out


def prob(m, ev):
    """Probability of an event."""
    ls = literals(ev)
    return sum(p for s, p in table(m, ls).items() if ev_bool(ev, s))


def probs(m, evs):
    ls, spans = [], []
    for e in evs:
        l = literals(e)
        spans.append((len(ls), len(ls) + len(l)))
        ls += l
    tb = table(m, ls)
    return [sum(p for s, p in tb.items() if ev_bool(e, s[a:b])) for e, (a, b) in zip(evs, spans)]


# --- densities ---------------------------------------------------------------
#
# A dimension is a sorted tuple of (group, count): how many continuous
# coordinates each group of observed variables has used.  Group 0 is the query;
# each `constr` node gets a group of its own, of which only the smallest
# dimension survives (the observation picks the components with fewest
# continuous coordinates), after which the observed variables are atoms.

def dsum(d):
    return sum(c for _, c in d)


def dadd(d1, d2):
    o = dict(d1)
    for g, c in d2:
        o[g] = o.get(g, 0) + c
    return tuple(sorted(o.items()))


def min_dim(ds):
    ks = [k for k, tb in ds.items() if sum(tb.values()) > 0]
    return min(dsum(k) for k in ks) if ks else None


def at_dim(ds, d):
    out = {}
    for k, tb in ds.items():
        if dsum(k) == d:
            for s, p in tb.items():
                add_to(out, s, p)
    return out


def dens(m, a, lits, g=0):
    """{dimension: {signature: weight}} for {var: value} all in one group."""
    return dens_(m, {k: (v if isinstance(v, str) else num(v), g) for k, v in a.items()}, lits)


def dens_(m, a, lits):
    t = m['t']
    if t == 'leaf':
        v = m['v']
        if v not in a:
            return {(): leaf_table(m, lits)}
        val, g = a[v]
        kind, D = dist_ref(m['d'])
        sig = tuple(lit_state(l, val) for l in lits)
        if kind == 'atoms':
            p = sum(q for w, q in D if isinstance(w, str) == isinstance(val, str) and w == val)
            return {(): {sig: p}} if p > 0 else {}
        if isinstance(val, str):
            return {}
        p = float(D.pdf(float(val)))
        return {((g, 1),): {sig: p}} if p > 0 else {}
    if t == 'mix':
        out = {}
        tot = float(sum(num(w) for w, _ in m['c']))
        for w, c in m['c']:
            for d, tb in dens_(c, a, lits).items():
                o = out.setdefault(d, {})
                for s, p in tb.items():
                    add_to(o, s, p * float(num(w)) / tot)
        return out
    if t == 'prod':
        out = {(): {tuple([None] * len(lits)): 1.0}}
        for c in m['c']:
            vs = variables(c)
            idx = [i for i, l in enumerate(lits) if l[1] in vs]
            ac = {k: v for k, v in a.items() if k in vs}
            if not idx and not ac:
                continue
            dc = dens_(c, ac, [lits[i] for i in idx])
            nxt = {}
            for d1, t1 in out.items():
                for d2, t2 in dc.items():
                    o = nxt.setdefault(dadd(d1, d2), {})
                    for s, p in t1.items():
                        for s2, p2 in t2.items():
                            q = list(s)
                            for i, v in zip(idx, s2):
                                q[i] = v
                            add_to(o, tuple(q), p * p2)
            out = nxt
        return out
    if t == 'trans':
        return dens_(m['m'], a, [rewrite(m, l) for l in lits])
    if t == 'cond':
        fl = literals(m['e'])
        z = prob(m['m'], m['e'])
        if z < ZMIN:
            raise Discard('reference: conditioning on a (nearly) null event')
        n = len(lits)
        out = {}
        for d, tb in dens_(m['m'], a, list(lits) + fl).items():
            o = {}
            for s, p in tb.items():
                if ev_bool(m['e'], s[n:]):
                    add_to(o, s[:n], p / z)
            if o:
                out[d] = o
        return out
    if t == 'constr':
        gid = m.setdefault('gid', id(m))
        both = {k: (v if isinstance(v, str) else num(v), gid) for k, v in m['a'].items()}
        z_tb = dens_(m['m'], both, [])
        d0 = min_dim(z_tb)
        if d0 is None:
            raise Discard('reference: constraint has density zero')
        z = sum(at_dim(z_tb, d0).values())
        if not z > DMIN:
            raise Discard('reference: tiny density')
        for k, (v, g) in a.items():
            if k in both:
                if isinstance(v, str) != isinstance(both[k][0], str) or v != both[k][0]:
                    return {}
            else:
                both[k] = (v, g)
        out = {}
        for d, tb in dens_(m['m'], both, lits).items():
            o = dict(d)
            if o.pop(gid, 0) != d0:
                continue
            o = out.setdefault(tuple(sorted(o.items())), {})
            for s, p in tb.items():
                add_to(o, s, p / z)
        return out
    raise ValueError(t)


def density(m, a):
    """(dimension, weight) of an assignment; (None, 0) when impossible."""
    ds = dens(m, a, [])
    d = min_dim(ds)
    if d is None:
        return None, 0.0
    return d, sum(at_dim(ds, d).values())


def validate(m):
    """Discards models that condition on a (nearly) impossible event."""
    if m['t'] in ('cond', 'constr'):
        table(m, [])
    if 'm' in m:
        validate(m['m'])
    for c in m.get('c', ()):
        validate(c[1] if isinstance(c, list) else c)
