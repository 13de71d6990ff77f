"""C05: sampling against the distribution that prob reports."""
import math
from collections import Counter
import numpy
import scipy.stats
import build, ref
from core import check, Discard
from p_c02 import feats
from sppl.transforms import Id

ALPHA = 1e-10


def count_ok(k, n, p):
    """Is a count of k out of n plausible at probability p?  (Two-sided tail
    bound of the binomial distribution.)"""
    p = min(max(p, 0.0), 1.0)
    if p <= 1e-12:
        return k == 0
    if p >= 1 - 1e-12:
        return k == n
    lo = scipy.stats.binom.cdf(k, n, p + 1e-7 if p < 0.5 else p)
    hi = scipy.stats.binom.sf(k - 1, n, p)
    return min(lo, hi) > ALPHA


def value(x):
    if isinstance(x, str):
        return str(x)
    x = float(x)
    if math.isinf(x):
        raise Discard('overflow in a sampled value')
    return ref.F(x) if x == math.floor(x) and abs(x) < 2 ** 50 else x


def run(case, ctx):
    m, evs, N, seed = case['m'], case['evs'], case['N'], case['seed']
    ref.validate(m)
    lits = [l for e in evs for l in ref.literals(e)]
    table = ref.table(m, lits)
    tot = sum(table.values())
    if abs(tot - 1) > 1e-6:
        raise Discard('reference table sums to %r' % tot)
    spe = build.model(m, case.get('style', 0))
    syms = {str(s) for s in spe.get_symbols()}
    dv = defs_of(m)
    kinds = value_kinds(m)
    fixed = observed(m)

    def draw(how, s):
        prng = numpy.random.RandomState(s)
        if how == 'all':
            return spe.sample(N, prng=prng)
        return spe.sample_subset([Id(v) for v in how], N, prng=prng)

    def decide(S, names, what):
        """Exact counts, names, values, derived values, joint frequencies."""
        check(len(S) == N, '%s returned %d samples instead of %d', what, len(S), N)
        out = []
        for s in S:
            check(isinstance(s, dict) and {str(k) for k in s} == names and len(s) == len(names),
                  '%s: a sample has variables %s instead of %s', what, sorted(map(str, s)), sorted(names))
            a = {str(k): value(v) for k, v in s.items()}
            for v, x in a.items():
                k = kinds.get(v)
                if v in dv:
                    base, e = dv[v]
                    check(not isinstance(x, str), '%s: derived %s = %r', what, v, x)
                    if base in a:
                        y = ref.ev_expr(e, a[base])
                        check(y is not None and abs(float(y) - float(x)) <= 1e-7 * max(1, abs(float(y))),
                              '%s: %s = %r but its definition gives %r at %s = %r', what, v, x, y, base, a[base])
                elif k is not None:
                    check(feasible(k, x), '%s: %s = %r is outside the support of every component', what, v, x)
                if v in fixed:
                    check(x == fixed[v], '%s: %s = %r although %r was observed', what, v, x, fixed[v])
            out.append(a)
        return out

    def frequencies(A, names, what):
        use = [i for i, l in enumerate(lits) if l[1] in names]
        exp = {}
        for sig, p in table.items():
            ref.add_to(exp, tuple(sig[i] for i in use), p / tot)
        sigs = [tuple(ref.lit_state(lits[i], a[lits[i][1]]) for i in use) for a in A]
        for part, label in ((sigs, ''), (sigs[:len(sigs) // 3], ' among the first third')):
            c = Counter(part)
            n = len(part)
            for sig in set(c) | set(exp):
                check(count_ok(c[sig], n, exp.get(sig, 0.0)),
                      '%s%s: %d of %d samples have signature %s over %s, probability %r', what, label,
                      c[sig], n, sig, [build.ev(lits[i]) for i in use], exp.get(sig, 0.0))
        # Neighbouring samples are independent.
        pairs = Counter(zip(sigs[0::2], sigs[1::2]))
        n = len(sigs) // 2
        for (a, b), k in pairs.items():
            check(count_ok(k, n, exp.get(a, 0.0) * exp.get(b, 0.0)),
                  '%s: %d of %d neighbouring pairs have signatures %s %s, probabilities %r %r', what, k, n,
                  a, b, exp.get(a), exp.get(b))
        # Events.
        for e in evs:
            if set(l[1] for l in ref.literals(e)) <= names:
                p = ref.prob(m, e)
                k = sum(ref.truth_on(e, a) for a in A)
                check(count_ok(k, len(A), p), '%s: %d of %d samples satisfy %s, probability %r',
                      what, k, len(A), build.ev(e), p)
                if 1e-3 < p < 1 - 1e-3:
                    ctx.nt = True

    S = draw('all', seed)
    A = decide(S, syms, 'sample')
    frequencies(A, syms, 'sample')
    # Every sample has positive density and satisfies the conditioning events.
    conds = conditions(m)
    base = [v for v in syms if v not in dv]
    for s, a in list(zip(S, A))[:8]:
        d = float(spe.logpdf({k: v for k, v in s.items() if str(k) in base}))
        check(d > -math.inf, 'sample %s has density zero', s)
        for c in conds:
            if set(l[1] for l in ref.literals(c)) <= syms:
                check(ref.truth_on(c, a) or near(c, a), 'sample %s violates the condition %s', s, build.ev(c))
    # Determined by the generator alone.
    numpy.random.seed(seed ^ 1)
    state = numpy.random.get_state()[1].tolist()
    S2 = draw('all', seed)
    check(numpy.random.get_state()[1].tolist() == state, 'sampling with a generator touches the global one')
    check(plain(S) == plain(S2), 'two runs from the same seed differ')
    numpy.random.seed(seed)
    G1 = spe.sample(min(N, 30))
    numpy.random.seed(seed)
    G2 = spe.sample(min(N, 30))
    check(plain(G1) == plain(G2), 'two runs from the same global seed differ')
    decide_n = N
    # A subset of the variables.
    sub = [v for v in case['sub'] if v in syms] or [sorted(syms)[0]]
    how = set(sub) if case.get('set') else sub
    T = spe.sample_subset({Id(v) for v in sub} if case.get('set') else [Id(v) for v in sub], N,
                          prng=numpy.random.RandomState(seed + 7))
    B = decide(T, set(sub), 'sample_subset(%s)' % how)
    frequencies(B, set(sub), 'sample_subset(%s)' % how)
    ctx.tag('subset:%d/%d' % (len(sub), len(syms)))
    # A function of some variables.
    f = eval('lambda %s: dict(%s)' % (', '.join(sub), ', '.join('%s=%s' % (v, v) for v in sub)))
    T = spe.sample_func(f, N, prng=numpy.random.RandomState(seed + 9))
    B = decide(T, set(sub), 'sample_func(%s)' % how)
    frequencies(B, set(sub), 'sample_func(%s)' % how)
    # Determined by the generator alone.
    n = min(N, 20)
    for what, go in (('sample_subset', lambda: plain(spe.sample_subset([Id(v) for v in sub], n, prng=numpy.random.RandomState(seed + 3)))),
                     ('sample_func', lambda: plain(spe.sample_func(f, n, prng=numpy.random.RandomState(seed + 4))))):
        numpy.random.seed(seed ^ 5)
        state = numpy.random.get_state()[1].tolist()
        r = [go(), go()]
        check(r[0] == r[1], '%s: two runs from the same seed differ', what)
        check(numpy.random.get_state()[1].tolist() == state, '%s with a generator touches the global one', what)
    for n in (0, 1):
        check(len(spe.sample(n, prng=numpy.random.RandomState(seed))) == n, 'sample(%d) has another length', n)
    ctx.tag(*['model:' + t for t in feats(m)])


def plain(S):
    return [sorted((str(k), str(v)) for k, v in s.items()) for s in S]


def defs_of(m):
    out = {}
    if m['t'] == 'trans':
        out[m['v']] = m['x']
    if 'm' in m:
        out.update(defs_of(m['m']))
    for c in m.get('c', ()):
        out.update(defs_of(c[1] if isinstance(c, list) else c))
    return out


def value_kinds(m, acc=None):
    """Variable -> list of reference distributions."""
    acc = {} if acc is None else acc
    if m['t'] == 'leaf':
        acc.setdefault(m['v'], []).append(ref.dist_ref(m['d']))
    if 'm' in m:
        value_kinds(m['m'], acc)
    for c in m.get('c', ()):
        value_kinds(c[1] if isinstance(c, list) else c, acc)
    return acc


def feasible(ds, x):
    for kind, D in ds:
        if kind == 'atoms':
            if any(isinstance(v, str) == isinstance(x, str) and v == x and p > 0 for v, p in D):
                return True
            if len(D) > 30 and not isinstance(x, str):
                return True          # truncated tail of the reference
        elif not isinstance(x, str):
            lo, hi = D.support()
            if lo <= float(x) <= hi:
                return True
    return False


def observed(m):
    out = {}
    if m['t'] == 'constr':
        out = {k: (v if isinstance(v, str) else ref.num(v)) for k, v in m['a'].items()}
    if m['t'] in ('trans', 'cond', 'constr'):
        out = dict(observed(m['m']), **out)
    return {k: (value(v) if not isinstance(v, ref.F) or v.denominator == 1 else float(v)) for k, v in out.items()}


def conditions(m):
    out = []
    while m['t'] in ('trans', 'cond', 'constr'):
        if m['t'] == 'cond':
            out.append(m['e'])
        m = m['m']
    return out


def near(c, a):
    """Is the assignment within rounding of a boundary of the event?"""
    for l in ref.literals(c):
        x = a[l[1]]
        if isinstance(x, str) or ref.set_kind(l[3]) == 'str':
            continue
        for b in ref.crit(l[2], ref.endpoints(l[3])):
            if abs(float(x) - b) <= 1e-6 * max(1, abs(b)):
                return True
    return False
