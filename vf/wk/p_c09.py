"""C09: normal forms and evaluation of events over several variables."""
import random
import build, ref
from core import check, Discard
import sympy
import sppl.dnf
from sppl.transforms import Id, EventAnd, EventOr, EventBasic
from p_c07 import near, has_float, ops

# Internal steps are judged where they exist under these names.
dnf_normalize = getattr(sppl.dnf, 'dnf_normalize', None)
dnf_to_disjoint_union = getattr(sppl.dnf, 'dnf_to_disjoint_union', None)

STRS = ['a', 'b', 'c', 'd', 'z', 'other']


def points(ev, types, rng, n):
    """Assignments made of break points, points between them, and strings."""
    cand = {}
    ls = ref.literals(ev)
    for v, t in types.items():
        mine = [l for l in ls if l[1] == v]
        bps = set()
        for l in mine:
            bps |= ref.crit(l[2], ref.endpoints(l[3]))
        bps = sorted(b for b in bps if abs(b) < 1e6)
        c = [ref.F(k, 2) for k in range(-8, 13, 3)] + [ref.F(k) for k in range(-3, 6)]
        for a, b in zip([-ref.inf] + bps, bps + [ref.inf]):
            m = ref.midpoint(a, b)
            if m is not None:
                c.append(ref.F(m).limit_denominator(10**6))
        for b in bps:
            f = ref.F(b).limit_denominator(64)
            if abs(float(f) - b) < 1e-9:
                c.append(f)
        if t == 's':
            c = STRS
        elif t == 'm':
            c = c + STRS
        cand[v] = c
    return [{v: rng.choice(c) for v, c in cand.items()} for _ in range(n)]


def sut_val(x):
    if isinstance(x, str):
        return x
    return int(x) if x.denominator == 1 else sympy.Rational(x.numerator, x.denominator)


def decide(ev, a):
    st = []
    fuzzy = has_float(ev)
    for l in ref.literals(ev):
        x = a[l[1]]
        if isinstance(x, str) and l[2][0] != 'x':
            return None        # a function of a string is rejected, not false
        if not isinstance(x, str):
            y = ref.ev_expr(l[2], x)
            if y is None:
                raise Discard('undefined')
            if near(l, y, fuzzy):
                return None
        st.append(ref.lit_state(l, x))
    return ref.ev_bool(ev, st)


def bool_value(ev, a, typed):
    """Ordinary two-valued truth (negation is complement)."""
    op = ev[0]
    if op == 'lit':
        return ref.lit_state(ev, a[ev[1]]) is True
    if op == 'and':
        return all(bool_value(e, a, typed) for e in ev[1])
    if op == 'or':
        return any(bool_value(e, a, typed) for e in ev[1])
    if op == 'not':
        return not bool_value(ev[1], a, typed)
    return bool_value(ev[1], a, typed) != bool_value(ev[2], a, typed)


def is_dnf(e, what):
    clauses = e.subexprs if isinstance(e, EventOr) else [e]
    for c in clauses:
        lits = c.subexprs if isinstance(c, EventAnd) else [c]
        for l in lits:
            check(isinstance(l, EventBasic), '%s: %s is not a literal of a DNF', what, l)
    return clauses


def run(case, ctx):
    ev, types = case['ev'], case['types']
    rng = random.Random(case['seed'])
    event = build.ev(ev)
    ctx.note('event %s' % (event,))
    before = (repr(event), hash(event))
    dnf = event.to_dnf()
    is_dnf(dnf, 'to_dnf')
    norm = dnf_normalize(event) if dnf_normalize else dnf
    ctx.note('normal form %s' % (norm,))
    ids = {v: Id(v) for v in types}
    disjoint = None
    if norm is not None:
        clauses = is_dnf(norm, 'dnf_normalize')
        for c in clauses:
            lits = c.subexprs if isinstance(c, EventAnd) else [c]
            vs = [l.subexpr for l in lits]
            check(len(set(vs)) == len(vs), 'normal form %s has a clause with a variable twice', norm)
            for l in lits:
                check(l.subexpr in ids.values() and l.get_symbols() == frozenset([l.subexpr]),
                      'normal form %s has an unsolved literal %s', norm, l)
        disjoint, dcl = None, []
        mixed = [ids[v] for v, t in types.items() if t == 'm']
        if dnf_to_disjoint_union and mixed:
            disjoint = dnf_to_disjoint_union(norm, mixed)
        elif dnf_to_disjoint_union:
            disjoint = dnf_to_disjoint_union(norm)
        ctx.note('disjoint %s' % (disjoint,))
        if disjoint is not None:
            dcl = disjoint.subexprs if isinstance(disjoint, EventOr) else [disjoint]
    neg = ~event
    ts = fs = 0
    for a in points(ev, types, rng, case['n']):
        want = decide(ev, a)
        if want is None:
            continue
        sa = {ids[v]: sut_val(x) for v, x in a.items()}
        got = bool(event.evaluate(sa))
        check(got == want, '%s on %s evaluates to %s, should be %s', event, sa, got, want)
        check(bool(dnf.evaluate(sa)) == want, 'DNF %s of %s differs on %s', dnf, event, sa)
        if norm is None:
            check(not want, '%s is declared unsatisfiable but holds on %s', event, sa)
        else:
            check(bool(norm.evaluate(sa)) == want, 'normal form %s of %s is %s on %s',
                  norm, event, not want, sa)
            if disjoint is None:
                continue
            k = sum(bool(c.evaluate(sa)) for c in dcl)
            check(k == int(want), 'disjoint form %s of %s: %d clauses hold on %s', disjoint, event, k, sa)
        want_neg = ref.ev_bool(ev, [ref.lit_state(l, a[l[1]]) for l in ref.literals(ev)], True)
        check(bool(neg.evaluate(sa)) == want_neg, 'negation %s of %s on %s', neg, event, sa)
        if 'm' not in types.values():
            tv = bool_value(ev, a, types)
            check(tv == want, 'reference disagrees with itself on %s' % (a,))
        ts += want
        fs += not want
    check((repr(event), hash(event)) == before, 'event changed by normalisation: %s', event)
    # A clause of the normal form is satisfiable by construction of its sets.
    if norm is not None:
        for c in clauses:
            lits = c.subexprs if isinstance(c, EventAnd) else [c]
            for l in lits:
                s = l.values
                check(len(str(s)) > 0 and type(s).__name__ != 'EmptySetC',
                      'normal form %s has the unsatisfiable literal %s', norm, l)
    nl = len(ref.literals(ev))
    ctx.nt = bool(ts and fs and nl >= 2)
    ctx.tag('lits:%d' % min(nl, 8), 'vars:%d' % len({l[1] for l in ref.literals(ev)}),
            'norm:%s' % ('none' if norm is None else 'clauses:%d' % min(len(clauses), 8)))
